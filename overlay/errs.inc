pub struct FormatErr { }
pub struct ErrText { }
// error values are opaque: only Ok / Err is modelled
#[verifier::external_body] pub fn __err() -> FormatErr { unimplemented!() }
#[verifier::external_body] pub fn __fmt() -> ErrText { unimplemented!() }
#[verifier::external_body] pub fn __conv<E>(e: E) -> FormatErr { unimplemented!() }
// a reachable panic is an error
#[verifier::external_body] pub fn __panic() -> ! requires false { unimplemented!() }
