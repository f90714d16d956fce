pub struct FromSliceErr { }
// slice indexing by ranges and slice -> array conversion
#[verifier::external_body] pub fn __sub(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body] pub fn __from(s: &[u8], a: usize) -> (r: &[u8]) requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { &s[a..] }
#[verifier::external_body] pub fn __arr<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], FromSliceErr>) ensures s@.len() == N ==> r is Ok, r is Ok ==> (r->Ok_0)@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn __to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
