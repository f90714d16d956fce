// ---- serde_json, on the bytes the Python caller passes
pub trait Json: Sized { spec fn parse(b: Seq<u8>) -> Option<Self>; }
impl Json for Policy { uninterp spec fn parse(b: Seq<u8>) -> Option<Self>; }
impl Json for Metadata { uninterp spec fn parse(b: Seq<u8>) -> Option<Self>; }
impl Json for Vec<Attribute> { uninterp spec fn parse(b: Seq<u8>) -> Option<Self>; }
#[verifier::external_body] pub fn __from_json<T: Json, B: Bts>(b: B) -> (r: Result<T, FormatErr>) ensures match r { Ok(v) => T::parse(b.bts()) == Some(v), Err(_) => T::parse(b.bts()) is None } { unimplemented!() }
// boolean expressions
pub uninterp spec fn formula_text(s: Seq<char>) -> Option<AccessPolicy>;
pub open spec fn ascii_text(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
