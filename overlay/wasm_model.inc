// ---- what JavaScript shares with the module
#[verifier::external_body] pub struct Uint8Array { x: u8 }
impl Uint8Array {
    pub uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn length(&self) -> (r: u32) ensures r == self.v().len() { unimplemented!() }
    // allocates in JavaScript, from an area of the module's 4 GiB
    #[verifier::external_body] pub fn from(b: &[u8]) -> (r: Self) ensures r.v() == b@ { unimplemented!() }
}
impl Bts for Uint8Array { open spec fn bts(&self) -> Seq<u8> { self.v() } }
// exceptions
pub type JsValue = FormatErr;
// ---- serde_json, abe_policy
pub uninterp spec fn json_text(p: Policy, s: Seq<char>) -> bool;
impl Policy { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures json_text(*self, r@) { unimplemented!() } }
pub axiom fn json_sizes() ensures
    forall|b: Seq<u8>| (#[trigger] <Vec<Attribute> as Json>::parse(b)) is Some ==> (<Vec<Attribute> as Json>::parse(b)->0)@.len() < b.len(),
    forall|s: Seq<char>| (#[trigger] attributes_text(s)) is Some ==> (attributes_text(s)->0).len() < s.len();
// every attribute of a formula stands for at most all the values of the policy
pub axiom fn json_rooms() ensures forall|b: Seq<u8>, u: Seq<char>| b.len() * u.len() < 0x4000_0000 && b.len() < 0x4000_0000 && (#[trigger] Policy::parse(b)) is Some && (#[trigger] formula_text(u)) is Some ==> rooms(Policy::parse(b)->0, formula_text(u)->0);
impl AccessPolicy { #[verifier::external_body] pub fn from_boolean_expression(s: &str) -> (r: Result<AccessPolicy, FormatErr>) requires ascii_text(s@) ensures match r { Ok(a) => formula_text(s@) == Some(a), Err(_) => formula_text(s@) is None } { unimplemented!() } }
// a list of attributes separated by commas
pub uninterp spec fn attributes_text(s: Seq<char>) -> Option<Seq<Attribute>>;
#[verifier::external_body] pub fn __attributes(s: &str) -> (r: Result<Vec<Attribute>, FormatErr>) ensures match r { Ok(l) => attributes_text(s@) == Some(l@), Err(_) => attributes_text(s@) is None } { unimplemented!() }
// ---- statics behind locks: the module has one thread, and a call that ends, ends with its locks released
pub struct Lock<T> { pub v: T }
impl<T> Lock<T> {
    pub fn write(&mut self) -> (r: Held<&mut T>) ensures *r.0 == old(self).v, *final(r.0) == final(self).v { Held(&mut self.v) }
    pub fn read(&self) -> (r: Held<&T>) ensures *r.0 == self.v { Held(&self.v) }
}
pub struct Held<T>(pub T);
impl<T> Held<T> {
    pub fn expect(self, m: &str) -> (r: T) ensures r == self.0 { self.0 }
    pub fn unwrap(self) -> (r: T) ensures r == self.0 { self.0 }
}
