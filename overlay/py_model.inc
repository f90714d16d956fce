impl Json for Vec<PolicyAxis> { uninterp spec fn parse(b: Seq<u8>) -> Option<Self>; }
// the JSON text of a policy (the order of its maps is not specified)
pub uninterp spec fn json_of(p: Policy, b: Seq<u8>) -> bool;
#[verifier::external_body] pub fn __to_json(p: &Policy) -> (r: Result<Vec<u8>, FormatErr>) ensures r is Ok, json_of(*p, (r->Ok_0)@) { unimplemented!() }
// a value is no longer than its text; the formulas of a short text over a short policy can be held in memory
pub axiom fn json_sizes() ensures
    forall|b: Seq<u8>| (#[trigger] <Vec<Attribute> as Json>::parse(b)) is Some ==> (<Vec<Attribute> as Json>::parse(b)->0)@.len() < b.len(),
    forall|b: Seq<u8>| (#[trigger] <Vec<PolicyAxis> as Json>::parse(b)) is Some ==> named((<Vec<PolicyAxis> as Json>::parse(b)->0)@) < b.len(),
    forall|b: Seq<u8>| (#[trigger] <Metadata as Json>::parse(b)) is Some ==> (<Metadata as Json>::parse(b)->0).uid@.len() + extra(<Metadata as Json>::parse(b)->0).len() < b.len();
pub axiom fn json_rooms() ensures forall|b: Seq<u8>, u: Seq<char>| short(b) && u.len() < 0x8000_0000 && (#[trigger] Policy::parse(b)) is Some && (#[trigger] formula_text(u)) is Some ==> rooms(Policy::parse(b)->0, formula_text(u)->0);
// less than 2 GiB
pub open spec fn short(b: Seq<u8>) -> bool { b.len() < 0x8000_0000 }
// ---- abe_policy: boolean expressions, axes
impl AccessPolicy { #[verifier::external_body] pub fn from_boolean_expression(s: &String) -> (r: Result<AccessPolicy, FormatErr>) requires ascii_text(s@) ensures match r { Ok(a) => formula_text(s@) == Some(a), Err(_) => formula_text(s@) is None } { unimplemented!() } }
// attributes named by a list of axes
pub open spec fn named(l: Seq<PolicyAxis>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { named(l.drop_last()) + l.last().attributes@.len() } }
#[verifier::external_body] pub fn __string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn __str<'a>(s: &'a String) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn __heap_of(v: u32) -> (r: Heap) ensures r@ == seq![v] { unimplemented!() }
impl Axes {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.view() == Map::<Txt, (Vec<String>, bool)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self.view().contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: (Vec<String>, bool)) -> (r: Option<(Vec<String>, bool)>) ensures final(self).view() == old(self).view().insert(k@, v), r is Some == old(self).view().contains_key(k@) { unimplemented!() }
}
impl AttrValues {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.view() == Map::<(Txt, Txt), Heap>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Attribute, v: Heap) -> (r: Option<Heap>) ensures final(self).view() == old(self).view().insert(att(k), v), r is Some == old(self).view().contains_key(att(k)) { unimplemented!() }
}
