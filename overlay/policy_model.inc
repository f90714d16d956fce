// ---- abe_policy (dependency), by contract
pub struct Attribute { pub axis: String, pub name: String }
pub enum AccessPolicy { Attr(Attribute), And(Box<AccessPolicy>, Box<AccessPolicy>), Or(Box<AccessPolicy>, Box<AccessPolicy>), All }
pub type Txt = Seq<char>;
pub open spec fn att(a: Attribute) -> (Txt, Txt) { (a.axis@, a.name@) }
// a BinaryHeap<u32> by the sequence its iterator goes through
pub type Heap = Vec<u32>;
#[verifier::external_body] pub struct Axes { x: u8 }
impl Axes {
    pub uninterp spec fn view(&self) -> Map<Txt, (Vec<String>, bool)>;
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&(Vec<String>, bool)>)
        ensures match r { Some(v) => self.view().contains_key(k@) && *v == self.view()[k@], None => !self.view().contains_key(k@) } { unimplemented!() }
}
// BinaryHeap::push
pub trait HeapPush { fn __hpush(&mut self, x: u32); }
impl HeapPush for Heap { #[verifier::external_body] fn __hpush(&mut self, x: u32) ensures final(self)@.to_multiset() == old(self)@.to_multiset().insert(x) { unimplemented!() } }
#[verifier::external_body] pub struct AttrValues { x: u8 }
impl AttrValues {
    pub uninterp spec fn view(&self) -> Map<(Txt, Txt), Heap>;
    #[verifier::external_body] pub fn get(&self, k: &Attribute) -> (r: Option<&Heap>)
        ensures match r { Some(v) => self.view().contains_key(att(*k)) && *v == self.view()[att(*k)], None => !self.view().contains_key(att(*k)) } { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &Attribute) -> (r: Option<&mut Heap>)
        ensures match r { Some(v) => old(self).view().contains_key(att(*k)) && *v == old(self).view()[att(*k)] && final(self).view() == old(self).view().insert(att(*k), *final(v)), None => !old(self).view().contains_key(att(*k)) && *final(self) == *old(self) } { unimplemented!() }
    // values().flat_map(BinaryHeap::iter): every heap once, in some order
    #[verifier::external_body] pub fn __all(&self) -> (r: Vec<u32>)
        ensures exists|ks: Seq<(Txt, Txt)>| #[trigger] listing(self.view(), ks) && r@ == all_of(self.view(), ks, ks.len() as int) { unimplemented!() }
}
pub open spec fn listing(m: Map<(Txt, Txt), Heap>, ks: Seq<(Txt, Txt)>) -> bool { ks.no_duplicates() && ks.to_set() == m.dom() }
pub open spec fn all_of(m: Map<(Txt, Txt), Heap>, ks: Seq<(Txt, Txt)>, n: int) -> Seq<u32> decreases n { if n <= 0 { Seq::empty() } else { all_of(m, ks, n - 1) + m[ks[n - 1]]@ } }
pub struct Policy { pub last_attribute_value: u32, pub max_attribute_creations: u32, pub axes: Axes, pub attribute_to_int: AttrValues }
#[verifier::external_body] pub fn __streq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn __contains(l: &Vec<String>, s: &String) -> (r: bool) ensures r == exists|i: int| 0 <= i < l@.len() && #[trigger] l@[i]@ == s@ { l.contains(s) }
#[verifier::external_body] pub fn __into_attr(a: (String, String)) -> (r: Attribute) ensures r.axis == a.0, r.name == a.1 { Attribute { axis: a.0, name: a.1 } }
