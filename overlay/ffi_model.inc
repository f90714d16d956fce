// ---- memory shared with the caller of the native interface
#[derive(Clone, Copy)] pub struct IPtr(pub usize);
#[derive(Clone, Copy)] pub struct MPtr(pub usize);
#[derive(Clone, Copy)] pub struct CPtr(pub usize);
impl IPtr { pub fn is_null(self) -> (r: bool) ensures r == (self.0 == 0) { self.0 == 0 } }
impl MPtr { pub fn is_null(self) -> (r: bool) ensures r == (self.0 == 0) { self.0 == 0 } }
impl CPtr { pub fn is_null(self) -> (r: bool) ensures r == (self.0 == 0) { self.0 == 0 } }
#[verifier::external_body] pub struct Ram { x: u8 }
impl Ram {
    // integer cells; buffers, each as long as its declared capacity; inputs; C strings (None: not UTF-8)
    pub uninterp spec fn ints(&self) -> Map<usize, i32>;
    pub uninterp spec fn bufs(&self) -> Map<usize, Seq<u8>>;
    pub uninterp spec fn ins(&self) -> Map<usize, Seq<u8>>;
    pub uninterp spec fn texts(&self) -> Map<usize, Option<Seq<char>>>;
}
// ... and the error of the thread
pub struct Mem { pub ram: Ram, pub err: Option<Box<FormatErr>> }
impl Mem {
    #[verifier::external_body] pub fn get(&self, p: IPtr) -> (r: i32) requires self.ram.ints().contains_key(p.0) ensures r == self.ram.ints()[p.0] { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, p: IPtr, v: i32) requires old(self).ram.ints().contains_key(p.0)
        ensures final(self).ram.ints() == old(self).ram.ints().insert(p.0, v), final(self).ram.bufs() == old(self).ram.bufs(), final(self).ram.ins() == old(self).ram.ins(), final(self).ram.texts() == old(self).ram.texts(), final(self).err == old(self).err { unimplemented!() }
    #[verifier::external_body] pub fn slice<'a>(&self, p: CPtr, n: usize) -> (r: &'a [u8]) requires self.ram.ins().contains_key(p.0), n <= self.ram.ins()[p.0].len() ensures r@ == self.ram.ins()[p.0].subrange(0, n as int), n == self.ram.ins()[p.0].len() ==> r@ == self.ram.ins()[p.0] { unimplemented!() }
    #[verifier::external_body] pub fn out<'a>(&'a mut self, p: MPtr, n: usize) -> (r: &'a mut [u8]) requires old(self).ram.bufs().contains_key(p.0), n <= old(self).ram.bufs()[p.0].len()
        ensures r@ == old(self).ram.bufs()[p.0].subrange(0, n as int), final(self).ram.bufs() == old(self).ram.bufs().insert(p.0, (*final(r))@ + rest(old(self).ram.bufs()[p.0], n as int)),
            final(self).ram.ints() == old(self).ram.ints(), final(self).ram.ins() == old(self).ram.ins(), final(self).ram.texts() == old(self).ram.texts(), final(self).err == old(self).err { unimplemented!() }
    #[verifier::external_body] pub fn text(&self, p: CPtr) -> (r: CText) requires self.ram.texts().contains_key(p.0) ensures r.v() == self.ram.texts()[p.0] { unimplemented!() }
}
#[verifier::external_body] pub struct CText { x: u8 }
impl CText {
    pub uninterp spec fn v(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn to_str<'a>(self) -> (r: Result<&'a str, FormatErr>) ensures match r { Ok(s) => self.v() == Some(s@), Err(_) => self.v() is None } { unimplemented!() }
}
pub type FfiError = FormatErr;
pub trait CopyTo { spec fn cells(&self) -> Seq<u8>; fn __copy(&mut self, s: &[u8]) requires old(self).cells().len() == s@.len() ensures final(self).cells() == s@; }
impl CopyTo for [u8] { open spec fn cells(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn __copy(&mut self, s: &[u8]) { unimplemented!() } }
impl<const N: usize> CopyTo for [u8; N] { open spec fn cells(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn __copy(&mut self, s: &[u8]) { unimplemented!() } }
// ---- what a call is given
pub open spec fn has_out(m: Mem, p: MPtr, l: IPtr) -> bool { l.0 != 0 ==> m.ram.ints().contains_key(l.0) && (p.0 != 0 && m.ram.ints()[l.0] > 0 ==> m.ram.bufs().contains_key(p.0) && m.ram.bufs()[p.0].len() == m.ram.ints()[l.0]) }
pub open spec fn has_in(m: Mem, p: CPtr, n: i32) -> bool { p.0 != 0 && n > 0 ==> m.ram.ins().contains_key(p.0) && m.ram.ins()[p.0].len() == n }
pub open spec fn has_text(m: Mem, p: CPtr) -> bool { p.0 != 0 ==> m.ram.texts().contains_key(p.0) && (m.ram.texts()[p.0] is Some ==> (m.ram.texts()[p.0]->0).len() < 0x8000_0000) }
pub open spec fn bad_out(m: Mem, p: MPtr, l: IPtr) -> bool { p.0 == 0 || l.0 == 0 || m.ram.ints()[l.0] <= 0 }
pub open spec fn bad_in(p: CPtr, n: i32) -> bool { p.0 == 0 || n <= 0 }
// an optional input
pub open spec fn opt_in(m: Mem, p: CPtr, n: i32) -> Option<Seq<u8>> { if bad_in(p, n) { None } else { Some(m.ram.ins()[p.0]) } }
pub open spec fn or_empty(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(b) => b, None => Seq::empty() } }
pub open spec fn json<T: Json>(m: Mem, p: CPtr) -> Option<T> { if p.0 == 0 { None } else { match m.ram.texts()[p.0] { Some(t) => T::parse(t), None => None } } }
// ---- what a call does
pub open spec fn cap(m: Mem, l: IPtr) -> int { m.ram.ints()[l.0] as int }
pub open spec fn fill(o: Seq<u8>, b: Seq<u8>) -> Seq<u8> { b + rest(o, b.len() as int) }
// the result b is in the buffer and its size in the length
pub open spec fn written(m: Mem, w: Mem, p: MPtr, l: IPtr, b: Seq<u8>) -> bool { b.len() <= cap(m, l) && w.ram.bufs()[p.0] == fill(m.ram.bufs()[p.0], b) && w.ram.ints()[l.0] == b.len() }
pub open spec fn kept_or_written(m: Mem, w: Mem, p: MPtr, l: IPtr, b: Seq<u8>) -> bool { w.ram.bufs()[p.0] == m.ram.bufs()[p.0] || b.len() <= cap(m, l) && w.ram.bufs()[p.0] == fill(m.ram.bufs()[p.0], b) }
pub open spec fn same_bufs(m: Mem, w: Mem) -> bool { w.ram.bufs() == m.ram.bufs() }
// nothing but these cells changes
pub open spec fn frame_bufs(m: Mem, w: Mem, s: Set<usize>) -> bool { forall|x: usize| !s.contains(x) ==> w.ram.bufs().contains_key(x) == m.ram.bufs().contains_key(x) && #[trigger] w.ram.bufs()[x] == m.ram.bufs()[x] }
pub open spec fn frame_ints(m: Mem, w: Mem, s: Set<usize>) -> bool { w.ram.ins() == m.ram.ins() && w.ram.texts() == m.ram.texts() && (forall|x: usize| #[trigger] w.ram.ints().contains_key(x) == m.ram.ints().contains_key(x)) && forall|x: usize| !s.contains(x) ==> #[trigger] w.ram.ints()[x] == m.ram.ints()[x] }
// return 1, a retrievable error, no buffer touched
pub open spec fn failed(m: Mem, w: Mem, res: i32) -> bool { res == 1 && w.err is Some && w.ram.bufs() == m.ram.bufs() }
// one output
pub open spec fn output(m: Mem, w: Mem, res: i32, p: MPtr, l: IPtr, b: Seq<u8>) -> bool {
    if res == 0 { written(m, w, p, l, b) && frame_bufs(m, w, set![p.0]) } else { failed(m, w, res) && b.len() > cap(m, l) }
}
// two outputs
pub open spec fn outputs(m: Mem, w: Mem, res: i32, p: MPtr, l: IPtr, b: Seq<u8>, p2: MPtr, l2: IPtr, b2: Seq<u8>) -> bool {
    frame_bufs(m, w, set![p.0, p2.0]) && if res == 0 { written(m, w, p, l, b) && written(m, w, p2, l2, b2) } else { res == 1 && w.err is Some && kept_or_written(m, w, p, l, b) && kept_or_written(m, w, p2, l2, b2) && (b.len() > cap(m, l) || b2.len() > cap(m, l2)) }
}
// an output the caller may leave out; without a result the length is 0
pub open spec fn wanted(m: Mem, p: MPtr, l: IPtr) -> bool { !bad_out(m, p, l) }
pub open spec fn opt_written(m: Mem, w: Mem, p: MPtr, l: IPtr, o: Option<Seq<u8>>) -> bool { wanted(m, p, l) ==> match o { Some(b) => written(m, w, p, l, b), None => w.ram.ints()[l.0] == 0 && w.ram.bufs()[p.0] == m.ram.bufs()[p.0] } }
pub open spec fn opt_kept(m: Mem, w: Mem, p: MPtr, l: IPtr, o: Option<Seq<u8>>) -> bool { wanted(m, p, l) ==> match o { Some(b) => kept_or_written(m, w, p, l, b), None => w.ram.bufs()[p.0] == m.ram.bufs()[p.0] } }
pub open spec fn opt_over(m: Mem, p: MPtr, l: IPtr, o: Option<Seq<u8>>) -> bool { wanted(m, p, l) && o is Some && (o->0).len() > cap(m, l) }
pub open spec fn used(m: Mem, p: MPtr, l: IPtr) -> Set<usize> { if wanted(m, p, l) { set![p.0] } else { Set::empty() } }
pub open spec fn clear_outputs(m: Mem, w: Mem, res: i32, p: MPtr, l: IPtr, b: Seq<u8>, p2: MPtr, l2: IPtr, b2: Seq<u8>, p3: MPtr, l3: IPtr, o3: Option<Seq<u8>>) -> bool {
    frame_bufs(m, w, set![p.0] + used(m, p2, l2) + used(m, p3, l3)) && if res == 0 { written(m, w, p, l, b) && opt_written(m, w, p2, l2, Some(b2)) && opt_written(m, w, p3, l3, o3) }
    else { res == 1 && w.err is Some && kept_or_written(m, w, p, l, b) && opt_kept(m, w, p2, l2, Some(b2)) && opt_kept(m, w, p3, l3, o3) && (b.len() > cap(m, l) || opt_over(m, p2, l2, Some(b2)) || opt_over(m, p3, l3, o3)) }
}
// ---- serde_json
pub trait Json: Sized { spec fn parse(t: Seq<char>) -> Option<Self>; }
impl Json for Policy { uninterp spec fn parse(t: Seq<char>) -> Option<Self>; }
impl Json for AccessPolicy { uninterp spec fn parse(t: Seq<char>) -> Option<Self>; }
impl Json for Vec<Attribute> { uninterp spec fn parse(t: Seq<char>) -> Option<Self>; }
pub trait Text { spec fn txt(&self) -> Seq<char>; }
impl Text for str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl<T: Text + ?Sized> Text for &T { open spec fn txt(&self) -> Seq<char> { (**self).txt() } }
#[verifier::external_body] pub fn __from_json<T: Json, S: Text + ?Sized>(s: &S) -> (r: Result<T, FormatErr>) ensures match r { Ok(v) => T::parse(s.txt()) == Some(v), Err(_) => T::parse(s.txt()) is None } { unimplemented!() }
// a list is no longer than its text; the formulas of a short text over a short policy can be held in memory
pub axiom fn json_list() ensures forall|t: Seq<char>| (#[trigger] <Vec<Attribute> as Json>::parse(t)) is Some ==> (<Vec<Attribute> as Json>::parse(t)->0)@.len() <= t.len();
pub axiom fn json_rooms() ensures forall|t: Seq<char>, u: Seq<char>| t.len() < 0x8000_0000 && u.len() < 0x8000_0000 && (#[trigger] Policy::parse(t)) is Some && (#[trigger] AccessPolicy::parse(u)) is Some ==> rooms(Policy::parse(t)->0, AccessPolicy::parse(u)->0);
// the JSON text of a policy (the order of its maps is not specified)
pub uninterp spec fn json_of(p: Policy, b: Seq<u8>) -> bool;
#[verifier::external_body] pub struct JsonText { x: u8 }
impl JsonText {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.b().len() { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() }
}
impl Policy { #[verifier::external_body] pub fn to_string(&self) -> (r: JsonText) ensures json_of(*self, r.b()) { unimplemented!() } }
// ---- statics behind locks, counters
pub struct Lock<T> { pub v: T }
impl<T> Lock<T> {
    pub fn write(&mut self) -> (r: &mut T) ensures *r == old(self).v, *final(r) == final(self).v { &mut self.v }
    pub fn read(&self) -> (r: &T) ensures *r == self.v { &self.v }
}
// ---- error messages
pub uninterp spec fn text_of(e: FormatErr) -> Seq<u8>;
pub open spec fn printable(b: Seq<u8>) -> Seq<u8> { b.filter(|x: u8| x != 0) }
#[verifier::external_body] pub struct MsgText { x: u8 }
impl MsgText {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn empty() -> (r: Self) ensures r.b() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn of(e: Box<FormatErr>) -> (r: Self) ensures r.b() == text_of(*e) { unimplemented!() }
    #[verifier::external_body] pub fn replace(self, c: char, s: &str) -> (r: Self) requires c == '\0', s@.len() == 0 ensures r.b() == printable(self.b()) { unimplemented!() }
}
#[verifier::external_body] pub struct CString { x: u8 }
impl CString {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(t: MsgText) -> (r: Result<Self, FormatErr>) ensures r is Ok <==> !t.b().contains(0u8), r is Ok ==> (r->Ok_0).b() == t.b() { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() }
}
#[verifier::external_body] pub fn __head<'a>(v: &'a mut Vec<u8>, n: usize) -> (r: &'a mut [u8]) requires n <= old(v)@.len() ensures r@ == old(v)@.subrange(0, n as int), final(v)@ == (*final(r))@ + rest(old(v)@, n as int) { unimplemented!() }
pub proof fn no_nul() ensures forall|b: Seq<u8>| !(#[trigger] printable(b)).contains(0u8), printable(Seq::<u8>::empty()) == Seq::<u8>::empty()
{
    assert forall|b: Seq<u8>| !(#[trigger] printable(b)).contains(0u8) by { assert(forall|i: int| 0 <= i < printable(b).len() ==> printable(b)[i] != 0) by { broadcast use vstd::seq_lib::group_filter_ensures; } let f = printable(b); if f.contains(0u8) { let i = choose|i: int| 0 <= i < f.len() && f[i] == 0u8; } }
    reveal(Seq::filter); assert(printable(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
}
// the message in a buffer of n bytes: what fits of it, closed by zeros
pub open spec fn shown(b: Seq<u8>, n: int) -> Seq<u8> { let k = if n - 1 <= b.len() { n - 1 } else { b.len() as int }; Seq::new(n as nat, |i: int| if i < k { b[i] } else { 0u8 }) }
