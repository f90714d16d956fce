// ---- bytes
pub open spec fn be4(x: u32) -> Seq<u8> { seq![(x >> 24) as u8, ((x >> 16) & 0xff) as u8, ((x >> 8) & 0xff) as u8, (x & 0xff) as u8] }
pub open spec fn of_be4(s: Seq<u8>) -> u32 { ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32) }
pub proof fn be4_inv(x: u32) ensures of_be4(be4(x)) == x, be4(x).len() == 4
{
    assert((((x >> 24) as u8) as u32) << 24 | ((((x >> 16) & 0xff) as u8) as u32) << 16 | ((((x >> 8) & 0xff) as u8) as u32) << 8 | (((x & 0xff) as u8) as u32) == x) by(bit_vector);
}
pub proof fn be4_inj(s: Seq<u8>) requires s.len() == 4 ensures be4(of_be4(s)) == s
{
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    let x = of_be4(s);
    assert(x == (a as u32) << 24 | (b as u32) << 16 | (c as u32) << 8 | (d as u32));
    assert((x >> 24) as u8 == a && ((x >> 16) & 0xff) as u8 == b && ((x >> 8) & 0xff) as u8 == c && (x & 0xff) as u8 == d) by(bit_vector) requires x == (a as u32) << 24 | (b as u32) << 16 | (c as u32) << 8 | (d as u32);
    assert(be4(x) =~= s);
}
// u32 / i32 to_be_bytes and from_be_bytes
pub trait BeBytes: Sized + Copy {
    spec fn bits(&self) -> u32;
    proof fn bits_inj(a: Self, b: Self) requires a.bits() == b.bits() ensures a == b;
    fn __to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be4(self.bits());
    fn __from_be_bytes(b: [u8; 4]) -> (r: Self) ensures r.bits() == of_be4(b@);
}
impl BeBytes for u32 {
    open spec fn bits(&self) -> u32 { *self }
    proof fn bits_inj(a: Self, b: Self) {}
    #[verifier::external_body] fn __to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    #[verifier::external_body] fn __from_be_bytes(b: [u8; 4]) -> (r: Self) { u32::from_be_bytes(b) }
}
impl BeBytes for i32 {
    open spec fn bits(&self) -> u32 { *self as u32 }
    proof fn bits_inj(a: Self, b: Self) { assert(a == b) by(bit_vector) requires a as u32 == b as u32; }
    #[verifier::external_body] fn __to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    #[verifier::external_body] fn __from_be_bytes(b: [u8; 4]) -> (r: Self) { i32::from_be_bytes(b) }
}
// `b` begins with the encoding of `v` (and ends there when the encoding of `v` has to be the whole input)
pub open spec fn head_is(b: Seq<u8>, e: Seq<u8>, whole: bool) -> bool { e.len() <= b.len() && b.subrange(0, e.len() as int) == e && (whole ==> b.len() == e.len()) }
pub open spec fn flat<T: AsBytes>(s: Seq<T>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { flat(s, n - 1) + s[n - 1].enc() } }
pub open spec fn all_wf<T: AsBytes>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() && s[i].fits() }
pub open spec fn all_same<T: AsBytes>(s: Seq<T>, t: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).same(&t[i]) }
pub open spec fn sized<T: AsBytes>() -> bool { T::size() is Some && 0 < T::size()->0 <= 0x1000 && T::can() }
pub proof fn flat_len<T: AsBytes>(s: Seq<T>, n: int) requires all_wf(s), sized::<T>(), 0 <= n <= s.len() ensures flat(s, n).len() == n * T::size()->0 decreases n
{ if n > 0 { flat_len(s, n - 1); s[n - 1].size_is(); assert(n * T::size()->0 == (n - 1) * T::size()->0 + T::size()->0) by(nonlinear_arith); } else { assert(0 * T::size()->0 == 0) by(nonlinear_arith); } }
pub proof fn flat_at<T: AsBytes>(s: Seq<T>, n: int, i: int) requires all_wf(s), sized::<T>(), 0 <= i < n <= s.len()
    ensures (i + 1) * T::size()->0 <= flat(s, n).len(), i * T::size()->0 >= 0, flat(s, n).subrange(i * T::size()->0, (i + 1) * T::size()->0) == s[i].enc() decreases n
{
    let k = T::size()->0; flat_len(s, n); flat_len(s, n - 1); s[i].size_is(); s[n - 1].size_is();
    assert((i + 1) * k <= n * k && i * k >= 0 && (i + 1) * k == i * k + k && n * k == (n - 1) * k + k) by(nonlinear_arith) requires 0 <= i < n, k > 0;
    if i < n - 1 {
        flat_at(s, n - 1, i);
        assert(flat(s, n).subrange(i * k, (i + 1) * k) =~= flat(s, n - 1).subrange(i * k, (i + 1) * k));
    } else { assert(flat(s, n).subrange(i * k, (i + 1) * k) =~= s[i].enc()); }
}
pub proof fn flat_same<T: AsBytes>(s: Seq<T>, t: Seq<T>, n: int) requires all_same(s, t, n), 0 <= n <= s.len(), n <= t.len(), all_wf(s), all_wf(t), sized::<T>() ensures flat(s, n) == flat(t, n) decreases n
{ if n > 0 { assert(all_same(s, t, n - 1)); flat_same(s, t, n - 1); assert(s[n - 1].same(&t[n - 1])); s[n - 1].same_enc(&t[n - 1]); } }
pub proof fn flat_ext<T: AsBytes>(s: Seq<T>, t: Seq<T>, n: int) requires forall|i: int| 0 <= i < n ==> s[i] == t[i] ensures flat(s, n) == flat(t, n) decreases n
{ if n > 0 { flat_ext(s, t, n - 1); } }
pub open spec fn list_enc<T: AsBytes>(s: Seq<T>) -> Seq<u8> { if s.len() == 0 { Seq::empty() } else { be4(s.len() as u32) + flat(s, s.len() as int) } }
// bytes from position `at`
pub open spec fn rest(b: Seq<u8>, at: int) -> Seq<u8> { b.subrange(at, b.len() as int) }
pub open spec fn elem_at<T: AsBytes>(b: Seq<u8>, at: int, x: T) -> bool { 0 <= at <= b.len() && head_is(rest(b, at), x.enc(), x.whole()) && x.wf() && x.fits() }
// a run of encodings of the elements of `s` at `at`
pub open spec fn run_at<T: AsBytes>(b: Seq<u8>, at: int, s: Seq<T>) -> bool { all_wf(s) && 0 <= at && at + flat(s, s.len() as int).len() <= b.len() && b.subrange(at, at + flat(s, s.len() as int).len()) == flat(s, s.len() as int) }
pub proof fn run_elem<T: AsBytes>(b: Seq<u8>, at: int, s: Seq<T>, i: int) requires run_at(b, at, s), sized::<T>(), 0 <= i < s.len()
    ensures elem_at(b, at + i * T::size()->0, s[i]), at + s.len() * T::size()->0 <= b.len(), at + (i + 1) * T::size()->0 <= b.len(), i * T::size()->0 >= 0
{
    let k = T::size()->0; let f = flat(s, s.len() as int);
    flat_len(s, s.len() as int); flat_at(s, s.len() as int, i); s[i].size_is();
    assert((i + 1) * k == i * k + k) by(nonlinear_arith);
    assert(rest(b, at + i * k).subrange(0, k as int) =~= b.subrange(at, at + f.len()).subrange(i * k, (i + 1) * k));
}
pub open spec fn list_head<T: AsBytes>(b: Seq<u8>, s: Seq<T>) -> bool { all_wf(s) && s.len() < u32::MAX && head_is(b, list_enc(s), s.len() == 0) }
pub proof fn list_run<T: AsBytes>(b: Seq<u8>, s: Seq<T>) requires list_head(b, s), sized::<T>(), b.len() > 0
    ensures s.len() > 0, run_at(b, 4, s), b.len() >= 4, of_be4(b.subrange(0, 4)) == s.len(), 4 + s.len() * T::size()->0 <= b.len()
{
    let f = flat(s, s.len() as int); be4_inv(s.len() as u32); flat_len(s, s.len() as int);
    assert(b.subrange(0, 4) =~= list_enc(s).subrange(0, 4)); assert(list_enc(s).subrange(0, 4) =~= be4(s.len() as u32));
    assert(b.subrange(4, 4 + f.len() as int) =~= list_enc(s).subrange(4, 4 + f.len() as int)); assert(list_enc(s).subrange(4, 4 + f.len() as int) =~= f);
}
// splitting a concatenation
pub proof fn head_cat(b: Seq<u8>, x: Seq<u8>, y: Seq<u8>, w: bool) requires head_is(b, x + y, w) ensures head_is(b, x, false), head_is(rest(b, x.len() as int), y, w), x.len() <= b.len()
{
    let e = x + y;
    assert(b.subrange(0, x.len() as int) =~= e.subrange(0, x.len() as int)); assert(e.subrange(0, x.len() as int) =~= x);
    assert(rest(b, x.len() as int).subrange(0, y.len() as int) =~= e.subrange(x.len() as int, e.len() as int)); assert(e.subrange(x.len() as int, e.len() as int) =~= y);
}
