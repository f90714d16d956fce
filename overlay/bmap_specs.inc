// ----  `drawn(v, k, p)`: v is what position p of the operating-system-seeded stream k produced
pub uninterp spec fn drawn(v: int, stream: int, pos: nat) -> bool;
impl CryptoRng for Hc128Rng {}
impl RngCore for Hc128Rng { uninterp spec fn seeded(&self) -> bool; uninterp spec fn stream(&self) -> int; uninterp spec fn pos(&self) -> nat; }
impl Hc128Rng { #[verifier::external_body] pub fn from_entropy() -> (r: Self) ensures r.seeded() { unimplemented!() } }
pub open spec fn fresh1(v: int) -> bool { exists|k: int, p: nat| #[trigger] drawn(v, k, p) }
// values drawn at pairwise different positions of one seeded stream
pub open spec fn fresh_at(s: Seq<int>, k: int, p: Seq<nat>) -> bool {
    &&& p.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] drawn(s[i], k, p[i])
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j]
}
pub open spec fn fresh_seq(s: Seq<int>) -> bool { exists|k: int, p: Seq<nat>| #[trigger] fresh_at(s, k, p) }
pub open spec fn vals<S: Entry>(s: Seq<S>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].v()) }
// Σ a_i · d_i · e_i, the exponent of Π e(d_i, e_i)^a_i
pub open spec fn psum<A: Grp, B: Grp, S: Entry>(d: Seq<&A>, e: Seq<&B>, a: Seq<&S>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { psum(d, e, a, n - 1) + a[n - 1].v() * d[n - 1].dl() * e[n - 1].dl() }
}
