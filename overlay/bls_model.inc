// ---- the curve library: opaque types with assumed contracts
pub mod cosmian_bls12_381 {
use super::*;
#[verifier::external_body] pub struct Choice { }
impl Choice { pub uninterp spec fn yes(&self) -> bool; #[verifier::external_body] pub fn into(self) -> (r: bool) ensures r == self.yes() { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct CtOption<T> { t: std::marker::PhantomData<T> }
impl<T> CtOption<T> {
    pub uninterp spec fn val(&self) -> Option<T>;
    #[verifier::external_body] pub fn is_some(&self) -> (r: Choice) ensures r.yes() == (self.val() is Some) { unimplemented!() }
    #[verifier::external_body] pub fn is_none(&self) -> (r: Choice) ensures r.yes() == (self.val() is None) { unimplemented!() }
    #[verifier::external_body] pub fn unwrap(self) -> (r: T) requires self.val() is Some ensures r == self.val()->Some_0 { unimplemented!() }
}
#[verifier::external_body] pub struct Scalar { }
impl Clone for Scalar { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Scalar {}
impl Scalar {
    pub uninterp spec fn v(&self) -> int;
    pub uninterp spec fn repr(&self) -> Seq<u8>;
    #[verifier::external_body] pub proof fn canon(&self) ensures 0 <= self.v() < R() { }
    #[verifier::external_body] pub const fn one() -> (r: Self) ensures r.v() == 1 { unimplemented!() }
    #[verifier::external_body] pub const fn zero() -> (r: Self) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self.repr() { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes(b: &[u8; 32]) -> (r: CtOption<Self>) ensures forall|s: Self| b@ == #[trigger] s.repr() ==> r.val() == Some(s) { unimplemented!() }
    #[verifier::external_body] pub fn __from(x: u64) -> (r: Self) ensures cong(r.v(), x as int) { unimplemented!() }
    #[verifier::external_body] pub fn invert(&self) -> (r: CtOption<Self>) ensures r.val() is Some <==> self.v() != 0, r.val() is Some ==> cong((r.val()->Some_0).v() * self.v(), 1) { unimplemented!() }
    #[verifier::external_body] pub fn op_add(self, o: Self) -> (r: Self) ensures cong(r.v(), self.v() + o.v()) { unimplemented!() }
    #[verifier::external_body] pub fn op_sub(self, o: Self) -> (r: Self) ensures cong(r.v(), self.v() - o.v()) { unimplemented!() }
    #[verifier::external_body] pub fn op_mul(self, o: Self) -> (r: Self) ensures cong(r.v(), self.v() * o.v()) { unimplemented!() }
    #[verifier::external_body] pub fn op_neg(self) -> (r: Self) ensures cong(r.v(), - self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn op_eq(&self, o: &Self) -> (r: bool) ensures r == (self.v() == o.v()) { unimplemented!() }
}
// ff::Field::random: uniform, hence nonzero except with probability 2^-255
pub trait Field: Sized { spec fn fv(&self) -> int; fn random<X: RngCore>(rng: &mut X) -> (r: Self)
    ensures r.fv() != 0, old(rng).seeded() ==> final(rng).seeded() && final(rng).stream() == old(rng).stream() && final(rng).pos() > old(rng).pos() && drawn(r.fv(), old(rng).stream(), old(rng).pos()); }
impl Field for Scalar { open spec fn fv(&self) -> int { self.v() } #[verifier::external_body] fn random<X: RngCore>(rng: &mut X) -> (r: Self) { unimplemented!() } }
pub trait Group: Sized { spec fn gv(&self) -> int; spec fn gm(&self) -> bool; fn generator() -> (r: Self) ensures r.gv() == 1, r.gm(); fn random<X: RngCore>(rng: &mut X) -> (r: Self)
    ensures old(rng).seeded() ==> final(rng).seeded() && final(rng).stream() == old(rng).stream() && final(rng).pos() > old(rng).pos() && drawn(r.gv(), old(rng).stream(), old(rng).pos()), r.gm(); }
impl Group for Gt { open spec fn gv(&self) -> int { self.dl() } open spec fn gm(&self) -> bool { self.member() } #[verifier::external_body] fn generator() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn random<X: RngCore>(rng: &mut X) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct G1Affine { }
impl Clone for G1Affine { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for G1Affine {}
impl Grp for G1Affine { uninterp spec fn dl(&self) -> int; uninterp spec fn member(&self) -> bool; }
#[verifier::external_body] pub struct G1Projective { }
impl G1Affine {
    pub uninterp spec fn repr(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_compressed(&self) -> (r: [u8; 48]) ensures r@ == self.repr() { unimplemented!() }
    #[verifier::external_body] pub fn from_compressed(b: &[u8; 48]) -> (r: CtOption<Self>) ensures forall|s: Self| b@ == #[trigger] s.repr() ==> r.val() == Some(s) { unimplemented!() }
    #[verifier::external_body] pub fn __from(p: G1Projective) -> (r: Self) ensures r.dl() == p.dl() { unimplemented!() }
    #[verifier::external_body] pub fn op_mul(&self, x: Scalar) -> (r: G1Projective) ensures cong(r.dl(), self.dl() * x.v()) { unimplemented!() }
}
impl G1Projective {
    pub uninterp spec fn dl(&self) -> int;
    #[verifier::external_body] pub fn generator() -> (r: Self) ensures r.dl() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn __from(a: &G1Affine) -> (r: Self) ensures r.dl() == a.dl() { unimplemented!() }
    #[verifier::external_body] pub fn op_mul(self, x: Scalar) -> (r: Self) ensures cong(r.dl(), self.dl() * x.v()) { unimplemented!() }
    #[verifier::external_body] pub fn op_add(self, x: &G1Affine) -> (r: Self) ensures cong(r.dl(), self.dl() + x.dl()) { unimplemented!() }
}
#[verifier::external_body] pub struct G2Affine { }
impl Clone for G2Affine { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for G2Affine {}
impl Grp for G2Affine { uninterp spec fn dl(&self) -> int; uninterp spec fn member(&self) -> bool; }
#[verifier::external_body] pub struct G2Projective { }
impl G2Affine {
    pub uninterp spec fn repr(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_compressed(&self) -> (r: [u8; 96]) ensures r@ == self.repr() { unimplemented!() }
    #[verifier::external_body] pub fn from_compressed(b: &[u8; 96]) -> (r: CtOption<Self>) ensures forall|s: Self| b@ == #[trigger] s.repr() ==> r.val() == Some(s) { unimplemented!() }
    #[verifier::external_body] pub fn __from(p: G2Projective) -> (r: Self) ensures r.dl() == p.dl() { unimplemented!() }
    #[verifier::external_body] pub fn op_mul(&self, x: Scalar) -> (r: G2Projective) ensures cong(r.dl(), self.dl() * x.v()) { unimplemented!() }
}
impl G2Projective {
    pub uninterp spec fn dl(&self) -> int;
    #[verifier::external_body] pub fn generator() -> (r: Self) ensures r.dl() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn __from(a: &G2Affine) -> (r: Self) ensures r.dl() == a.dl() { unimplemented!() }
    #[verifier::external_body] pub fn op_mul(self, x: Scalar) -> (r: Self) ensures cong(r.dl(), self.dl() * x.v()) { unimplemented!() }
    #[verifier::external_body] pub fn op_add(self, x: &G2Affine) -> (r: Self) ensures cong(r.dl(), self.dl() + x.dl()) { unimplemented!() }
}
#[verifier::external_body] pub struct G2Prepared { }
impl Grp for G2Prepared { uninterp spec fn dl(&self) -> int; uninterp spec fn member(&self) -> bool; }
impl G2Prepared { #[verifier::external_body] pub fn __from(a: G2Affine) -> (r: Self) ensures r.dl() == a.dl() { unimplemented!() } }
#[verifier::external_body] pub struct Gt { }
impl Grp for Gt { uninterp spec fn dl(&self) -> int; uninterp spec fn member(&self) -> bool; }
impl Gt {
    pub uninterp spec fn repr(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_compressed(&self) -> (r: [u8; 288]) ensures r@ == self.repr() { unimplemented!() }
    #[verifier::external_body] pub fn from_compressed(b: &[u8; 288]) -> (r: CtOption<Self>) ensures forall|s: Self| b@ == #[trigger] s.repr() ==> r.val() == Some(s) { unimplemented!() }
    #[verifier::external_body] pub fn op_mul(&self, x: Scalar) -> (r: Self) ensures cong(r.dl(), self.dl() * x.v()), self.member() ==> r.member() { unimplemented!() }
    #[verifier::external_body] pub fn op_add(&self, x: &Gt) -> (r: Self) ensures cong(r.dl(), self.dl() + x.dl()), self.member() && x.member() ==> r.member() { unimplemented!() }
    #[verifier::external_body] pub fn op_sub(&self, x: &Gt) -> (r: Self) ensures cong(r.dl(), self.dl() - x.dl()), self.member() && x.member() ==> r.member() { unimplemented!() }
}
// the bilinear pairing: Σ a_i·b_i in the exponent
pub open spec fn pairsum(t: Seq<(&G1Affine, &G2Prepared)>, n: int) -> int decreases n { if n <= 0 { 0 } else { pairsum(t, n - 1) + t[n - 1].0.dl() * t[n - 1].1.dl() } }
#[verifier::external_body] pub struct MillerLoopResult { }
impl MillerLoopResult { pub uninterp spec fn dl(&self) -> int; #[verifier::external_body] pub fn final_exponentiation(&self) -> (r: Gt) ensures r.dl() == self.dl(), r.member() { unimplemented!() } }
#[verifier::external_body] pub fn multi_miller_loop(t: &[(&G1Affine, &G2Prepared)]) -> (r: MillerLoopResult) ensures cong(r.dl(), pairsum(t@, t@.len() as int)) { unimplemented!() }
}
use cosmian_bls12_381::{G1Affine, G1Projective, G2Affine, G2Projective, G2Prepared, Gt, Group, Field, multi_miller_loop};
