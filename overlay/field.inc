pub uninterp spec fn R() -> int;
pub open spec fn cong(a: int, b: int) -> bool { (a - b) % R() == 0 }
pub axiom fn axiom_order() ensures R() > 1;
pub uninterp spec fn inv(a: int) -> int;
pub axiom fn axiom_inv(a: int) requires !cong(a, 0) ensures cong(a * inv(a), 1);
pub proof fn cong_k(a: int, b: int) -> (k: int) requires cong(a, b) ensures a - b == k * R()
{ axiom_order(); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a - b, R()); let k = (a - b) / R(); vstd::arithmetic::mul::lemma_mul_is_commutative(R(), k); k }
pub proof fn cong_of(a: int, b: int, k: int) requires a - b == k * R() ensures cong(a, b)
{ axiom_order(); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, R()); }
pub proof fn cong_refl(a: int) ensures cong(a, a) { cong_of(a, a, 0); }
pub proof fn cong_sym(a: int, b: int) requires cong(a, b) ensures cong(b, a) { let k = cong_k(a, b); assert(b - a == (-k) * R()) by (nonlinear_arith) requires a - b == k * R(); cong_of(b, a, -k); }
pub proof fn cong_trans(a: int, b: int, c: int) requires cong(a, b), cong(b, c) ensures cong(a, c) { let k = cong_k(a, b); let l = cong_k(b, c); assert(a - c == (k + l) * R()) by (nonlinear_arith) requires a - b == k * R(), b - c == l * R(); cong_of(a, c, k + l); }
pub proof fn cong_add(a: int, b: int, c: int, d: int) requires cong(a, b), cong(c, d) ensures cong(a + c, b + d) { let k = cong_k(a, b); let l = cong_k(c, d); assert((a + c) - (b + d) == (k + l) * R()) by (nonlinear_arith) requires a - b == k * R(), c - d == l * R(); cong_of(a + c, b + d, k + l); }
pub proof fn cong_sub(a: int, b: int, c: int, d: int) requires cong(a, b), cong(c, d) ensures cong(a - c, b - d) { let k = cong_k(a, b); let l = cong_k(c, d); assert((a - c) - (b - d) == (k - l) * R()) by (nonlinear_arith) requires a - b == k * R(), c - d == l * R(); cong_of(a - c, b - d, k - l); }
pub proof fn cong_scale(a: int, b: int, c: int) requires cong(a, b) ensures cong(c * a, c * b), cong(a * c, b * c) { let k = cong_k(a, b); assert(c * a - c * b == (c * k) * R()) by (nonlinear_arith) requires a - b == k * R(); assert(a * c - b * c == (c * k) * R()) by (nonlinear_arith) requires a - b == k * R(); cong_of(c * a, c * b, c * k); cong_of(a * c, b * c, c * k); }
pub proof fn cong_mul(a: int, b: int, c: int, d: int) requires cong(a, b), cong(c, d) ensures cong(a * c, b * d) { cong_scale(a, b, c); cong_scale(c, d, b); cong_trans(a * c, b * c, b * d); }
pub proof fn cong_small(a: int, b: int) requires cong(a, b), 0 <= a < R(), 0 <= b < R() ensures a == b { axiom_order(); let k = cong_k(a, b); assert(k == 0) by (nonlinear_arith) requires a - b == k * R(), 0 <= a < R(), 0 <= b < R(), R() > 1; }
pub proof fn cong_cancel(a: int, b: int, c: int) requires cong(a * c, b * c), !cong(c, 0) ensures cong(a, b)
{ axiom_inv(c); cong_scale(a * c, b * c, inv(c)); let i = inv(c);
  assert((a * c) * i == a * (c * i)) by (nonlinear_arith); assert((b * c) * i == b * (c * i)) by (nonlinear_arith);
  cong_scale(c * i, 1, a); cong_scale(c * i, 1, b); cong_sym(a * (c * i), a * 1); cong_trans(a * 1, a * (c * i), b * (c * i)); cong_trans(a * 1, b * (c * i), b * 1); }
