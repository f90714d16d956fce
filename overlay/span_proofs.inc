pub type X = spec_fn(int) -> int;
pub open spec fn ent<S: ScalarOps>(m: Seq<Vec<S>>, c: int, r: int) -> int { m[c]@[r].v() }
pub open spec fn dims<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, nr: int) -> bool { m.len() == nc && forall|c: int| 0 <= c < nc ==> (#[trigger] m[c])@.len() == nr }
pub open spec fn dot<S: ScalarOps>(m: Seq<Vec<S>>, n: int, x: X, r: int) -> int decreases n { if n <= 0 { 0 } else { dot(m, n - 1, x, r) + x(n - 1) * ent(m, n - 1, r) } }
pub open spec fn solves_row<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, x: X, r: int) -> bool { cong(dot(m, nc - 1, x, r), ent(m, nc - 1, r)) }
pub open spec fn solves<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, nr: int, x: X) -> bool { forall|r: int| 0 <= r < nr ==> #[trigger] solves_row(m, nc, x, r) }
pub open spec fn same_sols<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, nc: int, nr: int) -> bool { forall|x: X| #[trigger] solves(m0, nc, nr, x) <==> #[trigger] solves(m1, nc, nr, x) }
pub proof fn same_sols_trans<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, m2: Seq<Vec<S>>, nc: int, nr: int) requires same_sols(m0, m1, nc, nr), same_sols(m1, m2, nc, nr) ensures same_sols(m0, m2, nc, nr) {
  assert forall|x: X| #[trigger] solves(m0, nc, nr, x) <==> #[trigger] solves(m2, nc, nr, x) by { assert(solves(m0, nc, nr, x) <==> solves(m1, nc, nr, x)); }
}
pub proof fn dot_same<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, n: int, x: X, r0: int, r1: int) requires forall|c: int| 0 <= c < n ==> ent(m0, c, r0) == #[trigger] ent(m1, c, r1) ensures dot(m0, n, x, r0) == dot(m1, n, x, r1) decreases n
{ if n > 0 { dot_same(m0, m1, n - 1, x, r0, r1); assert(ent(m0, n - 1, r0) == ent(m1, n - 1, r1)); } }
pub open spec fn row_swapped<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, nc: int, p: int, q: int) -> bool { forall|c: int, r: int| 0 <= c < nc ==> #[trigger] ent(m1, c, r) == ent(m0, c, if r == p { q } else if r == q { p } else { r }) }
pub proof fn lemma_swap<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, nc: int, nr: int, p: int, q: int)
  requires nc >= 1, 0 <= p < nr, 0 <= q < nr, forall|c: int, r: int| 0 <= c < nc && 0 <= r < nr ==> #[trigger] ent(m1, c, r) == ent(m0, c, if r == p { q } else if r == q { p } else { r })
  ensures same_sols(m0, m1, nc, nr)
{
  assert forall|x: X| #[trigger] solves(m0, nc, nr, x) <==> #[trigger] solves(m1, nc, nr, x) by {
    assert forall|r: int| 0 <= r < nr implies #[trigger] solves_row(m1, nc, x, r) == solves_row(m0, nc, x, if r == p { q } else if r == q { p } else { r }) by {
      let s = if r == p { q } else if r == q { p } else { r };
      assert forall|c: int| 0 <= c < nc - 1 implies ent(m0, c, s) == #[trigger] ent(m1, c, r) by {}
      dot_same(m0, m1, nc - 1, x, s, r);
      assert(ent(m1, nc - 1, r) == ent(m0, nc - 1, s));
    }
    if solves(m1, nc, nr, x) { assert forall|r: int| 0 <= r < nr implies #[trigger] solves_row(m0, nc, x, r) by { let s = if r == p { q } else if r == q { p } else { r }; assert(solves_row(m1, nc, x, s)); } }
  }
}
// row p divided by k
pub proof fn dot_scaled<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, n: int, x: X, p: int, k: int) requires forall|c: int| 0 <= c < n ==> cong(#[trigger] ent(m1, c, p) * k, ent(m0, c, p)) ensures cong(dot(m1, n, x, p) * k, dot(m0, n, x, p)) decreases n
{ if n > 0 { dot_scaled(m0, m1, n - 1, x, p, k); let a = ent(m1, n - 1, p); let b = ent(m0, n - 1, p); let y = x(n - 1); assert(cong(a * k, b)); cong_scale(a * k, b, y); assert(y * (a * k) == (y * a) * k) by (nonlinear_arith);
   let d1 = dot(m1, n - 1, x, p); cong_add(d1 * k, dot(m0, n - 1, x, p), (y * a) * k, y * b); assert((d1 + y * a) * k == d1 * k + (y * a) * k) by (nonlinear_arith); } else { assert(0int * k == 0) by (nonlinear_arith); cong_refl(0); } }
pub proof fn lemma_scale<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, nc: int, nr: int, p: int, k: int)
  requires nc >= 1, 0 <= p < nr, !cong(k, 0), forall|c: int, r: int| 0 <= c < nc && 0 <= r < nr && r != p ==> #[trigger] ent(m1, c, r) == ent(m0, c, r),
   forall|c: int| 0 <= c < nc ==> cong(#[trigger] ent(m1, c, p) * k, ent(m0, c, p))
  ensures same_sols(m0, m1, nc, nr)
{
  assert forall|x: X| #[trigger] solves(m0, nc, nr, x) <==> #[trigger] solves(m1, nc, nr, x) by {
    assert forall|r: int| 0 <= r < nr implies #[trigger] solves_row(m1, nc, x, r) == solves_row(m0, nc, x, r) by {
      if r != p { assert forall|c: int| 0 <= c < nc - 1 implies ent(m0, c, r) == #[trigger] ent(m1, c, r) by {} dot_same(m0, m1, nc - 1, x, r, r); assert(ent(m1, nc - 1, r) == ent(m0, nc - 1, r)); }
      else { dot_scaled(m0, m1, nc - 1, x, p, k); let d1 = dot(m1, nc - 1, x, p); let d0 = dot(m0, nc - 1, x, p); let t1 = ent(m1, nc - 1, p); let t0 = ent(m0, nc - 1, p);
        assert(cong(t1 * k, t0));
        if cong(d1, t1) { cong_scale(d1, t1, k); cong_sym(d1 * k, d0); cong_trans(d0, d1 * k, t1 * k); cong_trans(d0, t1 * k, t0); }
        if cong(d0, t0) { cong_trans(d1 * k, d0, t0); cong_sym(t1 * k, t0); cong_trans(d1 * k, t0, t1 * k); cong_cancel(d1, t1, k); }
      }
    }
    if solves(m1, nc, nr, x) { assert forall|r: int| 0 <= r < nr implies #[trigger] solves_row(m0, nc, x, r) by { assert(solves_row(m1, nc, x, r)); } }
  }
}
pub proof fn dot_subbed<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, n: int, x: X, p: int, q: int, f: int) requires forall|c: int| 0 <= c < n ==> cong(#[trigger] ent(m1, c, q), ent(m0, c, q) - f * ent(m0, c, p)) ensures cong(dot(m1, n, x, q), dot(m0, n, x, q) - f * dot(m0, n, x, p)) decreases n
{ if n > 0 { dot_subbed(m0, m1, n - 1, x, p, q, f); let a = ent(m1, n - 1, q); let b = ent(m0, n - 1, q); let e = ent(m0, n - 1, p); let y = x(n - 1); assert(cong(a, b - f * e)); cong_scale(a, b - f * e, y);
   let d1 = dot(m1, n - 1, x, q); let d0 = dot(m0, n - 1, x, q); let dp = dot(m0, n - 1, x, p); cong_add(d1, d0 - f * dp, y * a, y * (b - f * e));
   assert(d0 - f * dp + y * (b - f * e) == (d0 + y * b) - f * (dp + y * e)) by (nonlinear_arith); } else { assert(f * 0int == 0) by (nonlinear_arith); cong_refl(0); } }
pub proof fn lemma_rowsub<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, nc: int, nr: int, p: int, q: int, f: int)
  requires nc >= 1, 0 <= p < nr, 0 <= q < nr, p != q, forall|c: int, r: int| 0 <= c < nc && 0 <= r < nr && r != q ==> #[trigger] ent(m1, c, r) == ent(m0, c, r),
   forall|c: int| 0 <= c < nc ==> cong(#[trigger] ent(m1, c, q), ent(m0, c, q) - f * ent(m0, c, p))
  ensures same_sols(m0, m1, nc, nr)
{
  assert forall|x: X| #[trigger] solves(m0, nc, nr, x) <==> #[trigger] solves(m1, nc, nr, x) by {
    assert forall|r: int| 0 <= r < nr && r != q implies #[trigger] solves_row(m1, nc, x, r) == solves_row(m0, nc, x, r) by {
      assert forall|c: int| 0 <= c < nc - 1 implies ent(m0, c, r) == #[trigger] ent(m1, c, r) by {} dot_same(m0, m1, nc - 1, x, r, r); assert(ent(m1, nc - 1, r) == ent(m0, nc - 1, r)); }
    dot_subbed(m0, m1, nc - 1, x, p, q, f);
    let d1 = dot(m1, nc - 1, x, q); let d0 = dot(m0, nc - 1, x, q); let dp = dot(m0, nc - 1, x, p); let t1 = ent(m1, nc - 1, q); let t0 = ent(m0, nc - 1, q); let tp = ent(m0, nc - 1, p);
    assert(cong(t1, t0 - f * tp));
    if solves_row(m0, nc, x, p) {
      cong_scale(dp, tp, f);
      if cong(d0, t0) { cong_sub(d0, t0, f * dp, f * tp); cong_trans(d1, d0 - f * dp, t0 - f * tp); cong_sym(t1, t0 - f * tp); cong_trans(d1, t0 - f * tp, t1); }
      if cong(d1, t1) { cong_trans(d1, t1, t0 - f * tp); cong_sym(d1, d0 - f * dp); cong_trans(d0 - f * dp, d1, t0 - f * tp); cong_add(d0 - f * dp, t0 - f * tp, f * dp, f * tp); }
    }
    if solves(m0, nc, nr, x) { assert(solves_row(m0, nc, x, p)); assert(solves_row(m0, nc, x, q)); assert forall|r: int| 0 <= r < nr implies #[trigger] solves_row(m1, nc, x, r) by { if r != q { assert(solves_row(m0, nc, x, r)); } } }
    if solves(m1, nc, nr, x) { assert(solves_row(m1, nc, x, p)); assert(solves_row(m1, nc, x, q)); assert forall|r: int| 0 <= r < nr implies #[trigger] solves_row(m0, nc, x, r) by { if r != q { assert(solves_row(m1, nc, x, r)); } } }
  }
}
// reduced echelon form of the first cc columns
pub open spec fn ech<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, nr: int, piv: Seq<int>, cc: int) -> bool {
  &&& piv.len() <= nr && 0 <= cc <= nc
  &&& forall|k: int| 0 <= k < piv.len() ==> 0 <= #[trigger] piv[k] < cc && ent(m, piv[k], k) == 1
  &&& forall|k: int, r: int| 0 <= k < piv.len() && 0 <= r < nr && r != k ==> #[trigger] ent(m, piv[k], r) == 0
  &&& forall|k: int, c: int| 0 <= k < piv.len() && 0 <= c < piv[k] ==> #[trigger] ent(m, c, k) == 0
  &&& forall|k: int, l: int| 0 <= k < l < piv.len() ==> #[trigger] piv[k] < #[trigger] piv[l]
  &&& forall|c: int, r: int| 0 <= c < cc && piv.len() <= r < nr ==> #[trigger] ent(m, c, r) == 0
}
pub proof fn ech_nopivot<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, nr: int, piv: Seq<int>, cc: int)
  requires ech(m, nc, nr, piv, cc), cc < nc, forall|r: int| piv.len() <= r < nr ==> #[trigger] ent(m, cc, r) == 0
  ensures ech(m, nc, nr, piv, cc + 1) {}
pub proof fn ech_pivot<S: ScalarOps>(m: Seq<Vec<S>>, m1: Seq<Vec<S>>, nc: int, nr: int, piv: Seq<int>, cc: int)
  requires ech(m, nc, nr, piv, cc), cc < nc, piv.len() < nr,
    forall|c: int, r: int| 0 <= c < cc && 0 <= r < nr ==> #[trigger] ent(m1, c, r) == ent(m, c, r),
    ent(m1, cc, piv.len() as int) == 1, forall|r: int| 0 <= r < nr && r != piv.len() ==> #[trigger] ent(m1, cc, r) == 0
  ensures ech(m1, nc, nr, piv.push(cc), cc + 1)
{
  let pv = piv.push(cc);
  assert forall|k: int| 0 <= k < pv.len() implies 0 <= #[trigger] pv[k] < cc + 1 && ent(m1, pv[k], k) == 1 by { if k < piv.len() { assert(pv[k] == piv[k]); assert(ent(m1, piv[k], k) == ent(m, piv[k], k)); } }
  assert forall|k: int, r: int| 0 <= k < pv.len() && 0 <= r < nr && r != k implies #[trigger] ent(m1, pv[k], r) == 0 by { if k < piv.len() { assert(pv[k] == piv[k]); assert(ent(m, piv[k], r) == 0); assert(ent(m1, piv[k], r) == ent(m, piv[k], r)); } }
  assert forall|k: int, c: int| 0 <= k < pv.len() && 0 <= c < pv[k] implies #[trigger] ent(m1, c, k) == 0 by { if k < piv.len() { assert(pv[k] == piv[k]); assert(ent(m, c, k) == 0); } else { assert(ent(m, c, k) == 0); } assert(ent(m1, c, k) == ent(m, c, k)); }
  assert forall|c: int, r: int| 0 <= c < cc + 1 && pv.len() <= r < nr implies #[trigger] ent(m1, c, r) == 0 by { if c < cc { assert(ent(m, c, r) == 0); } }
}
pub proof fn dot_zero<S: ScalarOps>(m: Seq<Vec<S>>, n: int, x: X, r: int) requires forall|c: int| 0 <= c < n ==> #[trigger] ent(m, c, r) == 0 ensures dot(m, n, x, r) == 0 decreases n
{ if n > 0 { dot_zero(m, n - 1, x, r); assert(ent(m, n - 1, r) == 0); assert(x(n-1) * 0 == 0) by (nonlinear_arith); } }
pub proof fn ech_inconsistent<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, nr: int, piv: Seq<int>, cc: int)
  requires ech(m, nc, nr, piv, cc), piv.len() > 0, piv.last() == nc - 1, nc >= 1
  ensures forall|x: X| !#[trigger] solves(m, nc, nr, x)
{ let k = piv.len() - 1;
  assert forall|x: X| !#[trigger] solves(m, nc, nr, x) by { assert(piv[k] == nc - 1); assert forall|c: int| 0 <= c < nc - 1 implies #[trigger] ent(m, c, k) == 0 by { assert(c < piv[k]); } dot_zero(m, nc - 1, x, k); axiom_order(); assert(ent(m, nc - 1, k) == 1); assert(!cong(0, 1)) by { if cong(0, 1) { cong_sym(0, 1); cong_small(1, 0); } } assert(!solves_row(m, nc, x, k)); } }
// value of the extracted solution at column c
pub open spec fn seqx(s: Seq<int>) -> X { |c: int| if 0 <= c < s.len() { s[c] } else { 0 } }
pub open spec fn extracted<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, piv: Seq<int>, done: int, s: Seq<int>) -> bool {
  &&& forall|k: int| 0 <= k < done ==> piv[k] < s.len() && s[#[trigger] piv[k]] == ent(m, nc - 1, k)
  &&& forall|c: int| 0 <= c < s.len() && (forall|k: int| 0 <= k < done ==> piv[k] != c) ==> #[trigger] s[c] == 0
}
pub proof fn dot_single<S: ScalarOps>(m: Seq<Vec<S>>, n: int, x: X, r: int, p: int)
  requires forall|c: int| 0 <= c < n && c != p ==> x(c) == 0 || #[trigger] ent(m, c, r) == 0
  ensures dot(m, n, x, r) == (if 0 <= p < n { x(p) * ent(m, p, r) } else { 0 }) decreases n
{ if n > 0 { dot_single(m, n - 1, x, r, p); let e = ent(m, n - 1, r); let y = x(n - 1); if n - 1 != p { assert(y * e == 0) by (nonlinear_arith) requires y == 0 || e == 0; } } }
pub proof fn ech_solution<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, nr: int, piv: Seq<int>, s: Seq<int>)
  requires ech(m, nc, nr, piv, nc), nc >= 1, s.len() <= nc - 1, extracted(m, nc, piv, piv.len() as int, s)
  ensures solves(m, nc, nr, seqx(s))
{
  let x = seqx(s);
  assert forall|c: int| 0 <= c < nc - 1 && (forall|k: int| 0 <= k < piv.len() ==> piv[k] != c) implies #[trigger] x(c) == 0 by { if c < s.len() { assert(s[c] == 0); } }
  assert forall|r: int| 0 <= r < nr implies #[trigger] solves_row(m, nc, x, r) by {
    let p = if r < piv.len() { piv[r] } else { -1 };
    assert forall|c: int| 0 <= c < nc - 1 && c != p implies x(c) == 0 || #[trigger] ent(m, c, r) == 0 by {
      if exists|k: int| 0 <= k < piv.len() && piv[k] == c { let k = choose|k: int| 0 <= k < piv.len() && piv[k] == c; assert(k != r); assert(ent(m, piv[k], r) == 0); }
    }
    dot_single(m, nc - 1, x, r, p);
    if r < piv.len() { assert(s[piv[r]] == ent(m, nc - 1, r)); assert(ent(m, piv[r], r) == 1); assert(x(p) * 1 == x(p)); cong_refl(x(p)); assert(p < nc - 1); }
    else { assert(ent(m, nc - 1, r) == 0); cong_refl(0); }
  }
}
pub proof fn ent_eq_cong<S: ScalarOps>(a: S, b: S) requires cong(a.v(), b.v()) ensures a.v() == b.v() { a.canon(); b.canon(); cong_small(a.v(), b.v()); }
// combination of the columns equal to 1 in every row
pub open spec fn ones_row<S: ScalarOps>(m: Seq<Vec<S>>, n: int, x: X, r: int) -> bool { cong(dot(m, n, x, r), 1) }
pub open spec fn gives_ones<S: ScalarOps>(m: Seq<Vec<S>>, n: int, nr: int, x: X) -> bool { forall|r: int| 0 <= r < nr ==> #[trigger] ones_row(m, n, x, r) }
pub open spec fn svals<S: ScalarOps>(s: Seq<S>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].v()) }
pub proof fn aug<S: ScalarOps>(m0: Seq<Vec<S>>, m1: Seq<Vec<S>>, nr: int, x: X)
    requires m1.len() == m0.len() + 1, forall|c: int| 0 <= c < m0.len() ==> m1[c] == m0[c], m1.last()@.len() == nr, forall|r: int| 0 <= r < nr ==> (#[trigger] m1.last()@[r]).v() == 1
    ensures solves(m1, m1.len() as int, nr, x) <==> gives_ones(m0, m0.len() as int, nr, x)
{
    assert forall|r: int| 0 <= r < nr implies #[trigger] solves_row(m1, m1.len() as int, x, r) == ones_row(m0, m0.len() as int, x, r) by {
        assert(m1.last()@[r].v() == 1);
        dot_same(m0, m1, m0.len() as int, x, r, r);
    }
    if solves(m1, m1.len() as int, nr, x) { assert forall|r: int| 0 <= r < nr implies #[trigger] ones_row(m0, m0.len() as int, x, r) by { assert(solves_row(m1, m1.len() as int, x, r)); } }
}
pub proof fn sub_mul(a: int, b: int, f: int, e: int) ensures cong(a, b - f * e) <==> cong(a, b - f * e) {}
pub proof fn eliminated<S: ScalarOps>(ms: Seq<Vec<S>>, me: Seq<Vec<S>>, m: Seq<Vec<S>>, nc: int, nr: int, p: int, q: int, cc: int, f: int)
    requires nc >= 1, 0 <= p < nr, 0 <= q < nr, p != q, 0 <= cc < nc, same_sols(ms, me, nc, nr), dims(m, nc, nr),
        ent(me, cc, p) == 1, f == ent(me, cc, q),
        forall|c: int| 0 <= c < cc ==> #[trigger] ent(me, c, p) == 0,
        forall|c: int, r: int| 0 <= c < nc && 0 <= r < nr && !(cc <= c && r == q) ==> #[trigger] ent(m, c, r) == ent(me, c, r),
        forall|c: int| cc <= c < nc ==> cong(#[trigger] ent(m, c, q), ent(me, c, q) - f * ent(me, c, p)),
    ensures same_sols(ms, m, nc, nr), ent(m, cc, q) == 0
{
    assert forall|c: int| 0 <= c < nc implies cong(#[trigger] ent(m, c, q), ent(me, c, q) - f * ent(me, c, p)) by {
        if c < cc { assert(ent(me, c, p) == 0); assert(f * 0 == 0) by (nonlinear_arith); cong_refl(ent(me, c, q)); }
    }
    lemma_rowsub(me, m, nc, nr, p, q, f);
    same_sols_trans(ms, me, m, nc, nr);
    assert(f * 1 == f); assert(cong(ent(m, cc, q), 0)); m[cc]@[q].canon(); axiom_order(); cong_small(ent(m, cc, q), 0);
}
pub proof fn extract_zero<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, piv: Seq<int>, done: int, s: Seq<int>)
    requires extracted(m, nc, piv, done, s) ensures extracted(m, nc, piv, done, s.push(0))
{
    let t = s.push(0);
    assert forall|k: int| 0 <= k < done implies piv[k] < t.len() && t[#[trigger] piv[k]] == ent(m, nc - 1, k) by { assert(s[piv[k]] == ent(m, nc - 1, k)); }
    assert forall|c: int| 0 <= c < t.len() && (forall|k: int| 0 <= k < done ==> piv[k] != c) implies #[trigger] t[c] == 0 by { if c < s.len() { assert(s[c] == 0); } }
}
pub proof fn extract_pivot<S: ScalarOps>(m: Seq<Vec<S>>, nc: int, piv: Seq<int>, i: int, s: Seq<int>)
    requires extracted(m, nc, piv, i, s), 0 <= i < piv.len(), piv[i] == s.len(), forall|k: int| 0 <= k < i ==> 0 <= #[trigger] piv[k] < piv[i]
    ensures extracted(m, nc, piv, i + 1, s.push(ent(m, nc - 1, i)))
{
    let t = s.push(ent(m, nc - 1, i));
    assert forall|k: int| 0 <= k < i + 1 implies piv[k] < t.len() && t[#[trigger] piv[k]] == ent(m, nc - 1, k) by { if k < i { assert(s[piv[k]] == ent(m, nc - 1, k)); } }
    assert forall|c: int| 0 <= c < t.len() && (forall|k: int| 0 <= k < i + 1 ==> piv[k] != c) implies #[trigger] t[c] == 0 by { if c < s.len() { assert(s[c] == 0); } else { assert(piv[i] == c); } }
}
