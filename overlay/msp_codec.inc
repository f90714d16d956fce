pub open spec fn lay<I>(m: Seq<Vec<I>>, ncol: int) -> Seq<I> { Seq::new((m.len() * ncol) as nat, |i: int| m[i / ncol]@[i % ncol]) }
pub open spec fn mat_ok<I: AsBytes>(m: Seq<Vec<I>>, ncol: int) -> bool { ncol >= 1 && forall|r: int| 0 <= r < m.len() ==> (#[trigger] m[r])@.len() == ncol && all_wf(m[r]@) }
pub open spec fn mat_same<I: AsBytes>(m: Seq<Vec<I>>, t: Seq<Vec<I>>, n: int) -> bool { forall|r: int| 0 <= r < n ==> (#[trigger] m[r])@.len() == t[r]@.len() && all_same(m[r]@, t[r]@, m[r]@.len() as int) }
pub open spec fn msp_enc<I: AsBytes>(p: MonotoneSpanProgram<I>) -> Seq<u8> {
    be4(p.nb_row as u32) + be4(p.nb_col as u32) + flat(p.row_to_attr@, p.row_to_attr@.len() as int) + flat(lay(p.matrix@, p.nb_col as int), p.nb_row * p.nb_col)
}
pub proof fn lay_at<I>(m: Seq<Vec<I>>, ncol: int, r: int, c: int) requires 0 <= r < m.len(), 0 <= c < ncol
    ensures lay(m, ncol).len() == m.len() * ncol, 0 <= r * ncol + c < m.len() * ncol, lay(m, ncol)[r * ncol + c] == m[r]@[c], (r * ncol + c) / ncol == r, (r * ncol + c) % ncol == c
{
    assert(0 <= r * ncol && r * ncol + c < m.len() * ncol) by(nonlinear_arith) requires 0 <= r < m.len(), 0 <= c < ncol;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r * ncol + c, ncol, r, c);
}
pub proof fn lay_idx(n: int, ncol: int, i: int) requires 0 <= i < n * ncol, ncol >= 1, n >= 0 ensures 0 <= i / ncol < n, 0 <= i % ncol < ncol, i == (i / ncol) * ncol + i % ncol
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, ncol);
    assert(0 <= i % ncol < ncol);
    let q = i / ncol; assert(q * ncol <= i) by(nonlinear_arith) requires i == ncol * q + i % ncol, i % ncol >= 0;
    assert(q < n) by(nonlinear_arith) requires q * ncol <= i, i < n * ncol, ncol >= 1;
    assert(q >= 0) by(nonlinear_arith) requires i == ncol * q + i % ncol, i >= 0, i % ncol < ncol, ncol >= 1;
    assert(q * ncol == ncol * q) by(nonlinear_arith);
}
pub proof fn lay_wf<I: AsBytes>(m: Seq<Vec<I>>, ncol: int) requires mat_ok(m, ncol) ensures all_wf(lay(m, ncol)), lay(m, ncol).len() == m.len() * ncol
{
    assert(m.len() * ncol >= 0) by(nonlinear_arith) requires ncol >= 1;
    assert forall|i: int| 0 <= i < lay(m, ncol).len() implies (#[trigger] lay(m, ncol)[i]).wf() && lay(m, ncol)[i].fits() by { lay_idx(m.len() as int, ncol, i); assert(m[i / ncol]@[i % ncol].wf()); }
}
pub proof fn lay_same<I: AsBytes>(m: Seq<Vec<I>>, t: Seq<Vec<I>>, ncol: int) requires mat_ok(m, ncol), mat_ok(t, ncol), m.len() == t.len(), mat_same(m, t, m.len() as int)
    ensures all_same(lay(m, ncol), lay(t, ncol), m.len() * ncol)
{
    assert forall|i: int| 0 <= i < m.len() * ncol implies (#[trigger] lay(m, ncol)[i]).same(&lay(t, ncol)[i]) by { lay_idx(m.len() as int, ncol, i); let r = i / ncol; assert(m[r]@.len() == ncol && t[r]@.len() == ncol); assert(m[r]@[i % ncol].same(&t[r]@[i % ncol])); }
}
pub open spec fn msp_wf<I: AsBytes>(p: MonotoneSpanProgram<I>) -> bool { msp_shape(p) && mat_ok(p.matrix@, p.nb_col as int) }
pub proof fn msp_len<I: AsBytes>(p: MonotoneSpanProgram<I>) requires msp_wf(p), sized::<I>()
    ensures msp_enc(p).len() == 8 + 4 * p.nb_row + p.nb_row * p.nb_col * I::size()->0, p.nb_row <= p.nb_row * p.nb_col <= p.nb_row * p.nb_col * I::size()->0, 
        all_wf(p.row_to_attr@), all_wf(lay(p.matrix@, p.nb_col as int)), lay(p.matrix@, p.nb_col as int).len() == p.nb_row * p.nb_col, sized::<u32>()
{
    let (n, k) = (p.nb_row as int, I::size()->0); let c = p.nb_col as int;
    lay_wf(p.matrix@, c); flat_len(p.row_to_attr@, n);
    assert(n * c >= 0) by(nonlinear_arith) requires n >= 1, c >= 1;
    flat_len(lay(p.matrix@, c), n * c); be4_inv(p.nb_row as u32); be4_inv(p.nb_col as u32);
    let (f, g) = (flat(p.row_to_attr@, n), flat(lay(p.matrix@, c), n * c));
    assert(u32::size()->0 == 4); assert(f.len() == 4 * n); assert(g.len() == n * c * k); assert(msp_enc(p).len() == 4 + 4 + f.len() + g.len());
    assert(n <= n * c <= n * c * k) by(nonlinear_arith) requires n >= 1, c >= 1, k >= 1;
}
pub open spec fn msp_head<I: AsBytes>(b: Seq<u8>, v: MonotoneSpanProgram<I>) -> bool { msp_wf(v) && v.nb_row <= u32::MAX && v.nb_col <= u32::MAX && head_is(b, msp_enc(v), false) }
pub proof fn msp_run<I: AsBytes>(b: Seq<u8>, v: MonotoneSpanProgram<I>) requires msp_head(b, v), sized::<I>()
    ensures v.nb_row == of_be4(b.subrange(0, 4)), v.nb_col == of_be4(b.subrange(4, 8)), run_at(b, 8, v.row_to_attr@), run_at(b, 8 + 4 * v.nb_row, lay(v.matrix@, v.nb_col as int)),
        8 + 4 * v.nb_row + v.nb_row * v.nb_col * I::size()->0 <= b.len(), v.nb_row <= v.nb_row * v.nb_col <= v.nb_row * v.nb_col * I::size()->0
{
    msp_len(v); let e = msp_enc(v); let n = v.nb_row as int; let f = flat(v.row_to_attr@, n); let l = lay(v.matrix@, v.nb_col as int); let g = flat(l, l.len() as int);
    be4_inv(v.nb_row as u32); be4_inv(v.nb_col as u32); flat_len(v.row_to_attr@, n); flat_len(l, l.len() as int);
    assert(b.subrange(0, 4) =~= e.subrange(0, 4)); assert(e.subrange(0, 4) =~= be4(v.nb_row as u32));
    assert(b.subrange(4, 8) =~= e.subrange(4, 8)); assert(e.subrange(4, 8) =~= be4(v.nb_col as u32));
    assert(b.subrange(8, 8 + f.len() as int) =~= e.subrange(8, 8 + f.len() as int)); assert(e.subrange(8, 8 + f.len() as int) =~= f);
    let o = 8 + 4 * n; assert(f.len() == 4 * n);
    assert(b.subrange(o, o + g.len() as int) =~= e.subrange(o, o + g.len() as int)); assert(e.subrange(o, o + g.len() as int) =~= g);
}
// attribute i of an encoded program
pub proof fn msp_attr<I: AsBytes>(b: Seq<u8>, v: MonotoneSpanProgram<I>, i: int) requires msp_head(b, v), sized::<I>(), 0 <= i < v.nb_row ensures of_be4(b.subrange(8 + i * 4, 12 + i * 4)) == v.row_to_attr@[i], 12 + i * 4 <= b.len()
{
    msp_run(b, v); run_elem(b, 8, v.row_to_attr@, i); let r = rest(b, 8 + i * 4); be4_inv(v.row_to_attr@[i]);
    assert(b.subrange(8 + i * 4, 12 + i * 4) =~= r.subrange(0, 4));
}
// matrix entry (r, c) of an encoded program
pub proof fn msp_entry<I: AsBytes>(b: Seq<u8>, v: MonotoneSpanProgram<I>, r: int, c: int) requires msp_head(b, v), sized::<I>(), 0 <= r < v.nb_row, 0 <= c < v.nb_col
    ensures elem_at(b, 8 + 4 * v.nb_row + (r * v.nb_col + c) * I::size()->0, v.matrix@[r]@[c])
{
    msp_run(b, v); lay_at(v.matrix@, v.nb_col as int, r, c); run_elem(b, 8 + 4 * v.nb_row, lay(v.matrix@, v.nb_col as int), r * v.nb_col + c);
}
pub proof fn attr_index_eq(m1: Map<u32, usize>, m2: Map<u32, usize>, s: Seq<u32>) requires attr_index(m1, s), attr_index(m2, s) ensures m1 == m2
{
    assert forall|x: u32| m1.contains_key(x) == m2.contains_key(x) by { if m1.contains_key(x) { assert(s[m1[x] as int] == x); } if m2.contains_key(x) { assert(s[m2[x] as int] == x); } }
    assert forall|x: u32| m1.contains_key(x) implies m1[x] == m2[x] by { assert(s[m1[x] as int] == x); }
    assert(m1 =~= m2);
}
pub proof fn cell_bound(n: int, m: int, r: int, c: int, k: int) requires 0 <= r < n, 0 <= c < m, k > 0
    ensures 0 <= r * m, 0 <= (r * m + c) * k, (r * m + c) * k + k <= n * m * k, r * m + c <= (r * m + c) * k, n <= n * m, n * m <= n * m * k, m <= n * m, r * m <= r * m + c
{
    let i = r * m + c;
    assert(r * m >= 0 && i + 1 <= n * m && n <= n * m && m <= n * m) by(nonlinear_arith) requires 0 <= r < n, 0 <= c < m, i == r * m + c;
    assert(i <= i * k && i * k + k <= n * m * k && i * k >= 0 && n * m <= n * m * k) by(nonlinear_arith) requires 0 <= i, i + 1 <= n * m, k > 0;
}
