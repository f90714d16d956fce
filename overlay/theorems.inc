// ---- linear forms over the rows of a program
pub open spec fn emat<I: Entry>(m: MonotoneSpanProgram<I>) -> Seq<Seq<int>> { Seq::new(m.matrix@.len(), |r: int| vals(m.matrix@[r]@)) }
pub open spec fn spans_e<I: Entry>(m: MonotoneSpanProgram<I>, a: Asg, v: int) -> bool { spans_m(emat(m), m.row_to_attr@, m.nb_col as int, a, v) }
pub proof fn lin_cong(p: Seq<Seq<int>>, q: Seq<Seq<int>>, attrs: Seq<u32>, a: Asg, j: int)
    requires p.len() == q.len(), p.len() == attrs.len(), forall|r: int| 0 <= r < p.len() ==> cong(#[trigger] p[r][j], q[r][j])
    ensures cong(lin(p, attrs, a, j), lin(q, attrs, a, j)) decreases p.len()
{
    if p.len() == 0 { cong_refl(0); } else {
        let l = p.len() - 1;
        assert forall|r: int| 0 <= r < l implies cong(#[trigger] p.drop_last()[r][j], q.drop_last()[r][j]) by { assert(cong(p[r][j], q[r][j])); }
        lin_cong(p.drop_last(), q.drop_last(), attrs.drop_last(), a, j);
        assert(cong(p[l][j], q[l][j]));
        cong_scale(p.last()[j], q.last()[j], a(attrs.last()));
        cong_add(lin(p.drop_last(), attrs.drop_last(), a, j), lin(q.drop_last(), attrs.drop_last(), a, j), a(attrs.last()) * p.last()[j], a(attrs.last()) * q.last()[j]);
    }
}
pub proof fn lin_comb(w: Seq<Seq<int>>, p: Seq<Seq<int>>, q: Seq<Seq<int>>, attrs: Seq<u32>, a: Asg, jw: int, jp: int, jq: int, c: int)
    requires w.len() == p.len(), w.len() == q.len(), w.len() == attrs.len(), forall|r: int| 0 <= r < p.len() ==> #[trigger] w[r][jw] == p[r][jp] + c * q[r][jq]
    ensures lin(w, attrs, a, jw) == lin(p, attrs, a, jp) + c * lin(q, attrs, a, jq) decreases w.len()
{
    if w.len() > 0 {
        let l = w.len() - 1;
        assert forall|r: int| 0 <= r < l implies #[trigger] w.drop_last()[r][jw] == p.drop_last()[r][jp] + c * q.drop_last()[r][jq] by { assert(w[r][jw] == p[r][jp] + c * q[r][jq]); }
        lin_comb(w.drop_last(), p.drop_last(), q.drop_last(), attrs.drop_last(), a, jw, jp, jq, c);
        assert(w[l][jw] == p[l][jp] + c * q[l][jq]);
        let x = a(attrs.last()); let s = lin(q.drop_last(), attrs.drop_last(), a, jq); let pl = p.last()[jp]; let ql = q.last()[jq];
        assert(x * (pl + c * ql) == x * pl + c * (x * ql)) by (nonlinear_arith);
        assert(c * (s + x * ql) == c * s + c * (x * ql)) by (nonlinear_arith);
    } else { assert(c * 0 == 0) by (nonlinear_arith); }
}
pub proof fn lin_asg(p: Seq<Seq<int>>, attrs: Seq<u32>, a: Asg, b: Asg, j: int)
    requires p.len() == attrs.len(), forall|r: int| 0 <= r < attrs.len() ==> a(#[trigger] attrs[r]) == b(attrs[r])
    ensures lin(p, attrs, a, j) == lin(p, attrs, b, j) decreases p.len()
{
    if p.len() > 0 {
        assert forall|r: int| 0 <= r < attrs.len() - 1 implies a(#[trigger] attrs.drop_last()[r]) == b(attrs.drop_last()[r]) by { assert(a(attrs[r]) == b(attrs[r])); }
        lin_asg(p.drop_last(), attrs.drop_last(), a, b, j);
        assert(a(attrs[p.len() - 1]) == b(attrs[p.len() - 1]));
    }
}
pub open spec fn once(attrs: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < attrs.len() ==> #[trigger] attrs[i] != #[trigger] attrs[j] }
pub open spec fn bump(a: Asg, x: u32, c: int) -> Asg { |y: u32| if y == x { a(y) + c } else { a(y) } }
pub proof fn lin_delta(p: Seq<Seq<int>>, attrs: Seq<u32>, a: Asg, r: int, c: int, j: int)
    requires p.len() == attrs.len(), once(attrs), 0 <= r < attrs.len()
    ensures lin(p, attrs, bump(a, attrs[r], c), j) == lin(p, attrs, a, j) + c * p[r][j] decreases p.len()
{
    let b = bump(a, attrs[r], c); let l = p.len() - 1;
    if r == l {
        assert forall|i: int| 0 <= i < l implies a(#[trigger] attrs.drop_last()[i]) == b(attrs.drop_last()[i]) by { assert(attrs[i] != attrs[l]); }
        lin_asg(p.drop_last(), attrs.drop_last(), a, b, j);
        let e = p[l][j]; let v = a(attrs[l]);
        assert((v + c) * e == v * e + c * e) by (nonlinear_arith);
    } else {
        assert(once(attrs.drop_last())) by { assert forall|i: int, k: int| 0 <= i < k < l implies #[trigger] attrs.drop_last()[i] != #[trigger] attrs.drop_last()[k] by { assert(attrs[i] != attrs[k]); } }
        lin_delta(p.drop_last(), attrs.drop_last(), a, r, c, j);
        assert(attrs[r] != attrs[l]);
    }
}
pub proof fn index_once(mp: Map<u32, usize>, attrs: Seq<u32>) requires attr_index(mp, attrs) ensures once(attrs)
{ assert forall|i: int, j: int| 0 <= i < j < attrs.len() implies #[trigger] attrs[i] != #[trigger] attrs[j] by { assert(mp[attrs[i]] == i && mp[attrs[j]] == j); } }
pub proof fn lin_zero(p: Seq<Seq<int>>, attrs: Seq<u32>, a: Asg, j: int) requires p.len() == attrs.len(), forall|r: int| 0 <= r < attrs.len() ==> a(#[trigger] attrs[r]) == 0 ensures lin(p, attrs, a, j) == 0 decreases p.len()
{
    if p.len() > 0 {
        assert forall|r: int| 0 <= r < attrs.len() - 1 implies a(#[trigger] attrs.drop_last()[r]) == 0 by { assert(a(attrs[r]) == 0); }
        lin_zero(p.drop_last(), attrs.drop_last(), a, j);
        assert(a(attrs[p.len() - 1]) == 0); let e = p.last()[j]; assert(0 * e == 0) by (nonlinear_arith);
    }
}
pub proof fn spans_same<I: Entry, J: Entry>(p: MonotoneSpanProgram<I>, q: MonotoneSpanProgram<J>, a: Asg, v: int) requires same_program(p, q), msp_shape(q) ensures spans_e(p, a, v) == spans_e(q, a, v)
{
    assert forall|j: int| 0 <= j < p.nb_col implies cong(#[trigger] lin(emat(p), p.row_to_attr@, a, j), v) == cong(lin(emat(q), q.row_to_attr@, a, j), v) by {
        assert forall|r: int| 0 <= r < emat(p).len() implies cong(#[trigger] emat(p)[r][j], emat(q)[r][j]) by {
            assert(same_row(p.matrix@[r]@, q.matrix@[r]@)); assert(q.matrix@[r]@.len() == q.nb_col); assert(cong(p.matrix@[r]@[j].v(), q.matrix@[r]@[j].v()));
        }
        lin_cong(emat(p), emat(q), p.row_to_attr@, a, j);
        let x = lin(emat(p), p.row_to_attr@, a, j); let y = lin(emat(q), q.row_to_attr@, a, j);
        if cong(x, v) { cong_sym(x, y); cong_trans(y, x, v); }
        if cong(y, v) { cong_trans(x, y, v); }
    }
    if spans_e(p, a, v) { assert forall|j: int| 0 <= j < q.nb_col implies cong(#[trigger] lin(emat(q), q.row_to_attr@, a, j), v) by { assert(cong(lin(emat(p), p.row_to_attr@, a, j), v)); } }
    if spans_e(q, a, v) { assert forall|j: int| 0 <= j < p.nb_col implies cong(#[trigger] lin(emat(p), p.row_to_attr@, a, j), v) by { assert(cong(lin(emat(q), q.row_to_attr@, a, j), v)); } }
}
pub proof fn spans_int(m: MonotoneSpanProgram<i32>, a: Asg, v: int) ensures spans(m, a, v) == spans_e(m, a, v)
{ assert(imat(m.matrix@) =~= emat(m)) by { assert forall|r: int| 0 <= r < m.matrix@.len() implies imat(m.matrix@)[r] =~= emat(m)[r] by {} } }

// ---- secret sharing: an accepting combination recombines the shares to the secret
pub open spec fn share_rows<I: Entry>(m: MonotoneSpanProgram<I>, u: Seq<int>, n: int) -> Seq<Seq<int>> { Seq::new(m.matrix@.len(), |r: int| seq![idot(vals(m.matrix@[r]@), u, n)]) }
pub proof fn recombine<I: Entry>(m: MonotoneSpanProgram<I>, a: Asg, u: Seq<int>, n: int)
    requires msp_shape(m), spans_e(m, a, 1), 0 <= n <= m.nb_col, u.len() == m.nb_col
    ensures cong(lin(share_rows(m, u, n), m.row_to_attr@, a, 0), isum(u.take(n))) decreases n
{
    if n == 0 {
        assert forall|r: int| 0 <= r < m.matrix@.len() implies #[trigger] share_rows(m, u, 0)[r][0] == emat(m)[r][0] + (-1) * emat(m)[r][0] by { assert(share_rows(m, u, 0)[r] =~= seq![0int]); }
        lin_comb(share_rows(m, u, 0), emat(m), emat(m), m.row_to_attr@, a, 0, 0, 0, -1);
        assert(u.take(0) =~= Seq::empty()); cong_refl(0);
    } else {
        recombine(m, a, u, n - 1);
        let c = u[n - 1];
        assert forall|r: int| 0 <= r < m.matrix@.len() implies #[trigger] share_rows(m, u, n)[r][0] == share_rows(m, u, n - 1)[r][0] + c * emat(m)[r][n - 1] by {
            idot_push(vals(m.matrix@[r]@), u, n - 1); let x = vals(m.matrix@[r]@)[n - 1];
            assert(x * c == c * x) by (nonlinear_arith);
        }
        lin_comb(share_rows(m, u, n), share_rows(m, u, n - 1), emat(m), m.row_to_attr@, a, 0, 0, n - 1, c);
        let t = lin(emat(m), m.row_to_attr@, a, n - 1);
        assert(cong(t, 1)); cong_scale(t, 1, c); cong_add(lin(share_rows(m, u, n - 1), m.row_to_attr@, a, 0), isum(u.take(n - 1)), c * t, c * 1);
        assert(u.take(n) =~= u.take(n - 1).push(c)); isum_push(u.take(n - 1), c);
    }
}
// ---- what a key is good for: any combination of its rows that gives (1,..,1) turns its shares into y
pub open spec fn drows<G: BilinearMap>(k: GpswDecryptionKey<G>, t: Seq<int>) -> Seq<Seq<int>> { Seq::new(k.msp.nb_row as nat, |r: int| seq![k.raw_d_i@[r].dl() * t[k.msp.row_to_attr@[r] as int]]) }
pub open spec fn yields<G: BilinearMap>(k: GpswDecryptionKey<G>, t: Seq<int>, y: int, a: Asg) -> bool { cong(lin(drows(k, t), k.msp.row_to_attr@, a, 0), y) }
pub open spec fn opens<G: BilinearMap>(k: GpswDecryptionKey<G>, t: Seq<int>, y: int) -> bool {
    &&& wf_key(k) && forall|r: int| 0 <= r < k.msp.nb_row ==> (#[trigger] k.msp.row_to_attr@[r]) < t.len()
    &&& forall|a: Asg| #![trigger spans_e(k.msp, a, 1)] #![trigger yields(k, t, y, a)] spans_e(k.msp, a, 1) ==> yields(k, t, y, a)
}
pub proof fn keygen_opens<G: BilinearMap, I: Entry>(k: GpswDecryptionKey<G>, m: MonotoneSpanProgram<I>, t: Seq<int>, u: Seq<int>, y: int)
    requires msp_shape(m), key_of(k, m, t, u), sharing(u, m.nb_col as int, y)
    ensures opens(k, t, y)
{
    let at = m.row_to_attr@; let n = m.nb_col as int;
    assert forall|r: int| 0 <= r < k.msp.nb_row implies (#[trigger] k.msp.row_to_attr@[r]) < t.len() by { assert(gen_row(k.raw_d_i@, m, t, u, r)); }
    assert forall|a: Asg| #[trigger] spans_e(k.msp, a, 1) implies yields(k, t, y, a) by {
        spans_same(k.msp, m, a, 1);
        recombine(m, a, u, n); assert(u.take(n) =~= u);
        assert forall|r: int| 0 <= r < drows(k, t).len() implies cong(#[trigger] drows(k, t)[r][0], share_rows(m, u, n)[r][0]) by { assert(gen_row(k.raw_d_i@, m, t, u, r)); }
        lin_cong(drows(k, t), share_rows(m, u, n), at, a, 0);
        cong_trans(lin(drows(k, t), at, a, 0), lin(share_rows(m, u, n), at, a, 0), isum(u)); cong_trans(lin(drows(k, t), at, a, 0), isum(u), y);
    }
}
// ---- delegation
pub open spec fn cut(a: Asg, attrs: Seq<u32>, n: int) -> Asg { |x: u32| if exists|i: int| 0 <= i < n && #[trigger] attrs[i] == x { a(x) } else { 0 } }
// the delegated program asks for at least what the user's program asks for
pub open spec fn narrows<I: Entry, J: Entry>(m: MonotoneSpanProgram<I>, from: MonotoneSpanProgram<J>) -> bool {
    forall|a: Asg| spans_e(m, a, 1) ==> #[trigger] spans_e(from, cut(a, m.row_to_attr@, m.nb_row as int), 1)
}
pub open spec fn from_rows<G: BilinearMap, I: Entry>(m: MonotoneSpanProgram<I>, k: GpswDecryptionKey<G>, t: Seq<int>) -> Seq<Seq<int>> {
    Seq::new(m.nb_row as nat, |r: int| seq![k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl() * t[m.row_to_attr@[r] as int]])
}
pub proof fn reindex<G: BilinearMap, I: Entry>(m: MonotoneSpanProgram<I>, k: GpswDecryptionKey<G>, t: Seq<int>, a: Asg, n: int)
    requires msp_shape(m), wf_key(k), 0 <= n <= m.nb_row, forall|r: int| 0 <= r < m.nb_row ==> k.msp.attr_to_row@.contains_key(#[trigger] m.row_to_attr@[r])
    ensures lin(from_rows(m, k, t).take(n), m.row_to_attr@.take(n), a, 0) == lin(drows(k, t), k.msp.row_to_attr@, cut(a, m.row_to_attr@, n), 0) decreases n
{
    let at = m.row_to_attr@; let ku = k.msp.row_to_attr@;
    index_once(m.attr_to_row@, at); index_once(k.msp.attr_to_row@, ku);
    if n == 0 { lin_zero(drows(k, t), ku, cut(a, at, 0), 0); } else {
        reindex(m, k, t, a, n - 1);
        let f = from_rows(m, k, t); let x = at[n - 1];
        assert(f.take(n).drop_last() =~= f.take(n - 1)); assert(at.take(n).drop_last() =~= at.take(n - 1));
        let r = k.msp.attr_to_row@[x] as int;
        lin_delta(drows(k, t), ku, cut(a, at, n - 1), r, a(x), 0);
        let b = bump(cut(a, at, n - 1), x, a(x));
        assert(cut(a, at, n - 1)(x) == 0) by { if exists|i: int| 0 <= i < n - 1 && #[trigger] at[i] == x { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] at[i] == x; assert(at[i] != at[n - 1]); } }
        assert forall|i: int| 0 <= i < ku.len() implies b(#[trigger] ku[i]) == cut(a, at, n)(ku[i]) by {
            let z = ku[i];
            if exists|j: int| 0 <= j < n - 1 && #[trigger] at[j] == z { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] at[j] == z; assert(0 <= j < n && at[j] == z); }
            if z == x { assert(at[n - 1] == z); }
        }
        lin_asg(drows(k, t), ku, b, cut(a, at, n), 0);
    }
}
pub open spec fn inverses<A: Grp>(inv_t: Seq<A>, t: Seq<int>) -> bool { inv_t.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> cong((#[trigger] inv_t[i]).dl() * t[i], 1) }
pub proof fn delegation_opens<G: BilinearMap, I: Entry>(k: GpswDecryptionKey<G>, m: MonotoneSpanProgram<I>, from: GpswDecryptionKey<G>, inv_t: Seq<G::G3>, t: Seq<int>, u: Seq<int>, y: int)
    requires msp_shape(m), delegated(k, m, from, inv_t, u), sharing(u, m.nb_col as int, 0), inverses(inv_t, t), opens(from, t, y), narrows(m, from.msp)
    ensures opens(k, t, y)
{
    let at = m.row_to_attr@; let n = m.nb_col as int; let rows = m.nb_row as int;
    assert forall|r: int| 0 <= r < rows implies from.msp.attr_to_row@.contains_key(#[trigger] at[r]) && at[r] < t.len() by { assert(del_row::<G, I>(k.raw_d_i@, m, from, inv_t, u, r)); }
    assert forall|a: Asg| #[trigger] spans_e(k.msp, a, 1) implies yields(k, t, y, a) by {
        spans_same(k.msp, m, a, 1);
        let a0 = cut(a, at, rows);
        assert(spans_e(from.msp, a0, 1)); assert(yields(from, t, y, a0));
        reindex(m, from, t, a, rows);
        let f = from_rows(m, from, t); let sh = share_rows(m, u, n);
        assert(f.take(rows) =~= f); assert(at.take(rows) =~= at);
        let sum = Seq::new(rows as nat, |r: int| seq![f[r][0] + 1 * sh[r][0]]);
        lin_comb(sum, f, sh, at, a, 0, 0, 0, 1);
        recombine(m, a, u, n); assert(u.take(n) =~= u);
        assert forall|r: int| 0 <= r < rows implies cong(#[trigger] drows(k, t)[r][0], sum[r][0]) by {
            assert(del_row::<G, I>(k.raw_d_i@, m, from, inv_t, u, r)); assert(at[r] == k.msp.row_to_attr@[r]);
            let d = k.raw_d_i@[r].dl(); let d0 = from.raw_d_i@[from.msp.attr_to_row@[at[r]] as int].dl(); let g = inv_t[at[r] as int].dl(); let s = share(m, r, u); let ti = t[at[r] as int];
            cong_scale(d, d0 + g * s, ti);
            assert((d0 + g * s) * ti == d0 * ti + (g * ti) * s) by (nonlinear_arith);
            cong_scale(g * ti, 1, s); cong_refl(d0 * ti); cong_add(d0 * ti, d0 * ti, (g * ti) * s, 1 * s);
            cong_trans(d * ti, (d0 + g * s) * ti, d0 * ti + 1 * s);
        }
        lin_cong(drows(k, t), sum, at, a, 0);
        let l0 = lin(f, at, a, 0); let l1 = lin(sh, at, a, 0);
        cong_trans(l1, isum(u), 0);
        cong_add(l0, y, l1, 0);
        cong_trans(lin(drows(k, t), at, a, 0), l0 + 1 * l1, y);
    }
}
// ---- decryption: coefficients on positions of gamma against coefficients on attributes
pub open spec fn ind(gamma: Seq<u32>, h: Seq<int>, x: X, n: int) -> Asg decreases n { if n <= 0 { |y: u32| 0int } else { bump(ind(gamma, h, x, n - 1), gamma[h[n - 1]], x(n - 1)) } }
pub proof fn comb_lin<G: BilinearMap>(k: GpswDecryptionKey<G>, gamma: Seq<u32>, h: Seq<int>, x: X, j: int, n: int)
    requires msp_shape(k.msp), 0 <= n <= h.len(), 0 <= j < k.msp.nb_col, forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] h[i] < gamma.len() && k.msp.attr_to_row@.contains_key(gamma[h[i]])
    ensures comb_col(k, gamma, h, x, j, n) == lin(emat(k.msp), k.msp.row_to_attr@, ind(gamma, h, x, n), j) decreases n
{
    let at = k.msp.row_to_attr@;
    if n <= 0 { lin_zero(emat(k.msp), at, ind(gamma, h, x, 0), j); } else {
        comb_lin(k, gamma, h, x, j, n - 1); index_once(k.msp.attr_to_row@, at);
        let i = h[n - 1]; let r = row_of(k, gamma, i);
        lin_delta(emat(k.msp), at, ind(gamma, h, x, n - 1), r, x(n - 1), j);
        assert(k.msp.matrix@[r]@.len() == k.msp.nb_col); assert(emat(k.msp)[r][j] == k.msp.matrix@[r]@[j].v());
    }
}
pub proof fn ones_spans<G: BilinearMap>(k: GpswDecryptionKey<G>, gamma: Seq<u32>, x: X)
    requires msp_shape(k.msp) ensures comb_ones(k, gamma, x) == spans_e(k.msp, ind(gamma, hits(k.msp.attr_to_row@, gamma, gamma.len() as int), x, hits(k.msp.attr_to_row@, gamma, gamma.len() as int).len() as int), 1)
{
    let h = hits(k.msp.attr_to_row@, gamma, gamma.len() as int); let n = h.len() as int; let a = ind(gamma, h, x, n);
    hits_range(k.msp.attr_to_row@, gamma, gamma.len() as int);
    assert forall|j: int| 0 <= j < k.msp.nb_col implies comb_one(k, gamma, x, j) == cong(#[trigger] lin(emat(k.msp), k.msp.row_to_attr@, a, j), 1) by { comb_lin(k, gamma, h, x, j, n); }
    if comb_ones(k, gamma, x) { assert forall|j: int| 0 <= j < k.msp.nb_col implies cong(#[trigger] lin(emat(k.msp), k.msp.row_to_attr@, a, j), 1) by { assert(comb_one(k, gamma, x, j)); } }
    if spans_e(k.msp, a, 1) { assert forall|j: int| 0 <= j < k.msp.nb_col implies #[trigger] comb_one(k, gamma, x, j) by { assert(cong(lin(emat(k.msp), k.msp.row_to_attr@, a, j), 1)); } }
}
// a ciphertext of msg for gamma under the public key (t, y)
pub open spec fn ct_of<G: BilinearMap>(c: GpswCipherText<G>, msg: int, gamma: Seq<u32>, t: Seq<int>, y: int, s: int) -> bool {
    &&& c.gamma@ == gamma && c.e_i@.len() == gamma.len() && cong(c.e_prime.dl(), msg + y * s)
    &&& forall|i: int| 0 <= i < gamma.len() ==> gamma[i] < t.len() && cong((#[trigger] c.e_i@[i]).dl(), t[gamma[i] as int] * s)
}
pub proof fn pair_lin<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, h: Seq<int>, x: X, n: int, msg: int, t: Seq<int>, y: int, s: int)
    requires wf_key(k), ct_of(c, msg, c.gamma@, t, y, s), 0 <= n <= h.len(), forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] h[i] < c.gamma@.len() && k.msp.attr_to_row@.contains_key(c.gamma@[h[i]])
    ensures cong(comb_pair(k, c, h, x, n), lin(drows(k, t), k.msp.row_to_attr@, ind(c.gamma@, h, x, n), 0) * s) decreases n
{
    let at = k.msp.row_to_attr@; let gm = c.gamma@;
    if n <= 0 { lin_zero(drows(k, t), at, ind(gm, h, x, 0), 0); assert(0 * s == 0) by (nonlinear_arith); cong_refl(0); } else {
        pair_lin(k, c, h, x, n - 1, msg, t, y, s); index_once(k.msp.attr_to_row@, at);
        let i = h[n - 1]; let r = row_of(k, gm, i); let l0 = lin(drows(k, t), at, ind(gm, h, x, n - 1), 0);
        lin_delta(drows(k, t), at, ind(gm, h, x, n - 1), r, x(n - 1), 0);
        let d = k.d_i@[r].dl(); let w = k.raw_d_i@[r].dl(); let e = c.e_i@[i].dl(); let ti = t[gm[i] as int]; let a = x(n - 1);
        assert(cong(d, w)); cong_mul(d, w, e, ti * s); cong_scale(d * e, w * (ti * s), a);
        assert(a * d * e == a * (d * e)) by (nonlinear_arith);
        assert((l0 + a * (w * ti)) * s == l0 * s + a * (w * (ti * s))) by (nonlinear_arith);
        cong_add(comb_pair(k, c, h, x, n - 1), l0 * s, a * (d * e), a * (w * (ti * s)));
    }
}
pub proof fn opened_is<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, x: X, msg: int, t: Seq<int>, y: int, s: int)
    requires opens(k, t, y), ct_of(c, msg, c.gamma@, t, y, s), comb_ones(k, c.gamma@, x)
    ensures cong(c.e_prime.dl() - opened(k, c, x), msg)
{
    let gm = c.gamma@; let h = hits(k.msp.attr_to_row@, gm, gm.len() as int); let n = h.len() as int; let a = ind(gm, h, x, n);
    hits_range(k.msp.attr_to_row@, gm, gm.len() as int); ones_spans(k, gm, x); assert(yields(k, t, y, a));
    pair_lin(k, c, h, x, n, msg, t, y, s);
    let l = lin(drows(k, t), k.msp.row_to_attr@, a, 0); let o = opened(k, c, x);
    cong_scale(l, y, s); cong_trans(o, l * s, y * s); cong_sub(c.e_prime.dl(), msg + y * s, o, y * s);
}
// ---- formulas
pub open spec fn wit(n: Node, g: Seq<u32>) -> Asg decreases n {
    match n { Node::Leaf(x) => |y: u32| if y == x { 1int } else { 0 }, Node::Or(l, r) => if sat(*l, g) { wit(*l, g) } else { wit(*r, g) }, Node::And(l, r) => |y: u32| wit(*l, g)(y) + wit(*r, g)(y) }
}
pub open spec fn zero_on(n: Node, a: Asg) -> bool { forall|x: u32| leaves(n).count(x) > 0 ==> #[trigger] a(x) == 0 }
pub open spec fn agree(n: Node, a: Asg, b: Asg) -> bool { forall|x: u32| leaves(n).count(x) > 0 ==> #[trigger] a(x) == b(x) }
pub proof fn flow_zero(n: Node, a: Asg) requires zero_on(n, a) ensures flow(n, a) == 0, ok(n, a) decreases n
{
    match n {
        Node::Leaf(x) => { assert(leaves(n).count(x) == 1); assert(a(x) == 0); }
        Node::Or(l, r) => { assert(zero_on(*l, a)); assert(zero_on(*r, a)); flow_zero(*l, a); flow_zero(*r, a); }
        Node::And(l, r) => { assert(zero_on(*l, a)); assert(zero_on(*r, a)); flow_zero(*l, a); flow_zero(*r, a); cong_refl(0); }
    }
}
pub proof fn flow_agree(n: Node, a: Asg, b: Asg) requires agree(n, a, b) ensures flow(n, a) == flow(n, b), ok(n, a) == ok(n, b) decreases n
{
    match n {
        Node::Leaf(x) => { assert(leaves(n).count(x) == 1); assert(a(x) == b(x)); }
        Node::Or(l, r) => { assert(agree(*l, a, b)); assert(agree(*r, a, b)); flow_agree(*l, a, b); flow_agree(*r, a, b); }
        Node::And(l, r) => { assert(agree(*l, a, b)); assert(agree(*r, a, b)); flow_agree(*l, a, b); flow_agree(*r, a, b); }
    }
}
pub proof fn distinct_parts(l: Node, r: Node, n: Node) requires distinct(leaves(n)), leaves(n) == leaves(l).add(leaves(r))
    ensures distinct(leaves(l)), distinct(leaves(r)), forall|x: u32| #![trigger leaves(l).count(x)] #![trigger leaves(r).count(x)] !(leaves(l).count(x) > 0 && leaves(r).count(x) > 0)
{
    assert forall|x: u32| leaves(l).count(x) + leaves(r).count(x) == #[trigger] leaves(n).count(x) by {}
    assert forall|x: u32| #[trigger] leaves(l).count(x) <= 1 by { assert(leaves(n).count(x) <= 1); }
    assert forall|x: u32| #[trigger] leaves(r).count(x) <= 1 by { assert(leaves(n).count(x) <= 1); }
    assert forall|x: u32| #![trigger leaves(l).count(x)] #![trigger leaves(r).count(x)] !(leaves(l).count(x) > 0 && leaves(r).count(x) > 0) by { assert(leaves(n).count(x) <= 1); }
}
// a satisfied formula has an accepting assignment that only uses satisfied leaves
pub proof fn sat_accepts(n: Node, g: Seq<u32>) requires sat(n, g), distinct(leaves(n))
    ensures flow(n, wit(n, g)) == 1, ok(n, wit(n, g)), forall|x: u32| #[trigger] wit(n, g)(x) != 0 ==> g.contains(x) && leaves(n).count(x) > 0 decreases n
{
    let a = wit(n, g);
    match n {
        Node::Leaf(x) => { assert(leaves(n).count(x) == 1); }
        Node::Or(l, r) => {
            distinct_parts(*l, *r, n);
            if sat(*l, g) { sat_accepts(*l, g); assert(zero_on(*r, a)) by { assert forall|x: u32| leaves(*r).count(x) > 0 implies #[trigger] a(x) == 0 by { if a(x) != 0 { assert(leaves(*l).count(x) > 0); } } } flow_zero(*r, a); }
            else { sat_accepts(*r, g); assert(zero_on(*l, a)) by { assert forall|x: u32| leaves(*l).count(x) > 0 implies #[trigger] a(x) == 0 by { if a(x) != 0 { assert(leaves(*r).count(x) > 0); } } } flow_zero(*l, a); }
            assert forall|x: u32| #[trigger] a(x) != 0 implies g.contains(x) && leaves(n).count(x) > 0 by {}
        }
        Node::And(l, r) => {
            distinct_parts(*l, *r, n); sat_accepts(*l, g); sat_accepts(*r, g);
            let al = wit(*l, g); let ar = wit(*r, g);
            assert(agree(*l, a, al)) by { assert forall|x: u32| leaves(*l).count(x) > 0 implies #[trigger] a(x) == al(x) by { if ar(x) != 0 { assert(leaves(*r).count(x) > 0); } } }
            assert(agree(*r, a, ar)) by { assert forall|x: u32| leaves(*r).count(x) > 0 implies #[trigger] a(x) == ar(x) by { if al(x) != 0 { assert(leaves(*l).count(x) > 0); } } }
            flow_agree(*l, a, al); flow_agree(*r, a, ar); cong_refl(1);
            assert forall|x: u32| #[trigger] a(x) != 0 implies g.contains(x) && leaves(n).count(x) > 0 by { if al(x) == 0 { assert(ar(x) != 0); } }
        }
    }
}
// an accepting assignment only uses leaves that satisfy the formula
pub proof fn accepts_sat(n: Node, a: Asg, g: Seq<u32>) requires ok(n, a), !cong(flow(n, a), 0), forall|x: u32| #[trigger] a(x) != 0 ==> g.contains(x) ensures sat(n, g) decreases n
{
    match n {
        Node::Leaf(x) => { cong_refl(0); assert(a(x) != 0); }
        Node::Or(l, r) => { if cong(flow(*l, a), 0) && cong(flow(*r, a), 0) { cong_add(flow(*l, a), 0, flow(*r, a), 0); } if !cong(flow(*l, a), 0) { accepts_sat(*l, a, g); } else { accepts_sat(*r, a, g); } }
        Node::And(l, r) => { accepts_sat(*l, a, g); if cong(flow(*r, a), 0) { cong_trans(flow(*l, a), flow(*r, a), 0); } accepts_sat(*r, a, g); }
    }
}
// every hit, and the coefficients on positions that realise an assignment
pub proof fn hits_all(rows: Map<u32, usize>, gamma: Seq<u32>, n: int, p: int) requires 0 <= p < n <= gamma.len(), rows.contains_key(gamma[p]) ensures exists|i: int| 0 <= i < hits(rows, gamma, n).len() && #[trigger] hits(rows, gamma, n)[i] == p decreases n
{
    let h = hits(rows, gamma, n);
    if p == n - 1 { assert(h[h.len() - 1] == p); } else {
        hits_all(rows, gamma, n - 1, p); let h0 = hits(rows, gamma, n - 1);
        let i = choose|i: int| 0 <= i < h0.len() && #[trigger] h0[i] == p; assert(h[i] == p);
    }
}
pub open spec fn seen(gamma: Seq<u32>, h: Seq<int>, y: u32, n: int) -> bool { exists|i: int| 0 <= i < n && gamma[#[trigger] h[i]] == y }
pub open spec fn place(gamma: Seq<u32>, h: Seq<int>, a: Asg) -> X { |i: int| if seen(gamma, h, gamma[h[i]], i) { 0 } else { a(gamma[h[i]]) } }
pub proof fn place_ind(gamma: Seq<u32>, h: Seq<int>, a: Asg, y: u32, n: int) requires 0 <= n <= h.len() ensures ind(gamma, h, place(gamma, h, a), n)(y) == (if seen(gamma, h, y, n) { a(y) } else { 0 }) decreases n
{
    if n > 0 {
        place_ind(gamma, h, a, y, n - 1);
        if seen(gamma, h, y, n - 1) { let i = choose|i: int| 0 <= i < n - 1 && gamma[#[trigger] h[i]] == y; assert(0 <= i < n && gamma[h[i]] == y); }
        if gamma[h[n - 1]] == y { assert(seen(gamma, h, y, n)); }
        else if seen(gamma, h, y, n) { let i = choose|i: int| 0 <= i < n && gamma[#[trigger] h[i]] == y; assert(i < n - 1); }
    }
}
// C01: a satisfied formula always gives coefficients
pub proof fn authorised<G: BilinearMap>(k: GpswDecryptionKey<G>, m: MonotoneSpanProgram<i32>, n: Node, gamma: Seq<u32>) -> (x: X)
    requires realises(m, n), same_program(k.msp, m), msp_shape(k.msp), sat(n, gamma) ensures comb_ones(k, gamma, x)
{
    let a = wit(n, gamma); sat_accepts(n, gamma); cong_refl(1); assert(accepts(n, a, 1)); assert(spans(m, a, 1)); spans_int(m, a, 1); spans_same(k.msp, m, a, 1);
    let h = hits(k.msp.attr_to_row@, gamma, gamma.len() as int); let x = place(gamma, h, a); let len = h.len() as int; let b = ind(gamma, h, x, len); let at = k.msp.row_to_attr@;
    hits_range(k.msp.attr_to_row@, gamma, gamma.len() as int);
    assert forall|r: int| 0 <= r < at.len() implies a(#[trigger] at[r]) == b(at[r]) by {
        let y = at[r]; place_ind(gamma, h, a, y, len);
        if a(y) != 0 { let p = choose|p: int| 0 <= p < gamma.len() && gamma[p] == y; hits_all(k.msp.attr_to_row@, gamma, gamma.len() as int, p); let i = choose|i: int| 0 <= i < h.len() && #[trigger] h[i] == p; assert(gamma[h[i]] == y); assert(seen(gamma, h, y, len)); }
    }
    assert forall|j: int| 0 <= j < k.msp.nb_col implies cong(#[trigger] lin(emat(k.msp), at, b, j), 1) by { lin_asg(emat(k.msp), at, a, b, j); assert(cong(lin(emat(k.msp), at, a, j), 1)); }
    ones_spans(k, gamma, x);
    x
}
pub proof fn ind_support(gamma: Seq<u32>, h: Seq<int>, x: X, y: u32, n: int) requires 0 <= n <= h.len(), forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] h[i] < gamma.len(), ind(gamma, h, x, n)(y) != 0 ensures gamma.contains(y) decreases n
{ if n > 0 { if gamma[h[n - 1]] == y { assert(gamma[h[n - 1]] == y); } else { ind_support(gamma, h, x, y, n - 1); } } }
// C02: coefficients exist only for a satisfied formula
pub proof fn only_authorised<G: BilinearMap>(k: GpswDecryptionKey<G>, m: MonotoneSpanProgram<i32>, n: Node, gamma: Seq<u32>, x: X)
    requires realises(m, n), same_program(k.msp, m), msp_shape(k.msp), comb_ones(k, gamma, x) ensures sat(n, gamma)
{
    let h = hits(k.msp.attr_to_row@, gamma, gamma.len() as int); let len = h.len() as int; let a = ind(gamma, h, x, len);
    hits_range(k.msp.attr_to_row@, gamma, gamma.len() as int);
    ones_spans(k, gamma, x); spans_same(k.msp, m, a, 1); spans_int(m, a, 1); assert(accepts(n, a, 1));
    axiom_order(); if cong(flow(n, a), 0) { cong_sym(flow(n, a), 1); cong_trans(1, flow(n, a), 0); cong_small(1, 0); }
    assert forall|y: u32| #[trigger] a(y) != 0 implies gamma.contains(y) by { ind_support(gamma, h, x, y, len); }
    accepts_sat(n, a, gamma);
}
// a formula obtained by replacing "or" nodes by one of their branches
pub proof fn trim_leaves(p: Node, n: Node) requires trims(p, n) ensures forall|x: u32| #[trigger] leaves(p).count(x) <= leaves(n).count(x) decreases n
{
    if p != n { match n {
        Node::Leaf(x) => {}
        Node::Or(l, r) => { if trims(p, *l) { trim_leaves(p, *l); } else if trims(p, *r) { trim_leaves(p, *r); } else { trim_leaves(*p->Or_0, *l); trim_leaves(*p->Or_1, *r); trim_sum(p, n, *p->Or_0, *p->Or_1, *l, *r); } }
        Node::And(l, r) => { trim_leaves(*p->And_0, *l); trim_leaves(*p->And_1, *r); trim_sum(p, n, *p->And_0, *p->And_1, *l, *r); }
    } }
}
pub proof fn trim_sum(p: Node, n: Node, pl: Node, pr: Node, l: Node, r: Node)
    requires leaves(p) == leaves(pl).add(leaves(pr)), leaves(n) == leaves(l).add(leaves(r)), forall|x: u32| #[trigger] leaves(pl).count(x) <= leaves(l).count(x), forall|x: u32| #[trigger] leaves(pr).count(x) <= leaves(r).count(x)
    ensures forall|x: u32| #[trigger] leaves(p).count(x) <= leaves(n).count(x)
{ assert forall|x: u32| #[trigger] leaves(p).count(x) <= leaves(n).count(x) by { assert(leaves(pl).count(x) <= leaves(l).count(x)); assert(leaves(pr).count(x) <= leaves(r).count(x)); } }
pub open spec fn only_on(n: Node, a: Asg) -> bool { forall|x: u32| #[trigger] a(x) != 0 ==> leaves(n).count(x) > 0 }
// outside the leaves of p, a vanishes on the leaves of n
pub open spec fn tight(p: Node, n: Node, a: Asg) -> bool { forall|x: u32| leaves(n).count(x) > 0 && leaves(p).count(x) == 0 ==> #[trigger] a(x) == 0 }
pub proof fn trim_flow(p: Node, n: Node, a: Asg) requires trims(p, n), distinct(leaves(n)), tight(p, n, a) ensures flow(p, a) == flow(n, a), ok(p, a) == ok(n, a) decreases n
{
    if p != n { match n {
        Node::Leaf(x) => {}
        Node::Or(l, r) => {
            distinct_parts(*l, *r, n);
            if trims(p, *l) {
                trim_leaves(p, *l);
                assert(zero_on(*r, a)) by { assert forall|x: u32| leaves(*r).count(x) > 0 implies #[trigger] a(x) == 0 by { assert(leaves(*l).count(x) == 0); assert(leaves(p).count(x) == 0); assert(leaves(n).count(x) > 0); } }
                assert(tight(p, *l, a)) by { assert forall|x: u32| leaves(*l).count(x) > 0 && leaves(p).count(x) == 0 implies #[trigger] a(x) == 0 by { assert(leaves(n).count(x) > 0); } }
                flow_zero(*r, a); trim_flow(p, *l, a);
            } else if trims(p, *r) {
                trim_leaves(p, *r);
                assert(zero_on(*l, a)) by { assert forall|x: u32| leaves(*l).count(x) > 0 implies #[trigger] a(x) == 0 by { assert(leaves(*r).count(x) == 0); assert(leaves(p).count(x) == 0); assert(leaves(n).count(x) > 0); } }
                assert(tight(p, *r, a)) by { assert forall|x: u32| leaves(*r).count(x) > 0 && leaves(p).count(x) == 0 implies #[trigger] a(x) == 0 by { assert(leaves(n).count(x) > 0); } }
                flow_zero(*l, a); trim_flow(p, *r, a);
            } else {
                let pl = *p->Or_0; let pr = *p->Or_1; trim_leaves(pl, *l); trim_leaves(pr, *r);
                trim_pair(p, n, pl, pr, *l, *r, a); trim_flow(pl, *l, a); trim_flow(pr, *r, a);
            }
        }
        Node::And(l, r) => {
            distinct_parts(*l, *r, n);
            let pl = *p->And_0; let pr = *p->And_1; trim_leaves(pl, *l); trim_leaves(pr, *r);
            trim_pair(p, n, pl, pr, *l, *r, a); trim_flow(pl, *l, a); trim_flow(pr, *r, a);
        }
    } }
}
pub proof fn trim_pair(p: Node, n: Node, pl: Node, pr: Node, l: Node, r: Node, a: Asg)
    requires leaves(p) == leaves(pl).add(leaves(pr)), leaves(n) == leaves(l).add(leaves(r)), tight(p, n, a), forall|x: u32| #[trigger] leaves(pl).count(x) <= leaves(l).count(x), forall|x: u32| #[trigger] leaves(pr).count(x) <= leaves(r).count(x),
        forall|x: u32| #![trigger leaves(l).count(x)] #![trigger leaves(r).count(x)] !(leaves(l).count(x) > 0 && leaves(r).count(x) > 0)
    ensures tight(pl, l, a), tight(pr, r, a)
{
    assert forall|x: u32| leaves(l).count(x) > 0 && leaves(pl).count(x) == 0 implies #[trigger] a(x) == 0 by { assert(leaves(r).count(x) == 0); assert(leaves(pr).count(x) == 0); assert(leaves(p).count(x) == 0); assert(leaves(n).count(x) > 0); }
    assert forall|x: u32| leaves(r).count(x) > 0 && leaves(pr).count(x) == 0 implies #[trigger] a(x) == 0 by { assert(leaves(l).count(x) == 0); assert(leaves(pl).count(x) == 0); assert(leaves(p).count(x) == 0); assert(leaves(n).count(x) > 0); }
}
pub proof fn attr_leaf(m: MonotoneSpanProgram<i32>, n: Node, x: u32) requires realises(m, n) ensures (leaves(n).count(x) > 0) == (exists|i: int| 0 <= i < m.nb_row && #[trigger] m.row_to_attr@[i] == x)
{
    let at = m.row_to_attr@; assert(at.to_multiset().count(x) == leaves(n).count(x)); at.to_multiset_ensures();
    if leaves(n).count(x) > 0 { assert(at.contains(x)); let i = choose|i: int| 0 <= i < at.len() && at[i] == x; assert(at[i] == x); }
}
// C04: a trimmed formula narrows
pub proof fn trim_narrows<G: BilinearMap>(mp: MonotoneSpanProgram<i32>, p: Node, k: MonotoneSpanProgram<G::Scalar>, m: MonotoneSpanProgram<i32>, n: Node)
    requires realises(mp, p), realises(m, n), same_program(k, m), trims(p, n) ensures narrows(mp, k)
{
    let at = mp.row_to_attr@; let rows = mp.nb_row as int;
    assert forall|a: Asg| spans_e(mp, a, 1) implies #[trigger] spans_e(k, cut(a, at, rows), 1) by {
        let b = cut(a, at, rows);
        assert forall|r: int| 0 <= r < at.len() implies a(#[trigger] at[r]) == b(at[r]) by { let z = at[r]; assert(0 <= r < rows && at[r] == z); assert(exists|i: int| 0 <= i < rows && #[trigger] at[i] == z); }
        assert forall|j: int| 0 <= j < mp.nb_col implies cong(#[trigger] lin(emat(mp), at, b, j), 1) by { lin_asg(emat(mp), at, a, b, j); assert(cong(lin(emat(mp), at, a, j), 1)); }
        spans_int(mp, b, 1); assert(accepts(p, b, 1));
        assert(tight(p, n, b)) by { assert forall|x: u32| leaves(n).count(x) > 0 && leaves(p).count(x) == 0 implies #[trigger] b(x) == 0 by { attr_leaf(mp, p, x); } }
        trim_flow(p, n, b); assert(accepts(n, b, 1)); assert(spans(m, b, 1)); spans_int(m, b, 1); spans_same(k, m, b, 1);
    }
}
