// ---- keys and ciphertexts over exponents
pub open spec fn isum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last() } }
pub proof fn idot_push(a: Seq<int>, b: Seq<int>, n: int) requires n >= 0 ensures idot(a, b, n + 1) == idot(a, b, n) + a[n] * b[n] {}
pub open spec fn idot(a: Seq<int>, b: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { idot(a, b, n - 1) + a[n - 1] * b[n - 1] } }
pub open spec fn same_row<I: Entry, J: Entry>(a: Seq<I>, b: Seq<J>) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> cong((#[trigger] a[j]).v(), b[j].v()) }
pub open spec fn same_program<I: Entry, J: Entry>(a: MonotoneSpanProgram<I>, b: MonotoneSpanProgram<J>) -> bool {
    &&& a.nb_row == b.nb_row && a.nb_col == b.nb_col && a.attr_to_row@ == b.attr_to_row@ && a.row_to_attr@ == b.row_to_attr@
    &&& a.matrix@.len() == b.matrix@.len()
    &&& forall|r: int| 0 <= r < a.matrix@.len() ==> same_row(#[trigger] a.matrix@[r]@, b.matrix@[r]@)
}
// what #[derive(Clone)] generates
impl<I: Entry + Clone> Clone for MonotoneSpanProgram<I> {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures same_program(r, *self) { unimplemented!() }
}
pub open spec fn share<I: Entry>(m: MonotoneSpanProgram<I>, r: int, u: Seq<int>) -> int { idot(vals(m.matrix@[r]@), u, m.nb_col as int) }
// d_r · t_attr(r) = <M_r, u> for every row
pub open spec fn gen_row<A: Grp, I: Entry>(raw: Seq<A>, m: MonotoneSpanProgram<I>, t: Seq<int>, u: Seq<int>, r: int) -> bool {
    m.row_to_attr@[r] < t.len() && t[m.row_to_attr@[r] as int] != 0 && cong(raw[r].dl() * t[m.row_to_attr@[r] as int], share(m, r, u))
}
pub open spec fn gen_shares<A: Grp, I: Entry>(raw: Seq<A>, m: MonotoneSpanProgram<I>, t: Seq<int>, u: Seq<int>, n: int) -> bool { forall|r: int| 0 <= r < n ==> #[trigger] gen_row(raw, m, t, u, r) }
pub open spec fn del_row<G: BilinearMap, I: Entry>(raw: Seq<G::G3>, m: MonotoneSpanProgram<I>, k: GpswDecryptionKey<G>, inv_t: Seq<G::G3>, u: Seq<int>, r: int) -> bool {
    &&& k.msp.attr_to_row@.contains_key(m.row_to_attr@[r]) && m.row_to_attr@[r] < inv_t.len()
    &&& cong(raw[r].dl(), k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl() + inv_t[m.row_to_attr@[r] as int].dl() * share(m, r, u))
}
// secret sharing vector of y: all entries but the last are fresh
pub open spec fn sharing(u: Seq<int>, n: int, y: int) -> bool { u.len() == n && n > 0 && cong(isum(u), y) && (n > 1 ==> fresh_seq(u.drop_last())) }
pub open spec fn key_of<G: BilinearMap, I: Entry>(k: GpswDecryptionKey<G>, m: MonotoneSpanProgram<I>, t: Seq<int>, u: Seq<int>) -> bool {
    wf_key(k) && same_program(k.msp, m) && gen_shares(k.raw_d_i@, m, t, u, m.nb_row as int)
}
pub open spec fn delegated<G: BilinearMap, I: Entry>(k: GpswDecryptionKey<G>, m: MonotoneSpanProgram<I>, from: GpswDecryptionKey<G>, inv_t: Seq<G::G3>, u: Seq<int>) -> bool {
    wf_key(k) && same_program(k.msp, m) && del_rows::<G, I>(k.raw_d_i@, m, from, inv_t, u, m.nb_row as int)
}
pub proof fn isum_push(s: Seq<int>, x: int) ensures isum(s.push(x)) == isum(s) + x { assert(s.push(x).drop_last() =~= s); }
pub proof fn isum_take<S: Entry>(s: Seq<S>, k: int) requires 0 <= k < s.len() ensures isum(vals(s).take(k + 1)) == isum(vals(s).take(k)) + s[k].v()
{ assert(vals(s).take(k + 1) =~= vals(s).take(k).push(s[k].v())); isum_push(vals(s).take(k), s[k].v()); }
// the accumulator of a sum of scalars
pub proof fn sum_step<S: Entry>(s: Seq<S>, k: int, a0: int, a1: int) requires 0 <= k < s.len(), cong(a0, isum(vals(s).take(k))), cong(a1, a0 + s[k].v()) ensures cong(a1, isum(vals(s).take(k + 1)))
{ isum_take(s, k); cong_refl(s[k].v()); cong_add(a0, isum(vals(s).take(k)), s[k].v(), s[k].v()); cong_trans(a1, a0 + s[k].v(), isum(vals(s).take(k + 1))); }
// fresh entries completed by y - Σ
pub proof fn sum_close<S: Entry>(u0: Seq<S>, u: Seq<S>, sum: int, y: int)
    requires u.len() == u0.len() + 1, u.drop_last() == u0, fresh_seq(vals(u0)), cong(sum, isum(vals(u0).take(u0.len() as int))), cong(u.last().v(), y - sum)
    ensures sharing(vals(u), u.len() as int, y)
{
    assert(vals(u0).take(u0.len() as int) =~= vals(u0)); assert(vals(u).drop_last() =~= vals(u0)); assert(vals(u).last() == u.last().v());
    let s = isum(vals(u0)); cong_refl(y); cong_sub(y, y, sum, s); cong_trans(u.last().v(), y - sum, y - s); cong_refl(s); cong_add(u.last().v(), y - s, s, s);
    assert(isum(vals(u)) == s + u.last().v());
}
pub proof fn sum_close_e<S: Entry>(u0: Seq<S>, u: Seq<S>, y: int)
    requires u.len() == u0.len() + 1, u.drop_last() == u0, fresh_seq(vals(u0)), exists|s: int| #[trigger] cong(s, isum(vals(u0))) && cong(u.last().v(), y - s)
    ensures sharing(vals(u), u.len() as int, y)
{
    let s = choose|s: int| #[trigger] cong(s, isum(vals(u0))) && cong(u.last().v(), y - s);
    assert(vals(u0).take(u0.len() as int) =~= vals(u0)); sum_close(u0, u, s, y);
}
pub proof fn sum_one<S: Entry>(u: Seq<S>, y: int) requires u.len() == 1, u[0].v() == y ensures sharing(vals(u), 1, y)
{ assert(vals(u).drop_last() =~= Seq::empty()); assert(isum(vals(u)) == isum(Seq::<int>::empty()) + y); cong_refl(y); }
pub proof fn gen_step<A: Grp, I: Entry>(raw0: Seq<A>, raw: Seq<A>, m: MonotoneSpanProgram<I>, t: Seq<int>, u: Seq<int>, r: int, s: int, x: int)
    requires r >= 0, gen_shares(raw0, m, t, u, r), raw0.len() == r, raw.len() == r + 1, raw.drop_last() == raw0, m.row_to_attr@[r] < t.len(), t[m.row_to_attr@[r] as int] != 0,
        cong(raw[r].dl(), x), cong(x * t[m.row_to_attr@[r] as int], s), cong(s, share(m, r, u))
    ensures gen_shares(raw, m, t, u, r + 1)
{
    let ti = t[m.row_to_attr@[r] as int]; let d = raw[r].dl();
    cong_scale(d, x, ti); cong_trans(d * ti, x * ti, s); cong_trans(d * ti, s, share(m, r, u));
    assert forall|i: int| 0 <= i < r + 1 implies #[trigger] gen_row(raw, m, t, u, i) by { if i < r { assert(raw[i] == raw0[i]); assert(gen_row(raw0, m, t, u, i)); } else { assert(raw[i].dl() == d); } }
}
pub open spec fn prepared<A: Grp, B: Grp>(d: Seq<A>, raw: Seq<B>, n: int) -> bool { d.len() == n && raw.len() == n && forall|r: int| 0 <= r < n ==> cong((#[trigger] d[r]).dl(), raw[r].dl()) }
pub proof fn shape_same<I: Entry, J: Entry>(a: MonotoneSpanProgram<I>, b: MonotoneSpanProgram<J>) requires same_program(a, b), msp_shape(b) ensures msp_shape(a)
{ assert forall|i: int| 0 <= i < a.nb_row implies (#[trigger] a.matrix@[i])@.len() == a.nb_col by { assert(same_row(a.matrix@[i]@, b.matrix@[i]@)); } }
pub open spec fn del_rows<G: BilinearMap, I: Entry>(raw: Seq<G::G3>, m: MonotoneSpanProgram<I>, k: GpswDecryptionKey<G>, inv_t: Seq<G::G3>, u: Seq<int>, n: int) -> bool {
    forall|r: int| 0 <= r < n ==> #[trigger] del_row::<G, I>(raw, m, k, inv_t, u, r)
}
pub proof fn del_step<G: BilinearMap, I: Entry>(raw0: Seq<G::G3>, raw: Seq<G::G3>, m: MonotoneSpanProgram<I>, k: GpswDecryptionKey<G>, inv_t: Seq<G::G3>, u: Seq<int>, r: int, ps: int, di: int)
    requires del_rows::<G, I>(raw0, m, k, inv_t, u, r), raw0.len() == r, raw.len() == r + 1, raw.drop_last() == raw0, k.msp.attr_to_row@.contains_key(m.row_to_attr@[r]), m.row_to_attr@[r] < inv_t.len(),
        cong(ps, share(m, r, u)), cong(di, inv_t[m.row_to_attr@[r] as int].dl() * ps),
        cong(raw[r].dl(), k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl() + di)
    ensures del_rows::<G, I>(raw, m, k, inv_t, u, r + 1)
{
    let g = inv_t[m.row_to_attr@[r] as int].dl(); let d0 = k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl(); let s = share(m, r, u);
    cong_scale(ps, s, g); cong_trans(di, g * ps, g * s); cong_refl(d0); cong_add(d0, d0, di, g * s); cong_trans(raw[r].dl(), d0 + di, d0 + g * s);
    assert forall|i: int| 0 <= i < r + 1 implies #[trigger] del_row::<G, I>(raw, m, k, inv_t, u, i) by { if i < r { assert(raw[i] == raw0[i]); assert(del_row::<G, I>(raw0, m, k, inv_t, u, i)); } }
}
// the same for the two lists at the end of a turn of the loop
pub proof fn del_step_e<G: BilinearMap, I: Entry>(raw0: Seq<G::G3>, raw: Seq<G::G3>, big0: Seq<G::G1>, big: Seq<G::G1>, m: MonotoneSpanProgram<I>, k: GpswDecryptionKey<G>, inv_t: Seq<G::G3>, u: Seq<int>, r: int)
    requires del_rows::<G, I>(raw0, m, k, inv_t, u, r), raw0.len() == r, raw.len() == r + 1, raw.drop_last() == raw0, k.msp.attr_to_row@.contains_key(m.row_to_attr@[r]), m.row_to_attr@[r] < inv_t.len(),
        prepared(big0, raw0, r), big.len() == r + 1, big.drop_last() == big0,
        exists|ps: int, di: int| cong(ps, share(m, r, u)) && #[trigger] cong(di, inv_t[m.row_to_attr@[r] as int].dl() * ps)
            && cong(raw[r].dl(), k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl() + di) && cong(big[r].dl(), k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl() + di)
    ensures del_rows::<G, I>(raw, m, k, inv_t, u, r + 1), prepared(big, raw, r + 1)
{
    let (ps, di) = choose|ps: int, di: int| cong(ps, share(m, r, u)) && #[trigger] cong(di, inv_t[m.row_to_attr@[r] as int].dl() * ps)
            && cong(raw[r].dl(), k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl() + di) && cong(big[r].dl(), k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl() + di);
    del_step::<G, I>(raw0, raw, m, k, inv_t, u, r, ps, di);
    let d0 = k.raw_d_i@[k.msp.attr_to_row@[m.row_to_attr@[r]] as int].dl();
    cong_sym(raw[r].dl(), d0 + di); cong_trans(big[r].dl(), d0 + di, raw[r].dl());
    prepared_step(raw0, raw, big0, big, r);
}
pub proof fn prepared_step<A: Grp, B: Grp>(raw0: Seq<B>, raw: Seq<B>, big0: Seq<A>, big: Seq<A>, r: int)
    requires prepared(big0, raw0, r), raw.len() == r + 1, raw.drop_last() == raw0, big.len() == r + 1, big.drop_last() == big0, cong(big[r].dl(), raw[r].dl())
    ensures prepared(big, raw, r + 1)
{ assert forall|i: int| 0 <= i < r + 1 implies cong((#[trigger] big[i]).dl(), raw[i].dl()) by { if i < r { assert(big[i] == big0[i] && raw[i] == raw0[i]); } } }
pub proof fn gen_step_e<A: Grp, B: Grp, I: Entry>(raw0: Seq<A>, raw: Seq<A>, big0: Seq<B>, big: Seq<B>, m: MonotoneSpanProgram<I>, t: Seq<int>, u: Seq<int>, r: int)
    requires r >= 0, gen_shares(raw0, m, t, u, r), raw0.len() == r, raw.len() == r + 1, raw.drop_last() == raw0, m.row_to_attr@[r] < t.len(), t[m.row_to_attr@[r] as int] != 0,
        prepared(big0, raw0, r), big.len() == r + 1, big.drop_last() == big0,
        exists|s: int, o: int| cong(s, share(m, r, u)) && #[trigger] cong(o * t[m.row_to_attr@[r] as int], s) && cong(raw[r].dl(), o) && cong(big[r].dl(), o)
    ensures gen_shares(raw, m, t, u, r + 1), prepared(big, raw, r + 1)
{
    let (s, o) = choose|s: int, o: int| cong(s, share(m, r, u)) && #[trigger] cong(o * t[m.row_to_attr@[r] as int], s) && cong(raw[r].dl(), o) && cong(big[r].dl(), o);
    gen_step(raw0, raw, m, t, u, r, s, o);
    cong_sym(raw[r].dl(), o); cong_trans(big[r].dl(), o, raw[r].dl());
    prepared_step(raw0, raw, big0, big, r);
}
// ---- decryption: positions of gamma whose attribute labels a row of the key
pub open spec fn hits(rows: Map<u32, usize>, gamma: Seq<u32>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if rows.contains_key(gamma[n - 1]) { hits(rows, gamma, n - 1).push(n - 1) } else { hits(rows, gamma, n - 1) }
}
pub open spec fn row_of<G: BilinearMap>(k: GpswDecryptionKey<G>, gamma: Seq<u32>, p: int) -> int { k.msp.attr_to_row@[gamma[p]] as int }
// Σ a_k · M_{row k}[j]
pub open spec fn comb_col<G: BilinearMap>(k: GpswDecryptionKey<G>, gamma: Seq<u32>, h: Seq<int>, a: X, j: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { comb_col(k, gamma, h, a, j, n - 1) + a(n - 1) * k.msp.matrix@[row_of(k, gamma, h[n - 1])]@[j].v() }
}
pub open spec fn comb_one<G: BilinearMap>(k: GpswDecryptionKey<G>, gamma: Seq<u32>, a: X, j: int) -> bool {
    let h = hits(k.msp.attr_to_row@, gamma, gamma.len() as int); cong(comb_col(k, gamma, h, a, j, h.len() as int), 1)
}
// the combination a of the rows named by gamma is (1, ..., 1)
pub open spec fn comb_ones<G: BilinearMap>(k: GpswDecryptionKey<G>, gamma: Seq<u32>, a: X) -> bool { forall|j: int| 0 <= j < k.msp.nb_col ==> #[trigger] comb_one(k, gamma, a, j) }
// Σ a_k · d_{row k} · e_k
pub open spec fn comb_pair<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, h: Seq<int>, a: X, n: int) -> int decreases n {
    if n <= 0 { 0 } else { comb_pair(k, c, h, a, n - 1) + a(n - 1) * k.d_i@[row_of(k, c.gamma@, h[n - 1])].dl() * c.e_i@[h[n - 1]].dl() }
}
pub open spec fn opened<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, a: X) -> int { let h = hits(k.msp.attr_to_row@, c.gamma@, c.gamma@.len() as int); comb_pair(k, c, h, a, h.len() as int) }
pub open spec fn picked<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, h: Seq<int>, m: Seq<Vec<G::Scalar>>, d: Seq<&G::G1>, e: Seq<&G::G2>) -> bool {
    &&& m.len() == h.len() && d.len() == h.len() && e.len() == h.len()
    &&& forall|i: int| 0 <= i < h.len() ==> *(#[trigger] d[i]) == k.d_i@[row_of(k, c.gamma@, h[i])]
    &&& forall|i: int| 0 <= i < h.len() ==> *(#[trigger] e[i]) == c.e_i@[h[i]]
    &&& forall|i: int| 0 <= i < h.len() ==> vals((#[trigger] m[i])@) == vals(k.msp.matrix@[row_of(k, c.gamma@, h[i])]@)
}
pub proof fn hits_range(rows: Map<u32, usize>, gamma: Seq<u32>, n: int) requires 0 <= n <= gamma.len()
    ensures forall|i: int| 0 <= i < hits(rows, gamma, n).len() ==> 0 <= #[trigger] hits(rows, gamma, n)[i] < n && rows.contains_key(gamma[hits(rows, gamma, n)[i]]) decreases n
{
    if n > 0 {
        hits_range(rows, gamma, n - 1);
        let h0 = hits(rows, gamma, n - 1); let h = hits(rows, gamma, n);
        assert forall|i: int| 0 <= i < h.len() implies 0 <= #[trigger] h[i] < n && rows.contains_key(gamma[h[i]]) by { if i < h0.len() { assert(h[i] == h0[i]); } }
    }
}
pub proof fn picked_dot<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, h: Seq<int>, m: Seq<Vec<G::Scalar>>, d: Seq<&G::G1>, e: Seq<&G::G2>, a: X, j: int, n: int)
    requires picked(k, c, h, m, d, e), 0 <= n <= h.len(), 0 <= j < k.msp.nb_col, msp_shape(k.msp), forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] h[i] < c.gamma@.len() && k.msp.attr_to_row@.contains_key(c.gamma@[h[i]])
    ensures dot(m, n, a, j) == comb_col(k, c.gamma@, h, a, j, n) decreases n
{
    if n > 0 {
        picked_dot(k, c, h, m, d, e, a, j, n - 1);
        let r = row_of(k, c.gamma@, h[n - 1]);
        assert(vals(m[n - 1]@) == vals(k.msp.matrix@[r]@)); assert(k.msp.matrix@[r]@.len() == k.msp.nb_col);
        assert(vals(m[n - 1]@).len() == m[n - 1]@.len()); assert(vals(m[n - 1]@)[j] == m[n - 1]@[j].v()); assert(vals(k.msp.matrix@[r]@)[j] == k.msp.matrix@[r]@[j].v());
    }
}
// indices of the non-zero coefficients
pub open spec fn nz(a: Seq<int>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else if a[n - 1] == 0 { nz(a, n - 1) } else { nz(a, n - 1).push(n - 1) } }
pub proof fn nz_range(a: Seq<int>, n: int) requires 0 <= n <= a.len() ensures forall|i: int| 0 <= i < nz(a, n).len() ==> 0 <= #[trigger] nz(a, n)[i] < n decreases n
{
    if n > 0 {
        nz_range(a, n - 1);
        let h0 = nz(a, n - 1); let h = nz(a, n);
        assert forall|i: int| 0 <= i < h.len() implies 0 <= #[trigger] h[i] < n by { if i < h0.len() { assert(h[i] == h0[i]); } }
    }
}
pub proof fn nz_none<S: ScalarOps>(m: Seq<Vec<S>>, s: Seq<int>, n: int, j: int) requires 0 <= n <= s.len(), nz(s, n).len() == 0 ensures dot(m, n, seqx(s), j) == 0 decreases n
{ if n > 0 { assert(s[n - 1] == 0 || nz(s, n) == nz(s, n - 1).push(n - 1)); nz_none(m, s, n - 1, j); assert(seqx(s)(n - 1) == 0); assert(0 * ent(m, n - 1, j) == 0) by (nonlinear_arith); } }
pub open spec fn sel<T>(f: Seq<T>, s: Seq<T>, idx: Seq<int>) -> bool { f.len() == idx.len() && forall|i: int| 0 <= i < idx.len() ==> #[trigger] f[i] == s[idx[i]] }
pub proof fn nz_pair<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, h: Seq<int>, m: Seq<Vec<G::Scalar>>, d: Seq<&G::G1>, e: Seq<&G::G2>, s: Seq<G::Scalar>, df: Seq<&G::G1>, ef: Seq<&G::G2>, af: Seq<&G::Scalar>, n: int)
    requires picked(k, c, h, m, d, e), s.len() >= n, 0 <= n <= h.len(), sel(df, d, nz(vals(s), n)), sel(ef, e, nz(vals(s), n)), af.len() == nz(vals(s), n).len(), forall|i: int| 0 <= i < af.len() ==> *(#[trigger] af[i]) == s[nz(vals(s), n)[i]]
    ensures psum(df, ef, af, af.len() as int) == comb_pair(k, c, h, seqx(vals(s)), n) decreases n
{
    nz_range(vals(s), n);
    if n > 0 {
        let z = nz(vals(s), n); let z0 = nz(vals(s), n - 1);
        let D = k.d_i@[row_of(k, c.gamma@, h[n - 1])].dl(); let E = c.e_i@[h[n - 1]].dl();
        if s[n - 1].v() == 0 {
            nz_pair(k, c, h, m, d, e, s, df, ef, af, n - 1);
            assert(seqx(vals(s))(n - 1) == 0); assert(0 * D * E == 0) by (nonlinear_arith);
        } else {
            assert(z == z0.push(n - 1));
            let l = z0.len() as int;
            assert forall|i: int| 0 <= i < z0.len() implies z[i] == z0[i] by {}
            nz_pair(k, c, h, m, d, e, s, df.drop_last(), ef.drop_last(), af.drop_last(), n - 1);
            psum_prefix(df, ef, af, df.drop_last(), ef.drop_last(), af.drop_last(), l);
            assert(df[l] == d[n - 1]); assert(ef[l] == e[n - 1]); assert(*af[l] == s[n - 1]);
            assert(seqx(vals(s))(n - 1) == s[n - 1].v());
        }
    }
}
pub proof fn psum_prefix<A: Grp, B: Grp, S: Entry>(d: Seq<&A>, e: Seq<&B>, a: Seq<&S>, d2: Seq<&A>, e2: Seq<&B>, a2: Seq<&S>, n: int)
    requires n <= d.len(), n <= e.len(), n <= a.len(), n <= d2.len(), n <= e2.len(), n <= a2.len(), forall|i: int| 0 <= i < n ==> #[trigger] d[i] == d2[i], forall|i: int| 0 <= i < n ==> #[trigger] e[i] == e2[i], forall|i: int| 0 <= i < n ==> #[trigger] a[i] == a2[i]
    ensures psum(d, e, a, n) == psum(d2, e2, a2, n) decreases n
{ if n > 0 { psum_prefix(d, e, a, d2, e2, a2, n - 1); assert(a[n - 1] == a2[n - 1]); } }
pub open spec fn enc_of<G: BilinearMap>(c: GpswCipherText<G>, msg: int, gamma: Seq<u32>, pk: GpswMasterPublicKey<G>, s: int) -> bool {
    &&& c.gamma@ == gamma && c.e_i@.len() == gamma.len() && cong(c.e_prime.dl(), msg + pk.y.dl() * s)
    &&& forall|i: int| 0 <= i < gamma.len() ==> gamma[i] < pk.t_i@.len() && cong((#[trigger] c.e_i@[i]).dl(), pk.t_i@[gamma[i] as int].dl() * s)
}
