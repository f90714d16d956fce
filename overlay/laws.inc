// ---- what the contracts of the scheme amount to
pub proof fn issue_law<G: BilinearMap>(k: GpswDecryptionKey<G>, m: MonotoneSpanProgram<i32>, n: Node, t: Seq<int>, u: Seq<int>, y: int)
    requires realises(m, n), sharing(u, m.nb_col as int, y), key_of(k, m, t, u) ensures good_key(k, n, t, y)
{ keygen_opens(k, m, t, u, y); assert(program_of(k, n, m)); }
pub proof fn ct_law<G: BilinearMap>(c: GpswCipherText<G>, md: int, gamma: Seq<u32>, pr: GpswMasterPrivateKey<G>, pb: GpswMasterPublicKey<G>, del: GpswMasterPublicDelegationKey<G>, t: Seq<int>, y: int, s: int)
    requires authority(pr, pb, del, t, y), enc_of::<G>(c, md, gamma, pb, s) ensures ct_of(c, md, gamma, t, y, s)
{
    let yy = pb.y.dl();
    cong_scale(yy, y, s); cong_refl(md); cong_add(md, md, yy * s, y * s); cong_trans(c.e_prime.dl(), md + yy * s, md + y * s);
    assert forall|i: int| 0 <= i < gamma.len() implies (#[trigger] gamma[i]) < t.len() by { assert(cong(c.e_i@[i].dl(), pb.t_i@[gamma[i] as int].dl() * s)); }
    assert forall|i: int| 0 <= i < gamma.len() implies cong((#[trigger] c.e_i@[i]).dl(), t[gamma[i] as int] * s) by {
        let x = gamma[i] as int; let d = pb.t_i@[x].dl(); assert(cong(c.e_i@[i].dl(), d * s)); assert(gamma[i] < t.len()); assert(t[x] != 0); cong_scale(d, t[x], s); cong_trans(c.e_i@[i].dl(), d * s, t[x] * s);
    }
}
// what decrypt's contract says about its result (an error is no plaintext)
pub open spec fn decrypted_as<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, r: Option<G::Gt>) -> bool {
    match r {
        Some(m) => (c.e_prime.member() ==> m.member()) && exists|a: X| #[trigger] comb_ones(k, c.gamma@, a) && cong(m.dl(), c.e_prime.dl() - opened(k, c, a)),
        None => (forall|a: X| !#[trigger] comb_ones(k, c.gamma@, a)) || hits(k.msp.attr_to_row@, c.gamma@, c.gamma@.len() as int).len() == 0,
    }
}
pub proof fn open_law<G: BilinearMap>(k: GpswDecryptionKey<G>, c: GpswCipherText<G>, n: Node, msg: int, t: Seq<int>, y: int, s: int, r: Option<G::Gt>)
    requires good_key(k, n, t, y), ct_of(c, msg, c.gamma@, t, y, s), decrypted_as(k, c, r)
    ensures sat(n, c.gamma@) ==> (r is Some && cong((r->Some_0).dl(), msg)), !sat(n, c.gamma@) ==> r is None
{
    let m = choose|m: MonotoneSpanProgram<i32>| #[trigger] program_of(k, n, m);
    if sat(n, c.gamma@) {
        let x = authorised(k, m, n, c.gamma@);
        let h = hits(k.msp.attr_to_row@, c.gamma@, c.gamma@.len() as int);
        if h.len() == 0 { assert(comb_one(k, c.gamma@, x, 0)); axiom_order(); cong_sym(0, 1); cong_small(1, 0); }
        assert(r is Some);
        let a = choose|a: X| #[trigger] comb_ones(k, c.gamma@, a) && cong((r->Some_0).dl(), c.e_prime.dl() - opened(k, c, a));
        opened_is(k, c, a, msg, t, y, s); cong_trans((r->Some_0).dl(), c.e_prime.dl() - opened(k, c, a), msg);
    } else if r is Some {
        let a = choose|a: X| #[trigger] comb_ones(k, c.gamma@, a) && cong((r->Some_0).dl(), c.e_prime.dl() - opened(k, c, a));
        only_authorised(k, m, n, c.gamma@, a);
    }
}
pub proof fn delegate_law<G: BilinearMap>(d: GpswDecryptionKey<G>, k: GpswDecryptionKey<G>, mp: MonotoneSpanProgram<i32>, p: Node, n: Node, inv_t: Seq<G::G3>, t: Seq<int>, u: Seq<int>, y: int)
    requires good_key(k, n, t, y), inverses(inv_t, t), realises(mp, p), trims(p, n), sharing(u, mp.nb_col as int, 0), delegated::<G, i32>(d, mp, k, inv_t, u) ensures good_key(d, p, t, y)
{
    let m = choose|m: MonotoneSpanProgram<i32>| #[trigger] program_of(k, n, m);
    trim_narrows::<G>(mp, p, k.msp, m, n); delegation_opens(d, mp, k, inv_t, t, u, y); assert(program_of(d, p, mp));
}
pub proof fn randomise_law<G: BilinearMap>(d: GpswDecryptionKey<G>, k: GpswDecryptionKey<G>, n: Node, inv_t: Seq<G::G3>, t: Seq<int>, u: Seq<int>, y: int)
    requires good_key(k, n, t, y), inverses(inv_t, t), sharing(u, k.msp.nb_col as int, 0), delegated::<G, G::Scalar>(d, k.msp, k, inv_t, u) ensures good_key(d, n, t, y)
{
    let m = choose|m: MonotoneSpanProgram<i32>| #[trigger] program_of(k, n, m);
    assert(narrows(k.msp, k.msp)) by {
        assert forall|a: Asg| spans_e(k.msp, a, 1) implies #[trigger] spans_e(k.msp, cut(a, k.msp.row_to_attr@, k.msp.nb_row as int), 1) by {
            let at = k.msp.row_to_attr@; let b = cut(a, at, k.msp.nb_row as int);
            assert forall|r: int| 0 <= r < at.len() implies a(#[trigger] at[r]) == b(at[r]) by { let z = at[r]; assert(exists|i: int| 0 <= i < k.msp.nb_row && #[trigger] at[i] == z); }
            assert forall|j: int| 0 <= j < k.msp.nb_col implies cong(#[trigger] lin(emat(k.msp), at, b, j), 1) by { lin_asg(emat(k.msp), at, a, b, j); assert(cong(lin(emat(k.msp), at, a, j), 1)); }
        }
    }
    delegation_opens(d, k.msp, k, inv_t, t, u, y);
    program_trans::<G>(d.msp, k.msp, m); assert(program_of(d, n, m));
}
