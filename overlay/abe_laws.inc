// ---- what the group and its codecs provide; proved for Bls12_381 below
pub open spec fn able<G: BilinearMap>() -> bool {
    &&& sized::<G::Scalar>() && sized::<G::G2>() && sized::<G::G3>() && sized::<G::Gt>()
    &&& forall|x: G::Scalar| #[trigger] x.wf() && x.fits()
    &&& forall|x: G::G2| #[trigger] x.wf() && x.fits()
    &&& forall|x: G::G3| #[trigger] x.wf() && x.fits()
    &&& forall|x: G::Gt| #[trigger] x.wf() && x.fits()
    &&& forall|x: G::Scalar, y: G::Scalar| #[trigger] x.same(&y) ==> cong(x.v(), y.v())
    &&& forall|x: G::G2, y: G::G2| #[trigger] x.same(&y) ==> cong(x.dl(), y.dl())
    &&& forall|x: G::G3, y: G::G3| #[trigger] x.same(&y) ==> cong(x.dl(), y.dl())
    &&& forall|x: G::Gt, y: G::Gt| #[trigger] x.same(&y) ==> cong(x.dl(), y.dl()) && x.member() == y.member()
    &&& forall|x: G::Gt, y: G::Gt| cong(x.dl(), y.dl()) && x.member() && y.member() ==> #[trigger] x.same(&y)
}
pub proof fn law_all<G: BilinearMap>() requires able::<G>() ensures able::<G>() {}
pub proof fn law_gt<G: BilinearMap>(x: G::Gt, y: G::Gt) requires able::<G>(), cong(x.dl(), y.dl()), x.member(), y.member() ensures x.same(&y) {}
pub proof fn authority_made<G: BilinearMap>(pr: GpswMasterPrivateKey<G>, pb: GpswMasterPublicKey<G>, del: GpswMasterPublicDelegationKey<G>)
    requires pb.t_i@.len() == pr.t_i@.len(), del.inv_t_i@.len() == pr.t_i@.len(), cong(pb.y.dl(), pr.y.v()),
        forall|i: int| 0 <= i < pr.t_i@.len() ==> (#[trigger] pr.t_i@[i]).v() != 0 && cong(pb.t_i@[i].dl(), pr.t_i@[i].v()) && cong(del.inv_t_i@[i].dl() * pr.t_i@[i].v(), 1)
    ensures authority(pr, pb, del, vals(pr.t_i@), pr.y.v())
{
    let t = vals(pr.t_i@);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 0 && cong(pb.t_i@[i].dl(), t[i]) && cong(del.inv_t_i@[i].dl() * t[i], 1) by { assert(pr.t_i@[i].v() != 0); }
    assert forall|i: int| 0 <= i < t.len() implies cong((#[trigger] del.inv_t_i@[i]).dl() * t[i], 1) by { assert(t[i] != 0); }
}
// decoded copies of the keys of an authority are the keys of that authority
pub proof fn authority_copied<G: BilinearMap>(pr: GpswMasterPrivateKey<G>, pb: GpswMasterPublicKey<G>, del: GpswMasterPublicDelegationKey<G>, pr2: GpswMasterPrivateKey<G>, pb2: GpswMasterPublicKey<G>, del2: GpswMasterPublicDelegationKey<G>)
    requires able::<G>(), authority(pr, pb, del, vals(pr.t_i@), pr.y.v()), pb.y.member(), pr.same(&pr2), pb.same(&pb2), del.same(&del2)
    ensures authority(pr2, pb2, del2, vals(pr2.t_i@), pr2.y.v()), pb2.y.member(), vals(pr2.t_i@) == vals(pr.t_i@), pr2.y.v() == pr.y.v()
{
    let t = vals(pr.t_i@); let t2 = vals(pr2.t_i@); let (y, y2) = (pr.y.v(), pr2.y.v());
    assert(pr.y.same(&pr2.y)); pr.y.canon(); pr2.y.canon(); cong_small(y, y2);
    assert forall|i: int| 0 <= i < t.len() implies t[i] == t2[i] by { assert(pr.t_i@[i].same(&pr2.t_i@[i])); pr.t_i@[i].canon(); pr2.t_i@[i].canon(); cong_small(t[i], t2[i]); }
    assert(t =~= t2);
    assert(pb.y.same(&pb2.y)); cong_sym(pb.y.dl(), pb2.y.dl()); cong_trans(pb2.y.dl(), pb.y.dl(), y);
    assert forall|i: int| 0 <= i < t2.len() implies #[trigger] t2[i] != 0 && cong(pb2.t_i@[i].dl(), t2[i]) by { assert(t[i] != 0); assert(pb.t_i@[i].same(&pb2.t_i@[i])); cong_sym(pb.t_i@[i].dl(), pb2.t_i@[i].dl()); cong_trans(pb2.t_i@[i].dl(), pb.t_i@[i].dl(), t[i]); }
    assert forall|i: int| 0 <= i < t2.len() implies cong((#[trigger] del2.inv_t_i@[i]).dl() * t2[i], 1) by { let (a, b) = (del.inv_t_i@[i], del2.inv_t_i@[i]); assert(a.same(&b)); cong_sym(a.dl(), b.dl()); cong_scale(b.dl(), a.dl(), t[i]); cong_trans(b.dl() * t[i], a.dl() * t[i], 1); }
}
pub proof fn key_able<G: BilinearMap>(k: GpswDecryptionKey<G>) requires able::<G>(), wf_key(k) ensures k.wf()
{
    assert forall|r: int| 0 <= r < k.msp.matrix@.len() implies (#[trigger] k.msp.matrix@[r])@.len() == k.msp.nb_col && all_wf(k.msp.matrix@[r]@) by { }
    assert(all_wf(k.raw_d_i@));
}
pub proof fn ct_sized<G: BilinearMap>(c: GpswCipherText<G>, md: int, gamma: Seq<u32>, pb: GpswMasterPublicKey<G>) requires able::<G>(), exists|s: int| #[trigger] enc_of::<G>(c, md, gamma, pb, s)
    ensures c.wf(), 0 < gamma.len() < u32::MAX ==> c.fits(), c.enc().len() <= 0x2000 * (gamma.len() + 1), forall|i: int| 0 <= i < gamma.len() ==> #[trigger] gamma[i] < pb.t_i@.len(), !c.whole()
{
    let s = choose|s: int| #[trigger] enc_of::<G>(c, md, gamma, pb, s);
    assert(all_wf(c.gamma@)); assert(all_wf(c.e_i@)); let n = gamma.len() as int; let k = G::G2::size()->0;
    flat_len(c.gamma@, n); flat_len(c.e_i@, n); c.e_prime.size_is();
    assert(n * k <= n * 0x1000) by(nonlinear_arith) requires n >= 0, k <= 0x1000;
    assert forall|i: int| 0 <= i < gamma.len() implies #[trigger] gamma[i] < pb.t_i@.len() by { assert(cong(c.e_i@[i].dl(), pb.t_i@[gamma[i] as int].dl() * s)); }
}
pub proof fn ct_copied<G: BilinearMap>(c: GpswCipherText<G>, d: GpswCipherText<G>, md: int, gamma: Seq<u32>, pb: GpswMasterPublicKey<G>, s: int) requires able::<G>(), enc_of::<G>(c, md, gamma, pb, s), c.same(&d), d.wf() ensures enc_of::<G>(d, md, gamma, pb, s), c.e_prime.member() == d.e_prime.member()
{
    assert(d.gamma@ =~= gamma) by { assert forall|i: int| 0 <= i < gamma.len() implies d.gamma@[i] == gamma[i] by { assert(c.gamma@[i].same(&d.gamma@[i])); } }
    assert(c.e_prime.same(&d.e_prime)); cong_sym(c.e_prime.dl(), d.e_prime.dl()); cong_trans(d.e_prime.dl(), c.e_prime.dl(), md + pb.y.dl() * s);
    assert forall|i: int| 0 <= i < gamma.len() implies (#[trigger] gamma[i]) < pb.t_i@.len() by { assert(cong(c.e_i@[i].dl(), pb.t_i@[gamma[i] as int].dl() * s)); }
    assert forall|i: int| 0 <= i < gamma.len() implies cong((#[trigger] d.e_i@[i]).dl(), pb.t_i@[gamma[i] as int].dl() * s) by {
        assert(c.e_i@[i].same(&d.e_i@[i])); cong_sym(c.e_i@[i].dl(), d.e_i@[i].dl()); cong_trans(d.e_i@[i].dl(), c.e_i@[i].dl(), pb.t_i@[gamma[i] as int].dl() * s);
    }
    assert(d.e_i@.len() == gamma.len()); assert(d.gamma@ == gamma); assert(cong(d.e_prime.dl(), md + pb.y.dl() * s)); assert(enc_of::<G>(d, md, gamma, pb, s));
}
pub proof fn key_copied<G: BilinearMap>(k: GpswDecryptionKey<G>, d: GpswDecryptionKey<G>, n: Node, t: Seq<int>, y: int) requires able::<G>(), good_key(k, n, t, y), k.same(&d), d.wf() ensures good_key(d, n, t, y)
{
    let m = choose|m: MonotoneSpanProgram<i32>| #[trigger] program_of(k, n, m);
    assert(same_program(d.msp, k.msp)) by {
        assert forall|r: int| 0 <= r < d.msp.matrix@.len() implies same_row(#[trigger] d.msp.matrix@[r]@, k.msp.matrix@[r]@) by {
            assert(k.msp.matrix@[r]@.len() == d.msp.matrix@[r]@.len());
            assert forall|j: int| 0 <= j < d.msp.matrix@[r]@.len() implies cong((#[trigger] d.msp.matrix@[r]@[j]).v(), k.msp.matrix@[r]@[j].v()) by { assert(k.msp.matrix@[r]@[j].same(&d.msp.matrix@[r]@[j])); cong_sym(k.msp.matrix@[r]@[j].v(), d.msp.matrix@[r]@[j].v()); }
        }
    }
    program_trans::<G>(d.msp, k.msp, m); assert(program_of(d, n, m));
    let at = k.msp.row_to_attr@;
    assert forall|a: Asg| #[trigger] spans_e(d.msp, a, 1) implies yields(d, t, y, a) by {
        spans_same(d.msp, k.msp, a, 1); assert(spans_e(k.msp, a, 1)); assert(yields(k, t, y, a));
        assert forall|r: int| 0 <= r < drows(d, t).len() implies cong(#[trigger] drows(d, t)[r][0], drows(k, t)[r][0]) by { assert(k.raw_d_i@[r].same(&d.raw_d_i@[r])); cong_sym(k.raw_d_i@[r].dl(), d.raw_d_i@[r].dl()); cong_scale(d.raw_d_i@[r].dl(), k.raw_d_i@[r].dl(), t[at[r] as int]); }
        lin_cong(drows(d, t), drows(k, t), at, a, 0); cong_trans(lin(drows(d, t), at, a, 0), lin(drows(k, t), at, a, 0), y);
    }
}
