// ---- authorities and their keys
pub open spec fn authority<G: BilinearMap>(pr: GpswMasterPrivateKey<G>, pb: GpswMasterPublicKey<G>, del: GpswMasterPublicDelegationKey<G>, t: Seq<int>, y: int) -> bool {
    &&& t == vals(pr.t_i@) && y == pr.y.v() && cong(pb.y.dl(), y) && pb.t_i@.len() == t.len() && inverses(del.inv_t_i@, t)
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 0 && cong(pb.t_i@[i].dl(), t[i])
}
// a key of the authority (t, y) for the formula n
pub open spec fn program_of<G: BilinearMap>(k: GpswDecryptionKey<G>, n: Node, m: MonotoneSpanProgram<i32>) -> bool { realises(m, n) && same_program(k.msp, m) }
pub open spec fn good_key<G: BilinearMap>(k: GpswDecryptionKey<G>, n: Node, t: Seq<int>, y: int) -> bool { opens(k, t, y) && exists|m: MonotoneSpanProgram<i32>| #[trigger] program_of(k, n, m) }
pub open spec fn known(n: Node, size: int) -> bool { forall|x: u32| #[trigger] leaves(n).count(x) > 0 ==> x < size }
pub proof fn row_known(m: MonotoneSpanProgram<i32>, n: Node, r: int) requires realises(m, n), 0 <= r < m.nb_row ensures leaves(n).count(m.row_to_attr@[r]) > 0 { attr_leaf(m, n, m.row_to_attr@[r]); let x = m.row_to_attr@[r]; assert(exists|i: int| 0 <= i < m.nb_row && #[trigger] m.row_to_attr@[i] == x); }
pub proof fn program_trans<G: BilinearMap>(a: MonotoneSpanProgram<G::Scalar>, b: MonotoneSpanProgram<G::Scalar>, c: MonotoneSpanProgram<i32>) requires same_program(a, b), same_program(b, c), msp_shape(b) ensures same_program(a, c)
{
    assert forall|r: int| 0 <= r < a.matrix@.len() implies same_row(#[trigger] a.matrix@[r]@, c.matrix@[r]@) by {
        let x = a.matrix@[r]@; let y = b.matrix@[r]@; let z = c.matrix@[r]@; assert(same_row(x, y)); assert(same_row(y, z));
        assert forall|j: int| 0 <= j < x.len() implies cong((#[trigger] x[j]).v(), z[j].v()) by { assert(cong(y[j].v(), z[j].v())); cong_trans(x[j].v(), y[j].v(), z[j].v()); }
    }
}
