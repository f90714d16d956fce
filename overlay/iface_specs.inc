// ---- results of calls
pub open spec fn key_pair(p: Policy, pr: MasterPrivateKey, pb: MasterPublicKey) -> bool { Scheme::slots(&pr) == p.max_attribute_creations + 1 && exists|del: MasterPublicDelegationKey| #[trigger] Scheme::authority(&pr, &pb, &del) }
pub proof fn own_keys() ensures forall|pr: MasterPrivateKey, pb: MasterPublicKey, del: MasterPublicDelegationKey| #[trigger] Scheme::authority(&pr, &pb, &del) ==> pr.wf() && pb.wf() && pr.enc().len() <= 0x1000 * (Scheme::slots(&pr) + 2) && pb.enc().len() <= 0x1000 * (Scheme::slots(&pr) + 2) && (0 < Scheme::slots(&pr) < u32::MAX ==> pr.fits() && pb.fits() && del.fits()) && del.wf() && del.enc().len() <= 0x1000 * (Scheme::slots(&pr) + 2)
{
    scheme_able();
    assert forall|pr: MasterPrivateKey, pb: MasterPublicKey, del: MasterPublicDelegationKey| #[trigger] Scheme::authority(&pr, &pb, &del) implies pr.wf() && pb.wf() && pr.enc().len() <= 0x1000 * (Scheme::slots(&pr) + 2) && pb.enc().len() <= 0x1000 * (Scheme::slots(&pr) + 2) && (0 < Scheme::slots(&pr) < u32::MAX ==> pr.fits() && pb.fits() && del.fits()) && del.wf() && del.enc().len() <= 0x1000 * (Scheme::slots(&pr) + 2) by { Scheme::own_codec(&pr, &pb, &del); }
}
pub proof fn pairs(p: Policy) ensures forall|pr: MasterPrivateKey, pb: MasterPublicKey, del: MasterPublicDelegationKey| #[trigger] Scheme::authority(&pr, &pb, &del) && Scheme::slots(&pr) == p.max_attribute_creations + 1 ==> key_pair(p, pr, pb) { }
pub proof fn cat_empty() ensures forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
// rotation of a list of attributes, and why it stops
pub open spec fn rotated(p: Policy, l: Seq<Attribute>, q: Policy) -> bool decreases l.len() { if l.len() == 0 { q == p } else { exists|m: Policy| rotated(p, l.drop_last(), m) && #[trigger] stepped(m, q, l.last()) } }
pub open spec fn stepped(m: Policy, q: Policy, a: Attribute) -> bool { m.last_attribute_value < m.max_attribute_creations && renewed(m, q, att(a), (m.last_attribute_value + 1) as u32) }
pub open spec fn stuck(p: Policy, l: Seq<Attribute>) -> bool { p.last_attribute_value > p.max_attribute_creations || exists|i: int, m: Policy| 0 <= i < l.len() && #[trigger] rotated(p, l.take(i), m) && (m.last_attribute_value >= m.max_attribute_creations || !m.attribute_to_int.view().contains_key(att(l[i]))) }
pub open spec fn key_pair_bytes(pr: MasterPrivateKey, pb: MasterPublicKey) -> Seq<u8> { be4(pr.enc().len() as u32) + pr.enc() + pb.enc() }
