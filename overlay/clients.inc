// ---- clients: the properties as consequences of the contracts alone (a call is known by its contract only)
pub fn client_setup<G: BilinearMap>(g: &Gpsw<G>, n: usize) -> (res: (GpswMasterKey<G>, Ghost<Seq<int>>, Ghost<int>))
    ensures authority(res.0.priv_key, res.0.pub_key, res.0.del_key, res.1@, res.2@), res.1@.len() == n
{
    let k = match g.generate_master_key(n) { Ok(k) => k, Err(_) => __panic() };
    let ghost t = vals(k.priv_key.t_i@); let ghost y = k.priv_key.y.v();
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] t[i] != 0 && cong(k.pub_key.t_i@[i].dl(), t[i]) && cong(k.del_key.inv_t_i@[i].dl() * t[i], 1) by { assert(k.priv_key.t_i@[i].v() != 0); }
        assert forall|i: int| 0 <= i < n implies cong((#[trigger] k.del_key.inv_t_i@[i]).dl() * t[i], 1) by { assert(t[i] != 0); }
    }
    (k, Ghost(t), Ghost(y))
}
// C01, C02: key generation gives a key of the authority for the formula, or reports a formula that cannot be served
pub fn client_issue<G: BilinearMap>(g: &Gpsw<G>, pr: &GpswMasterPrivateKey<G>, pb: &GpswMasterPublicKey<G>, del: &GpswMasterPublicDelegationKey<G>, n: &Node, Ghost(t): Ghost<Seq<int>>, Ghost(y): Ghost<int>) -> (res: Option<GpswDecryptionKey<G>>)
    requires authority(*pr, *pb, *del, t, y), size(*n) < usize::MAX
    ensures match res { Some(k) => good_key(k, *n, t, y) && distinct(leaves(*n)) && known(*n, t.len() as int), None => !distinct(leaves(*n)) || !known(*n, t.len() as int) }
{
    let m = match n.to_msp() { Ok(m) => m, Err(_) => return None };
    match g.key_generation(&m, pr) {
        Ok(k) => {
            proof {
                let u = choose|u: Seq<int>| sharing(u, m.nb_col as int, pr.y.v()) && #[trigger] key_of(k, m, t, u);
                issue_law(k, m, *n, t, u, y);
                assert forall|x: u32| #[trigger] leaves(*n).count(x) > 0 implies x < t.len() by { attr_leaf(m, *n, x); let i = choose|i: int| 0 <= i < m.nb_row && #[trigger] m.row_to_attr@[i] == x; assert(gen_row(k.raw_d_i@, m, t, u, i)); }
            }
            Some(k)
        }
        Err(_) => {
            proof {
                let r = choose|r: int| 0 <= r < m.nb_row && ((#[trigger] m.row_to_attr@[r]) >= pr.t_i@.len() || pr.t_i@[m.row_to_attr@[r] as int].v() == 0);
                row_known(m, *n, r); if m.row_to_attr@[r] < t.len() { assert(t[m.row_to_attr@[r] as int] != 0); }
            }
            None
        }
    }
}
pub fn client_encrypt<G: BilinearMap>(g: &Gpsw<G>, pr: &GpswMasterPrivateKey<G>, pb: &GpswMasterPublicKey<G>, del: &GpswMasterPublicDelegationKey<G>, msg: &G::Gt, gamma: &[u32], Ghost(t): Ghost<Seq<int>>, Ghost(y): Ghost<int>) -> (res: Option<(GpswCipherText<G>, Ghost<int>)>)
    requires authority(*pr, *pb, *del, t, y)
    ensures match res { Some(c) => ct_of(c.0, msg.dl(), gamma@, t, y, c.1@) && fresh1(c.1@), None => exists|i: int| 0 <= i < gamma@.len() && (#[trigger] gamma@[i]) >= t.len() }
{
    match g.encrypt(msg, gamma, pb) {
        Ok(c) => {
            let ghost s = choose|s: int| #[trigger] enc_of::<G>(c, msg.dl(), gamma@, *pb, s) && fresh1(s);
            proof { ct_law(c, msg.dl(), gamma@, *pr, *pb, *del, t, y, s); }
            let r = Some((c, Ghost(s)));
            proof { assert((r->Some_0).0 == c); assert(ct_of((r->Some_0).0, msg.dl(), gamma@, t, y, s)); }
            r
        }
        Err(_) => None,
    }
}
// C01: a satisfied formula gives back the message; C02: an unsatisfied one gives no plaintext
pub fn client_open<G: BilinearMap>(g: &Gpsw<G>, k: &GpswDecryptionKey<G>, c: &GpswCipherText<G>, n: Ghost<Node>, msg: Ghost<int>, t: Ghost<Seq<int>>, y: Ghost<int>, s: Ghost<int>) -> (res: Option<G::Gt>)
    requires good_key(*k, n@, t@, y@), ct_of(*c, msg@, c.gamma@, t@, y@, s@)
    ensures sat(n@, c.gamma@) ==> (res is Some && cong((res->Some_0).dl(), msg@)), !sat(n@, c.gamma@) ==> res is None
{
    let r = g.decrypt(c, k);
    let o = match r { Ok(Some(m)) => Some(m), Ok(None) => None, Err(_) => None };
    proof { open_law(*k, *c, n@, msg@, t@, y@, s@, o); }
    o
}
// C04: delegation to the same formula or to one whose "or" nodes were replaced by a branch gives a key of the authority for the new formula
pub fn client_delegate<G: BilinearMap>(g: &Gpsw<G>, k: &GpswDecryptionKey<G>, pr: &GpswMasterPrivateKey<G>, pb: &GpswMasterPublicKey<G>, del: &GpswMasterPublicDelegationKey<G>, p: &Node, n: Ghost<Node>, Ghost(t): Ghost<Seq<int>>, Ghost(y): Ghost<int>) -> (res: Option<GpswDecryptionKey<G>>)
    requires authority(*pr, *pb, *del, t, y), good_key(*k, n@, t, y), size(*p) < usize::MAX
    ensures
        trims(*p, n@) ==> (res is Some && good_key(res->Some_0, *p, t, y)),
        (exists|x: u32| leaves(*p).count(x) > 0 && #[trigger] leaves(n@).count(x) == 0) ==> res is None,
{
    let ghost m = choose|m: MonotoneSpanProgram<i32>| #[trigger] program_of(*k, n@, m);
    proof { if trims(*p, n@) { trim_leaves(*p, n@); assert forall|x: u32| #[trigger] leaves(*p).count(x) <= 1 by { assert(leaves(n@).count(x) <= 1); } assert(distinct(leaves(*p))); } }
    let mp = match p.to_msp() { Ok(m) => m, Err(_) => return None };
    match g.key_delegation(&mp, k, del) {
        Ok(d) => {
            proof {
                let u = choose|u: Seq<int>| sharing(u, mp.nb_col as int, 0) && #[trigger] delegated::<G, i32>(d, mp, *k, del.inv_t_i@, u);
                if trims(*p, n@) { delegate_law(d, *k, mp, *p, n@, del.inv_t_i@, t, u, y); }
                if exists|x: u32| leaves(*p).count(x) > 0 && #[trigger] leaves(n@).count(x) == 0 {
                    let x = choose|x: u32| leaves(*p).count(x) > 0 && #[trigger] leaves(n@).count(x) == 0;
                    attr_leaf(mp, *p, x); let r = choose|i: int| 0 <= i < mp.nb_row && #[trigger] mp.row_to_attr@[i] == x;
                    assert(del_row::<G, i32>(d.raw_d_i@, mp, *k, del.inv_t_i@, u, r)); row_at(m, n@, x);
                }
            }
            Some(d)
        }
        Err(_) => {
            proof {
                if trims(*p, n@) {
                    let r = choose|r: int| 0 <= r < mp.nb_row && ((#[trigger] mp.row_to_attr@[r]) >= del.inv_t_i@.len() || !k.msp.attr_to_row@.contains_key(mp.row_to_attr@[r]));
                    row_known(mp, *p, r); let x = mp.row_to_attr@[r]; assert(leaves(n@).count(x) > 0); attr_leaf(m, n@, x);
                    let i = choose|i: int| 0 <= i < m.nb_row && #[trigger] m.row_to_attr@[i] == x; assert(m.attr_to_row@.contains_key(m.row_to_attr@[i])); assert(k.msp.row_to_attr@[i] < t.len());
                }
            }
            None
        }
    }
}
pub proof fn row_at(m: MonotoneSpanProgram<i32>, n: Node, x: u32) requires realises(m, n), m.attr_to_row@.contains_key(x) ensures leaves(n).count(x) > 0
{ let i = m.attr_to_row@[x] as int; assert(m.row_to_attr@[i] == x); attr_leaf(m, n, x); }
pub fn client_randomise<G: BilinearMap>(g: &Gpsw<G>, k: &GpswDecryptionKey<G>, pr: &GpswMasterPrivateKey<G>, pb: &GpswMasterPublicKey<G>, del: &GpswMasterPublicDelegationKey<G>, n: Ghost<Node>, Ghost(t): Ghost<Seq<int>>, Ghost(y): Ghost<int>) -> (res: GpswDecryptionKey<G>)
    requires authority(*pr, *pb, *del, t, y), good_key(*k, n@, t, y)
    ensures good_key(res, n@, t, y)
{
    match g.key_randomization(k, del) {
        Ok(d) => {
            proof {
                let u = choose|u: Seq<int>| sharing(u, k.msp.nb_col as int, 0) && #[trigger] delegated::<G, G::Scalar>(d, k.msp, *k, del.inv_t_i@, u);
                randomise_law(d, *k, n@, del.inv_t_i@, t, u, y);
            }
            d
        }
        Err(_) => {
            proof {
                let r = choose|r: int| 0 <= r < k.msp.nb_row && ((#[trigger] k.msp.row_to_attr@[r]) >= del.inv_t_i@.len() || !k.msp.attr_to_row@.contains_key(k.msp.row_to_attr@[r]));
                assert(k.msp.row_to_attr@[r] < t.len()); assert(k.msp.attr_to_row@.contains_key(k.msp.row_to_attr@[r]));
            }
            __panic()
        }
    }
}
// C04: a trimmed formula is satisfied only where the formula is
pub proof fn trim_sat(p: Node, n: Node, g: Seq<u32>) requires trims(p, n), sat(p, g) ensures sat(n, g) decreases n
{
    if p != n { match n {
        Node::Leaf(x) => {}
        Node::Or(l, r) => { if trims(p, *l) { trim_sat(p, *l, g); } else if trims(p, *r) { trim_sat(p, *r, g); } else { if sat(*p->Or_0, g) { trim_sat(*p->Or_0, *l, g); } else { trim_sat(*p->Or_1, *r, g); } } }
        Node::And(l, r) => { trim_sat(*p->And_0, *l, g); trim_sat(*p->And_1, *r, g); }
    } }
}
