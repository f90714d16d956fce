// ---- C12: attribute values over the life of a policy
pub open spec fn numbered(p: Policy) -> bool { p.last_attribute_value <= p.max_attribute_creations && forall|v: u32| #[trigger] valued(p, v) ==> 1 <= v <= p.last_attribute_value }
pub proof fn heap_has(h: Seq<u32>, o: Seq<u32>, v: u32) requires h.to_multiset() == o.to_multiset().insert(v) ensures forall|x: u32| #[trigger] h.contains(x) <==> o.contains(x) || x == v
{ h.to_multiset_ensures(); o.to_multiset_ensures(); let m = o.to_multiset();
    assert forall|x: u32| #[trigger] h.contains(x) <==> o.contains(x) || x == v by { assert(h.contains(x) <==> h.to_multiset().count(x) > 0); assert(o.contains(x) <==> m.count(x) > 0); if x == v { assert(m.insert(v).count(v) == m.count(v) + 1); } else { assert(m.insert(v).count(x) == m.count(x)); } }
}
pub proof fn hit_val(h: Seq<u32>, g: Seq<u32>, v: u32) requires h.contains(v), g.contains(v) ensures hit(h, g) { let i = choose|i: int| 0 <= i < h.len() && h[i] == v; assert(g.contains(h[i])); }
// the values of an authority for p cover every attribute of every later policy
pub proof fn covered(p: Policy, ap: AccessPolicy) requires numbered(p) ensures !overflows(p, ap, p.max_attribute_creations as nat + 1)
{
    if overflows(p, ap, p.max_attribute_creations as nat + 1) { let (n, v) = choose|n: Node, v: u32| compiles(n, p, ap) && #[trigger] leaves(n).count(v) > 0 && v >= p.max_attribute_creations as nat + 1; assert(valued(p, v)); }
}
pub proof fn covered_attrs<S: AbeScheme>(p: Policy, attrs: Seq<Attribute>, pk: &S::MasterPublicKey) requires numbered(p), S::pub_slots(pk) == p.max_attribute_creations + 1, forall|i: int| 0 <= i < attrs.len() ==> usable(p, att(#[trigger] attrs[i])) ensures !not_current::<S>(p, attrs, pk)
{
    assert forall|i: int, v: u32| 0 <= i < attrs.len() && #[trigger] current(p, attrs[i], v) implies v < S::pub_slots(pk) by { assert(valued(p, v)); }
}
// values the policy does not know satisfy nothing
pub proof fn unknown_values(p: Policy, ap: AccessPolicy, g: Seq<u32>) requires pol_sat(p, ap, g), ap is All || pol_known(p, ap) ensures exists|v: u32| g.contains(v) && #[trigger] valued(p, v) decreases ap
{
    match ap {
        AccessPolicy::Attr(a) => { attr_vals_hit(p, a, g); pol_valued(p, ap); let h = attr_vals(p, a); let i = choose|i: int| 0 <= i < h.len() && #[trigger] g.contains(h[i]); assert(pol_vals(p, ap)[i] == h[i]); assert(valued(p, h[i])); }
        AccessPolicy::And(l, r) => { unknown_values(p, *l, g); }
        AccessPolicy::Or(l, r) => { if pol_sat(p, *l, g) { unknown_values(p, *l, g); } else { unknown_values(p, *r, g); } }
        AccessPolicy::All => { let k = choose|k: (Txt, Txt)| #[trigger] p.attribute_to_int.view().contains_key(k) && hit(p.attribute_to_int.view()[k]@, g); let h = p.attribute_to_int.view()[k]@; let i = choose|i: int| 0 <= i < h.len() && #[trigger] g.contains(h[i]); assert(h.contains(h[i])); assert(valued(p, h[i])); }
    }
}
// removing an unknown value changes nothing
pub open spec fn less(g: Seq<u32>, f: Seq<u32>, p: Policy) -> bool { forall|v: u32| #[trigger] valued(p, v) ==> (g.contains(v) <==> f.contains(v)) }
pub proof fn hit_less(p: Policy, h: Seq<u32>, g: Seq<u32>, f: Seq<u32>) requires all_valued(p, h), less(g, f, p) ensures hit(h, g) == hit(h, f)
{
    if hit(h, g) { let i = choose|i: int| 0 <= i < h.len() && #[trigger] g.contains(h[i]); assert(valued(p, h[i])); assert(f.contains(h[i])); }
    if hit(h, f) { let i = choose|i: int| 0 <= i < h.len() && #[trigger] f.contains(h[i]); assert(valued(p, h[i])); assert(g.contains(h[i])); }
}
pub proof fn only_valued(p: Policy, ap: AccessPolicy, g: Seq<u32>, f: Seq<u32>) requires less(g, f, p), ap is All || pol_known(p, ap) ensures pol_sat(p, ap, g) == pol_sat(p, ap, f) decreases ap
{
    match ap {
        AccessPolicy::Attr(a) => { attr_vals_hit(p, a, g); attr_vals_hit(p, a, f); pol_valued(p, ap); assert(pol_vals(p, ap) == attr_vals(p, a)); hit_less(p, attr_vals(p, a), g, f); }
        AccessPolicy::And(l, r) => { only_valued(p, *l, g, f); only_valued(p, *r, g, f); }
        AccessPolicy::Or(l, r) => { only_valued(p, *l, g, f); only_valued(p, *r, g, f); }
        AccessPolicy::All => {
            let m = p.attribute_to_int.view();
            assert forall|k: (Txt, Txt)| #[trigger] m.contains_key(k) implies hit(m[k]@, g) == hit(m[k]@, f) by { assert forall|i: int| 0 <= i < m[k]@.len() implies valued(p, #[trigger] m[k]@[i]) by { assert(m[k]@.contains(m[k]@[i])); } hit_less(p, m[k]@, g, f); }
            if known_hit(p, g) { let k = choose|k: (Txt, Txt)| #[trigger] m.contains_key(k) && hit(m[k]@, g); assert(hit(m[k]@, f)); }
            if known_hit(p, f) { let k = choose|k: (Txt, Txt)| #[trigger] m.contains_key(k) && hit(m[k]@, f); assert(hit(m[k]@, g)); }
        }
    }
}
// what was open stays open
pub proof fn hit_grown(p: Policy, q: Policy, k: (Txt, Txt), g: Seq<u32>) requires grown(p, q), p.attribute_to_int.view().contains_key(k), hit(p.attribute_to_int.view()[k]@, g) ensures q.attribute_to_int.view().contains_key(k), hit(q.attribute_to_int.view()[k]@, g)
{ let h = p.attribute_to_int.view()[k]@; let i = choose|i: int| 0 <= i < h.len() && #[trigger] g.contains(h[i]); assert(h.contains(h[i])); hit_val(q.attribute_to_int.view()[k]@, g, h[i]); }
pub proof fn still_known(p: Policy, q: Policy, ap: AccessPolicy) requires grown(p, q), pol_known(p, ap) ensures pol_known(q, ap) decreases ap
{
    match ap {
        AccessPolicy::Attr(a) => {
            let l = p.axes.view()[a.axis@].0@; let pos = choose|pos: int| #[trigger] names(l, pos, a.name@) && (p.axes.view()[a.axis@].1 ==> lower_known(p, a, pos));
            assert forall|k: (Txt, Txt)| usable(p, k) implies #[trigger] usable(q, k) by { let h = p.attribute_to_int.view()[k]@; assert(h.contains(h[0])); }
            assert(usable(q, att(a)));
            if p.axes.view()[a.axis@].1 { assert forall|i: int| 0 <= i < pos implies usable(q, (a.axis@, #[trigger] q.axes.view()[a.axis@].0@[i]@)) by { assert(usable(p, (a.axis@, p.axes.view()[a.axis@].0@[i]@))); } }
            assert(names(q.axes.view()[a.axis@].0@, pos, a.name@));
        }
        AccessPolicy::And(l, r) => { still_known(p, q, *l); still_known(p, q, *r); }
        AccessPolicy::Or(l, r) => { still_known(p, q, *l); still_known(p, q, *r); }
        AccessPolicy::All => {}
    }
}
pub proof fn still_open(p: Policy, q: Policy, ap: AccessPolicy, g: Seq<u32>) requires grown(p, q), ap is All || pol_known(p, ap), pol_sat(p, ap, g) ensures pol_sat(q, ap, g) decreases ap
{
    match ap {
        AccessPolicy::Attr(a) => {
            if hit(p.attribute_to_int.view()[att(a)]@, g) { hit_grown(p, q, att(a), g); }
            else {
                let l = p.axes.view()[a.axis@].0@; let pos = choose|pos: int| #[trigger] names(l, pos, a.name@) && lower_hit(p, a, pos, g); let i = choose|i: int| 0 <= i < pos && hit(#[trigger] lower(p, a, i), g);
                let z = choose|z: int| #[trigger] names(l, z, a.name@) && (p.axes.view()[a.axis@].1 ==> lower_known(p, a, z)); first_is(l, a.name@, pos); first_is(l, a.name@, z);
                let k = (a.axis@, l[i]@); assert(usable(p, (a.axis@, p.axes.view()[a.axis@].0@[i]@))); hit_grown(p, q, k, g); assert(hit(lower(q, a, i), g)); assert(names(q.axes.view()[a.axis@].0@, pos, a.name@)); assert(lower_hit(q, a, pos, g));
            }
        }
        AccessPolicy::And(l, r) => { still_open(p, q, *l, g); still_open(p, q, *r, g); }
        AccessPolicy::Or(l, r) => { if pol_sat(p, *l, g) { still_open(p, q, *l, g); } else { still_open(p, q, *r, g); } }
        AccessPolicy::All => { let k = choose|k: (Txt, Txt)| #[trigger] p.attribute_to_int.view().contains_key(k) && hit(p.attribute_to_int.view()[k]@, g); hit_grown(p, q, k, g); }
    }
}
// a rotation keeps values numbered, makes the new value the current one, and hides it from formulas compiled before
pub proof fn renewal(p: Policy, q: Policy, a: Attribute, v: u32) requires numbered(p), renewed(p, q, att(a), v), v <= q.max_attribute_creations
    ensures numbered(q), current(q, a, v), !valued(p, v), forall|x: u32| #[trigger] current(q, a, x) ==> x == v
{
    let (m, w) = (p.attribute_to_int.view(), q.attribute_to_int.view()); let k = att(a); heap_has(w[k]@, m[k]@, v);
    assert forall|x: u32| #[trigger] valued(q, x) implies 1 <= x <= v by { let j = choose|j: (Txt, Txt)| #[trigger] w.contains_key(j) && w[j]@.contains(x); if j == k { if x != v { assert(m.contains_key(k) && m[k]@.contains(x)); assert(valued(p, x)); } } else { assert(w[j] == m[j]); assert(m.contains_key(j)); assert(valued(p, x)); } }
    assert(w[k]@.contains(v)); let i0 = choose|i: int| 0 <= i < w[k]@.len() && w[k]@[i] == v;
    assert forall|i: int| 0 <= i < w[k]@.len() implies #[trigger] w[k]@[i] <= v by { assert(w[k]@.contains(w[k]@[i])); assert(valued(q, w[k]@[i])); }
    assert forall|x: u32| #[trigger] current(q, a, x) implies x == v by { assert(w[k]@[i0] <= x); assert(valued(q, x)); }
}
pub open spec fn knows(p: Policy, attrs: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < attrs.len() ==> usable(p, att(#[trigger] attrs[i])) }
// keys and ciphertexts for any later state of the policy are served by the keys made for its first state
pub fn client_serve<S: AbeScheme>(e: &Engine<S>, p: &Policy, q: &Policy, ap: &AccessPolicy, attrs: &[Attribute], msg: &S::PlainText)
    requires S::able(), q.max_attribute_creations == p.max_attribute_creations, numbered(*q), rooms(*q, *ap), knows(*q, attrs@)
{
    if let Ok(ks) = e.generate_master_key(p) {
        proof { S::own(&ks.0, &ks.1, &ks.2); covered(*q, *ap); covered_attrs::<S>(*q, attrs@, &ks.1); }
        let k = e.generate_user_key(q, &ks.0, ap);
        assert(k is Err ==> refused(*q, *ap));
        let c = e.encrypt(q, &ks.1, attrs, msg);
        assert(c is Ok);
        if let (Ok(k), AccessPolicy::Attr(a)) = (&k, ap) { assert(k.wf()); }
    } else { assert(p.max_attribute_creations + 1 > usize::MAX); }
}
// after a rotation: a new ciphertext for the rotated attribute is closed to every key issued before and open to keys issued after, which also open the old ones
pub fn client_rotate<S: AbeScheme>(e: &Engine<S>, p: &mut Policy, a: &Attribute, only: &[Attribute], Ghost(pr): Ghost<S::MasterPrivateKey>, pk: &S::MasterPublicKey, Ghost(del): Ghost<S::MasterPublicDelegationKey>, old_key: &S::UserDecryptionKey, new_key: &S::UserDecryptionKey, old_ct: &S::CipherText, msg: &S::PlainText, Ghost(old_msg): Ghost<S::PlainText>, Ghost(f): Ghost<Node>, Ghost(n): Ghost<Node>, Ghost(ap): Ghost<AccessPolicy>)
    requires S::able(), S::clear(msg), S::clear(&old_msg), numbered(*old(p)), pol_known(*old(p), AccessPolicy::Attr(*a)), only@.len() == 1, only@[0] == *a, S::authority(&pr, pk, &del), S::pub_slots(pk) == old(p).max_attribute_creations + 1,
        old_key.wf(), new_key.wf(), old_ct.wf(),
        S::issued(old_key, f, &pr), compiles(f, *old(p), ap),
        S::issued(new_key, n, &pr), forall|q: Policy| #[trigger] renewed(*old(p), q, att(*a), (old(p).last_attribute_value + 1) as u32) ==> compiles(n, q, AccessPolicy::Attr(*a)),
        forall|g: Seq<u32>| #[trigger] cur_vals(*old(p), only@, g) ==> S::sealed(old_ct, &old_msg, g, pk),
{
    let ghost p0 = *p;
    let r = p.rotate(a);
    assert(r is Err ==> p0.last_attribute_value == p0.max_attribute_creations);
    if let Ok(_) = r {
        let ghost v = (p0.last_attribute_value + 1) as u32;
        proof { renewal(p0, *p, *a, v); assert forall|i: int| 0 <= i < only@.len() implies usable(*p, att(#[trigger] only@[i])) by { assert(current(*p, *a, v)); } covered_attrs::<S>(*p, only@, pk); }
        let c = match e.encrypt(p, pk, only, msg) { Ok(c) => c, Err(_) => { assert(false); return; } };
        proof { S::usable(); let g = choose|g: Seq<u32>| #[trigger] cur_vals(*p, only@, g) && S::sealed(&c, msg, g, pk); S::sized_ct(&c, msg, g, pk); }
        let o = e.decrypt(&c, old_key);
        let w = e.decrypt(&c, new_key);
        let z = e.decrypt(old_ct, new_key);
        proof {
            let g = choose|g: Seq<u32>| #[trigger] cur_vals(*p, only@, g) && S::sealed(&c, msg, g, pk);
            assert(current(*p, only@[0], g[0])); assert(g[0] == v);
            assert(!sat(f, g)) by { if sat(f, g) { assert(pol_sat(p0, ap, g)); unknown_values(p0, ap, g); let x = choose|x: u32| g.contains(x) && #[trigger] valued(p0, x); assert(x == v); } }
            assert(sat(n, g)) by { assert(current(*p, *a, v)); assert(g.contains(g[0])); hit_val(p.attribute_to_int.view()[att(*a)]@, g, v); assert(attr_sat(*p, *a, g)); assert(compiles(n, *p, AccessPolicy::Attr(*a))); assert(sat(n, g) == pol_sat(*p, AccessPolicy::Attr(*a), g)); }
            S::opening(&pr, pk, &del, old_key, f, &c, msg, g, match o { Ok(x) => x, Err(_) => None });
            S::opening(&pr, pk, &del, new_key, n, &c, msg, g, match w { Ok(x) => x, Err(_) => None });
            assert(o is Err || o->Ok_0 is None);
            assert(w is Ok && w->Ok_0 is Some && msg.same(&(w->Ok_0->Some_0)));
            // the ciphertext made before
            let m0 = p0.attribute_to_int.view()[att(*a)]@; heap_max(m0); let top = choose|t: u32| #[trigger] peak(m0, t);
            let h = seq![top]; assert(current(p0, *a, top)); assert(cur_vals(p0, only@, h)) by { assert forall|i: int| 0 <= i < only@.len() implies current(p0, #[trigger] only@[i], h[i]) by {} }
            assert(h.contains(h[0])); hit_val(m0, h, top); assert(pol_sat(p0, AccessPolicy::Attr(*a), h)); still_open(p0, *p, AccessPolicy::Attr(*a), h); assert(compiles(n, *p, AccessPolicy::Attr(*a))); assert(sat(n, h) == pol_sat(*p, AccessPolicy::Attr(*a), h)); assert(sat(n, h));
            S::opening(&pr, pk, &del, new_key, n, old_ct, &old_msg, h, match z { Ok(x) => x, Err(_) => None });
            assert(z is Ok && z->Ok_0 is Some && old_msg.same(&(z->Ok_0->Some_0)));
        }
    }
}
pub proof fn heap_max(h: Seq<u32>) requires h.len() > 0 ensures exists|t: u32| #[trigger] peak(h, t) decreases h.len()
{
    let l = h.last();
    if h.len() == 1 { assert(h.contains(h[0])); assert(peak(h, l)); }
    else {
        let d = h.drop_last(); heap_max(d); let t = choose|t: u32| #[trigger] peak(d, t); let i0 = choose|i: int| 0 <= i < d.len() && d[i] == t; assert(h[i0] == t); assert(h.contains(t)); assert(h.contains(h[h.len() - 1]));
        let w = if t >= l { t } else { l };
        assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] <= w by { if i < d.len() { assert(d[i] <= t); } }
        assert(peak(h, w));
    }
}
