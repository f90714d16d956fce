// ---- what an access policy denotes
pub open spec fn hit(h: Seq<u32>, g: Seq<u32>) -> bool { exists|i: int| 0 <= i < h.len() && #[trigger] g.contains(h[i]) }
// position of the attribute on its axis
pub open spec fn names(l: Seq<String>, i: int, s: Txt) -> bool { 0 <= i < l.len() && l[i]@ == s && forall|j: int| 0 <= j < i ==> #[trigger] l[j]@ != s }
pub open spec fn lower(p: Policy, a: Attribute, i: int) -> Seq<u32> { p.attribute_to_int.view()[(a.axis@, p.axes.view()[a.axis@].0@[i]@)]@ }
pub open spec fn usable(p: Policy, k: (Txt, Txt)) -> bool { p.attribute_to_int.view().contains_key(k) && p.attribute_to_int.view()[k]@.len() > 0 }
pub open spec fn attr_known(p: Policy, a: Attribute) -> bool {
    &&& p.axes.view().contains_key(a.axis@) && usable(p, att(a))
    &&& exists|pos: int| #[trigger] names(p.axes.view()[a.axis@].0@, pos, a.name@) && (p.axes.view()[a.axis@].1 ==> lower_known(p, a, pos))
}
pub open spec fn lower_known(p: Policy, a: Attribute, n: int) -> bool { forall|i: int| 0 <= i < n ==> usable(p, (a.axis@, #[trigger] p.axes.view()[a.axis@].0@[i]@)) }
pub open spec fn lower_hit(p: Policy, a: Attribute, n: int, g: Seq<u32>) -> bool { exists|i: int| 0 <= i < n && hit(#[trigger] lower(p, a, i), g) }
// the attribute, or on a hierarchical axis one listed before it, with any of the values it ever had
pub open spec fn attr_sat(p: Policy, a: Attribute, g: Seq<u32>) -> bool {
    hit(p.attribute_to_int.view()[att(a)]@, g)
    || (p.axes.view()[a.axis@].1 && exists|pos: int| #[trigger] names(p.axes.view()[a.axis@].0@, pos, a.name@) && lower_hit(p, a, pos, g))
}
pub open spec fn pol_known(p: Policy, ap: AccessPolicy) -> bool decreases ap {
    match ap { AccessPolicy::Attr(a) => attr_known(p, a), AccessPolicy::And(l, r) => pol_known(p, *l) && pol_known(p, *r), AccessPolicy::Or(l, r) => pol_known(p, *l) && pol_known(p, *r), AccessPolicy::All => false }
}
pub open spec fn pol_sat(p: Policy, ap: AccessPolicy, g: Seq<u32>) -> bool decreases ap {
    match ap { AccessPolicy::Attr(a) => attr_sat(p, a, g), AccessPolicy::And(l, r) => pol_sat(p, *l, g) && pol_sat(p, *r, g), AccessPolicy::Or(l, r) => pol_sat(p, *l, g) || pol_sat(p, *r, g), AccessPolicy::All => known_hit(p, g) }
}
pub open spec fn known_hit(p: Policy, g: Seq<u32>) -> bool { exists|k: (Txt, Txt)| #[trigger] p.attribute_to_int.view().contains_key(k) && hit(p.attribute_to_int.view()[k]@, g) }
// the values a policy formula is made of, with repetitions
pub open spec fn lower_vals(p: Policy, a: Attribute, n: int) -> Seq<u32> decreases n { if n <= 0 { Seq::empty() } else { lower_vals(p, a, n - 1) + lower(p, a, n - 1) } }
pub open spec fn first(l: Seq<String>, s: Txt) -> int { choose|i: int| #[trigger] names(l, i, s) }
pub proof fn first_is(l: Seq<String>, s: Txt, i: int) requires names(l, i, s) ensures first(l, s) == i { let j = first(l, s); assert(names(l, j, s)); if i < j { assert(l[i]@ != s); } if j < i { assert(l[j]@ != s); } }
pub open spec fn attr_vals(p: Policy, a: Attribute) -> Seq<u32> {
    p.attribute_to_int.view()[att(a)]@ + (if p.axes.view()[a.axis@].1 { lower_vals(p, a, first(p.axes.view()[a.axis@].0@, a.name@)) } else { Seq::empty() })
}
pub open spec fn pol_vals(p: Policy, ap: AccessPolicy) -> Seq<u32> decreases ap {
    match ap { AccessPolicy::Attr(a) => attr_vals(p, a), AccessPolicy::And(l, r) => pol_vals(p, *l) + pol_vals(p, *r), AccessPolicy::Or(l, r) => pol_vals(p, *l) + pol_vals(p, *r), AccessPolicy::All => Seq::empty() }
}
// a disjunction of the values in `h`
pub open spec fn any_of(n: Node, h: Seq<u32>) -> bool { leaves(n) == h.to_multiset() && (forall|g: Seq<u32>| #[trigger] sat(n, g) == hit(h, g)) && size(n) == 2 * h.len() - 1 }
pub proof fn hit_cat(a: Seq<u32>, b: Seq<u32>, g: Seq<u32>) ensures hit(a + b, g) == (hit(a, g) || hit(b, g))
{
    if hit(a, g) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] g.contains(a[i]); assert(g.contains((a + b)[i])); }
    if hit(b, g) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] g.contains(b[i]); assert(g.contains((a + b)[a.len() + i])); }
    if hit(a + b, g) { let i = choose|i: int| 0 <= i < (a + b).len() && #[trigger] g.contains((a + b)[i]); if i < a.len() { assert(g.contains(a[i])); } else { assert(g.contains(b[i - a.len()])); } }
}
pub proof fn any_leaf(x: u32) ensures any_of(Node::Leaf(x), seq![x])
{
    let h = seq![x]; assert(h =~= Seq::<u32>::empty().push(x)); vstd::seq_lib::to_multiset_build(Seq::<u32>::empty(), x); Seq::<u32>::empty().to_multiset_ensures();
    assert(h.to_multiset() =~= vstd::multiset::Multiset::singleton(x));
    assert forall|g: Seq<u32>| #[trigger] sat(Node::Leaf(x), g) == hit(h, g) by { assert(h[0] == x); if g.contains(x) { assert(g.contains(h[0])); } }
}
pub proof fn any_or(l: Node, r: Node, a: Seq<u32>, b: Seq<u32>) requires any_of(l, a), any_of(r, b) ensures any_of(Node::Or(Box::new(l), Box::new(r)), a + b)
{
    let n = Node::Or(Box::new(l), Box::new(r));
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    assert forall|g: Seq<u32>| #[trigger] sat(n, g) == hit(a + b, g) by { hit_cat(a, b, g); assert(sat(l, g) == hit(a, g)); assert(sat(r, g) == hit(b, g)); }
}
pub proof fn lower_vals_hit(p: Policy, a: Attribute, n: int, g: Seq<u32>) requires n >= 0 ensures hit(lower_vals(p, a, n), g) == lower_hit(p, a, n, g) decreases n
{
    if n > 0 {
        lower_vals_hit(p, a, n - 1, g); hit_cat(lower_vals(p, a, n - 1), lower(p, a, n - 1), g);
        if hit(lower(p, a, n - 1), g) { assert(lower_hit(p, a, n, g)); }
        if lower_hit(p, a, n, g) { let i = choose|i: int| 0 <= i < n && hit(#[trigger] lower(p, a, i), g); if i < n - 1 { assert(lower_hit(p, a, n - 1, g)); } }
        if lower_hit(p, a, n - 1, g) { let i = choose|i: int| 0 <= i < n - 1 && hit(#[trigger] lower(p, a, i), g); assert(0 <= i < n); }
    }
}
pub proof fn attr_vals_hit(p: Policy, a: Attribute, g: Seq<u32>) requires attr_known(p, a) ensures hit(attr_vals(p, a), g) == attr_sat(p, a, g)
{
    let l = p.axes.view()[a.axis@].0@; let pos = choose|pos: int| #[trigger] names(l, pos, a.name@); first_is(l, a.name@, pos);
    let h = p.attribute_to_int.view()[att(a)]@; 
    if p.axes.view()[a.axis@].1 {
        hit_cat(h, lower_vals(p, a, pos), g); lower_vals_hit(p, a, pos, g);
        if lower_hit(p, a, pos, g) { assert(names(l, pos, a.name@)); }
        if exists|q: int| #[trigger] names(l, q, a.name@) && lower_hit(p, a, q, g) { let q = choose|q: int| #[trigger] names(l, q, a.name@) && lower_hit(p, a, q, g); first_is(l, a.name@, q); }
    } else { assert(h + Seq::<u32>::empty() =~= h); }
}
pub proof fn all_hit(m: Map<(Txt, Txt), Heap>, ks: Seq<(Txt, Txt)>, n: int, g: Seq<u32>) requires 0 <= n <= ks.len() ensures hit(all_of(m, ks, n), g) == exists|i: int| 0 <= i < n && hit(m[#[trigger] ks[i]]@, g) decreases n
{
    if n > 0 {
        all_hit(m, ks, n - 1, g); hit_cat(all_of(m, ks, n - 1), m[ks[n - 1]]@, g);
        if exists|i: int| 0 <= i < n - 1 && hit(m[#[trigger] ks[i]]@, g) { let i = choose|i: int| 0 <= i < n - 1 && hit(m[#[trigger] ks[i]]@, g); assert(0 <= i < n && hit(m[ks[i]]@, g)); }
    }
}
pub proof fn all_known(p: Policy, ks: Seq<(Txt, Txt)>, g: Seq<u32>) requires listing(p.attribute_to_int.view(), ks) ensures hit(all_of(p.attribute_to_int.view(), ks, ks.len() as int), g) == known_hit(p, g)
{
    let m = p.attribute_to_int.view(); all_hit(m, ks, ks.len() as int, g);
    if known_hit(p, g) { let k = choose|k: (Txt, Txt)| #[trigger] m.contains_key(k) && hit(m[k]@, g); assert(ks.to_set().contains(k)); assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(hit(m[ks[i]]@, g)); }
    if exists|i: int| 0 <= i < ks.len() && hit(m[#[trigger] ks[i]]@, g) { let i = choose|i: int| 0 <= i < ks.len() && hit(m[#[trigger] ks[i]]@, g); assert(ks.to_set().contains(ks[i])); assert(m.contains_key(ks[i])); }
}
// formula of a policy
pub open spec fn formula_of(n: Node, p: Policy, ap: AccessPolicy) -> bool { leaves(n) == pol_vals(p, ap).to_multiset() && (forall|g: Seq<u32>| #[trigger] sat(n, g) == pol_sat(p, ap, g)) && size(n) == 2 * pol_vals(p, ap).len() - 1 }
pub proof fn formula_pair(n: Node, a: Node, b: Node, p: Policy, ap: AccessPolicy, l: AccessPolicy, r: AccessPolicy)
    requires formula_of(a, p, l), formula_of(b, p, r),
        (n == Node::And(Box::new(a), Box::new(b)) && ap == AccessPolicy::And(Box::new(l), Box::new(r))) || (n == Node::Or(Box::new(a), Box::new(b)) && ap == AccessPolicy::Or(Box::new(l), Box::new(r)))
    ensures formula_of(n, p, ap)
{
    vstd::seq_lib::lemma_multiset_commutative(pol_vals(p, l), pol_vals(p, r)); 
    assert forall|g: Seq<u32>| #[trigger] sat(n, g) == pol_sat(p, ap, g) by { assert(sat(a, g) == pol_sat(p, l, g)); assert(sat(b, g) == pol_sat(p, r, g)); }
}
pub open spec fn steps(n: Node, p: Policy, ap: AccessPolicy) -> bool {
    match ap {
        AccessPolicy::Attr(a) => attr_known(p, a) && any_of(n, attr_vals(p, a)),
        AccessPolicy::And(l, r) => n is And && formula_of(*n->And_0, p, *l) && formula_of(*n->And_1, p, *r),
        AccessPolicy::Or(l, r) => n is Or && formula_of(*n->Or_0, p, *l) && formula_of(*n->Or_1, p, *r),
        AccessPolicy::All => false,
    }
}
pub proof fn formula_step(n: Node, p: Policy, ap: AccessPolicy) requires steps(n, p, ap) ensures formula_of(n, p, ap)
{
    match ap {
        AccessPolicy::Attr(a) => { assert forall|g: Seq<u32>| #[trigger] sat(n, g) == pol_sat(p, ap, g) by { attr_vals_hit(p, a, g); assert(sat(n, g) == hit(attr_vals(p, a), g)); } },
        AccessPolicy::And(l, r) => { formula_pair(n, *n->And_0, *n->And_1, p, ap, *l, *r); },
        AccessPolicy::Or(l, r) => { formula_pair(n, *n->Or_0, *n->Or_1, p, ap, *l, *r); },
        AccessPolicy::All => {},
    }
}
pub open spec fn rooms(p: Policy, ap: AccessPolicy) -> bool { 2 * pol_vals(p, ap).len() < usize::MAX && forall|ks: Seq<(Txt, Txt)>| #[trigger] listing(p.attribute_to_int.view(), ks) ==> 2 * all_of(p.attribute_to_int.view(), ks, ks.len() as int).len() < usize::MAX }
pub open spec fn compiles(n: Node, p: Policy, ap: AccessPolicy) -> bool { (forall|g: Seq<u32>| #[trigger] sat(n, g) == pol_sat(p, ap, g)) && (ap is All || pol_known(p, ap)) && leaf_valued(n, p) }
// v is one of the values of the policy
pub open spec fn valued(p: Policy, v: u32) -> bool { exists|k: (Txt, Txt)| #[trigger] p.attribute_to_int.view().contains_key(k) && p.attribute_to_int.view()[k]@.contains(v) }
pub open spec fn leaf_valued(n: Node, p: Policy) -> bool { forall|v: u32| #[trigger] leaves(n).count(v) > 0 ==> valued(p, v) }
pub open spec fn all_valued(p: Policy, s: Seq<u32>) -> bool { forall|i: int| 0 <= i < s.len() ==> valued(p, #[trigger] s[i]) }
pub proof fn lower_valued(p: Policy, a: Attribute, n: int) requires lower_known(p, a, n) ensures all_valued(p, lower_vals(p, a, n)) decreases n
{
    if n > 0 {
        assert(lower_known(p, a, n - 1)); lower_valued(p, a, n - 1); let k = (a.axis@, p.axes.view()[a.axis@].0@[n - 1]@); let l = lower(p, a, n - 1); let h = lower_vals(p, a, n - 1);
        assert(usable(p, k));
        assert forall|i: int| 0 <= i < (h + l).len() implies valued(p, #[trigger] (h + l)[i]) by { if i >= h.len() { assert(l[i - h.len()] == p.attribute_to_int.view()[k]@[i - h.len()]); assert(p.attribute_to_int.view()[k]@.contains(l[i - h.len()])); } else { assert((h + l)[i] == h[i]); } }
    }
}
pub proof fn pol_valued(p: Policy, ap: AccessPolicy) requires pol_known(p, ap) ensures all_valued(p, pol_vals(p, ap)) decreases ap
{
    match ap {
        AccessPolicy::Attr(a) => {
            let h = p.attribute_to_int.view()[att(a)]@; let l = p.axes.view()[a.axis@].0@; let s = attr_vals(p, a);
            let pos = choose|pos: int| #[trigger] names(l, pos, a.name@) && (p.axes.view()[a.axis@].1 ==> lower_known(p, a, pos)); first_is(l, a.name@, pos);
            if p.axes.view()[a.axis@].1 { lower_valued(p, a, pos); }
            assert forall|i: int| 0 <= i < s.len() implies valued(p, #[trigger] s[i]) by { if i < h.len() { assert(s[i] == h[i]); assert(h.contains(s[i])); } else { assert(s[i] == lower_vals(p, a, pos)[i - h.len()]); } }
        }
        AccessPolicy::And(l, r) => { pol_valued(p, *l); pol_valued(p, *r); let (a, b) = (pol_vals(p, *l), pol_vals(p, *r)); assert forall|i: int| 0 <= i < (a + b).len() implies valued(p, #[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
        AccessPolicy::Or(l, r) => { pol_valued(p, *l); pol_valued(p, *r); let (a, b) = (pol_vals(p, *l), pol_vals(p, *r)); assert forall|i: int| 0 <= i < (a + b).len() implies valued(p, #[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
        AccessPolicy::All => {}
    }
}
pub proof fn all_of_valued(p: Policy, ks: Seq<(Txt, Txt)>, n: int) requires listing(p.attribute_to_int.view(), ks), 0 <= n <= ks.len() ensures all_valued(p, all_of(p.attribute_to_int.view(), ks, n)) decreases n
{
    if n > 0 {
        all_of_valued(p, ks, n - 1); let m = p.attribute_to_int.view(); let k = ks[n - 1]; assert(ks.contains(k)); assert(ks.to_set().contains(k)); assert(m.contains_key(k)); let (a, b) = (all_of(m, ks, n - 1), m[k]@);
        assert forall|i: int| 0 <= i < (a + b).len() implies valued(p, #[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); assert(b.contains(b[i - a.len()])); } }
    }
}
pub proof fn seq_valued(p: Policy, s: Seq<u32>, n: Node) requires all_valued(p, s), leaves(n) == s.to_multiset() ensures leaf_valued(n, p)
{ s.to_multiset_ensures(); assert forall|v: u32| #[trigger] leaves(n).count(v) > 0 implies valued(p, v) by { assert(s.contains(v)); let i = choose|i: int| 0 <= i < s.len() && s[i] == v; assert(valued(p, s[i])); } }
pub proof fn formula_valued(p: Policy, ap: AccessPolicy) ensures pol_known(p, ap) ==> forall|n: Node| #[trigger] formula_of(n, p, ap) ==> leaf_valued(n, p)
{ if pol_known(p, ap) { pol_valued(p, ap); assert forall|n: Node| #[trigger] formula_of(n, p, ap) implies leaf_valued(n, p) by { seq_valued(p, pol_vals(p, ap), n); } } }
pub open spec fn dup(s: Seq<u32>) -> bool { !distinct(s.to_multiset()) }
// the only reasons to refuse a policy: unknown or unusable attribute, the catch-all inside a formula, a repeated attribute value, no value at all
pub open spec fn refused(p: Policy, ap: AccessPolicy) -> bool {
    match ap { AccessPolicy::All => exists|ks: Seq<(Txt, Txt)>| #[trigger] listing(p.attribute_to_int.view(), ks) && (all_of(p.attribute_to_int.view(), ks, ks.len() as int).len() == 0 || dup(all_of(p.attribute_to_int.view(), ks, ks.len() as int))), _ => !pol_known(p, ap) || dup(pol_vals(p, ap)) }
}
