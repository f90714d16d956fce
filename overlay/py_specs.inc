// ---- policies built from axes
pub open spec fn texts(l: Seq<String>) -> Seq<Txt> { Seq::new(l.len(), |i: int| l[i]@) }
pub open spec fn str_texts(l: Seq<&str>) -> Seq<Txt> { Seq::new(l.len(), |i: int| l[i]@) }
// an axis: its name, its attributes, whether they are ordered
pub type AxisView = (Txt, Seq<Txt>, bool);
pub open spec fn axis_view(a: PolicyAxis) -> AxisView { (a.name@, texts(a.attributes@), a.hierarchical) }
// q is m with the first n attributes of an axis numbered on
pub open spec fn numbered(m: Map<(Txt, Txt), Heap>, q: Map<(Txt, Txt), Heap>, axis: Txt, l: Seq<Txt>, n: int, last: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> q.contains_key((axis, #[trigger] l[i])) && q[(axis, l[i])]@ == seq![(last + 1 + i) as u32] && !m.contains_key((axis, l[i]))
    &&& forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] l[i]) != (#[trigger] l[j])
    &&& forall|k: (Txt, Txt)| (forall|i: int| 0 <= i < n ==> k != (axis, #[trigger] l[i])) ==> #[trigger] q.contains_key(k) == m.contains_key(k) && q[k] == m[k]
}
pub open spec fn same_axis(a: AxisView, e: (Vec<String>, bool)) -> bool { texts(e.0@) == a.1 && e.1 == a.2 }
pub open spec fn extended(m: Policy, q: Policy, a: AxisView) -> bool {
    &&& q.max_attribute_creations == m.max_attribute_creations && q.last_attribute_value == m.last_attribute_value + a.1.len() && q.last_attribute_value <= q.max_attribute_creations
    &&& !m.axes.view().contains_key(a.0) && q.axes.view().contains_key(a.0) && same_axis(a, q.axes.view()[a.0]) && q.axes.view() == m.axes.view().insert(a.0, q.axes.view()[a.0])
    &&& numbered(m.attribute_to_int.view(), q.attribute_to_int.view(), a.0, a.1, a.1.len() as int, m.last_attribute_value as int)
}
// an axis does not fit, or is there already, or names an attribute twice or one known already
pub open spec fn unfit(m: Policy, a: AxisView) -> bool {
    m.last_attribute_value + a.1.len() > m.max_attribute_creations || m.axes.view().contains_key(a.0)
    || (exists|i: int| 0 <= i < a.1.len() && m.attribute_to_int.view().contains_key((a.0, #[trigger] a.1[i])))
    || exists|i: int, j: int| 0 <= i < j < a.1.len() && (#[trigger] a.1[i]) == (#[trigger] a.1[j])
}
pub open spec fn empty_policy(p: Policy, max: u32) -> bool { p.last_attribute_value == 0 && p.max_attribute_creations == max && p.axes.view() == Map::<Txt, (Vec<String>, bool)>::empty() && p.attribute_to_int.view() == Map::<(Txt, Txt), Heap>::empty() }
pub open spec fn built(max: u32, l: Seq<PolicyAxis>, q: Policy) -> bool decreases l.len() { if l.len() == 0 { empty_policy(q, max) } else { exists|m: Policy| built(max, l.drop_last(), m) && #[trigger] extended(m, q, axis_view(l.last())) } }
pub open spec fn unbuildable(max: u32, l: Seq<PolicyAxis>) -> bool { exists|i: int, m: Policy| 0 <= i < l.len() && #[trigger] built(max, l.take(i), m) && unfit(m, axis_view(l[i])) }
pub proof fn named_take(l: Seq<PolicyAxis>, n: int) requires 0 <= n <= l.len() ensures named(l.take(n)) <= named(l) decreases l.len()
{
    if n < l.len() { assert(l.drop_last().take(n) =~= l.take(n)); named_take(l.drop_last(), n); } else { assert(l.take(n) =~= l); }
}
