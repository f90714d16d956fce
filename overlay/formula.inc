pub type Asg = spec_fn(u32) -> int;
pub open spec fn flow(n: Node, a: Asg) -> int decreases n {
    match n { Node::Leaf(x) => a(x), Node::Or(l, r) => flow(*l, a) + flow(*r, a), Node::And(l, r) => flow(*l, a) }
}
pub open spec fn ok(n: Node, a: Asg) -> bool decreases n {
    match n { Node::Leaf(x) => true, Node::Or(l, r) => ok(*l, a) && ok(*r, a), Node::And(l, r) => ok(*l, a) && ok(*r, a) && cong(flow(*l, a), flow(*r, a)) }
}
pub open spec fn size(n: Node) -> nat decreases n {
    match n { Node::Leaf(x) => 1, Node::Or(l, r) => size(*l) + size(*r) + 1, Node::And(l, r) => size(*l) + size(*r) + 1 }
}
pub open spec fn leaves(n: Node) -> vstd::multiset::Multiset<u32> decreases n {
    match n { Node::Leaf(x) => vstd::multiset::Multiset::singleton(x), Node::Or(l, r) => leaves(*l).add(leaves(*r)), Node::And(l, r) => leaves(*l).add(leaves(*r)) }
}
// ---- span program view
pub open spec fn lin(rows: Seq<Seq<int>>, attrs: Seq<u32>, a: Asg, j: int) -> int decreases rows.len() {
    if rows.len() == 0 || attrs.len() != rows.len() { 0 } else { lin(rows.drop_last(), attrs.drop_last(), a, j) + a(attrs.last()) * rows.last()[j] }
}
// integer view of the matrix of a policy program
pub open spec fn ivec(v: Seq<i32>) -> Seq<int> { Seq::new(v.len(), |j: int| v[j] as int) }
pub open spec fn imat(rows: Seq<Vec<i32>>) -> Seq<Seq<int>> { Seq::new(rows.len(), |i: int| ivec(rows[i]@)) }
pub open spec fn spans_m(m: Seq<Seq<int>>, attrs: Seq<u32>, ncol: int, a: Asg, v: int) -> bool {
    forall|j: int| 0 <= j < ncol ==> cong(#[trigger] lin(m, attrs, a, j), v)
}
pub open spec fn spans(m: MonotoneSpanProgram<i32>, a: Asg, v: int) -> bool { spans_m(imat(m.matrix@), m.row_to_attr@, m.nb_col as int, a, v) }
pub open spec fn distinct(ms: vstd::multiset::Multiset<u32>) -> bool { forall|x: u32| #[trigger] ms.count(x) <= 1 }
pub open spec fn accepts(n: Node, a: Asg, v: int) -> bool { ok(n, a) && cong(flow(n, a), v) }


// the program `m` realises the formula `n`
pub open spec fn realises(m: MonotoneSpanProgram<i32>, n: Node) -> bool {
    &&& msp_shape(m)
    &&& m.row_to_attr@.to_multiset() =~= leaves(n)
    &&& distinct(leaves(n))
    &&& forall|a: Asg, v: int| #![trigger accepts(n, a, v)] #![trigger spans(m, a, v)] spans(m, a, v) <==> accepts(n, a, v)
}
