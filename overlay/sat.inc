// ---- formulas: satisfied by a set of values; `p` trims `n`: "or" nodes of `n` replaced by a branch
pub open spec fn sat(n: Node, g: Seq<u32>) -> bool decreases n { match n { Node::Leaf(x) => g.contains(x), Node::Or(l, r) => sat(*l, g) || sat(*r, g), Node::And(l, r) => sat(*l, g) && sat(*r, g) } }
pub open spec fn trims(p: Node, n: Node) -> bool decreases n {
    p == n || match n {
        Node::Leaf(x) => false,
        Node::Or(l, r) => trims(p, *l) || trims(p, *r) || (p is Or && trims(*p->Or_0, *l) && trims(*p->Or_1, *r)),
        Node::And(l, r) => p is And && trims(*p->And_0, *l) && trims(*p->And_1, *r),
    }
}
