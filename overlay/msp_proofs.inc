pub type Item<'a> = (&'a Node, Vec<i32>);
pub open spec fn at(v: Seq<i32>, j: int) -> int { if 0 <= j < v.len() { v[j] as int } else { 0 } }
pub open spec fn wsum(s: Seq<Item>, a: Asg, j: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { wsum(s.drop_last(), a, j) + flow(*s.last().0, a) * at(s.last().1@, j) }
}
pub open spec fn allok(s: Seq<Item>, a: Asg) -> bool { forall|i: int| 0 <= i < s.len() ==> ok(*(#[trigger] s[i]).0, a) }
pub open spec fn tsize(s: Seq<Item>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { tsize(s.drop_last()) + size(*s.last().0) }
}
pub open spec fn tleaves(s: Seq<Item>) -> vstd::multiset::Multiset<u32> decreases s.len() {
    if s.len() == 0 { vstd::multiset::Multiset::empty() } else { tleaves(s.drop_last()).add(leaves(*s.last().0)) }
}
pub proof fn wsum_push(s: Seq<Item>, x: Item, a: Asg, j: int)
    ensures wsum(s.push(x), a, j) == wsum(s, a, j) + flow(*x.0, a) * at(x.1@, j)
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn wsum_add(s: Seq<Item>, t: Seq<Item>, a: Asg, j: int)
    ensures wsum(s + t, a, j) == wsum(s, a, j) + wsum(t, a, j) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); wsum_add(s, t.drop_last(), a, j); } }
pub proof fn wsum_first(s: Seq<Item>, a: Asg, j: int)
    requires s.len() > 0
    ensures wsum(s, a, j) == wsum(s.drop_first(), a, j) + flow(*s[0].0, a) * at(s[0].1@, j)
{ assert(s =~= seq![s[0]] + s.drop_first()); wsum_add(seq![s[0]], s.drop_first(), a, j); assert(seq![s[0]] =~= Seq::empty().push(s[0])); wsum_push(Seq::empty(), s[0], a, j); }
pub proof fn tsize_push(s: Seq<Item>, x: Item) ensures tsize(s.push(x)) == tsize(s) + size(*x.0)
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn tsize_add(s: Seq<Item>, t: Seq<Item>) ensures tsize(s + t) == tsize(s) + tsize(t) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); tsize_add(s, t.drop_last()); } }
pub proof fn tsize_first(s: Seq<Item>) requires s.len() > 0 ensures tsize(s) == tsize(s.drop_first()) + size(*s[0].0)
{ assert(s =~= seq![s[0]] + s.drop_first()); tsize_add(seq![s[0]], s.drop_first()); assert(seq![s[0]] =~= Seq::empty().push(s[0])); tsize_push(Seq::empty(), s[0]); }
pub proof fn tleaves_push(s: Seq<Item>, x: Item) ensures tleaves(s.push(x)) == tleaves(s).add(leaves(*x.0))
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn tleaves_add(s: Seq<Item>, t: Seq<Item>) ensures tleaves(s + t) =~= tleaves(s).add(tleaves(t)) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); tleaves_add(s, t.drop_last()); } }
pub proof fn tleaves_first(s: Seq<Item>) requires s.len() > 0 ensures tleaves(s) =~= tleaves(s.drop_first()).add(leaves(*s[0].0))
{ assert(s =~= seq![s[0]] + s.drop_first()); tleaves_add(seq![s[0]], s.drop_first()); assert(seq![s[0]] =~= Seq::empty().push(s[0])); tleaves_push(Seq::empty(), s[0]); }
pub proof fn wsum_zero(s: Seq<Item>, a: Asg, j: int) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@.len() <= j ensures wsum(s, a, j) == 0 decreases s.len()
{ if s.len() > 0 { wsum_zero(s.drop_last(), a, j); assert(s[s.len()-1].1@.len() <= j); } }

pub open spec fn entries_ok(v: Seq<i32>) -> bool { v.len() >= 1 && 0 <= v[0] <= 1 && forall|j: int| 0 <= j < v.len() ==> -1 <= #[trigger] v[j] <= 1 }

pub closed spec fn todo(s: Seq<Item>, m: Seq<Item>, root: Node, counter: int) -> bool {
    &&& counter >= 1
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@.len() <= counter && entries_ok(s[i].1@)
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).1@.len() <= counter && entries_ok(m[i].1@) && m[i].0 is Leaf
    &&& forall|a: Asg| #![trigger ok(root, a)] #![trigger flow(root,a)] wsum(m, a, 0) + wsum(s, a, 0) == flow(root, a) 
          && (ok(root, a) <==> (allok(s, a) && forall|j: int| 1 <= j < counter ==> cong(#[trigger] wsum(m, a, j) + wsum(s, a, j), 0)))
    &&& tleaves(m).add(tleaves(s)) =~= leaves(root)
    &&& counter + tsize(s) <= size(root) + 1
}
pub proof fn todo_init(s: Seq<Item>, root: &Node)
    requires s.len() == 1, s[0].0 == root, s[0].1@ =~= seq![1i32]
    ensures todo(s, Seq::empty(), *root, 1)
{
    assert(s =~= Seq::empty().push(s[0]));
    assert forall|a: Asg| true implies wsum(s, a, 0) == flow(*root, a) by {
        let e = Seq::<Item>::empty(); wsum_push(e, s[0], a, 0); let f = flow(*root, a); assert(s[0].1@[0] == 1); assert(at(s[0].1@, 0) == 1); assert(wsum(e, a, 0) == 0); assert(e.push(s[0]) =~= s); assert(f * 1 == f) by (nonlinear_arith); assert(wsum(s, a, 0) == 0 + f * 1);
    }
    assert forall|a: Asg| true implies (ok(*root, a) <==> allok(s, a)) by { if allok(s, a) { assert(ok(*s[0].0, a)); } }
    tsize_push(Seq::empty(), s[0]); tleaves_push(Seq::empty(), s[0]);
}
pub proof fn size_pos(n: Node) ensures size(n) >= 1 decreases n {  }
pub proof fn todo_and(s0: Seq<Item>, s1: Seq<Item>, m: Seq<Item>, root: Node, c: int, n1: &Node, n2: &Node, b1: Vec<i32>, b2: Vec<i32>, v: Vec<i32>)
    requires todo(s0, m, root, c), s0.len() > 0, s1 == s0.drop_first().push((n1, b1)).push((n2, b2)),
        s0[0].1@ == v@, *s0[0].0 is And, *n1 == *s0[0].0->And_0, *n2 == *s0[0].0->And_1,
        b1@.len() == c + 1, b2@.len() == c + 1,
        forall|j: int| 0 <= j < c ==> b1@[j] == at(v@, j), b1@[c] == 1,
        forall|j: int| 0 <= j < c ==> b2@[j] == 0, b2@[c] == -1,
    ensures todo(s1, m, root, c + 1)
{
    let d = s0.drop_first(); let x1 = (n1, b1); let x2 = (n2, b2);
    let nd = *s0[0].0;
    assert(entries_ok(s0[0].1@));
    assert(entries_ok(b1@)) by { assert(b1@[0] == at(v@, 0)); assert forall|j: int| 0 <= j < c + 1 implies -1 <= #[trigger] b1@[j] <= 1 by { if j < c { assert(b1@[j] == at(v@, j)); } } }
    assert(entries_ok(b2@));
    assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).1@.len() <= c + 1 && entries_ok(s1[i].1@) by { if i < d.len() { assert(s1[i] == s0[i + 1]); } }
    assert forall|a: Asg, j: int| 0 <= j < c implies wsum(s1, a, j) == wsum(s0, a, j) by {
        wsum_first(s0, a, j); wsum_push(d, x1, a, j); wsum_push(d.push(x1), x2, a, j);
        assert(at(b1@, j) == at(v@, j)); assert(at(b2@, j) == 0);
    }
    assert forall|a: Asg| true implies wsum(s1, a, c) == flow(*n1, a) - flow(*n2, a) && wsum(m, a, c) == 0 by {
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).1@.len() <= c by { assert(d[i] == s0[i + 1]); }
        wsum_zero(d, a, c); wsum_push(d, x1, a, c); wsum_push(d.push(x1), x2, a, c);
        assert(at(b1@, c) == 1); assert(at(b2@, c) == -1);
        assert(flow(*n2, a) * (-1) == -flow(*n2, a)) by (nonlinear_arith);
        wsum_zero(m, a, c);
    }
    assert forall|a: Asg| true implies (allok(s0, a) <==> allok(d, a) && ok(nd, a)) by { 
        if allok(d, a) && ok(nd, a) { assert forall|i: int| 0 <= i < s0.len() implies ok(*(#[trigger] s0[i]).0, a) by { if i > 0 { assert(s0[i] == d[i - 1]); } } }
        if allok(s0, a) { assert(ok(*s0[0].0, a)); assert forall|i: int| 0 <= i < d.len() implies ok(*(#[trigger] d[i]).0, a) by { assert(d[i] == s0[i + 1]); } }
    }
    assert forall|a: Asg| true implies (allok(s1, a) <==> allok(d, a) && ok(*n1, a) && ok(*n2, a)) by {
        if allok(s1, a) { assert(ok(*s1[d.len() as int].0, a)); assert(ok(*s1[d.len() as int + 1].0, a)); 
            assert forall|i: int| 0 <= i < d.len() implies ok(*(#[trigger] d[i]).0, a) by { assert(d[i] == s1[i]); } }
        if allok(d, a) && ok(*n1, a) && ok(*n2, a) { assert forall|i: int| 0 <= i < s1.len() implies ok(*(#[trigger] s1[i]).0, a) by { if i < d.len() { assert(s1[i] == d[i]); } } }
    }
    assert forall|a: Asg| #![trigger ok(root, a)] #![trigger flow(root,a)] wsum(m, a, 0) + wsum(s1, a, 0) == flow(root, a) 
          && (ok(root, a) <==> (allok(s1, a) && forall|j: int| 1 <= j < c + 1 ==> cong(#[trigger] wsum(m, a, j) + wsum(s1, a, j), 0))) by {
        assert(wsum(s1, a, 0) == wsum(s0, a, 0));
        assert(cong(wsum(m, a, c) + wsum(s1, a, c), 0) == cong(flow(*n1, a), flow(*n2, a)));
        if ok(root, a) {
            assert forall|j: int| 1 <= j < c + 1 implies cong(#[trigger] wsum(m, a, j) + wsum(s1, a, j), 0) by { if j < c { assert(wsum(s1, a, j) == wsum(s0, a, j)); } }
        }
        if (allok(s1, a) && forall|j: int| 1 <= j < c + 1 ==> cong(#[trigger] wsum(m, a, j) + wsum(s1, a, j), 0)) {
            assert(cong(wsum(m, a, c) + wsum(s1, a, c), 0));
            assert forall|j: int| 1 <= j < c implies cong(#[trigger] wsum(m, a, j) + wsum(s0, a, j), 0) by { assert(wsum(s1, a, j) == wsum(s0, a, j)); assert(cong(wsum(m, a, j) + wsum(s1, a, j), 0)); }
        }
    }
    tleaves_first(s0); tleaves_push(d, x1); tleaves_push(d.push(x1), x2);
    tsize_first(s0); tsize_push(d, x1); tsize_push(d.push(x1), x2);
}
pub proof fn todo_or(s0: Seq<Item>, s1: Seq<Item>, m: Seq<Item>, root: Node, c: int, n1: &Node, n2: &Node, b1: Vec<i32>, b2: Vec<i32>, v: Vec<i32>)
    requires todo(s0, m, root, c), s0.len() > 0, s1 == s0.drop_first().push((n1, b1)).push((n2, b2)),
        s0[0].1@ == v@, *s0[0].0 is Or, *n1 == *s0[0].0->Or_0, *n2 == *s0[0].0->Or_1,
        b1@ == v@, b2@ == v@
    ensures todo(s1, m, root, c)
{
    let d = s0.drop_first(); let x1 = (n1, b1); let x2 = (n2, b2);
    let nd = *s0[0].0;
    assert(entries_ok(s0[0].1@));
    assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).1@.len() <= c && entries_ok(s1[i].1@) by { if i < d.len() { assert(s1[i] == s0[i + 1]); } }
    assert forall|a: Asg, j: int| true implies wsum(s1, a, j) == wsum(s0, a, j) by {
        wsum_first(s0, a, j); wsum_push(d, x1, a, j); wsum_push(d.push(x1), x2, a, j);
        let f1 = flow(*n1, a); let f2 = flow(*n2, a); let t = at(v@, j);
        assert((f1 + f2) * t == f1 * t + f2 * t) by (nonlinear_arith);
    }
    assert forall|a: Asg| true implies (allok(s0, a) <==> allok(d, a) && ok(nd, a)) by { 
        if allok(d, a) && ok(nd, a) { assert forall|i: int| 0 <= i < s0.len() implies ok(*(#[trigger] s0[i]).0, a) by { if i > 0 { assert(s0[i] == d[i - 1]); } } }
        if allok(s0, a) { assert(ok(*s0[0].0, a)); assert forall|i: int| 0 <= i < d.len() implies ok(*(#[trigger] d[i]).0, a) by { assert(d[i] == s0[i + 1]); } }
    }
    assert forall|a: Asg| true implies (allok(s1, a) <==> allok(d, a) && ok(*n1, a) && ok(*n2, a)) by {
        if allok(s1, a) { assert(ok(*s1[d.len() as int].0, a)); assert(ok(*s1[d.len() as int + 1].0, a)); 
            assert forall|i: int| 0 <= i < d.len() implies ok(*(#[trigger] d[i]).0, a) by { assert(d[i] == s1[i]); } }
        if allok(d, a) && ok(*n1, a) && ok(*n2, a) { assert forall|i: int| 0 <= i < s1.len() implies ok(*(#[trigger] s1[i]).0, a) by { if i < d.len() { assert(s1[i] == d[i]); } } }
    }
    assert forall|a: Asg| #![trigger ok(root, a)] #![trigger flow(root,a)] wsum(m, a, 0) + wsum(s1, a, 0) == flow(root, a) 
          && (ok(root, a) <==> (allok(s1, a) && forall|j: int| 1 <= j < c ==> cong(#[trigger] wsum(m, a, j) + wsum(s1, a, j), 0))) by {
        assert(wsum(s1, a, 0) == wsum(s0, a, 0));
        if ok(root, a) {
            assert forall|j: int| 1 <= j < c implies cong(#[trigger] wsum(m, a, j) + wsum(s1, a, j), 0) by { assert(wsum(s1, a, j) == wsum(s0, a, j)); }
        }
        if (allok(s1, a) && forall|j: int| 1 <= j < c ==> cong(#[trigger] wsum(m, a, j) + wsum(s1, a, j), 0)) {
            assert forall|j: int| 1 <= j < c implies cong(#[trigger] wsum(m, a, j) + wsum(s0, a, j), 0) by { assert(wsum(s1, a, j) == wsum(s0, a, j)); assert(cong(wsum(m, a, j) + wsum(s1, a, j), 0)); }
        }
    }
    tleaves_first(s0); tleaves_push(d, x1); tleaves_push(d.push(x1), x2);
    tsize_first(s0); tsize_push(d, x1); tsize_push(d.push(x1), x2);
}
pub proof fn todo_leaf(s0: Seq<Item>, m: Seq<Item>, root: Node, c: int, x: Item)
    requires todo(s0, m, root, c), s0.len() > 0, s0[0].0 is Leaf, *x.0 == *s0[0].0, x.1@ == s0[0].1@
    ensures todo(s0.drop_first(), m.push(x), root, c)
{
    let d = s0.drop_first(); let m1 = m.push(x);
    assert(entries_ok(s0[0].1@));
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).1@.len() <= c && entries_ok(d[i].1@) by { assert(d[i] == s0[i + 1]); }
    assert forall|a: Asg, j: int| true implies wsum(m1, a, j) + wsum(d, a, j) == wsum(m, a, j) + wsum(s0, a, j) by {
        wsum_first(s0, a, j); wsum_push(m, x, a, j);
    }
    assert forall|a: Asg| true implies (allok(s0, a) <==> allok(d, a)) by { 
        if allok(d, a) { assert forall|i: int| 0 <= i < s0.len() implies ok(*(#[trigger] s0[i]).0, a) by { if i > 0 { assert(s0[i] == d[i - 1]); } } }
        if allok(s0, a) { assert forall|i: int| 0 <= i < d.len() implies ok(*(#[trigger] d[i]).0, a) by { assert(d[i] == s0[i + 1]); } }
    }
    assert forall|a: Asg| #![trigger ok(root, a)] #![trigger flow(root,a)] wsum(m1, a, 0) + wsum(d, a, 0) == flow(root, a) 
          && (ok(root, a) <==> (allok(d, a) && forall|j: int| 1 <= j < c ==> cong(#[trigger] wsum(m1, a, j) + wsum(d, a, j), 0))) by {
        assert(wsum(m1, a, 0) + wsum(d, a, 0) == wsum(m, a, 0) + wsum(s0, a, 0));
        if ok(root, a) {
            assert forall|j: int| 1 <= j < c implies cong(#[trigger] wsum(m1, a, j) + wsum(d, a, j), 0) by { assert(wsum(m1, a, j) + wsum(d, a, j) == wsum(m, a, j) + wsum(s0, a, j)); }
        }
        if (allok(d, a) && forall|j: int| 1 <= j < c ==> cong(#[trigger] wsum(m1, a, j) + wsum(d, a, j), 0)) {
            assert forall|j: int| 1 <= j < c implies cong(#[trigger] wsum(m, a, j) + wsum(s0, a, j), 0) by { assert(wsum(m1, a, j) + wsum(d, a, j) == wsum(m, a, j) + wsum(s0, a, j)); assert(cong(wsum(m1, a, j) + wsum(d, a, j), 0)); }
        }
    }
    tleaves_first(s0); tleaves_push(m, x); 
    tsize_first(s0); size_pos(*s0[0].0);
}
pub proof fn todo_items(s: Seq<Item>, m: Seq<Item>, root: Node, c: int, i: int) requires todo(s, m, root, c), 0 <= i < m.len() ensures m[i].0 is Leaf, entries_ok(m[i].1@), m[i].1@.len() <= c {}
pub proof fn todo_count(s: Seq<Item>, m: Seq<Item>, root: Node, c: int) requires todo(s, m, root, c), ensures 1 <= c, c + tsize(s) <= size(root) + 1 {}
pub proof fn tleaves_nonempty(n: Node) ensures exists|x: u32| leaves(n).count(x) >= 1 decreases n { match n { Node::Leaf(x) => { assert(leaves(n).count(x) >= 1); } Node::Or(l, r) => { tleaves_nonempty(*l); let x = choose|x: u32| leaves(*l).count(x) >= 1; assert(leaves(n).count(x) >= 1); } Node::And(l, r) => { tleaves_nonempty(*l); let x = choose|x: u32| leaves(*l).count(x) >= 1; assert(leaves(n).count(x) >= 1); } } }
pub proof fn tleaves_dup(m: Seq<Item>, p: int, q: int, x: u32) requires 0 <= p < q < m.len(), *m[p].0 == Node::Leaf(x), *m[q].0 == Node::Leaf(x) ensures tleaves(m).count(x) >= 2 decreases m.len()
{ if q < m.len() - 1 { tleaves_dup(m.drop_last(), p, q, x); } else { tleaves_one(m.drop_last(), p, x); } }
pub proof fn tleaves_one(m: Seq<Item>, p: int, x: u32) requires 0 <= p < m.len(), *m[p].0 == Node::Leaf(x) ensures tleaves(m).count(x) >= 1 decreases m.len()
{ if p < m.len() - 1 { tleaves_one(m.drop_last(), p, x); } }
pub proof fn todo_dup(m: Seq<Item>, root: Node, c: int, p: int, q: int, x: u32) requires todo(Seq::empty(), m, root, c), 0 <= p < q < m.len(), *m[p].0 == Node::Leaf(x), *m[q].0 == Node::Leaf(x) ensures !distinct(leaves(root))
{ tleaves_dup(m, p, q, x); assert(leaves(root).count(x) >= 2); }
pub proof fn index_distinct(mp: Map<u32, usize>, attrs: Seq<u32>) requires attr_index(mp, attrs) ensures distinct(attrs.to_multiset())
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert forall|i: int, j: int| 0 <= i < attrs.len() && 0 <= j < attrs.len() && i != j implies attrs[i] != attrs[j] by { assert(mp[attrs[i]] == i); assert(mp[attrs[j]] == j); } assert(attrs.no_duplicates()); attrs.lemma_multiset_has_no_duplicates(); 
  assert forall|x: u32| #[trigger] attrs.to_multiset().count(x) <= 1 by { if attrs.to_multiset().contains(x) {} } }
pub open spec fn rowfix(v: Seq<i32>, w: Seq<i32>, c: int) -> bool { w.len() == c && forall|j: int| 0 <= j < c ==> #[trigger] w[j] == (if j == 0 { at(v, 0) } else { at(v, j) + at(v, 0) }) }
// the rows built from the first k leaves
pub open spec fn built(m: Seq<Item>, k: int, rows: Seq<Vec<i32>>, attrs: Seq<u32>, c: int) -> bool {
    &&& rows.len() == k && attrs.len() == k && k <= m.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] attrs[i] == m[i].0->Leaf_0
    &&& forall|i: int| 0 <= i < k ==> rowfix(m[i].1@, (#[trigger] rows[i])@, c)
}
pub proof fn built_lin(m: Seq<Item>, k: int, rows: Seq<Vec<i32>>, attrs: Seq<u32>, c: int, a: Asg, j: int)
    requires built(m, k, rows, attrs, c), 0 <= j < c, forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Leaf
    ensures lin(imat(rows), attrs, a, j) == (if j == 0 { wsum(m.take(k), a, 0) } else { wsum(m.take(k), a, j) + wsum(m.take(k), a, 0) })
    decreases k
{
    if k > 0 {
        let r0 = rows.drop_last(); assert(imat(rows).drop_last() =~= imat(r0)); assert(imat(rows).last() =~= ivec(rows.last()@)); let a0 = attrs.drop_last();
        assert forall|i: int| 0 <= i < k - 1 implies rowfix(m[i].1@, (#[trigger] r0[i])@, c) by { assert(r0[i] == rows[i]); }
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] a0[i] == m[i].0->Leaf_0 by { assert(a0[i] == attrs[i]); }
        built_lin(m, k - 1, r0, a0, c, a, j);
        assert(m.take(k).drop_last() =~= m.take(k - 1));
        assert(m.take(k).last() == m[k - 1]);
        assert(m[k - 1].0 is Leaf);
        assert(attrs[k - 1] == m[k - 1].0->Leaf_0);
        assert(rowfix(m[k - 1].1@, rows[k - 1]@, c));
        let w = rows[k-1]@[j] as int; let f = a(attrs[k-1]); let v0 = at(m[k-1].1@, 0); let vj = at(m[k-1].1@, j);
        if j == 0 { assert(w == v0); } else { assert(w == vj + v0); assert(f * (vj + v0) == f * vj + f * v0) by (nonlinear_arith); }
    }
}
pub open spec fn attrs_ms(m: Seq<Item>, attrs: Seq<u32>) -> bool { attrs.to_multiset() =~= tleaves(m) }
pub proof fn built_leaves(m: Seq<Item>, attrs: Seq<u32>)
    requires attrs.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Leaf,
      forall|i: int| 0 <= i < m.len() ==> #[trigger] attrs[i] == m[i].0->Leaf_0
    ensures attrs.to_multiset() =~= tleaves(m)
    decreases m.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if m.len() > 0 {
        let m0 = m.drop_last(); let a0 = attrs.drop_last();
        assert forall|i: int| 0 <= i < m0.len() implies (#[trigger] m0[i]).0 is Leaf by { assert(m0[i] == m[i]); }
        assert forall|i: int| 0 <= i < m0.len() implies #[trigger] a0[i] == m0[i].0->Leaf_0 by { assert(a0[i] == attrs[i]); assert(m0[i] == m[i]); }
        built_leaves(m0, a0);
        assert(attrs =~= a0.push(attrs.last()));
        assert(m[m.len() - 1].0 is Leaf); assert(attrs[m.len() - 1] == m[m.len() - 1].0->Leaf_0);
    } else { assert(attrs =~= Seq::empty()); }
}
pub proof fn todo_done(m: Seq<Item>, root: Node, c: int, rows: Seq<Vec<i32>>, attrs: Seq<u32>)
    requires todo(Seq::empty(), m, root, c), built(m, m.len() as int, rows, attrs, c)
    ensures attrs.to_multiset() =~= leaves(root),
     forall|a: Asg, v: int| (forall|j: int| 0 <= j < c ==> cong(#[trigger] lin(imat(rows), attrs, a, j), v)) <==> #[trigger] accepts(root, a, v)
{
    built_leaves(m, attrs);
    assert forall|a: Asg, v: int| (forall|j: int| 0 <= j < c ==> cong(#[trigger] lin(imat(rows), attrs, a, j), v)) <==> #[trigger] accepts(root, a, v) by {
        assert(ok(root, a) || !ok(root, a));
        assert(m.take(m.len() as int) =~= m);
        assert forall|j: int| 0 <= j < c implies lin(imat(rows), attrs, a, j) == (if j == 0 { wsum(m, a, 0) } else { wsum(m, a, j) + wsum(m, a, 0) }) by { built_lin(m, m.len() as int, rows, attrs, c, a, j); }
        assert(allok(Seq::empty(), a));
        if accepts(root, a, v) {
            assert forall|j: int| 0 <= j < c implies cong(#[trigger] lin(imat(rows), attrs, a, j), v) by {
                if j > 0 { assert(cong(wsum(m, a, j) + wsum(Seq::empty(), a, j), 0)); cong_add(wsum(m, a, j), 0, wsum(m, a, 0), v); }
            }
        }
        if (forall|j: int| 0 <= j < c ==> cong(#[trigger] lin(imat(rows), attrs, a, j), v)) {
            assert(cong(lin(imat(rows), attrs, a, 0), v));
            assert forall|j: int| 1 <= j < c implies cong(#[trigger] wsum(m, a, j) + wsum(Seq::empty(), a, j), 0) by { assert(cong(lin(imat(rows), attrs, a, j), v)); cong_sub(lin(imat(rows), attrs, a, j), v, wsum(m, a, 0), v); }
        }
    }
}
