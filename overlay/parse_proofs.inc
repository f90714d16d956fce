pub proof fn operand_def(t: Seq<char>, n: Node) { }
pub proof fn joined_def(t: Seq<char>, n: Node, i: int) ensures joined(t, n, i) == (0 < i < t.len() && branch(t, n, i, |a: Node| operand(t.take(i), a))) { }
pub proof fn joined_is(t: Seq<char>, n: Node, i: int) requires op_at(t, n, i) ensures joined(t, n, i) == ((number(t.take(i)) && lhs(n) == Node::Leaf(dec(t.take(i)) as u32) || i >= 2 && t[0] == '(' && t[i - 1] == ')' && formula(t.subrange(1, i - 1), lhs(n))) && formula(t.skip(i + 1), rhs(n)))
{ let o = t.take(i); if i >= 2 { assert(o.subrange(1, i - 1) =~= t.subrange(1, i - 1)); } }
pub proof fn formula_def(t: Seq<char>, n: Node) ensures formula(t, n) == (operand(t, n) || exists|i: int| #[trigger] joined(t, n, i))
{
    reveal(formula);
    assert forall|i: int| #[trigger] op_at(t, n, i) implies joined(t, n, i) == ((number(t.take(i)) && lhs(n) == Node::Leaf(dec(t.take(i)) as u32) || i >= 2 && t[0] == '(' && t[i - 1] == ')' && formula(t.subrange(1, i - 1), lhs(n))) && formula(t.skip(i + 1), rhs(n))) by { joined_is(t, n, i); }
    if exists|i: int| #[trigger] joined(t, n, i) { let i = choose|i: int| #[trigger] joined(t, n, i); assert(op_at(t, n, i)); }
}
#[verifier::opaque]
pub open spec fn clean(t: Seq<char>) -> bool { all_allowed(t) && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != ' ' }
pub proof fn strip_len(s: Seq<char>) ensures strip(s).len() <= s.len(), all_allowed(s) ==> clean(strip(s)) decreases s.len()
{
    reveal(clean); reveal(ascii);
    if s.len() > 0 {
        strip_len(s.drop_last());
        if all_allowed(s) {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies allowed(#[trigger] s.drop_last()[i]) by { assert(allowed(s[i])); }
            assert(allowed(s.last()));
        }
    }
}
pub proof fn strip_clean(s: Seq<char>) ensures clean(s) ==> strip(s) == s decreases s.len()
{
    reveal(clean); reveal(ascii);
    if s.len() > 0 && clean(s) {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies allowed(#[trigger] s.drop_last()[i]) && s.drop_last()[i] != ' ' by { assert(allowed(s[i])); }
        strip_clean(s.drop_last());
        assert(s.last() != ' ');
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub open spec fn depth(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { depth(s.drop_last()) + (if s.last() == '(' { 1int } else if s.last() == ')' { -1int } else { 0int }) } }
pub proof fn depth_cat(a: Seq<char>, b: Seq<char>) ensures depth(a + b) == depth(a) + depth(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { depth_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn depth_step(s: Seq<char>, k: int) requires 0 <= k < s.len() ensures depth(s.take(k + 1)) == depth(s.take(k)) + (if s[k] == '(' { 1int } else if s[k] == ')' { -1int } else { 0int })
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn depth_bound(s: Seq<char>) ensures -s.len() <= depth(s) <= s.len() decreases s.len() { if s.len() > 0 { depth_bound(s.drop_last()); } }
pub proof fn depth_digits(s: Seq<char>) requires digits(s) ensures depth(s) == 0 decreases s.len()
{ if s.len() > 0 { assert(digit(s.last())); assert(digits(s.drop_last())) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies digit(#[trigger] s.drop_last()[i]) by { assert(digit(s[i])); } } depth_digits(s.drop_last()); } }
// parentheses never close more than was opened
pub open spec fn nested(s: Seq<char>) -> bool { depth(s) == 0 && forall|k: int| 0 <= k <= s.len() ==> depth(#[trigger] s.take(k)) >= 0 }
pub proof fn operand_nested(t: Seq<char>, n: Node) requires operand(t, n) ensures nested(t), t.len() > 0, t[0] == '(' ==> t.last() == ')' && (forall|k: int| 1 <= k < t.len() ==> depth(#[trigger] t.take(k)) >= 1) && formula(t.subrange(1, t.len() - 1), n), t[0] != '(' ==> number(t) && n == Node::Leaf(dec(t) as u32)
    decreases t.len(), 0nat
{
    operand_def(t, n);
    if number(t) {
        assert(digit(t[0])); depth_digits(t);
        assert forall|k: int| 0 <= k <= t.len() implies depth(#[trigger] t.take(k)) >= 0 by { assert(digits(t.take(k))); depth_digits(t.take(k)); }
    } else {
        let u = t.subrange(1, t.len() - 1);
        formula_nested(u, n);
        assert forall|k: int| 1 <= k < t.len() implies depth(#[trigger] t.take(k)) == 1 + depth(u.take(k - 1)) by { assert(t.take(k) =~= seq!['('] + u.take(k - 1)); depth_cat(seq!['('], u.take(k - 1)); assert(seq!['('].drop_last() =~= Seq::<char>::empty()); assert(depth(seq!['(']) == 1) by { reveal_with_fuel(depth, 2); } }
        assert(u.take(u.len() as int) =~= u);
        depth_step(t, t.len() - 1); assert(t.take(t.len() as int) =~= t);
        assert(t.take(0) =~= Seq::<char>::empty());
        assert forall|k: int| 0 <= k <= t.len() implies depth(#[trigger] t.take(k)) >= 0 by { if 1 <= k < t.len() { assert(depth(u.take(k - 1)) >= 0); } }
        assert forall|k: int| 1 <= k < t.len() implies depth(#[trigger] t.take(k)) >= 1 by { assert(depth(u.take(k - 1)) >= 0); }
    }
}
pub proof fn formula_nested(t: Seq<char>, n: Node) requires formula(t, n) ensures nested(t), t.len() > 0 decreases t.len(), 2nat
{
    formula_def(t, n);
    if operand(t, n) { operand_nested(t, n); } else {
        let i = choose|i: int| #[trigger] joined(t, n, i);
        let b = split_of(t, n, i);
        operand_nested(t.take(i), b.0); formula_nested(t.skip(i + 1), b.1);
        depth_step(t, i);
        assert forall|k: int| 0 <= k <= t.len() implies depth(#[trigger] t.take(k)) >= 0 && (k == t.len() ==> depth(t.take(k)) == 0) by {
            if k <= i { assert(t.take(k) =~= t.take(i).take(k)); }
            else { assert(t.take(k) =~= t.take(i + 1) + t.skip(i + 1).take(k - i - 1)); depth_cat(t.take(i + 1), t.skip(i + 1).take(k - i - 1)); assert(depth(t.skip(i + 1).take(k - i - 1)) >= 0); if k == t.len() { assert(t.skip(i + 1).take(k - i - 1) =~= t.skip(i + 1)); } }
        }
        assert(t.take(t.len() as int) =~= t);
    }
}
// the parenthesis opened just before `u` closes at `p`
pub open spec fn closes(u: Seq<char>, p: int) -> bool { 0 <= p < u.len() && depth(u.take(p + 1)) < 0 && forall|k: int| 0 <= k <= p ==> depth(#[trigger] u.take(k)) >= 0 }
pub open spec fn never_closes(u: Seq<char>) -> bool { forall|k: int| 0 <= k <= u.len() ==> depth(#[trigger] u.take(k)) >= 0 }
pub proof fn closes_once(u: Seq<char>, p: int, q: int) requires closes(u, p), closes(u, q) ensures p == q { if p < q { assert(depth(u.take(p + 1)) >= 0); } if q < p { assert(depth(u.take(q + 1)) >= 0); } }
pub proof fn close_char(u: Seq<char>, p: int) requires closes(u, p) ensures u[p] == ')' { depth_step(u, p); assert(depth(u.take(p)) >= 0); }
pub proof fn run_is(t: Seq<char>) ensures 0 <= run(t) <= t.len(), digits(t.take(run(t))), run(t) < t.len() ==> !digit(t[run(t)]) decreases t.len()
{
    if t.len() > 0 && digit(t[0]) {
        let d = t.drop_first(); run_is(d); let r = run(d);
        assert forall|i: int| 0 <= i < r + 1 implies digit(#[trigger] t[i]) by { if i > 0 { assert(d[i - 1] == t[i]); assert(d.take(r)[i - 1] == t[i]); assert(digit(d.take(r)[i - 1])); } }
        assert forall|i: int| 0 <= i < t.take(r + 1).len() implies digit(#[trigger] t.take(r + 1)[i]) by { assert(digit(t[i])); }
        if r + 1 < t.len() { assert(d[r] == t[r + 1]); }
    }
}
pub proof fn run_at(t: Seq<char>, i: int) requires 0 <= i <= t.len(), digits(t.take(i)), i < t.len() ==> !digit(t[i]) ensures run(t) == i
{ run_is(t); let r = run(t); if r < i { assert(t.take(i)[r] == t[r]); assert(digit(t.take(i)[r])); } if i < r { assert(t.take(r)[i] == t[i]); assert(digit(t.take(r)[i])); } }
// the argument after the operator at `r`
pub open spec fn branch(t: Seq<char>, n: Node, r: int, left: spec_fn(Node) -> bool) -> bool {
    match n { Node::And(a, b) => t[r] == '&' && left(*a) && formula(t.skip(r + 1), *b), Node::Or(a, b) => t[r] == '|' && left(*a) && formula(t.skip(r + 1), *b), Node::Leaf(_) => false }
}
pub open spec fn leaf_case(t: Seq<char>, n: Node) -> bool {
    let r = run(t); dec(t.take(r)) <= u32::MAX && (if r == t.len() { n == Node::Leaf(dec(t.take(r)) as u32) } else { branch(t, n, r, |a: Node| a == Node::Leaf(dec(t.take(r)) as u32)) })
}
pub open spec fn group_case(t: Seq<char>, n: Node, p: int) -> bool {
    if p + 2 == t.len() { formula(t.skip(1).take(p), n) } else { branch(t, n, p + 2, |a: Node| formula(t.skip(1).take(p), a)) }
}
pub proof fn dec_nonneg(s: Seq<char>) requires digits(s) ensures dec(s) >= 0 decreases s.len()
{ if s.len() > 0 { assert(digit(s.last())); assert forall|i: int| 0 <= i < s.drop_last().len() implies digit(#[trigger] s.drop_last()[i]) by { assert(digit(s[i])); } dec_nonneg(s.drop_last()); } }
pub proof fn split_of(t: Seq<char>, n: Node, i: int) -> (b: (Node, Node)) requires joined(t, n, i) ensures 0 < i < t.len(), operand(t.take(i), b.0), formula(t.skip(i + 1), b.1), t[i] == '&' && n == Node::And(Box::new(b.0), Box::new(b.1)) || t[i] == '|' && n == Node::Or(Box::new(b.0), Box::new(b.1))
{ joined_def(t, n, i); match n { Node::And(a, b) => (*a, *b), Node::Or(a, b) => (*a, *b), Node::Leaf(_) => (n, n) } }
pub proof fn leaf_law(t: Seq<char>, n: Node) requires run(t) > 0 ensures formula(t, n) == leaf_case(t, n)
{
    formula_def(t, n); operand_def(t, n); run_is(t); let r = run(t); assert(t.take(r)[0] == t[0]); assert(digit(t[0]));
    if formula(t, n) {
        if operand(t, n) { operand_nested(t, n); assert(t.take(t.len() as int) =~= t); run_at(t, t.len() as int); }
        else { let i = choose|i: int| #[trigger] joined(t, n, i); let b = split_of(t, n, i); operand_nested(t.take(i), b.0); assert(t.take(i)[0] == t[0]); run_at(t, i); }
    }
    if leaf_case(t, n) {
        if r == t.len() { assert(t.take(r) =~= t); assert(operand(t, n)); }
        else { assert(number(t.take(r))); let l = Node::Leaf(dec(t.take(r)) as u32); operand_def(t.take(r), l); joined_def(t, n, r); assert(joined(t, n, r)); }
    }
}
pub proof fn group_law(t: Seq<char>, n: Node, p: int) requires t.len() > 0, t[0] == '(', closes(t.skip(1), p) ensures formula(t, n) == group_case(t, n, p)
{
    let u = t.skip(1); close_char(u, p); formula_def(t, n); operand_def(t, n);
    if formula(t, n) {
        if operand(t, n) { group_end(t, n); closes_once(u, p, t.len() - 2); assert(t.subrange(1, t.len() - 1) =~= u.take(p)); }
        else {
            let i = choose|i: int| #[trigger] joined(t, n, i); let b = split_of(t, n, i); let o = t.take(i);
            assert(o[0] == t[0]); group_end(o, b.0); assert(o.skip(1) =~= u.take(i - 1));
            assert(closes(u, i - 2)) by { assert(u.take(i - 1).take(i - 1) =~= u.take(i - 1)); assert forall|k: int| 0 <= k <= i - 2 implies depth(#[trigger] u.take(k)) >= 0 by { assert(u.take(k) =~= o.skip(1).take(k)); } }
            closes_once(u, p, i - 2); assert(o.subrange(1, i - 1) =~= u.take(p));
        }
    }
    if group_case(t, n, p) {
        let o = t.take(p + 2); assert(o.subrange(1, p + 1) =~= u.take(p)); assert(o.last() == u[p]); assert(o[0] == '(');
        if p + 2 == t.len() { assert(o =~= t); assert(operand(t, n)); }
        else {
            assert forall|a: Node| formula(u.take(p), a) implies #[trigger] operand(o, a) by { operand_def(o, a); }
            match n { Node::And(a, b) => { assert(operand(o, *a)); } Node::Or(a, b) => { assert(operand(o, *a)); } Node::Leaf(_) => { } }
            joined_def(t, n, p + 2); assert(joined(t, n, p + 2));
        }
    }
}
pub proof fn group_end(t: Seq<char>, n: Node) requires operand(t, n), t.len() > 0, t[0] == '(' ensures t.len() >= 2, closes(t.skip(1), t.len() - 2), t.last() == ')', formula(t.subrange(1, t.len() - 1), n)
{
    operand_nested(t, n); let u = t.skip(1);
    assert forall|k: int| 0 <= k <= u.len() implies #[trigger] depth(u.take(k)) == depth(t.take(k + 1)) - 1 by { assert(t.take(k + 1) =~= seq!['('] + u.take(k)); depth_cat(seq!['('], u.take(k)); assert(seq!['('].drop_last() =~= Seq::<char>::empty()); assert(depth(seq!['(']) == 1) by { reveal_with_fuel(depth, 2); } }
    assert(t.take(t.len() as int) =~= t);
    assert(depth(u.take(t.len() - 1)) == -1);
    assert forall|k: int| 0 <= k <= t.len() - 2 implies depth(#[trigger] u.take(k)) >= 0 by { assert(depth(t.take(k + 1)) >= 1); }
}
pub proof fn open_law(t: Seq<char>, n: Node) requires t.len() > 0, t[0] == '(', never_closes(t.skip(1)) ensures !formula(t, n)
{
    if formula(t, n) { formula_nested(t, n); let u = t.skip(1); assert(t =~= seq!['('] + u); depth_cat(seq!['('], u); assert(seq!['('].drop_last() =~= Seq::<char>::empty()); assert(depth(seq!['(']) == 1) by { reveal_with_fuel(depth, 2); } assert(u.take(u.len() as int) =~= u); }
}
pub proof fn none_law(t: Seq<char>, n: Node) requires t.len() == 0 || run(t) == 0 && t[0] != '(' ensures !formula(t, n)
{
    formula_def(t, n); if t.len() > 0 { run_is(t.drop_first()); }
    if formula(t, n) {
        formula_nested(t, n);
        if operand(t, n) { operand_nested(t, n); assert(digit(t[0])); } else { let i = choose|i: int| #[trigger] joined(t, n, i); let b = split_of(t, n, i); operand_nested(t.take(i), b.0); assert(t.take(i)[0] == t[0]); if t[0] != '(' { assert(digit(t.take(i)[0])); } }
    }
}
// everything the parser needs to know about a text without spaces
pub proof fn laws(t: Seq<char>) ensures
    0 <= run(t) <= t.len(), digits(t.take(run(t))), t.len() > 0 && digit(t[0]) ==> run(t) > 0,
    clean(t) ==> ascii(t),
    t.len() > 0 && !occurs(t.skip(1), ')') ==> never_closes(t.skip(1)),
    forall|n: Node| t.len() == 0 || run(t) == 0 && t[0] != '(' ==> !#[trigger] formula(t, n),
    forall|x: Seq<char>, n: Node| #[trigger] formula(x, n) ==> x.len() > 0,
    forall|n: Node| run(t) > 0 ==> #[trigger] formula(t, n) == leaf_case(t, n),
    forall|n: Node, p: int| run(t) == 0 && t.len() > 0 && t[0] == '(' && #[trigger] closes(t.skip(1), p) ==> #[trigger] formula(t, n) == group_case(t, n, p),
    forall|n: Node| run(t) == 0 && t.len() > 0 && t[0] == '(' && never_closes(t.skip(1)) ==> !#[trigger] formula(t, n)
{
    if t.len() > 0 && !occurs(t.skip(1), ')') { no_close(t.skip(1)); }
    reveal(clean); reveal(ascii); run_is(t); if clean(t) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as int) < 128 by { assert(allowed(t[i])); } }
    assert forall|x: Seq<char>, n: Node| #[trigger] formula(x, n) implies x.len() > 0 by { formula_nested(x, n); }
    assert forall|n: Node| t.len() == 0 || run(t) == 0 && t[0] != '(' implies !#[trigger] formula(t, n) by { none_law(t, n); }
    assert forall|n: Node| run(t) > 0 implies #[trigger] formula(t, n) == leaf_case(t, n) by { leaf_law(t, n); }
    assert forall|n: Node, p: int| run(t) == 0 && t.len() > 0 && t[0] == '(' && #[trigger] closes(t.skip(1), p) implies #[trigger] formula(t, n) == group_case(t, n, p) by { group_law(t, n, p); }
    assert forall|n: Node| run(t) == 0 && t.len() > 0 && t[0] == '(' && never_closes(t.skip(1)) implies !#[trigger] formula(t, n) by { open_law(t, n); }
}
pub proof fn literals() ensures leading_pattern(r"^\d+"@), " "@ == seq![' '], ""@.len() == 0 { reveal_strlit(r"^\d+"); reveal_strlit(" "); reveal_strlit(""); assert(r"^\d+"@ =~= seq!['^', '\\', 'd', '+']); assert(" "@ =~= seq![' ']); }
pub proof fn strips() ensures forall|x: Seq<char>| clean(x) ==> #[trigger] strip(x) == x, forall|x: Seq<char>, n: Node| clean(x) ==> #[trigger] formula(x, n) == denotes(x, n)
{ reveal(clean); assert forall|x: Seq<char>| clean(x) implies #[trigger] strip(x) == x by { strip_clean(x); } assert forall|x: Seq<char>, n: Node| clean(x) implies #[trigger] formula(x, n) == denotes(x, n) by { strip_clean(x); } }
// parts of a text without spaces
pub proof fn parts(t: Seq<char>) requires clean(t) ensures
    forall|a: int, b: int| 0 <= a <= b <= t.len() ==> clean(#[trigger] t.subrange(a, b)) && ascii(t.subrange(a, b)),
    forall|a: int, b: int, c: int, d: int| 0 <= a <= b <= t.len() && 0 <= c <= d <= b - a ==> #[trigger] t.subrange(a, b).subrange(c, d) == t.subrange(a + c, a + d),
{
    reveal(clean); reveal(ascii);
    assert forall|a: int, b: int| 0 <= a <= b <= t.len() implies clean(#[trigger] t.subrange(a, b)) && ascii(t.subrange(a, b)) by {
        let x = t.subrange(a, b);
        assert forall|i: int| 0 <= i < x.len() implies allowed(#[trigger] x[i]) && x[i] != ' ' && (x[i] as int) < 128 by { assert(x[i] == t[a + i]); assert(allowed(t[a + i])); }
    }
    assert forall|a: int, b: int, c: int, d: int| 0 <= a <= b <= t.len() && 0 <= c <= d <= b - a implies #[trigger] t.subrange(a, b).subrange(c, d) == t.subrange(a + c, a + d) by { assert(t.subrange(a, b).subrange(c, d) =~= t.subrange(a + c, a + d)); }
}
pub proof fn depth_next(s: Seq<char>, k: int) requires 0 <= k < s.len() ensures depth(s.take(k + 1)) == depth(s.take(k)) + (if s[k] == '(' { 1int } else if s[k] == ')' { -1int } else { 0int }), -k <= depth(s.take(k)) <= k { depth_step(s, k); depth_bound(s.take(k)); }
pub proof fn no_close(u: Seq<char>) requires !occurs(u, ')') ensures never_closes(u) { assert forall|k: int| 0 <= k <= u.len() implies depth(#[trigger] u.take(k)) >= 0 by { no_close_at(u, k); } }
pub proof fn no_close_at(u: Seq<char>, k: int) requires !occurs(u, ')'), 0 <= k <= u.len() ensures depth(u.take(k)) >= 0 decreases k { if k > 0 { no_close_at(u, k - 1); depth_step(u, k - 1); assert(u[k - 1] != ')'); } }
pub proof fn formula_size(t: Seq<char>, n: Node) requires formula(t, n) ensures size(n) <= t.len() decreases t.len()
{
    formula_def(t, n);
    if operand(t, n) { operand_def(t, n); if !(number(t) && n == Node::Leaf(dec(t) as u32)) { formula_size(t.subrange(1, t.len() - 1), n); } }
    else {
        let i = choose|i: int| #[trigger] joined(t, n, i); let b = split_of(t, n, i); let o = t.take(i);
        operand_def(o, b.0); if !(number(o) && b.0 == Node::Leaf(dec(o) as u32)) { formula_size(o.subrange(1, o.len() - 1), b.0); }
        formula_size(t.skip(i + 1), b.1);
    }
}
pub proof fn formula_sizes() ensures forall|t: Seq<char>, n: Node| #[trigger] formula(t, n) ==> size(n) <= t.len() { assert forall|t: Seq<char>, n: Node| #[trigger] formula(t, n) implies size(n) <= t.len() by { formula_size(t, n); } }
// `T::from` of a `T` is the value itself
#[verifier::external_body] pub fn __itself<T>(x: T) -> (r: T) ensures r == x { unimplemented!() }
pub proof fn first_close(t: Seq<char>, n: Node) -> (p: int) requires formula(t, n), t[0] == '(' ensures closes(t.skip(1), p)
{
    formula_nested(t, n); let u = t.skip(1);
    if exists|p: int| #[trigger] closes(u, p) { choose|p: int| #[trigger] closes(u, p) }
    else {
        assert forall|k: int| 0 <= k <= u.len() implies depth(#[trigger] u.take(k)) >= 0 by { never(u, k); }
        open_law(t, n); 0
    }
}
pub proof fn never(u: Seq<char>, k: int) requires 0 <= k <= u.len(), !exists|p: int| #[trigger] closes(u, p) ensures forall|j: int| 0 <= j <= k ==> depth(#[trigger] u.take(j)) >= 0 decreases k
{ if k > 0 { never(u, k - 1); if depth(u.take(k)) < 0 { assert(closes(u, k - 1)); } } else { assert(u.take(0) =~= Seq::<char>::empty()); } }
// a text denotes at most one formula
pub proof fn unambiguous(t: Seq<char>, n: Node, m: Node) requires formula(t, n), formula(t, m) ensures n == m decreases t.len()
{
    formula_nested(t, n); run_is(t);
    if run(t) > 0 {
        leaf_law(t, n); leaf_law(t, m); let r = run(t);
        if r < t.len() { unambiguous(t.skip(r + 1), rhs(n), rhs(m)); }
    } else if t[0] == '(' {
        let p = first_close(t, n); let u = t.skip(1); group_law(t, n, p); group_law(t, m, p);
        if p + 2 == t.len() { unambiguous(u.take(p), n, m); } else { unambiguous(u.take(p), lhs(n), lhs(m)); unambiguous(t.skip(p + 3), rhs(n), rhs(m)); }
    } else { none_law(t, n); }
}
pub proof fn one_meaning(s: Seq<char>) ensures forall|n: Node, m: Node| #[trigger] denotes(s, n) && #[trigger] denotes(s, m) ==> n == m { assert forall|n: Node, m: Node| #[trigger] denotes(s, n) && #[trigger] denotes(s, m) implies n == m by { unambiguous(strip(s), n, m); } }
