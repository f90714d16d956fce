// ---- texts
pub trait Txt8 { spec fn tx(&self) -> Seq<char>; }
impl Txt8 for str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl Txt8 for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl<'a> Txt8 for &'a str { open spec fn tx(&self) -> Seq<char> { (**self)@ } }
#[verifier::opaque]
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as int) < 128 }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
// the first `k` characters are digits
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn dec(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
// length of the longest prefix of digits
pub open spec fn run(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !digit(s[0]) { 0 } else { 1 + run(s.drop_first()) } }
pub open spec fn strip(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if s.last() == ' ' { strip(s.drop_last()) } else { strip(s.drop_last()).push(s.last()) } }
pub open spec fn occurs(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c }
// byte offsets are character offsets: the model is only for texts of one-byte characters
#[verifier::external_body] pub fn __from<T: Txt8 + ?Sized>(s: &T, a: usize) -> (r: &str) requires ascii(s.tx()), a <= s.tx().len() ensures r@ == s.tx().subrange(a as int, s.tx().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn __sub<T: Txt8 + ?Sized>(s: &T, a: usize, b: usize) -> (r: &str) requires ascii(s.tx()), a <= b <= s.tx().len() ensures r@ == s.tx().subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn __is_empty<T: Txt8 + ?Sized>(s: &T) -> (r: bool) ensures r == (s.tx().len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn __tlen<T: Txt8 + ?Sized>(s: &T) -> (r: usize) ensures ascii(s.tx()) ==> r == s.tx().len() { unimplemented!() }
#[verifier::external_body] pub fn __chars<T: Txt8 + ?Sized>(s: &T) -> (r: Vec<char>) ensures r@ == s.tx() { unimplemented!() }
#[verifier::external_body] pub fn __first<T: Txt8 + ?Sized>(s: &T) -> (r: Option<char>) ensures r == (if s.tx().len() == 0 { None } else { Some(s.tx()[0]) }) { unimplemented!() }
#[verifier::external_body] pub fn __count<T: Txt8 + ?Sized>(s: &T, c: char) -> (r: usize) ensures (r == 0) == !occurs(s.tx(), c) { unimplemented!() }
#[verifier::external_body] pub fn __replace(s: &str, a: &str, b: &str) -> (r: String) ensures a@ == seq![' '] && b@.len() == 0 ==> r@ == strip(s@) { unimplemented!() }
#[verifier::external_body] pub fn __parse_u32(s: &str) -> (r: Result<u32, ErrText>) ensures s@.len() > 0 && digits(s@) ==> match r { Ok(v) => v == dec(s@), Err(_) => dec(s@) > u32::MAX }, s@.len() == 0 ==> r is Err { unimplemented!() }
pub trait In8 { spec fn list(&self) -> Seq<char>; }
impl<const N: usize> In8 for [char; N] { open spec fn list(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn __contains<T: In8>(l: &T, c: &char) -> (r: bool) ensures r == l.list().contains(*c) { unimplemented!() }
// regular expressions: only the one that matches leading digits has a meaning here
pub struct Regex { p: ErrText }
pub struct Match<'a> { s: &'a str }
pub uninterp spec fn leading(r: Regex) -> bool;
pub open spec fn leading_pattern(p: Seq<char>) -> bool { p == seq!['^', '\\', 'd', '+'] || p == seq!['^', '[', '0', '-', '9', ']', '+'] }
impl Regex {
    #[verifier::external_body] pub fn new(p: &str) -> (r: Result<Regex, ErrText>) ensures leading_pattern(p@) ==> r is Ok && leading(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn is_match<T: Txt8 + ?Sized>(&self, s: &T) -> (r: bool) ensures leading(*self) && ascii(s.tx()) ==> r == (run(s.tx()) > 0) { unimplemented!() }
    #[verifier::external_body] pub fn captures_len(&self) -> (r: usize) ensures leading(*self) ==> r == 1 { unimplemented!() }
    #[verifier::external_body] pub fn find_at<'a, T: Txt8 + ?Sized>(&self, s: &'a T, i: usize) -> (r: Option<Match<'a>>) requires i <= s.tx().len() ensures leading(*self) && ascii(s.tx()) && i == 0 ==> match r { Some(m) => run(s.tx()) > 0 && m.tx() == s.tx().take(run(s.tx())), None => run(s.tx()) == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn find<'a, T: Txt8 + ?Sized>(&self, s: &'a T) -> (r: Option<Match<'a>>) ensures leading(*self) && ascii(s.tx()) ==> match r { Some(m) => run(s.tx()) > 0 && m.tx() == s.tx().take(run(s.tx())), None => run(s.tx()) == 0 } { unimplemented!() }
}
impl<'a> Match<'a> {
    pub uninterp spec fn tx(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.tx() { unimplemented!() }
}

// ---- the grammar
pub open spec fn allowed(c: char) -> bool { digit(c) || c == ' ' || c == '(' || c == ')' || c == '&' || c == '|' }
pub open spec fn all_allowed(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> allowed(#[trigger] s[i]) }
pub open spec fn number(s: Seq<char>) -> bool { s.len() > 0 && digits(s) && dec(s) <= u32::MAX }
pub open spec fn lhs(n: Node) -> Node { match n { Node::And(a, b) => *a, Node::Or(a, b) => *a, Node::Leaf(_) => n } }
pub open spec fn rhs(n: Node) -> Node { match n { Node::And(a, b) => *b, Node::Or(a, b) => *b, Node::Leaf(_) => n } }
// the operator of `n` stands at `i`
pub open spec fn op_at(t: Seq<char>, n: Node, i: int) -> bool { 0 < i < t.len() && match n { Node::And(a, b) => t[i] == '&', Node::Or(a, b) => t[i] == '|', Node::Leaf(_) => false } }
// formula: an operand, or an operand, an operator and a formula; operand: an integer or a formula between parentheses
#[verifier::opaque]
pub open spec fn formula(t: Seq<char>, n: Node) -> bool decreases t.len() {
    number(t) && n == Node::Leaf(dec(t) as u32)
    || t.len() >= 2 && t[0] == '(' && t.last() == ')' && formula(t.subrange(1, t.len() - 1), n)
    || exists|i: int| #[trigger] op_at(t, n, i)
        && (number(t.take(i)) && lhs(n) == Node::Leaf(dec(t.take(i)) as u32) || i >= 2 && t[0] == '(' && t[i - 1] == ')' && formula(t.subrange(1, i - 1), lhs(n)))
        && formula(t.skip(i + 1), rhs(n))
}
pub open spec fn operand(t: Seq<char>, n: Node) -> bool { number(t) && n == Node::Leaf(dec(t) as u32) || t.len() >= 2 && t[0] == '(' && t.last() == ')' && formula(t.subrange(1, t.len() - 1), n) }
pub open spec fn joined(t: Seq<char>, n: Node, i: int) -> bool { op_at(t, n, i) && operand(t.take(i), lhs(n)) && formula(t.skip(i + 1), rhs(n)) }
// what the text `s` denotes, spaces being insignificant
pub open spec fn denotes(s: Seq<char>, n: Node) -> bool { all_allowed(s) && formula(strip(s), n) }
