//! Boolean formulas: the reference semantics
use crate::ctx::Rng;
use cosmian_abe_gpsw::core::msp::Node;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum F {
    L(u32),
    A(Box<F>, Box<F>),
    O(Box<F>, Box<F>),
}
impl std::fmt::Display for F {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            F::L(x) => write!(f, "{x}"),
            F::A(a, b) => write!(f, "({a} & {b})"),
            F::O(a, b) => write!(f, "({a} | {b})"),
        }
    }
}
pub fn and(a: F, b: F) -> F {
    F::A(Box::new(a), Box::new(b))
}
pub fn or(a: F, b: F) -> F {
    F::O(Box::new(a), Box::new(b))
}
impl F {
    pub fn eval(&self, s: &dyn Fn(u32) -> bool) -> bool {
        match self {
            F::L(x) => s(*x),
            F::A(a, b) => a.eval(s) && b.eval(s),
            F::O(a, b) => a.eval(s) || b.eval(s),
        }
    }
    pub fn sat(&self, s: &[u32]) -> bool {
        self.eval(&|x| s.contains(&x))
    }
    pub fn leaves(&self) -> Vec<u32> {
        match self {
            F::L(x) => vec![*x],
            F::A(a, b) | F::O(a, b) => {
                let mut v = a.leaves();
                v.extend(b.leaves());
                v
            }
        }
    }
    pub fn node(&self) -> Node {
        match self {
            F::L(x) => Node::Leaf(*x),
            F::A(a, b) => Node::And(Box::new(a.node()), Box::new(b.node())),
            F::O(a, b) => Node::Or(Box::new(a.node()), Box::new(b.node())),
        }
    }
    /// replace some `or` by one of its branches (`narrow`), or by `and`
    pub fn refine(&self, r: &mut Rng, to_and: &mut bool, allow_and: bool) -> F {
        match self {
            F::L(x) => F::L(*x),
            F::A(a, b) => and(a.refine(r, to_and, allow_and), b.refine(r, to_and, allow_and)),
            F::O(a, b) => match r.below(if allow_and { 4 } else { 3 }) {
                0 => a.refine(r, to_and, allow_and),
                1 => b.refine(r, to_and, allow_and),
                2 => or(a.refine(r, to_and, allow_and), b.refine(r, to_and, allow_and)),
                _ => {
                    *to_and = true;
                    and(a.refine(r, to_and, allow_and), b.refine(r, to_and, allow_and))
                }
            },
        }
    }
}
pub fn dup(v: &[u32]) -> bool {
    let mut h = HashSet::new();
    v.iter().any(|x| !h.insert(*x))
}
fn shape(r: &mut Rng, l: &[u32], bias: usize) -> F {
    if l.len() == 1 {
        return F::L(l[0]);
    }
    let k = match bias {
        0 => r.range(1, l.len() - 1),
        1 => 1,
        2 => l.len() - 1,
        _ => l.len() / 2,
    };
    let a = shape(r, &l[..k], bias);
    let b = shape(r, &l[k..], bias);
    if r.coin() {
        and(a, b)
    } else {
        or(a, b)
    }
}
/// random formula with the given distinct leaves
pub fn formula(r: &mut Rng, l: &[u32]) -> F {
    let bias = r.below(4);
    shape(r, l, bias)
}
fn shape_with(r: &mut Rng, l: &[u32], bias: usize, ands: usize) -> F {
    if l.len() == 1 {
        return F::L(l[0]);
    }
    let k = match bias {
        0 => r.range(1, l.len() - 1),
        1 => 1,
        2 => l.len() - 1,
        _ => l.len() / 2,
    };
    let a = shape_with(r, &l[..k], bias, ands);
    let b = shape_with(r, &l[k..], bias, ands);
    if r.below(100) < ands {
        and(a, b)
    } else {
        or(a, b)
    }
}
/// random formula in which about `ands` of 100 operators are conjunctions
pub fn formula_of(r: &mut Rng, l: &[u32], ands: usize) -> F {
    let bias = r.below(4);
    shape_with(r, l, bias, ands)
}
/// a number of leaves beyond the ordinary: around powers of two and larger
pub fn big(r: &mut Rng, max: usize) -> usize {
    let l: Vec<usize> =
        [9, 10, 11, 15, 16, 17, 24, 31, 32, 33, 34, 40, 63, 64, 65, 66, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300]
            .iter()
            .copied()
            .filter(|x| *x <= max)
            .collect();
    *r.pick(&l)
}
impl F {
    /// leaves of a minimal satisfying set
    pub fn witness(&self, r: &mut Rng) -> Vec<u32> {
        match self {
            F::L(x) => vec![*x],
            F::A(a, b) => {
                let mut v = a.witness(r);
                v.extend(b.witness(r));
                v
            }
            F::O(a, b) => {
                if r.coin() {
                    a.witness(r)
                } else {
                    b.witness(r)
                }
            }
        }
    }
}
/// `n` distinct values below `max`
pub fn distinct(r: &mut Rng, n: usize, max: u32) -> Vec<u32> {
    let mut v: Vec<u32> = Vec::new();
    while v.len() < n {
        let x = r.below(max as usize) as u32;
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}
/// number of formulas with `k` ordered leaves, and the `i`-th of them
pub fn count(k: usize) -> u64 {
    if k == 1 {
        return 1;
    }
    (1..k).map(|a| 2 * count(a) * count(k - a)).sum()
}
pub fn nth(k: usize, mut i: u64, first: u32) -> F {
    if k == 1 {
        return F::L(first);
    }
    for a in 1..k {
        let n = 2 * count(a) * count(k - a);
        if i < n {
            let op = i % 2;
            i /= 2;
            let l = nth(a, i % count(a), first);
            let r = nth(k - a, i / count(a), first + a as u32);
            return if op == 0 { and(l, r) } else { or(l, r) };
        }
        i -= n;
    }
    unreachable!()
}
/// all formulas with up to `max` leaves 1..=k, numbered
pub fn small(i: u64, max: usize) -> F {
    let total: u64 = (1..=max).map(count).sum();
    let mut i = i % total;
    for k in 1..=max {
        if i < count(k) {
            return nth(k, i, 1);
        }
        i -= count(k);
    }
    unreachable!()
}
pub fn total(max: usize) -> u64 {
    (1..=max).map(count).sum()
}
/// a satisfying or random subset of the leaves, plus foreign values, shuffled,
/// sometimes with repetitions
pub fn attrs(r: &mut Rng, leaves: &[u32], max: u32, p: usize) -> Vec<u32> {
    let mut v: Vec<u32> = leaves.iter().copied().filter(|_| r.below(100) < p).collect();
    for _ in 0..r.below(4) {
        v.push(r.below(max as usize) as u32);
    }
    if !v.is_empty() && r.one_in(4) {
        let x = *r.pick(&v);
        v.push(x);
    }
    r.shuffle(&mut v);
    v
}
