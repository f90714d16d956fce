//! C07: formula texts
use crate::{ctx::*, ensure, form::*, pol};
use cosmian_abe_gpsw::core::msp::{MonotoneSpanProgram, Node};

/// reference parser: None = has to be rejected
pub fn reference(s: &str) -> Option<F> {
    let t: Vec<u8> = s.bytes().filter(|c| *c != b' ').collect();
    if s.bytes().any(|c| !b" ()&|0123456789".contains(&c)) {
        return None;
    }
    let mut o = 0;
    let f = expr(&t, &mut o)?;
    (o == t.len()).then_some(f)
}
fn expr(t: &[u8], o: &mut usize) -> Option<F> {
    let l = match t.get(*o)? {
        b'(' => {
            *o += 1;
            let f = expr(t, o)?;
            if *t.get(*o)? != b')' {
                return None;
            }
            *o += 1;
            f
        }
        b'0'..=b'9' => {
            let mut v: u64 = 0;
            while let Some(d @ b'0'..=b'9') = t.get(*o) {
                v = v.checked_mul(10)?.checked_add((d - b'0') as u64)?;
                if v > u32::MAX as u64 {
                    return None;
                }
                *o += 1;
            }
            F::L(v as u32)
        }
        _ => return None,
    };
    match t.get(*o) {
        Some(b'&') => {
            *o += 1;
            Some(and(l, expr(t, o)?))
        }
        Some(b'|') => {
            *o += 1;
            Some(or(l, expr(t, o)?))
        }
        _ => Some(l),
    }
}
fn of(n: &Node) -> F {
    match n {
        Node::Leaf(x) => F::L(*x),
        Node::And(a, b) => and(of(a), of(b)),
        Node::Or(a, b) => or(of(a), of(b)),
    }
}
/// a space between two digits: the text says neither one integer nor two
fn split_number(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).any(|i| {
        b[i] == b' '
            && b[..i].iter().rev().find(|c| **c != b' ').is_some_and(|c| c.is_ascii_digit())
            && b[i..].iter().find(|c| **c != b' ').is_some_and(|c| c.is_ascii_digit())
    })
}
pub fn check(c: &Case, s: &str) -> Res {
    c.note(|| format!("text {s:?}"));
    let got = Node::parse(s).ok().map(|n| of(&n));
    let want = reference(s);
    if split_number(s) && got.is_none() {
        return Ok(());
    }
    ensure!(
        got == want,
        "parsed as {}, expected {}",
        got.map_or("an error".into(), |f| f.to_string()),
        want.map_or("an error".into(), |f| f.to_string())
    );
    Ok(())
}
fn exhaustive(c: &mut Case, len: usize) -> Res {
    // every text over a small alphabet: block of 7^4 texts per case
    let al = b"1&|() 2";
    let block = 7u64.pow(4);
    for i in 0..block {
        let mut n = c.index * block + i;
        let mut s = String::new();
        for _ in 0..len {
            s.push(al[(n % 7) as usize] as char);
            n /= 7;
        }
        if n > 0 {
            break;
        }
        check(c, &s)?;
        let t = s.trim_end_matches('1');
        if t.len() < s.len() && i % 7 == 0 {
            check(c, t)?;
        }
    }
    Ok(())
}
fn text(r: &mut Rng, f: &F, top: bool) -> String {
    let sp = |r: &mut Rng| " ".repeat([0, 0, 1, 2][r.below(4)]);
    let mut s = match f {
        F::L(x) => {
            if r.one_in(12) {
                format!("0{x}")
            } else {
                x.to_string()
            }
        }
        F::A(a, b) | F::O(a, b) => {
            let op = if matches!(f, F::A(..)) { "&" } else { "|" };
            let mut l = text(r, a, false);
            if !matches!(**a, F::L(_)) && !l.trim().starts_with("((") {
                l = format!("({l})");
            } else if !matches!(**a, F::L(_)) {
                l = format!("({l})");
            }
            let rr = text(r, b, false);
            let rr = if matches!(**b, F::L(_)) || r.coin() { rr } else { format!("({rr})") };
            format!("{l}{}{op}{}{rr}", sp(r), sp(r))
        }
    };
    if !top && r.one_in(5) || matches!(f, F::L(_)) && r.one_in(6) {
        s = format!("({s})");
        // an extra pair is only transparent at the end or before an operator
    }
    format!("{}{s}{}", sp(r), sp(r))
}
fn valid(c: &mut Case) -> Res {
    let n = if c.index % 25 == 24 { big(&mut c.rng, 300) } else { c.rng.range(1, 14) };
    let l: Vec<u32> = (0..n)
        .map(|_| match c.rng.below(5) {
            0 => *c.rng.pick(&[0, 1, u32::MAX, u32::MAX - 1, 4294967290]),
            1 => c.rng.next() as u32,
            _ => c.rng.below(30) as u32,
        })
        .collect();
    let f = formula(&mut c.rng, &l);
    let s = text(&mut c.rng, &f, true);
    // the text denotes f
    ensure!(reference(&s).as_ref() == Some(&f), "harness: {s} does not denote {f}");
    check(c, &s)?;
    if !dup(&l) && (n <= 9 || c.index % 25 == 24) {
        let m: MonotoneSpanProgram<i32> =
            MonotoneSpanProgram::parse(&s).map_err(|e| format!("MonotoneSpanProgram::parse: {e}"))?;
        pol::msp_ok(c, &m, &f)?;
    }
    Ok(())
}
fn mutated(c: &mut Case) -> Res {
    let n = c.rng.range(1, 8);
    let m = *c.rng.pick(&[30, 30, 2000, u32::MAX as usize]);
    let l: Vec<u32> = (0..n).map(|_| c.rng.below(m) as u32).collect();
    let f = formula(&mut c.rng, &l);
    let brackets = c.rng.coin();
    for _ in 0..10 {
        let mut s: Vec<char> = text(&mut c.rng, &f, true).chars().collect();
        for _ in 0..c.rng.range(1, 3) {
            let i = c.rng.below(s.len() + 1);
            let x = *c.rng.pick(&[
                '(', ')', '&', '|', ' ', '0', '7', '9', 'a', '-', '+', '\t', '\n', 'é', '٣', '🙂', '\0', '!', '^',
            ]);
            let x = if brackets { *c.rng.pick(&['(', ')', ')']) } else { x };
            match c.rng.below(4) {
                0 if !s.is_empty() => {
                    s.remove(i.min(s.len() - 1));
                }
                1 if !s.is_empty() => {
                    let k = i.min(s.len() - 1);
                    s[k] = x;
                }
                2 if s.len() > 1 => {
                    let k = c.rng.below(s.len());
                    let i = i.min(s.len() - 1);
                    s.swap(i, k);
                }
                _ => s.insert(i, x),
            }
        }
        let s: String = s.into_iter().collect();
        check(c, &s)?;
    }
    Ok(())
}
fn fixed(c: &mut Case) -> Res {
    let zeros = format!("{}7&{}", "0".repeat(30), "0".repeat(300));
    let spaces = format!("{}1{}&{}2{}", " ".repeat(300), " ".repeat(40), " ".repeat(5000), " ".repeat(70));
    let many = (0..400).map(|i| (4_294_967_295u32 - i).to_string()).collect::<Vec<_>>().join(" | ");
    let big = "1 & ".repeat(150) + "2";
    let deep = "(".repeat(150) + "1" + &")".repeat(150);
    let deep2 = "(1|".repeat(120) + "1" + &")".repeat(120);
    let deep3 = "(".repeat(120) + "1" + &"|1)".repeat(120);
    for s in [
        "", " ", "()", "( )", "(1", "1)", "((1)", "(1))", "1&", "&1", "1|", "|1", "1&&2", "1||2", "1 2", "1(2)", "(1)2",
        "(1)(2)", "4294967295", "4294967296", "99999999999999999999", "1&4294967296", "()&1", "1&()", "(1)&", "(&1)",
        "(1&)", "((1)&2", "(1&(2)", ")1(", "+1", "-1", "1.0", "0x1", "1&2|3", "1|2&3", "(1&2)|3", "(1|2)&3", "(1)&2|3",
        "((1))", "((1)&(2))", "(1)&(2)", "(1&2)&(3|4)", "¹", "١", "1\u{a0}&2", "00", "007", "((((1))))|2", "(1)|(2)&(3)",
        "(1(2)&3)", "(1&2", "1&2)", "(()1)", "(1)()", "((1)2)&3",
        &zeros, &spaces, &many, &big, &deep, &deep2, &deep3,
    ] {
        check(c, s)?;
    }
    Ok(())
}
pub fn c07() -> Vec<Kind> {
    vec![
        kind("fixed", 1, 1, fixed),
        kind("texts-of-length-6", 7u64.pow(2), 7u64.pow(2), |c| exhaustive(c, 6)),
        kind("texts-of-length-7", 0, 7u64.pow(3), |c| exhaustive(c, 7)),
        kind("valid", 4000, 20000, valid),
        kind("mutated", 4000, 20000, mutated),
    ]
}
