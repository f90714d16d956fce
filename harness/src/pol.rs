//! C03 and C12: policies
use crate::{ctx::*, ensure, form::*, scheme::*, toy::*};
use abe_policy::{AccessPolicy as AP, Attribute, Policy, PolicyAxis};
use cosmian_abe_gpsw::core::{
    gpsw::AbeScheme,
    msp::{policy_to_msp, MonotoneSpanProgram},
    Engine,
};

/// a policy together with the model of it
#[derive(Clone)]
pub struct Pol {
    pub p: Policy,
    pub axes: Vec<(String, Vec<String>, bool)>,
    /// values of every attribute, oldest first
    pub vals: Vec<Vec<Vec<u32>>>,
    pub last: u32,
    pub max: u32,
}
/// names that are near one another: case, prefixes, spaces, separators, letters
fn name(style: usize, j: usize) -> String {
    match style {
        1 => ["ab", "AB", "aB", "Ab", "abb", "A", "a"][j % 7].to_string() + &"'".repeat(j / 7),
        2 => "a".repeat(j + 1),
        3 => ["a", "a ", " a", "a b", "a::b", "a:", "::"][j % 7].to_string() + &"'".repeat(j / 7),
        4 => ["é", "e", "è", "日本", "日", "\u{0065}\u{0301}", "ß"][j % 7].to_string() + &"'".repeat(j / 7),
        5 => (4 - j.min(4)..9).map(|x| x.to_string()).collect::<String>() + &"'".repeat(j / 5),
        _ => format!("a{}", (j * 7 + 3) % 11),
    }
}
impl Pol {
    pub fn empty(max: u32) -> Pol {
        Pol { p: Policy::new(max), axes: vec![], vals: vec![], last: 0, max }
    }
    pub fn add(&mut self, name: &str, attrs: &[String], hier: bool) -> bool {
        let r = self.p.add_axis(&PolicyAxis::new(
            name,
            &attrs.iter().map(|s| s.as_str()).collect::<Vec<_>>(),
            hier,
        ));
        if r.is_ok() {
            self.axes.push((name.into(), attrs.to_vec(), hier));
            self.vals.push(
                attrs
                    .iter()
                    .map(|_| {
                        self.last += 1;
                        vec![self.last]
                    })
                    .collect(),
            );
        }
        r.is_ok()
    }
    pub fn random(r: &mut Rng, max_axes: usize, max_attrs: usize) -> Pol {
        let na = r.range(1, max_axes);
        let sizes: Vec<usize> = (0..na).map(|_| r.range(1, max_attrs)).collect();
        let used: usize = sizes.iter().sum();
        let rot = *r.pick(&[0usize, 0, 1, 3, 6]);
        let slack = *r.pick(&[0usize, 0, 1, 5]);
        let mut p = Pol::empty((used + rot + slack) as u32);
        for (i, n) in sizes.iter().enumerate() {
            // names sort differently from their rank
            let style = r.below(6);
            let mut names: Vec<String> = (0..*n).map(|j| name(style, j)).collect();
            if r.coin() {
                r.shuffle(&mut names);
            }
            let hier = r.coin();
            let axis = if style == 0 { format!("X{i}") } else { format!("{}x", name(style, i)) };
            assert!(p.add(&axis, &names, hier) || p.add(&format!("X{i}"), &names, hier));
        }
        for _ in 0..rot {
            p.rotate(r);
        }
        p
    }
    /// many axes, attributes and rotations
    pub fn large(r: &mut Rng) -> Pol {
        let na = r.range(4, 9);
        let sizes: Vec<usize> = (0..na).map(|_| r.range(1, 14)).collect();
        let rot = *r.pick(&[0usize, 20, 70]);
        let mut p = Pol::empty((sizes.iter().sum::<usize>() + rot + r.below(3)) as u32);
        for (i, n) in sizes.iter().enumerate() {
            let mut names: Vec<String> = (0..*n).map(|j| format!("name {}", j * 5 % 17)).collect();
            if r.coin() {
                r.shuffle(&mut names);
            }
            let hier = r.coin();
            assert!(p.add(&format!("Axis {i}"), &names, hier));
        }
        for _ in 0..rot {
            p.rotate(r);
        }
        p
    }
    pub fn rotate(&mut self, r: &mut Rng) -> Option<Attribute> {
        if self.last >= self.max {
            return None;
        }
        let i = r.below(self.axes.len());
        let j = r.below(self.axes[i].1.len());
        let a = Attribute::new(&self.axes[i].0, &self.axes[i].1[j]);
        self.p.rotate(&a).unwrap();
        self.last += 1;
        self.vals[i][j].push(self.last);
        Some(a)
    }
    pub fn attrs(&self) -> Vec<Attribute> {
        self.axes
            .iter()
            .flat_map(|(n, l, _)| l.iter().map(move |a| Attribute::new(n, a)))
            .collect()
    }
    pub fn find(&self, a: &Attribute) -> Option<(usize, usize)> {
        let i = self.axes.iter().position(|x| x.0 == a.axis)?;
        let j = self.axes[i].1.iter().position(|x| *x == a.name)?;
        Some((i, j))
    }
    pub fn current(&self, a: &Attribute) -> u32 {
        let (i, j) = self.find(a).unwrap();
        *self.vals[i][j].last().unwrap()
    }
    /// the values an attribute accepts
    pub fn accepts(&self, a: &Attribute) -> Option<Vec<u32>> {
        let (i, j) = self.find(a)?;
        let lo = if self.axes[i].2 { 0 } else { j };
        Some((lo..=j).flat_map(|k| self.vals[i][k].clone()).collect())
    }
    pub fn all_values(&self) -> Vec<u32> {
        (1..=self.last).collect()
    }
    /// the boolean formula over values; None when it has to be refused
    pub fn formula_opt(&self, ap: &AP) -> Option<F> {
        Some(match ap {
            AP::Attr(a) => self.accepts(a)?.into_iter().map(F::L).reduce(or)?,
            AP::And(a, b) => and(self.formula_opt(a)?, self.formula_opt(b)?),
            AP::Or(a, b) => or(self.formula_opt(a)?, self.formula_opt(b)?),
            AP::All => return None,
        })
    }
    pub fn formula(&self, ap: &AP) -> Result<F, String> {
        match ap {
            AP::All => self.all_values().into_iter().map(F::L).reduce(or).ok_or_else(|| "empty".into()),
            _ => self.formula_opt(ap).ok_or_else(|| "harness: unknown attribute".to_string()),
        }
    }
    pub fn random_ap(&self, r: &mut Rng, n: usize) -> AP {
        let mut at = self.attrs();
        r.shuffle(&mut at);
        at.truncate(n);
        fn go(r: &mut Rng, l: &[Attribute]) -> AP {
            if l.len() == 1 {
                return AP::Attr(l[0].clone());
            }
            let k = r.range(1, l.len() - 1);
            let (a, b) = (go(r, &l[..k]), go(r, &l[k..]));
            if r.coin() {
                a & b
            } else {
                a | b
            }
        }
        go(r, &at)
    }
    pub fn random_attrs(&self, r: &mut Rng) -> Vec<Attribute> {
        let p = *r.pick(&[20, 50, 80]);
        let mut v: Vec<Attribute> = self.attrs().into_iter().filter(|_| r.below(100) < p).collect();
        if v.is_empty() {
            v.push(r.pick(&self.attrs()).clone());
        }
        r.shuffle(&mut v);
        v
    }
}

fn red(x: i32) -> u64 {
    if x < 0 {
        P - x.unsigned_abs() as u64
    } else {
        x as u64
    }
}
/// well-formed, one row per leaf, and spans 1,…,1 exactly on satisfying sets
pub fn msp_ok(c: &mut Case, m: &MonotoneSpanProgram<i32>, f: &F) -> Res {
    let mut lv = f.leaves();
    let mut rows: Vec<u32> = (0..m.rows()).map(|i| m.get_attr_from_row(i)).collect();
    for (i, a) in rows.iter().enumerate() {
        ensure!(m.get_row_from_attr(*a) == Some(i), "row {i} has attribute {a}, which maps to another row");
        ensure!(m.get_row(i).len() == m.cols(), "row {i} does not have {} columns", m.cols());
    }
    ensure!(m.matrix().len() == m.rows(), "row count");
    let order = lv.clone();
    lv.sort_unstable();
    rows.sort_unstable();
    ensure!(lv == rows, "rows for {rows:?}, leaves {lv:?}");
    let n = order.len();
    let rounds = if n <= 9 {
        1usize << n
    } else if n <= 60 {
        60
    } else {
        6
    };
    for r in 0..rounds {
        let set: Vec<u32> = if n <= 9 {
            (0..n).filter(|i| r >> i & 1 == 1).map(|i| order[i]).collect()
        } else {
            let p = *c.rng.pick(&[20, 50, 80, 95]);
            let w = f.witness(&mut c.rng);
            match c.rng.below(4) {
                0 => w,
                1 => {
                    let i = c.rng.below(w.len());
                    order.iter().copied().filter(|x| *x != w[i]).collect()
                }
                _ => order.iter().copied().filter(|_| c.rng.below(100) < p).collect(),
            }
        };
        let sub: Vec<Vec<u64>> = set
            .iter()
            .map(|a| m.get_row(m.get_row_from_attr(*a).unwrap()).iter().map(|x| red(*x)).collect())
            .collect();
        let acc = solvable(&sub, &vec![1; m.cols()]);
        ensure!(
            acc == f.sat(&set),
            "the span program {} the set {set:?}, the formula {f} is {}",
            if acc { "accepts" } else { "rejects" },
            f.sat(&set)
        );
    }
    Ok(())
}
fn msp_small(c: &mut Case) -> Res {
    let f = small(c.index, 5);
    let k = f.leaves().len();
    let mut l: Vec<u32> = (0..k).map(|_| c.rng.next() as u32).collect();
    if c.rng.one_in(3) {
        l[0] = *c.rng.pick(&[0, u32::MAX]);
    }
    if dup(&l) {
        return Ok(());
    }
    let f = rename(&f, &l);
    c.note(|| format!("span program of {f}"));
    msp_ok(c, &msp_of(&f)?, &f)
}
fn msp_large(c: &mut Case) -> Res {
    let n = if c.index % 8 == 7 { big(&mut c.rng, 300) } else { c.rng.range(2, 40) };
    let l = distinct(&mut c.rng, n, 1000);
    let ands = *c.rng.pick(&[10, 50, 90, 100]);
    let f = formula_of(&mut c.rng, &l, ands);
    c.note(|| format!("span program of {f}"));
    msp_ok(c, &msp_of(&f)?, &f)
}
fn msp_dup(c: &mut Case) -> Res {
    let n = if c.index % 10 == 9 { big(&mut c.rng, 300) } else { c.rng.range(2, 12) };
    let mut l = distinct(&mut c.rng, n, 1000);
    let i = c.rng.below(n - 1);
    l[n - 1] = l[i];
    c.rng.shuffle(&mut l);
    let f = formula(&mut c.rng, &l);
    c.note(|| format!("span program of {f}"));
    ensure!(f.node().to_msp().is_err(), "a repeated attribute value is not rejected");
    Ok(())
}
fn policies(c: &mut Case) -> Res {
    let large = c.index % 12 == 11;
    let p = if large { Pol::large(&mut c.rng) } else { Pol::random(&mut c.rng, 3, 4) };
    let n = if large { c.rng.range(4, 40) } else { c.rng.range(1, 6) };
    let ap = if c.rng.one_in(8) { AP::All } else { p.random_ap(&mut c.rng, n) };
    c.note(|| format!("policy {}, access policy {ap:?}", p.p));
    let f = p.formula(&ap)?;
    let r = policy_to_msp(&p.p, &ap);
    if dup(&f.leaves()) {
        ensure!(r.is_err(), "a repeated attribute value is not rejected");
        return Ok(());
    }
    msp_ok(c, &e(r, "policy_to_msp")?, &f)
}
/// unknown names and `All` inside a formula
fn bad_policies(c: &mut Case) -> Res {
    let p = Pol::random(&mut c.rng, 3, 4);
    let n = c.rng.range(1, 4);
    let ap = p.random_ap(&mut c.rng, n);
    let known = c.rng.pick(&p.attrs()).clone();
    let other_axis = p.axes.len() > 1;
    let bad = match c.rng.below(8) {
        // near misses of a known name
        5..=7 => {
            let v = |r: &mut Rng, s: &str| -> String {
                match r.below(6) {
                    0 => s.to_uppercase(),
                    1 => s.to_lowercase(),
                    2 => format!("{s}a"),
                    3 => format!(" {s}"),
                    4 => s.chars().skip(1).collect(),
                    _ => s.chars().take(s.chars().count() - 1).collect(),
                }
            };
            let (a, n) = match c.rng.below(3) {
                0 => (v(&mut c.rng, &known.axis), known.name.clone()),
                1 => (known.axis.clone(), v(&mut c.rng, &known.name)),
                _ => (known.name.clone(), known.axis.clone()),
            };
            AP::new(&a, &n)
        }
        0 => AP::All,
        1 => AP::new("nowhere", &known.name),
        2 => AP::new(&known.axis, "nothing"),
        3 if other_axis => {
            // a name of another axis that this axis does not have
            let (n, l, _) = c.rng.pick(&p.axes).clone();
            match p.axes.iter().filter(|x| x.0 != n).flat_map(|x| &x.1).find(|x| !l.contains(x)) {
                Some(x) => AP::new(&n, x),
                None => AP::new("", ""),
            }
        }
        _ => AP::new(&known.axis, &format!("{} ", known.name)),
    };
    if let AP::Attr(a) = &bad {
        if p.find(a).is_some() {
            return Ok(());
        }
    }
    // at a random place of the formula
    fn put(ap: AP, bad: AP, r: &mut Rng) -> AP {
        match ap {
            AP::And(a, b) if r.coin() => {
                if r.coin() {
                    AP::And(Box::new(put(*a, bad, r)), b)
                } else {
                    AP::And(a, Box::new(put(*b, bad, r)))
                }
            }
            AP::Or(a, b) if r.coin() => {
                if r.coin() {
                    AP::Or(Box::new(put(*a, bad, r)), b)
                } else {
                    AP::Or(a, Box::new(put(*b, bad, r)))
                }
            }
            x => match r.below(4) {
                0 => x & bad,
                1 => bad & x,
                2 => x | bad,
                _ => bad | x,
            },
        }
    }
    let all = put(ap, bad, &mut c.rng);
    c.note(|| format!("policy {}, access policy {all:?}", p.p));
    ensure!(policy_to_msp(&p.p, &all).is_err(), "not rejected");
    // a lone unknown attribute too
    ensure!(policy_to_msp(&p.p, &AP::new("nowhere", "x")).is_err(), "unknown axis not rejected");
    ensure!(policy_to_msp(&p.p, &AP::new(&known.axis, "nothing")).is_err(), "unknown attribute not rejected");
    ensure!(policy_to_msp(&Policy::new(3), &AP::All).is_err(), "`All` of an empty policy not rejected");
    // a policy whose axis lists an attribute without value
    let mut q = p.p.clone();
    q.attribute_to_int.remove(&known);
    let r = policy_to_msp(&q, &AP::Attr(known.clone()));
    ensure!(r.is_err(), "attribute without value not rejected");
    Ok(())
}

// ---------------------------------------------------------------- C12
fn histories<S>(c: &mut Case, steps: usize) -> Res
where
    S: AbeScheme,
    S::PlainText: PartialEq,
{
    // all axes are not there at set-up; the capacity is exact in most cases
    let na = c.rng.range(1, 3);
    let sizes: Vec<usize> = (0..na).map(|_| c.rng.range(1, 3)).collect();
    let rot = c.rng.range(0, steps);
    let slack = *c.rng.pick(&[0usize, 0, 0, 1, 2]);
    let max = (sizes.iter().sum::<usize>() + rot + slack) as u32;
    let mut p = Pol::empty(max);
    let eng = Engine::<S>::new();
    let (msk, pk, del) = e(eng.generate_master_key(&p.p), "generate_master_key")?;
    let hs: Vec<bool> = (0..na).map(|_| c.rng.coin()).collect();
    let mut trace = vec![];
    let mut keys: Vec<(S::UserDecryptionKey, F, String)> = vec![];
    let mut cts: Vec<(S::CipherText, S::PlainText, Vec<u32>)> = vec![];
    let mut ax = 0;
    let mut left = rot + slack;
    while ax < na || left > 0 {
        if ax < na && (ax == 0 || c.rng.coin() || left == 0) {
            let names: Vec<String> = (0..sizes[ax]).map(|j| format!("n{j}")).collect();
            ensure!(p.add(&format!("X{ax}"), &names, hs[ax]), "harness: add_axis");
            trace.push(format!("axis X{ax} {names:?} {}", hs[ax]));
            ax += 1;
        } else {
            left -= 1;
            if let Some(a) = p.rotate(&mut c.rng) {
                trace.push(format!("rotate {a}"));
                // the rotated attribute: new ciphertexts, and keys before and after
                let m = e(eng.random_message(), "random message")?;
                c.note(|| format!("capacity {max}, {trace:?}, encrypt for {a}"));
                let ct = e(eng.encrypt(&p.p, &pk, &[a.clone()], &m), "encrypt")?;
                cts.push((ct, m, vec![p.current(&a)]));
                let ap = AP::Attr(a.clone());
                c.note(|| format!("capacity {max}, {trace:?}, key for {ap:?}"));
                let k = e(eng.generate_user_key(&p.p, &msk, &ap), "generate_user_key")?;
                let f = p.formula(&ap)?;
                keys.push((k, f, format!("{ap:?} after {}", trace.len())));
            }
        }
        for ap in [AP::All, p.random_ap(&mut c.rng, 3)] {
            let f = p.formula(&ap)?;
            if dup(&f.leaves()) {
                continue;
            }
            c.note(|| format!("capacity {max}, {trace:?}, key for {ap:?}"));
            let k = e(eng.generate_user_key(&p.p, &msk, &ap), "generate_user_key")?;
            c.note(|| format!("capacity {max}, {trace:?}, delegation for {ap:?}"));
            let k2 = e(eng.delegate_user_key(&p.p, &del, &k, &ap), "delegate_user_key")?;
            keys.push((k, f.clone(), format!("{ap:?} after {}", trace.len())));
            keys.push((k2, f, format!("delegated {ap:?} after {}", trace.len())));
        }
        let at = p.random_attrs(&mut c.rng);
        let m = e(eng.random_message(), "random message")?;
        c.note(|| format!("capacity {max}, {trace:?}, encrypt for {at:?}"));
        let ct = e(eng.encrypt(&p.p, &pk, &at, &m), "encrypt")?;
        cts.push((ct, m, at.iter().map(|a| p.current(a)).collect()));
    }
    // every key against every ciphertext
    let stride = if keys.len() * cts.len() > 400 { 3 } else { 1 };
    for (i, (k, f, name)) in keys.iter().enumerate() {
        for (j, (ct, m, at)) in cts.iter().enumerate() {
            if (i + j) % stride != 0 {
                continue;
            }
            c.note(|| format!("capacity {max}, {trace:?}, key {name}, ciphertext for values {at:?}"));
            let sat = f.sat(at);
            match eng.decrypt(ct, k) {
                Ok(Some(x)) => ensure!(sat && x == *m, "value returned: sat={sat}, equal={}", x == *m),
                Ok(None) => ensure!(!sat, "no plaintext for an authorised key"),
                Err(x) => ensure!(!sat, "error for an authorised key: {x}"),
            }
        }
    }
    Ok(())
}
/// the last slot
fn capacity(c: &mut Case) -> Res {
    let max = match c.index as u32 % 28 {
        i @ 0..=23 => i + 1,
        i => [33, 65, 130, 258][i as usize - 24],
    };
    let mut p = Pol::empty(max);
    let eng = Engine::<T>::new();
    let late = c.rng.coin();
    if !late {
        p.add("A", &["x".into()], false);
    }
    let (msk, pk, del) = e(eng.generate_master_key(&p.p), "generate_master_key")?;
    if late {
        p.add("A", &["x".into()], false);
    }
    let a = Attribute::new("A", "x");
    loop {
        let v = p.current(&a);
        c.note(|| format!("capacity {max}, attribute value {v}"));
        let m = e(eng.random_message(), "random message")?;
        let ct = e(eng.encrypt(&p.p, &pk, &[a.clone()], &m), "encrypt")?;
        let k = e(eng.generate_user_key(&p.p, &msk, &AP::Attr(a.clone())), "generate_user_key")?;
        let k = e(eng.delegate_user_key(&p.p, &del, &k, &AP::Attr(a.clone())), "delegate_user_key")?;
        ensure!(e(eng.decrypt(&ct, &k), "decrypt")? == Some(m), "wrong message");
        if p.last == max {
            break;
        }
        p.p.rotate(&a).map_err(|e| format!("rotate: {e}"))?;
        p.last += 1;
        p.vals[0][0].push(p.last);
    }
    ensure!(p.p.rotate(&a).is_err(), "harness: capacity");
    Ok(())
}

/// policies with hundreds of conjunctions or disjunctions
fn wide(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[120, 127, 128, 129, 255, 256, 257, 258, 290]);
    let mut p = Pol::empty(n as u32 + 3);
    let names: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
    p.add("A", &names, false);
    let mut at = p.attrs();
    c.rng.shuffle(&mut at);
    let mode = c.index % 4;
    c.note(|| format!("policy over {n} attributes of one axis, shape {mode} (0: all of them, 1: pairs, 2: any, 3: random)"));
    let ap = match mode {
        0 => at.iter().cloned().map(AP::Attr).reduce(|a, b| a & b),
        1 => at.chunks(2).map(|x| x.iter().cloned().map(AP::Attr).reduce(|a, b| a & b).unwrap()).reduce(|a, b| if c.rng.below(20) == 0 { b | a } else { b & a }),
        2 => at.iter().cloned().map(AP::Attr).reduce(|a, b| a | b),
        _ => Some(p.random_ap(&mut c.rng, n)),
    }
    .unwrap();
    let m = e(policy_to_msp(&p.p, &ap), "to_msp")?;
    msp_ok(c, &m, &p.formula(&ap)?)?;
    if c.index % 8 != 0 {
        return Ok(());
    }
    let eng = Engine::<T>::new();
    let (msk, pk, _) = e(eng.generate_master_key(&p.p), "generate_master_key")?;
    let k = e(eng.generate_user_key(&p.p, &msk, &ap), "generate_user_key")?;
    let msg = e(eng.random_message(), "random message")?;
    let ct = e(eng.encrypt(&p.p, &pk, &at, &msg), "encrypt")?;
    ensure!(e(eng.decrypt(&ct, &k), "decrypt")? == Some(msg), "wrong message");
    Ok(())
}

pub fn c03() -> Vec<Kind> {
    vec![
        kind("small-formulas", total(6), total(7) * 2, msp_small),
        kind("large-formulas", 2000, 20000, msp_large),
        kind("repeated", 2000, 20000, msp_dup),
        kind("wide-policies", 16, 200, wide),
        kind("policies", 10000, 100000, policies),
        kind("rejected", 10000, 100000, bad_policies),
    ]
}
pub fn c12() -> Vec<Kind> {
    vec![
        kind("capacity", 28, 112, capacity),
        kind("wide-policies", 16, 200, wide),
        kind("histories", 4000, 40000, |c| histories::<T>(c, if c.index % 12 == 11 { 30 } else { 6 })),
        kind("histories-bls", 6, 40, |c| histories::<B>(c, 3)),
    ]
}
