//! C01, C02, C04, C13 on the scheme
use crate::{ctx::*, ensure, form::*, pol, toy::*};
use cosmian_abe_gpsw::core::{
    bilinear_map::{bls12_381::Bls12_381, BilinearMap},
    gpsw::{AbeScheme, AsBytes, Gpsw},
    msp::{policy_to_msp, MonotoneSpanProgram},
    Engine,
};
use cosmian_abe_gpsw::error::FormatErr;

pub type T = Gpsw<Toy>;
pub type B = Gpsw<Bls12_381>;
pub type Msk<S> = <S as AbeScheme>::MasterPrivateKey;
pub type Mpk<S> = <S as AbeScheme>::MasterPublicKey;
pub type Del<S> = <S as AbeScheme>::MasterPublicDelegationKey;
pub type Usk<S> = <S as AbeScheme>::UserDecryptionKey;
pub type Ct<S> = <S as AbeScheme>::CipherText;

pub fn e<T>(r: Result<T, FormatErr>, what: &str) -> Result<T, String> {
    r.map_err(|x| format!("{what} failed: {x}"))
}
pub fn msp_of(f: &F) -> Result<MonotoneSpanProgram<i32>, String> {
    e(f.node().to_msp(), "to_msp")
}

/// encrypt under `attrs`, decrypt with `key` of formula `f`
fn roundtrip<S>(s: &S, m: &S::PlainText, attrs: &[u32], pk: &Mpk<S>, key: &Usk<S>, sat: bool, what: &str) -> Res
where
    S: AbeScheme,
    S::PlainText: PartialEq,
{
    let ct = e(s.encrypt(m, attrs, pk), "encrypt")?;
    match s.decrypt(&ct, key) {
        Ok(Some(x)) => {
            if sat {
                ensure!(x == *m, "{what}: an authorised key recovers a value that is not the message");
            } else {
                return Err(format!(
                    "{what}: a key whose formula is not satisfied yields a plaintext ({})",
                    if x == *m { "the message" } else { "a wrong one" }
                ));
            }
        }
        Ok(None) => ensure!(!sat, "{what}: an authorised key gets no plaintext"),
        Err(x) => ensure!(!sat, "{what}: decryption fails with an authorised key: {x}"),
    }
    Ok(())
}

fn subsets(c: &mut Case, want: Option<bool>, s: &T, f: &F, leaves: &[u32], size: usize) -> Res {
    let (msk, pk, _) = e(AbeScheme::generate_master_key(s, size), "generate_master_key")?;
    let key = e(AbeScheme::key_generation(s, &msp_of(f)?, &msk), "key_generation")?;
    let n = leaves.len();
    let all = n <= 6;
    let rounds = if all { 1usize << n } else { 40 };
    for r in 0..rounds {
        let mut at: Vec<u32> = if all {
            leaves.iter().enumerate().filter(|(i, _)| r >> i & 1 == 1).map(|(_, x)| *x).collect()
        } else {
            let p = *c.rng.pick(&[30, 60, 80, 95]);
            leaves.iter().copied().filter(|_| c.rng.below(100) < p).collect()
        };
        let sat = f.sat(&at);
        if want.is_some() && want != Some(sat) {
            continue;
        }
        // values the key does not know, repetitions, order
        for _ in 0..c.rng.below(3) {
            let x = c.rng.below(size) as u32;
            if !leaves.contains(&x) {
                at.push(x);
            }
        }
        if !at.is_empty() && c.rng.one_in(5) {
            let x = *c.rng.pick(&at);
            at.push(x);
        }
        c.rng.shuffle(&mut at);
        let m = Et(match c.rng.below(6) {
            0 => 0,
            1 => 1,
            _ => c.rng.next() % P,
        });
        c.note(|| format!("toy group, formula {f}, attributes {at:?}, message {m:?}"));
        roundtrip(s, &m, &at, &pk, &key, sat, "scheme")?;
    }
    Ok(())
}
fn small_toy(c: &mut Case, want: Option<bool>) -> Res {
    let f = small(c.index, 5);
    let k = f.leaves().len();
    // rename the leaves
    let size = 12;
    let l = distinct(&mut c.rng, k, size as u32);
    let f = rename(&f, &l);
    subsets(c, want, &T::default(), &f, &l, size)
}
pub fn rename(f: &F, l: &[u32]) -> F {
    match f {
        F::L(x) => F::L(l[*x as usize - 1]),
        F::A(a, b) => and(rename(a, l), rename(b, l)),
        F::O(a, b) => or(rename(a, l), rename(b, l)),
    }
}
fn large_toy(c: &mut Case, want: Option<bool>) -> Res {
    let n = c.rng.range(3, 24);
    let size = n + c.rng.range(1, 30);
    let l = distinct(&mut c.rng, n, size as u32);
    let f = formula(&mut c.rng, &l);
    subsets(c, want, &T::default(), &f, &l, size)
}
/// attribute values that differ in one bit, or share their low or high half
fn far_values(c: &mut Case, want: Option<bool>) -> Res {
    let s = T::default();
    let size = [300, 70_000, 140_000][c.index as usize % 3];
    let mut base: Vec<u32> = vec![];
    let x = c.rng.below(250) as u32;
    for k in 0..18 {
        for y in [x, x ^ 1 << k, x + (1 << k), (x + 1) << k, 1 << k, x << 8 | x] {
            if (y as usize) < size && !base.contains(&y) {
                base.push(y);
            }
        }
    }
    c.rng.shuffle(&mut base);
    let n = c.rng.range(1, 5).min(base.len());
    let f = formula(&mut c.rng, &base[..n]);
    let (msk, pk, _) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
    let key = e(AbeScheme::key_generation(&s, &msp_of(&f)?, &msk), "key_generation")?;
    for r in 0..8 {
        let at: Vec<u32> = match r {
            0 => base[n..].to_vec(),
            1 => base.clone(),
            _ => base.iter().copied().filter(|_| c.rng.coin()).collect(),
        };
        let sat = f.sat(&at);
        if at.is_empty() || want.is_some() && want != Some(sat) {
            continue;
        }
        let m = Et(c.rng.next() % P);
        c.note(|| format!("toy group, {size} attributes, formula {f}, attributes {at:?}"));
        roundtrip(&s, &m, &at, &pk, &key, sat, "scheme")?;
    }
    Ok(())
}
/// formulas with many leaves, many satisfied leaves, many attributes
fn big_sets<S>(c: &mut Case, want: Option<bool>, s: &S, max: usize, name: &str) -> Res
where
    S: AbeScheme,
    S::PlainText: PartialEq,
{
    let n = big(&mut c.rng, max);
    let size = n + c.rng.range(1, 40);
    let l = distinct(&mut c.rng, n, size as u32);
    let ands = *c.rng.pick(&[10, 50, 90, 100]);
    let f = formula_of(&mut c.rng, &l, ands);
    let (msk, pk, _) = e(AbeScheme::generate_master_key(s, size), "generate_master_key")?;
    let key = e(AbeScheme::key_generation(s, &msp_of(&f)?, &msk), "key_generation")?;
    for r in 0..4 {
        let mut at = match r {
            // every leaf; a minimal set; one too few; a random one
            0 => l.clone(),
            1 => f.witness(&mut c.rng),
            2 => {
                let mut w = f.witness(&mut c.rng);
                let i = c.rng.below(w.len());
                w.remove(i);
                w
            }
            _ => attrs(&mut c.rng, &l, size as u32, 90),
        };
        if r > 0 && c.rng.coin() {
            // as many attributes as the keys hold, without the other leaves
            at.extend((0..size as u32).filter(|x| !l.contains(x)));
        }
        if at.is_empty() {
            continue;
        }
        c.rng.shuffle(&mut at);
        let sat = f.sat(&at);
        if want.is_some() && want != Some(sat) {
            continue;
        }
        let m = e(s.generate_random_plaintext(), "random message")?;
        c.note(|| format!("{name}, formula {f}, attributes {at:?}"));
        roundtrip(s, &m, &at, &pk, &key, sat, "scheme")?;
    }
    Ok(())
}
/// attributes the keys have no slot for: refused, or at least never confused with others
fn outside<S>(c: &mut Case, s: &S, name: &str) -> Res
where
    S: AbeScheme,
    S::PlainText: PartialEq,
{
    let n = c.rng.range(1, 5);
    let size = c.rng.range(2, 7);
    let l = distinct(&mut c.rng, n, size as u32 + 3);
    let f = formula(&mut c.rng, &l);
    let (msk, pk, del) = e(AbeScheme::generate_master_key(s, size), "generate_master_key")?;
    c.note(|| format!("{name}, {size} slots, key for {f}"));
    let mut keys: Vec<(F, Usk<S>)> = vec![];
    if let Ok(key) = AbeScheme::key_generation(s, &msp_of(&f)?, &msk) {
        if let Ok(k2) = AbeScheme::key_delegation(s, &None, &key, &del) {
            keys.push((f.clone(), k2));
        }
        keys.push((f, key));
    } else {
        let l: Vec<u32> = l.iter().copied().filter(|x| (*x as usize) < size).collect();
        if l.is_empty() {
            return Ok(());
        }
        let f = formula(&mut c.rng, &l);
        keys.push((f.clone(), e(AbeScheme::key_generation(s, &msp_of(&f)?, &msk), "key_generation")?));
        // more attributes than the key has
        let mut l2 = l.clone();
        l2.push(size as u32 + c.rng.below(3) as u32);
        let f2 = formula(&mut c.rng, &l2);
        if let Ok(k) = AbeScheme::key_delegation(s, &Some(msp_of(&f2)?), &keys[0].1, &del) {
            keys.push((f2, k));
        }
    }
    let mut sets: Vec<Vec<u32>> = (1u32..1 << size).map(|b| (0..size as u32).filter(|i| b >> i & 1 == 1).collect()).collect();
    for _ in 0..4 {
        let n = c.rng.range(1, size);
        sets.push(distinct(&mut c.rng, n, size as u32 + 3));
    }
    c.rng.shuffle(&mut sets);
    sets.truncate(24);
    for at in &sets {
        let m = e(s.generate_random_plaintext(), "random message")?;
        let ct = match AbeScheme::encrypt(s, &m, at, &pk) {
            Ok(x) => x,
            Err(x) => {
                ensure!(at.iter().any(|a| *a as usize >= size), "{name}: encryption for {at:?} fails: {x}");
                continue;
            }
        };
        for (f, k) in &keys {
            if f.sat(at) {
                continue;
            }
            c.note(|| format!("{name}, {size} slots, key for {f}, attributes {at:?}"));
            match AbeScheme::decrypt(s, &ct, k) {
                Ok(Some(x)) => ensure!(false, "a key opens a ciphertext it is not made for (equal to the message: {})", x == m),
                _ => (),
            }
        }
    }
    Ok(())
}
fn bls(c: &mut Case, want: Option<bool>) -> Res {
    let n = c.rng.range(1, 6);
    let size = 10;
    let l = distinct(&mut c.rng, n, size as u32);
    let f = formula(&mut c.rng, &l);
    let s = B::default();
    let (msk, pk, _) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
    let key = e(AbeScheme::key_generation(&s, &msp_of(&f)?, &msk), "key_generation")?;
    for _ in 0..8 {
        let p = *c.rng.pick(&[40, 70, 95]);
        let at = attrs(&mut c.rng, &l, size as u32, p);
        let sat = f.sat(&at);
        if want.is_some() && want != Some(sat) {
            continue;
        }
        let m = e(s.generate_random_plaintext(), "random message")?;
        c.note(|| format!("BLS12-381, formula {f}, attributes {at:?}"));
        roundtrip(&s, &m, &at, &pk, &key, sat, "scheme over BLS12-381")?;
    }
    Ok(())
}
/// through policies and the engine
fn engine<S>(c: &mut Case, want: Option<bool>, rounds: usize) -> Res
where
    S: AbeScheme,
    S::PlainText: PartialEq,
{
    let large = rounds > 4 && c.index % 12 == 11;
    let mut p = if large { pol::Pol::large(&mut c.rng) } else { pol::Pol::random(&mut c.rng, 3, 4) };
    let eng = Engine::<S>::new();
    let (msk, pk, _) = e(eng.generate_master_key(&p.p), "generate_master_key")?;
    let n = if large { c.rng.range(4, 30) } else { c.rng.range(1, 5) };
    let ap = p.random_ap(&mut c.rng, n);
    if dup(&p.formula(&ap).map(|f| f.leaves()).unwrap_or_default()) {
        return Ok(());
    }
    let key = e(eng.generate_user_key(&p.p, &msk, &ap), "generate_user_key")?;
    let f = p.formula(&ap)?;
    for _ in 0..rounds {
        if c.rng.one_in(3) {
            p.rotate(&mut c.rng);
        }
        let at = p.random_attrs(&mut c.rng);
        let vals: Vec<u32> = at.iter().map(|a| p.current(a)).collect();
        let sat = f.sat(&vals);
        if want.is_some() && want != Some(sat) {
            continue;
        }
        c.note(|| format!("policy {}, access policy {ap:?}, attributes {at:?}", p.p));
        let m = e(eng.random_message(), "random message")?;
        let ct = e(eng.encrypt(&p.p, &pk, &at, &m), "encrypt")?;
        match eng.decrypt(&ct, &key) {
            Ok(Some(x)) => ensure!(
                sat && x == m,
                "engine: decryption returns a value (expected sat={sat}, equal={})",
                x == m
            ),
            Ok(None) => ensure!(!sat, "engine: an authorised key gets no plaintext"),
            Err(x) => ensure!(!sat, "engine: decryption fails with an authorised key: {x}"),
        }
    }
    Ok(())
}
/// the laws the scheme needs from the real pairing and scalar wrappers
fn bls_laws(c: &mut Case) -> Res {
    use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar;
    let g = Bls12_381;
    let rs = |c: &mut Case| -> Scalar {
        match c.rng.below(6) {
            0 => Scalar::from(*c.rng.pick(&[0, 1, -1, 2, -2, i32::MAX, i32::MIN, i32::MIN + 1])),
            1 => Scalar::from(c.rng.next() as i32),
            _ => g.gen_random_scalar().unwrap(),
        }
    };
    let (a, b, k) = (rs(c), rs(c), rs(c));
    c.note(|| format!("scalars {a:?} {b:?} {k:?}"));
    let z = Bls12_381::ZERO;
    let o = Bls12_381::ONE;
    // field
    ensure!(a.clone() + &z == a, "a + 0 = a");
    ensure!(a.clone() * &o == a, "a * 1 = a");
    ensure!(a.clone() - &a == z, "a - a = 0");
    ensure!(-a.clone() + &a == z, "-a + a = 0");
    ensure!((a.clone() + &b) - &b == a, "(a + b) - b = a");
    ensure!((a.clone() + &b) * &k == (a.clone() * &k) + &(b.clone() * &k), "distributivity");
    ensure!(a.clone() * &b == b.clone() * &a, "commutativity");
    if b != z {
        ensure!((a.clone() / &b) * &b == a, "(a / b) * b = a");
    }
    ensure!((a == b) == (a.clone() - &b == z), "equality agrees with subtraction");
    // integers
    let i = c.rng.next() as i32;
    let j = *c.rng.pick(&[0, 1, -1, i32::MIN, i32::MAX, c.index as i32]);
    let big = |x: i64| -> Scalar {
        let h = Scalar::from((x.unsigned_abs() >> 16) as i32) * &Scalar::from(1 << 16)
            + &Scalar::from((x.unsigned_abs() & 0xffff) as i32);
        if x < 0 {
            -h
        } else {
            h
        }
    };
    for (x, y) in [(i, j), (j, i), (i, 1), (j, -1)] {
        ensure!(Scalar::from(x) + &Scalar::from(y) == big(x as i64 + y as i64), "From<i32>: {x} + {y}");
        if let Some(p) = (x as i64).checked_mul((y as i64) % 1000) {
            if p.unsigned_abs() >> 46 == 0 {
                ensure!(Scalar::from(x) * &Scalar::from(y % 1000) == big(p), "From<i32>: {x} * {}", y % 1000);
            }
        }
    }
    // groups
    let sum = a.clone() + &b;
    let pr = a.clone() * &b;
    ensure!(g.gt_gen_exp(&sum) == g.gt_mul(&g.gt_gen_exp(&a), &g.gt_gen_exp(&b)), "gt_mul");
    ensure!(g.gt_gen_exp(&a) == g.gt_div(&g.gt_gen_exp(&sum), &g.gt_gen_exp(&b)), "gt_div");
    ensure!(g.gt_exp(&g.gt_gen_exp(&a), &b) == g.gt_gen_exp(&pr), "gt_exp");
    ensure!(g.g2_exp(&g.g2_gen_exp(&a), &b) == g.g2_gen_exp(&pr), "g2_exp");
    ensure!(g.g3_exp(&g.g3_gen_exp(&a), &b) == g.g3_gen_exp(&pr), "g3_exp");
    ensure!(g.g3_mul(&g.g3_gen_exp(&a), &g.g3_gen_exp(&b)).1 == g.g3_gen_exp(&sum), "g3_mul");
    ensure!(g.g1_gen_exp(&a).1 == g.g3_gen_exp(&a), "g1_gen_exp raw part");
    // pairing, on every way an element of G1 is produced
    let g1s = [
        g.g1_gen_exp(&a).0,
        Bls12_381::g3_to_g1(&g.g3_gen_exp(&a)),
        g.g3_mul(&g.g3_gen_exp(&(a.clone() - &k)), &g.g3_gen_exp(&k)).0,
    ];
    for (n, p) in g1s.iter().enumerate() {
        let e2 = g.g2_gen_exp(&b);
        ensure!(
            g.prod_gt_exp(&[p], &[&e2], &[&k]) == g.gt_gen_exp(&(a.clone() * &b * &k)),
            "e(g^a, h^b)^k = e(g,h)^(abk) for an element made by way {n}"
        );
    }
    let m = if c.index % 16 == 15 { crate::form::big(&mut c.rng, 100) } else { c.rng.below(5) };
    let xs: Vec<(Scalar, Scalar, Scalar)> = (0..m).map(|_| (rs(c), rs(c), rs(c))).collect();
    let d: Vec<_> = xs.iter().map(|x| g.g1_gen_exp(&x.0).0).collect();
    let h: Vec<_> = xs.iter().map(|x| g.g2_gen_exp(&x.1)).collect();
    let want = xs.iter().fold(z.clone(), |acc, x| acc + &(x.0.clone() * &x.1 * &x.2));
    ensure!(
        g.prod_gt_exp(
            &d.iter().collect::<Vec<_>>(),
            &h.iter().collect::<Vec<_>>(),
            &xs.iter().map(|x| &x.2).collect::<Vec<_>>()
        ) == g.gt_gen_exp(&want),
        "product of {m} pairings"
    );
    Ok(())
}
fn bls_msg(c: &mut Case) -> Res {
    let s = B::default();
    let n = *c.rng.pick(&[0, 1, 5, 16, 31, 32, 33, 40]);
    let mut m = c.rng.bytes(n);
    if n == 32 && c.rng.coin() {
        m[31] &= 0x3f;
    }
    let mut m2 = m.clone();
    c.note(|| format!("message {}", hex::encode(&m)));
    let r = AbeScheme::msg_encode(&s, &m);
    ensure!(n <= 32 || r.is_err(), "msg_encode accepts {n} bytes");
    if n < 32 {
        ensure!(r.is_ok(), "msg_encode refuses {n} bytes");
    }
    if let Ok(r) = r {
        if n > 0 {
            let i = c.rng.below(n.min(31));
            m2[i] ^= 1 << c.rng.below(6);
            if let Ok(r2) = AbeScheme::msg_encode(&s, &m2) {
                ensure!(r != r2, "two messages are encoded to the same element");
            }
        }
    }
    Ok(())
}
/// span_coefs against an independent solver
fn span(c: &mut Case) -> Res {
    let large = c.index % 50 == 49;
    let (rows, cols) = if large {
        (c.rng.range(1, 70), c.rng.range(1, 60))
    } else {
        (c.rng.range(1, 6), c.rng.range(1, 5))
    };
    let mode = c.rng.below(4);
    let mut m: Vec<Vec<u64>> = (0..rows)
        .map(|_| {
            (0..cols)
                .map(|_| match mode {
                    0 => c.rng.next() % 2,
                    1 => [0, 1, P - 1, 2][c.rng.below(4)],
                    2 => c.rng.next() % P,
                    _ => [0, 0, 0, 1, P - 1][c.rng.below(5)],
                })
                .collect()
        })
        .collect();
    if rows > 1 && c.rng.one_in(3) {
        let i = c.rng.below(rows - 1);
        m[rows - 1] = m[i].clone();
    }
    if rows > 1 && c.rng.one_in(3) {
        // make it consistent
        let t: Vec<u64> =
            (0..cols).map(|j| (0..rows - 1).fold(1, |a, i| subp(a, mulp(m[i][j], i as u64 + 2)))).collect();
        m[rows - 1] = t;
    }
    c.note(|| format!("span_coefs on {m:?} (mod 2^61-1)"));
    let mut mm: Vec<Vec<Sc>> = m.iter().map(|r| r.iter().map(|x| Sc(*x)).collect()).collect();
    let r = e(T::span_coefs(&mut mm), "span_coefs")?;
    let ok = solvable(&m, &vec![1; cols]);
    match r {
        None => ensure!(!ok, "span_coefs finds no solution of a solvable system"),
        Some(x) => {
            ensure!(ok, "span_coefs returns a solution of an unsolvable system");
            ensure!(x.len() == rows, "{} coefficients for {rows} rows", x.len());
            for j in 0..cols {
                let s = (0..rows).fold(0, |a, i| addp(a, mulp(x[i].0, m[i][j])));
                ensure!(s == 1, "column {j}: combination is {s}");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- toy keys
fn rd(b: &[u8], o: &mut usize) -> u32 {
    let v = u32::from_be_bytes(b[*o..*o + 4].try_into().unwrap());
    *o += 4;
    v
}
fn rdq(b: &[u8], o: &mut usize, pad: usize) -> u64 {
    let v = u64::from_be_bytes(b[*o..*o + 8].try_into().unwrap());
    *o += 8 + pad;
    v
}
pub struct ToyKey {
    pub d: Vec<u64>,
    pub attrs: Vec<u32>,
    pub m: Vec<Vec<u64>>,
}
pub fn toy_key(k: &Usk<T>) -> Result<ToyKey, String> {
    let b = e(k.try_into_bytes(), "encoding a key")?;
    let mut o = 0;
    let n = rd(&b, &mut o) as usize;
    let d = (0..n).map(|_| rdq(&b, &mut o, 4)).collect();
    let r = rd(&b, &mut o) as usize;
    let cl = rd(&b, &mut o) as usize;
    let attrs = (0..r).map(|_| rd(&b, &mut o)).collect();
    let m = (0..r).map(|_| (0..cl).map(|_| rdq(&b, &mut o, 1)).collect()).collect();
    Ok(ToyKey { d, attrs, m })
}
fn toy_list(b: &[u8], pad: usize) -> (Vec<u64>, usize) {
    let mut o = 0;
    let n = rd(b, &mut o) as usize;
    ((0..n).map(|_| rdq(b, &mut o, pad)).collect(), o)
}
/// (t, y) of a master private key
pub fn toy_msk(k: &Msk<T>) -> Result<(Vec<u64>, u64), String> {
    let b = e(k.try_into_bytes(), "encoding a key")?;
    let (t, mut o) = toy_list(&b, 1);
    Ok((t, rdq(&b, &mut o, 1)))
}
/// solve M u = s exactly when it has full column rank; None otherwise
fn solve(m: &[Vec<u64>], s: &[u64]) -> Option<Vec<u64>> {
    let n = m[0].len();
    let mut a: Vec<Vec<u64>> = m
        .iter()
        .zip(s)
        .map(|(r, s)| {
            let mut r = r.clone();
            r.push(*s);
            r
        })
        .collect();
    for c in 0..n {
        let p = (c..a.len()).find(|&k| a[k][c] != 0)?;
        a.swap(c, p);
        let iv = invp(a[c][c]);
        for x in a[c].iter_mut() {
            *x = mulp(*x, iv);
        }
        for k in 0..a.len() {
            if k != c && a[k][c] != 0 {
                let f = a[k][c];
                for l in 0..=n {
                    let t = mulp(f, a[c][l]);
                    a[k][l] = subp(a[k][l], t);
                }
            }
        }
    }
    if (n..a.len()).any(|k| a[k][n] != 0) {
        return None;
    }
    Some((0..n).map(|k| a[k][n]).collect())
}
/// a key carries one share per leaf of its formula and no other
fn shares(c: &mut Case) -> Res {
    let n = if c.index % 20 == 19 { big(&mut c.rng, 300) } else { c.rng.range(1, 10) };
    let size = n + 5;
    let l = distinct(&mut c.rng, n, size as u32);
    let f = formula(&mut c.rng, &l);
    c.note(|| format!("key for {f}"));
    let s = T::default();
    let (msk, _, del) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
    let key = e(AbeScheme::key_generation(&s, &msp_of(&f)?, &msk), "key_generation")?;
    let key2 = e(AbeScheme::key_delegation(&s, &None, &key, &del), "key_randomization")?;
    for k in [&key, &key2] {
        let k = toy_key(k)?;
        let mut a = k.attrs.clone();
        let mut b = l.clone();
        a.sort_unstable();
        b.sort_unstable();
        ensure!(a == b, "the key carries rows for {a:?}");
        ensure!(k.d.len() == l.len(), "the key carries {} shares for {} leaves", k.d.len(), l.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- delegation
fn delegate_toy(c: &mut Case) -> Res {
    let n = if c.index % 40 == 39 { big(&mut c.rng, 150) } else { c.rng.range(1, 8) };
    let size = n + 4;
    let l = distinct(&mut c.rng, n, size as u32);
    let mut f = formula(&mut c.rng, &l);
    let orig = f.clone();
    let s = T::default();
    let (msk, pk, del) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
    let mut key = e(AbeScheme::key_generation(&s, &msp_of(&f)?, &msk), "key_generation")?;
    let mut trace = vec![f.to_string()];
    let mut anded = false;
    for _ in 0..c.rng.range(1, 4) {
        let (m, step) = match c.rng.below(4) {
            0 => (None, "randomise".to_string()),
            1 => (Some(msp_of(&f)?), "same formula".to_string()),
            2 => {
                f = f.refine(&mut c.rng, &mut anded, false);
                (Some(msp_of(&f)?), f.to_string())
            }
            _ => {
                let allow = c.rng.one_in(3);
                f = f.refine(&mut c.rng, &mut anded, allow);
                (Some(msp_of(&f)?), f.to_string())
            }
        };
        trace.push(step);
        c.note(|| format!("toy group, delegation chain {trace:?}"));
        key = e(AbeScheme::key_delegation(&s, &m, &key, &del), "key_delegation")?;
        let lv = f.leaves();
        for _ in 0..6 {
            let p = *c.rng.pick(&[50, 80, 100]);
            let mut at = attrs(&mut c.rng, &l, size as u32, p);
            if c.rng.coin() {
                at.extend(&lv);
            }
            c.note(|| format!("toy group, delegation chain {trace:?}, attributes {at:?}"));
            let msg = Et(c.rng.next() % P);
            let sat = f.sat(&at);
            let r = roundtrip(&s, &msg, &at, &pk, &key, sat, "delegated key");
            if let (true, Err(e)) = (anded, &r) {
                if sat && e.contains("recovers a value that is not the message") {
                    // listed: a key delegated from `or` to `and` recovers a wrong value
                    c.known("C04-or-to-and");
                    continue;
                }
            }
            r?;
            ensure!(!sat || orig.sat(&at), "harness: refinement is not narrower");
        }
    }
    Ok(())
}
/// the other formulas over (a subset of) the same attributes, and unknown ones
fn delegate_other(c: &mut Case) -> Res {
    let n = if c.index % 40 == 39 { big(&mut c.rng, 100) } else { c.rng.range(1, 6) };
    let size = n + 4;
    let l = distinct(&mut c.rng, n, size as u32);
    let f = formula(&mut c.rng, &l);
    let s = T::default();
    let (msk, pk, del) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
    let key = e(AbeScheme::key_generation(&s, &msp_of(&f)?, &msk), "key_generation")?;
    // absent attribute, in or out of the range of the master keys
    let mut l2 = l.clone();
    c.rng.shuffle(&mut l2);
    l2.truncate(c.rng.range(0, n));
    let foreign = loop {
        let x = c.rng.below(size + 3) as u32;
        if !l.contains(&x) {
            break x;
        }
    };
    let at = c.rng.below(l2.len() + 1);
    l2.insert(at, foreign);
    let g = formula(&mut c.rng, &l2);
    c.note(|| format!("toy group, key for {f} delegated to {g}"));
    ensure!(
        AbeScheme::key_delegation(&s, &Some(msp_of(&g)?), &key, &del).is_err(),
        "delegation to a formula with attribute {foreign}, absent from the key, is not refused"
    );
    // any formula over the same attributes: no gain
    let mut l3 = l.clone();
    c.rng.shuffle(&mut l3);
    l3.truncate(c.rng.range(1, n));
    let g = formula(&mut c.rng, &l3);
    let k2 = match AbeScheme::key_delegation(&s, &Some(msp_of(&g)?), &key, &del) {
        Ok(k) => k,
        Err(_) => return Ok(()),
    };
    for _ in 0..10 {
        let at = attrs(&mut c.rng, &l, size as u32, 50);
        c.note(|| format!("toy group, key for {f} delegated to {g}, attributes {at:?}"));
        let m = Et(c.rng.next() % P);
        let ct = e(AbeScheme::encrypt(&s, &m, &at, &pk), "encrypt")?;
        if let Ok(Some(x)) = AbeScheme::decrypt(&s, &ct, &k2) {
            ensure!(
                x != m || f.sat(&at),
                "the delegated key recovers a message that the original key could not"
            );
        }
    }
    Ok(())
}
/// derived keys with many rows, on the real group
fn delegate_big_bls(c: &mut Case) -> Res {
    let n = big(&mut c.rng, 66);
    let size = n + 3;
    let l = distinct(&mut c.rng, n, size as u32);
    let f = formula_of(&mut c.rng, &l, 80);
    let s = B::default();
    let (msk, pk, del) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
    let key = e(AbeScheme::key_generation(&s, &msp_of(&f)?, &msk), "key_generation")?;
    let g = f.refine(&mut c.rng, &mut false, false);
    for (m, h) in [(None, &f), (Some(msp_of(&g)?), &g)] {
        let k = e(AbeScheme::key_delegation(&s, &m, &key, &del), "key_delegation")?;
        for at in [h.witness(&mut c.rng), l.clone(), attrs(&mut c.rng, &l, size as u32, 90)] {
            c.note(|| format!("BLS12-381, key for {f}, derived for {h}, attributes {at:?}"));
            let msg = e(s.generate_random_plaintext(), "random message")?;
            roundtrip(&s, &msg, &at, &pk, &k, h.sat(&at), "derived key")?;
        }
    }
    Ok(())
}
fn delegate_engine<S>(c: &mut Case) -> Res
where
    S: AbeScheme,
    S::PlainText: PartialEq,
{
    use abe_policy::AccessPolicy as AP;
    let large = c.index % 25 == 24;
    let p = if large { pol::Pol::large(&mut c.rng) } else { pol::Pol::random(&mut c.rng, 3, 4) };
    let eng = Engine::<S>::new();
    let n = if large { c.rng.range(4, 30) } else { c.rng.range(1, 4) };
    let ap = p.random_ap(&mut c.rng, n);
    let f = p.formula(&ap)?;
    if dup(&f.leaves()) {
        return Ok(());
    }
    let (msk, pk, del) = e(eng.generate_master_key(&p.p), "generate_master_key")?;
    let key = e(eng.generate_user_key(&p.p, &msk, &ap), "generate_user_key")?;
    fn narrow(ap: &AP, r: &mut Rng) -> AP {
        match ap {
            AP::Attr(a) => AP::Attr(a.clone()),
            AP::And(a, b) => AP::And(Box::new(narrow(a, r)), Box::new(narrow(b, r))),
            AP::Or(a, b) => {
                if r.coin() {
                    narrow(a, r)
                } else {
                    narrow(b, r)
                }
            }
            AP::All => AP::All,
        }
    }
    // names the policy does not know are refused, alone and in a formula
    let unknown = match c.rng.below(3) {
        0 => AP::new("nowhere", "x"),
        1 => AP::new(&p.axes[0].0, "nothing"),
        _ => AP::new(&p.axes[0].1[0], &p.axes[0].0),
    };
    if matches!(&unknown, AP::Attr(a) if p.find(a).is_some()) {
        return Ok(());
    }
    for bad in [unknown.clone(), unknown.clone() & ap.clone(), ap.clone() | unknown.clone(), ap.clone() & AP::All] {
        c.note(|| format!("policy {}, key {ap:?} delegated to {bad:?}", p.p));
        ensure!(eng.delegate_user_key(&p.p, &del, &key, &bad).is_err(), "delegation to an unknown attribute is accepted");
    }
    // attributes the key does not have
    for a in p.attrs() {
        let b = AP::Attr(a.clone());
        if p.formula(&b)?.leaves().iter().any(|v| !f.leaves().contains(v)) {
            c.note(|| format!("policy {}, key {ap:?} delegated to {b:?}", p.p));
            ensure!(eng.delegate_user_key(&p.p, &del, &key, &b).is_err(), "delegation to a foreign attribute is accepted");
        }
    }
    let nar = narrow(&ap, &mut c.rng);
    for (ap2, name) in [(AP::All, "re-randomised"), (ap.clone(), "same policy"), (nar, "narrowed")] {
        let k2 = e(eng.delegate_user_key(&p.p, &del, &key, &ap2), "delegate_user_key")?;
        let f2 = if matches!(ap2, AP::All) { f.clone() } else { p.formula(&ap2)? };
        for _ in 0..4 {
            let at = p.random_attrs(&mut c.rng);
            let vals: Vec<u32> = at.iter().map(|a| p.current(a)).collect();
            c.note(|| format!("policy {}, key {ap:?}, {name} {ap2:?}, attributes {at:?}", p.p));
            let sat = f2.sat(&vals);
            let m = e(eng.random_message(), "random message")?;
            let ct = e(eng.encrypt(&p.p, &pk, &at, &m), "encrypt")?;
            match eng.decrypt(&ct, &k2) {
                Ok(Some(x)) => ensure!(sat && x == m, "{name} key: value returned, sat={sat}, equal={}", x == m),
                Ok(None) => ensure!(!sat, "{name} key gets no plaintext"),
                Err(x) => ensure!(!sat, "{name} key: {x}"),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- freshness
/// every share vector is random but for its sum
fn fresh_shares(c: &mut Case) -> Res {
    let n = if c.index % 20 == 19 { big(&mut c.rng, 70) } else { c.rng.range(2, 9) };
    let size = n + 2;
    let l = distinct(&mut c.rng, n, size as u32);
    let f = if c.rng.coin() {
        // conjunctions have as many columns as leaves
        let mut f = F::L(l[0]);
        for x in &l[1..] {
            f = if c.rng.coin() { and(f, F::L(*x)) } else { and(F::L(*x), f) };
        }
        f
    } else {
        // fewer columns than leaves
        let ands = *c.rng.pick(&[5, 20, 50, 80]);
        formula_of(&mut c.rng, &l, ands)
    };
    c.note(|| format!("toy group, shares of keys for {f}"));
    let s = T::default();
    let (msk, _, del) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
    let (t, y) = toy_msk(&msk)?;
    let us = |k: &Usk<T>| -> Result<Vec<u64>, String> {
        let k = toy_key(k)?;
        let sh: Vec<u64> =
            k.d.iter().zip(&k.attrs).map(|(d, a)| mulp(*d, t[*a as usize])).collect();
        solve(&k.m, &sh).ok_or_else(|| "the shares are not of the form M·u".to_string())
    };
    let msp = msp_of(&f)?;
    let k1 = e(AbeScheme::key_generation(&s, &msp, &msk), "key_generation")?;
    let k2 = e(AbeScheme::key_generation(&s, &msp, &msk), "key_generation")?;
    let n = toy_key(&k1)?.m[0].len();
    if n == 1 {
        // the one share is the secret: there is nothing to draw
        return Ok(());
    }
    let d1 = e(AbeScheme::key_delegation(&s, &Some(msp.clone()), &k1, &del), "key_delegation")?;
    let d2 = e(AbeScheme::key_delegation(&s, &Some(msp.clone()), &k1, &del), "key_delegation")?;
    let r1 = e(AbeScheme::key_delegation(&s, &None, &k1, &del), "key_randomization")?;
    let r2 = e(AbeScheme::key_delegation(&s, &None, &k1, &del), "key_randomization")?;
    let u: Vec<Vec<u64>> =
        [&k1, &k2, &d1, &d2, &r1, &r2].iter().map(|k| us(k)).collect::<Result<_, _>>()?;
    let sum = |v: &[u64]| v.iter().fold(0, |a, x| addp(a, *x));
    for v in &u {
        ensure!(sum(v) == y, "the shares of a key do not add up to the master secret");
    }
    let diff = |a: &[u64], b: &[u64]| -> Vec<u64> { a.iter().zip(b).map(|(x, y)| subp(*x, *y)).collect() };
    // fresh vectors: of the keys, and of the blindings of the derived ones
    let vs = [
        ("first key", u[0].clone()),
        ("second key", u[1].clone()),
        ("first delegation", diff(&u[2], &u[0])),
        ("second delegation", diff(&u[3], &u[0])),
        ("first re-randomisation", diff(&u[4], &u[0])),
        ("second re-randomisation", diff(&u[5], &u[0])),
    ];
    let mut seen: Vec<(u64, String)> = vec![(y, "master secret y".into()), (0, "zero".into()), (1, "one".into())];
    for (i, x) in t.iter().enumerate() {
        seen.push((*x, format!("t[{i}]")));
    }
    for (name, v) in &vs {
        for (i, x) in v.iter().enumerate() {
            let neg_of_first = n == 2 && i == 1;
            if !neg_of_first {
                if let Some((_, w)) = seen.iter().find(|(z, _)| z == x) {
                    return Err(format!("entry {i} of the share vector of the {name} equals {w}"));
                }
            }
            seen.push((*x, format!("entry {i} of the share vector of the {name}")));
        }
        // no constant combination of two of its random entries
        if n > 3 {
            for i in 0..n - 1 {
                for j in 0..i {
                    for (a, b, w) in [(v[i], subp(0, v[j]), "minus"), (v[i], addp(v[j], 1), "plus one")] {
                        ensure!(a != b, "entry {i} of the share vector of the {name} is {w} entry {j}");
                    }
                }
            }
        }
    }
    // delegation to a narrower formula
    let f2 = f.refine(&mut c.rng, &mut false, false);
    let msp2 = msp_of(&f2)?;
    let mut derived: Vec<Vec<u64>> = vec![];
    for _ in 0..2 {
        let d = e(AbeScheme::key_delegation(&s, &Some(msp2.clone()), &k1, &del), "key_delegation")?;
        let v = us(&d)?;
        if v.len() > 1 {
            for w in &derived {
                for i in 0..v.len() {
                    ensure!(v[i] != w[i], "two delegations to {f2} have the same share number {i}");
                }
            }
            derived.push(v);
        }
    }
    Ok(())
}
fn fresh_rest(c: &mut Case) -> Res {
    let size = if c.index % 20 == 19 { big(&mut c.rng, 300) } else { c.rng.range(2, 8) };
    let s = T::default();
    c.note(|| format!("toy group, two set-ups of size {size} and two encryptions"));
    let mut seen: Vec<(u64, String)> = vec![(0, "zero".into()), (1, "one".into())];
    let mut add = |x: u64, n: String| -> Res {
        if let Some((_, w)) = seen.iter().find(|(z, _)| *z == x) {
            return Err(format!("{n} equals {w}"));
        }
        seen.push((x, n));
        Ok(())
    };
    for r in 0..2 {
        let (msk, pk, del) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
        let (t, y) = toy_msk(&msk)?;
        for (i, x) in t.iter().enumerate() {
            add(*x, format!("t[{i}] of set-up {r}"))?;
        }
        add(y, format!("y of set-up {r}"))?;
        let db = e(del.try_into_bytes(), "encoding")?;
        let (inv, _) = toy_list(&db, 4);
        for (i, x) in inv.iter().enumerate() {
            ensure!(mulp(*x, t[i]) == 1, "delegation element {i} is not g^(1/t)");
        }
        for k in 0..2 {
            let m = Et(c.rng.next() % P);
            let at: Vec<u32> = (0..size as u32).collect();
            let ct = e(AbeScheme::encrypt(&s, &m, &at, &pk), "encrypt")?;
            let b = e(ct.try_into_bytes(), "encoding")?;
            let (ei, o2) = toy_list(&b[4 + 4 * size..], 2);
            let mut o = 4 + 4 * size + o2;
            let ep = rdq(&b, &mut o, 7);
            let x = mulp(subp(ep, m.0), invp(y));
            add(x, format!("exponent of ciphertext {k} of set-up {r}"))?;
            for (i, v) in ei.iter().enumerate() {
                ensure!(*v == mulp(x, t[i]), "component {i} of a ciphertext is not T^s");
            }
            // no attribute, and a single one
            for at in [vec![], vec![c.rng.below(size) as u32]] {
                let ct = e(AbeScheme::encrypt(&s, &m, &at, &pk), "encrypt")?;
                let b = e(ct.try_into_bytes(), "encoding")?;
                let mut o = b.len() - 15;
                let ep = rdq(&b, &mut o, 7);
                add(mulp(subp(ep, m.0), invp(y)), format!("exponent of ciphertext {k} of set-up {r} for {at:?}"))?;
            }
        }
        let a = e(s.generate_random_plaintext(), "random")?.0;
        let b = e(s.generate_random_plaintext(), "random")?.0;
        add(a, "random plaintext".into())?;
        add(b, "random plaintext".into())?;
    }
    // the vector helper
    let v = e(Toy.gen_random_scalar_vector(size + 3), "gen_random_scalar_vector")?;
    ensure!(v.len() == size + 3, "gen_random_scalar_vector returns {} scalars", v.len());
    for (i, x) in v.iter().enumerate() {
        add(x.0, format!("scalar {i} of a random vector"))?;
    }
    add(e(Toy.gen_random_scalar(), "gen_random_scalar")?.0, "random scalar".into())?;
    add(e(Toy.gen_random_scalar(), "gen_random_scalar")?.0, "random scalar".into())?;
    Ok(())
}
/// BLS12-381: outputs of two runs with equal inputs share no element
fn fresh_bls(c: &mut Case) -> Res {
    let s = B::default();
    let size = 6;
    let l = [1u32, 2, 3, 4];
    let f = and(and(F::L(1), F::L(2)), and(F::L(3), F::L(4)));
    c.note(|| format!("BLS12-381, keys for {f}, two runs each"));
    let mut all: Vec<(String, Vec<u8>)> = vec![];
    let chunk = |all: &mut Vec<(String, Vec<u8>)>, n: &str, b: &[u8], sz: usize| -> Res {
        for (i, x) in b.chunks(sz).enumerate() {
            if let Some((w, _)) = all.iter().find(|(_, y)| y[..] == *x) {
                return Err(format!("element {i} of {n} equals {w}"));
            }
            all.push((format!("element {i} of {n}"), x.to_vec()));
        }
        Ok(())
    };
    // published components are not the unblinded ones
    for x in [0i32, 1, -1] {
        use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar;
        let x = Scalar::from(x);
        let g = Bls12_381;
        chunk(&mut all, "the constants of G2", &e(g.g2_gen_exp(&x).try_into_bytes(), "")?, 48)?;
        chunk(&mut all, "the constants of G3", &e(g.g3_gen_exp(&x).try_into_bytes(), "")?, 96)?;
        chunk(&mut all, "the constants of GT", &e(g.gt_gen_exp(&x).try_into_bytes(), "")?, 288)?;
        chunk(&mut all, "the constant scalars", &e(x.try_into_bytes(), "")?, 32)?;
    }
    for r in 0..2 {
        let (msk, pk, del) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
        let mb = e(msk.try_into_bytes(), "")?;
        chunk(&mut all, &format!("master private key {r}"), &mb[4..], 32)?;
        let pb = e(pk.try_into_bytes(), "")?;
        chunk(&mut all, &format!("public key {r}"), &pb[4..4 + 48 * size], 48)?;
        chunk(&mut all, &format!("public key Y {r}"), &pb[4 + 48 * size..], 288)?;
        chunk(&mut all, &format!("delegation key {r}"), &e(del.try_into_bytes(), "")?[4..], 96)?;
        let msp = msp_of(&f)?;
        let mut key = None;
        for k in 0..2 {
            let uk = e(AbeScheme::key_generation(&s, &msp, &msk), "key_generation")?;
            chunk(&mut all, &format!("user key {r}.{k}"), &e(uk.try_into_bytes(), "")?[4..4 + 96 * l.len()], 96)?;
            key = Some(uk);
        }
        let key = key.unwrap();
        for k in 0..2 {
            for (m, n) in [(None, "re-randomised"), (Some(msp.clone()), "delegated")] {
                let uk = e(AbeScheme::key_delegation(&s, &m, &key, &del), "key_delegation")?;
                chunk(&mut all, &format!("{n} key {r}.{k}"), &e(uk.try_into_bytes(), "")?[4..4 + 96 * l.len()], 96)?;
            }
            let m = Bls12_381.gt_gen_exp(&cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar::from(5));
            let ct = e(AbeScheme::encrypt(&s, &m, &[1, 2, 3], &pk), "encrypt")?;
            let cb = e(ct.try_into_bytes(), "")?;
            chunk(&mut all, &format!("ciphertext {r}.{k}"), &cb[16 + 4..16 + 4 + 3 * 48], 48)?;
            chunk(&mut all, &format!("ciphertext body {r}.{k}"), &cb[16 + 4 + 3 * 48..], 288)?;
            let p = e(s.generate_random_plaintext(), "")?;
            chunk(&mut all, &format!("random message {r}.{k}"), &e(p.try_into_bytes(), "")?, 288)?;
        }
    }
    // the drawn scalars use the whole field
    let mut or = vec![0u8; 32];
    for _ in 0..20 {
        for (o, b) in or.iter_mut().zip(e(e(Bls12_381.gen_random_scalar(), "")?.try_into_bytes(), "")?) {
            *o |= b;
        }
    }
    ensure!(or.iter().all(|b| *b != 0), "some byte of the random scalars is always zero: {}", hex::encode(or));
    Ok(())
}
fn fresh_hybrid(c: &mut Case) -> Res {
    use cosmian_abe_gpsw::interfaces::hybrid_crypto::*;
    use cosmian_crypto_base::symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto as Aes, Metadata, SymKey};
    let p = pol::Pol::random(&mut c.rng, 2, 3);
    let eng = Engine::<T>::new();
    let (_, pk, _) = e(eng.generate_master_key(&p.p), "generate_master_key")?;
    let at = vec![p.attrs()[0].clone()];
    let meta = Metadata { uid: c.rng.bytes(8), additional_data: None };
    c.note(|| format!("hybrid headers and blocks for uid {:?}", meta.uid));
    let mut keys: Vec<Vec<u8>> = vec![];
    let mut nonces: Vec<Vec<u8>> = vec![];
    for _ in 0..4 {
        let h = e(encrypt_hybrid_header::<T, Aes>(&p.p, &pk, &at, Some(meta.clone())), "encrypt_hybrid_header")?;
        let k = h.symmetric_key.as_bytes().to_vec();
        ensure!(!keys.contains(&k), "two headers have the same symmetric key");
        keys.push(k.clone());
        let b = &h.encrypted_header_bytes;
        let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        let nonce = b[4 + n..16 + n].to_vec();
        ensure!(!nonces.contains(&nonce), "two headers have the same nonce");
        ensure!(nonce != vec![0; 12], "zero nonce");
        // (chance of a random nonce failing this: below 2^-57)
        let rev: Vec<u8> = nonce.iter().rev().cloned().collect();
        for x in [&k[..], &b[..4 + n], &meta.uid[..]] {
            for w in nonce.windows(8).chain(rev.windows(8)) {
                ensure!(!x.windows(8).any(|v| v == w), "the nonce of a header shows part of its key, capsule or uid");
            }
        }
        nonces.push(nonce);
        let long = c.rng.bytes(64);
        for len in [1, 1, 12, 16, 33, 64, 64] {
            let data = &long[..len];
            let blk =
                e(encrypt_hybrid_block::<T, Aes, 64>(&h.symmetric_key, &meta.uid, 0, data), "encrypt_hybrid_block")?;
            let nonce = blk[..12].to_vec();
            ensure!(!nonces.contains(&nonce), "two blocks have the same nonce");
            for x in [&k[..], &meta.uid[..], data] {
                ensure!(
                    !nonce.windows(8).any(|w| x.windows(8).any(|v| v == w)),
                    "the nonce of a block shows part of its key, uid or data"
                );
            }
            nonces.push(nonce);
        }
        let (k, _) = e(eng.generate_symmetric_key(&p.p, &pk, &at, 32), "generate_symmetric_key")?;
        ensure!(!keys.contains(&k), "two encapsulated keys are equal");
        keys.push(k);
    }
    Ok(())
}
#[allow(dead_code)]
pub fn use_policy(p: &abe_policy::Policy, a: &abe_policy::AccessPolicy) -> bool {
    policy_to_msp(p, a).is_ok()
}

pub fn c01() -> Vec<Kind> {
    vec![
        kind("small-formulas", total(6), total(6) * 8, |c| small_toy(c, Some(true))),
        kind("large-formulas", 2000, 20000, |c| large_toy(c, Some(true))),
        kind("span-coefs", 40000, 400000, span),
        kind("big-formulas", 600, 6000, |c| big_sets(c, Some(true), &T::default(), 300, "toy group")),
        kind("engine-toy", 6000, 60000, |c| engine::<T>(c, Some(true), 8)),
        kind("far-values", 90, 900, |c| far_values(c, Some(true))),
        kind("big-formulas-bls", 8, 60, |c| big_sets(c, Some(true), &B::default(), 129, "BLS12-381")),
        kind("bls-laws", 48, 600, bls_laws),
        kind("bls", 24, 300, |c| bls(c, Some(true))),
        kind("engine-bls", 8, 100, |c| engine::<B>(c, Some(true), 4)),
        kind("bls-messages", 40, 200, bls_msg),
    ]
}
pub fn c02() -> Vec<Kind> {
    vec![
        kind("small-formulas", total(6), total(6) * 8, |c| small_toy(c, Some(false))),
        kind("large-formulas", 2000, 20000, |c| large_toy(c, Some(false))),
        kind("span-coefs", 40000, 400000, span),
        kind("shares", 2000, 20000, shares),
        kind("big-formulas", 600, 6000, |c| big_sets(c, Some(false), &T::default(), 300, "toy group")),
        kind("engine-toy", 6000, 60000, |c| engine::<T>(c, Some(false), 8)),
        kind("outside", 4000, 40000, |c| outside(c, &T::default(), "toy group")),
        kind("outside-bls", 8, 60, |c| outside(c, &B::default(), "BLS12-381")),
        kind("far-values", 90, 900, |c| far_values(c, Some(false))),
        kind("big-formulas-bls", 8, 60, |c| big_sets(c, Some(false), &B::default(), 129, "BLS12-381")),
        kind("bls", 24, 300, |c| bls(c, Some(false))),
        kind("engine-bls", 8, 100, |c| engine::<B>(c, Some(false), 4)),
    ]
}
pub fn c04() -> Vec<Kind> {
    vec![
        kind("chains", 12000, 100000, delegate_toy),
        kind("other-formulas", 12000, 100000, delegate_other),
        kind("engine-toy", 5000, 50000, delegate_engine::<T>),
        kind("big-bls", 4, 40, delegate_big_bls),
        kind("engine-bls", 8, 100, delegate_engine::<B>),
        kind("shares", 100, 1000, shares),
    ]
}
pub fn c13() -> Vec<Kind> {
    vec![
        kind("share-vectors", 12000, 100000, fresh_shares),
        kind("setup-and-encryption", 8000, 80000, fresh_rest),
        kind("hybrid", 3000, 30000, fresh_hybrid),
        kind("bls", 12, 60, fresh_bls),
    ]
}
