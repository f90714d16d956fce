//! C05 and C06: encodings
use crate::{ctx::*, ensure, form::*, scheme::*, toy::*};
use cosmian_abe_gpsw::core::{
    bilinear_map::{bls12_381::Bls12_381, bls12_381::Scalar, BilinearMap},
    gpsw::{AbeScheme, AsBytes, Gpsw},
    msp::MonotoneSpanProgram,
};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::*;
use cosmian_crypto_base::symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto as Aes, Metadata};

/// round trip, with and without trailing bytes; returns the encoding
fn rt<X: AsBytes>(c: &mut Case, name: &str, x: &X, eq: impl Fn(&X, &X) -> bool) -> Result<Vec<u8>, String> {
    let b = e(x.try_into_bytes(), &format!("encoding {name}"))?;
    ensure!(
        x.len_bytes() == b.len(),
        "{name}: len_bytes is {} and the encoding has {} bytes",
        x.len_bytes(),
        b.len()
    );
    let k = c.rng.range(5, 400);
    for extra in [vec![], vec![0u8], vec![0xff; 3], c.rng.bytes(4), vec![0; 32], c.rng.bytes(k), b.clone()] {
        let mut v = b.clone();
        v.extend(&extra);
        c.note(|| format!("{name} {} followed by {}", hex::encode(&b[..b.len().min(400)]), hex::encode(&extra[..extra.len().min(400)])));
        let y = X::try_from_bytes(&v)
            .map_err(|x| format!("{name}: its encoding followed by {} bytes is refused: {x}", extra.len()))?;
        ensure!(eq(x, &y), "{name}: decodes to a different value ({} trailing bytes)", extra.len());
        let b2 = e(y.try_into_bytes(), &format!("re-encoding {name}"))?;
        ensure!(b2 == b, "{name}: re-encoding gives other bytes");
        ensure!(y.len_bytes() == b.len(), "{name}: decoded value reports another length");
    }
    Ok(b)
}
fn same<X: PartialEq>(a: &X, b: &X) -> bool {
    a == b
}
fn ascending(c: &mut Case, n: usize, max: u32) -> Vec<u32> {
    let mut l = distinct(&mut c.rng, n, max);
    if c.rng.coin() {
        l.sort_unstable();
    }
    l
}
fn values<G: BilinearMap>(c: &mut Case, maxn: usize) -> Res
where
    G: Clone + std::fmt::Debug + PartialEq,
    Gpsw<G>: AbeScheme,
    <Gpsw<G> as AbeScheme>::PlainText: PartialEq,
{
    let s = Gpsw::<G>::default();
    let n = if maxn > 10 && c.index % 30 == 29 { big(&mut c.rng, 300) } else { c.rng.range(1, maxn) };
    let size = n + c.rng.below(6);
    let l = ascending(c, n, size as u32);
    let f = formula(&mut c.rng, &l);
    let (msk, pk, del) = e(AbeScheme::generate_master_key(&s, size), "generate_master_key")?;
    let msp = msp_of(&f)?;
    let key = e(AbeScheme::key_generation(&s, &msp, &msk), "key_generation")?;
    let dk = e(AbeScheme::key_delegation(&s, &Some(msp.clone()), &key, &del), "key_delegation")?;
    let rk = e(AbeScheme::key_delegation(&s, &None, &key, &del), "key_randomization")?;
    rt(c, "span program", &msp, same)?;
    rt(c, "master private key", &msk, same)?;
    rt(c, "public key", &pk, same)?;
    rt(c, "delegation key", &del, same)?;
    rt(c, "user key", &key, same)?;
    rt(c, "delegated key", &dk, same)?;
    let kb = rt(c, "re-randomised key", &rk, same)?;
    let key2 = e(Usk::<Gpsw<G>>::try_from_bytes(&kb), "decoding")?;
    let m = e(s.generate_random_plaintext(), "random")?;
    rt(c, "message", &m, same)?;
    let mut at = attrs(&mut c.rng, &l, size as u32, 80);
    if at.is_empty() {
        at.push(c.rng.below(size) as u32);
    }
    let ct = e(AbeScheme::encrypt(&s, &m, &at, &pk), "encrypt")?;
    let cb = rt(c, "ciphertext", &ct, |_, _| true)?;
    let ct2 = e(<Gpsw<G> as AbeScheme>::CipherText::try_from_bytes(&cb), "decoding")?;
    c.note(|| format!("decoded key for {f}, decoded ciphertext for {at:?}"));
    let sat = f.sat(&at);
    for (ct, k) in [(&ct2, &key), (&ct, &key2), (&ct2, &key2)] {
        match AbeScheme::decrypt(&s, ct, k) {
            Ok(Some(x)) => ensure!(sat && x == m, "decoded key or ciphertext decrypts differently"),
            _ => ensure!(!sat, "decoded key or ciphertext does not decrypt"),
        }
    }
    Ok(())
}
fn msps(c: &mut Case) -> Res {
    let n = if c.index % 20 == 19 { big(&mut c.rng, 300) } else { c.rng.range(1, 30) };
    let mut l = distinct(&mut c.rng, n, u32::MAX);
    if c.rng.one_in(3) {
        l[0] = *c.rng.pick(&[0, u32::MAX]);
        if dup(&l) {
            return Ok(());
        }
    }
    let f = formula(&mut c.rng, &l);
    let m = msp_of(&f)?;
    let b = rt(c, "span program", &m, same)?;
    let m2 = e(MonotoneSpanProgram::<i32>::try_from_bytes(&b), "decoding")?;
    for i in 0..m.rows() {
        let a = m.get_attr_from_row(i);
        ensure!(m2.get_attr_from_row(i) == a, "row {i} of the decoded span program is for another attribute");
        ensure!(m2.get_row_from_attr(a) == m.get_row_from_attr(a), "attribute {a} of the decoded span program");
        ensure!(m2.get_row(i) == m.get_row(i), "row {i} of the decoded span program");
    }
    Ok(())
}
fn elements(c: &mut Case) -> Res {
    let g = Bls12_381;
    let x = match c.index {
        0..=8 => Scalar::from([0, 1, -1, 2, -2, 255, i32::MAX, i32::MIN, -256][c.index as usize]),
        _ => e(g.gen_random_scalar(), "random")?,
    };
    rt(c, "scalar", &x, same)?;
    rt(c, "element of G1", &g.g2_gen_exp(&x), same)?;
    rt(c, "element of G2", &g.g3_gen_exp(&x), same)?;
    rt(c, "element of GT", &g.gt_gen_exp(&x), same)?;
    rt(c, "list of scalars", &vec![x.clone(), Bls12_381::ZERO, x.clone()], same)?;
    rt(c, "list of G1", &vec![g.g2_gen_exp(&x), g.g2_gen_exp(&Bls12_381::ZERO)], same)?;
    rt(c, "list of G2", &vec![g.g3_gen_exp(&x); 2], same)?;
    Ok(())
}
fn lists(c: &mut Case) -> Res {
    let n = if c.index % 100 == 99 {
        *c.rng.pick(&[255, 256, 257, 1000, 4096, 65_535, 65_536, 65_537, 70_000])
    } else {
        c.rng.range(1, 40)
    };
    let edge = |c: &mut Case| match c.rng.below(4) {
        0 => *c.rng.pick(&[0u32, 1, u32::MAX, 1 << 31, 4]),
        1 => c.rng.below(50) as u32,
        _ => c.rng.next() as u32,
    };
    let v: Vec<u32> = (0..n).map(|_| edge(c)).collect();
    let w: Vec<i32> = v.iter().map(|x| *x as i32).collect();
    rt(c, "u32", &v[0], same)?;
    rt(c, "i32", &w[0], same)?;
    rt(c, "list of u32", &v, same)?;
    rt(c, "list of i32", &w, same)?;
    rt(c, "list of toy elements", &v.iter().map(|x| E3(*x as u64)).collect::<Vec<_>>(), same)?;
    let em: Vec<u32> = vec![];
    let b = e(em.try_into_bytes(), "encoding an empty list")?;
    ensure!(b.is_empty() && em.len_bytes() == 0, "empty list");
    ensure!(e(Vec::<u32>::try_from_bytes(&b), "decoding")? == em, "empty list");
    Ok(())
}
pub fn c05() -> Vec<Kind> {
    vec![
        kind("toy-values", 1200, 10000, |c| values::<Toy>(c, 20)),
        kind("bls-big", 3, 24, |c| values::<Bls12_381>(c, 40)),
        kind("span-programs", 2000, 20000, msps),
        kind("lists", 1000, 10000, lists),
        kind("elements", 40, 400, elements),
        kind("bls-values", 12, 120, |c| values::<Bls12_381>(c, 4)),
    ]
}

// ------------------------------------------------------------------ hostile
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..[1, 1, 1, 2, 3][r.below(5)] {
        let n = v.len();
        match r.below(10) {
            0 => v.truncate(r.below(n + 1)),
            1 if n > 0 => v[r.below(n)] ^= 1 << r.below(8),
            2 if n > 0 => v[r.below(n)] = r.next() as u8,
            3 | 4 if n >= 4 => {
                // a 32-bit field, often near the start
                let o = if r.coin() { 4 * r.below((n / 4).min(8)) } else { r.below(n - 3) };
                let o = o.min(n - 4);
                let cur = u32::from_be_bytes(v[o..o + 4].try_into().unwrap());
                let x = match r.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => cur.wrapping_add(1),
                    3 => cur.wrapping_sub(1),
                    4 => 1 << 31,
                    5 => u32::MAX,
                    6 => 1 << r.below(32),
                    _ => r.below(40) as u32,
                };
                v[o..o + 4].copy_from_slice(&x.to_be_bytes());
            }
            5 => {
                let k = r.range(1, 40);
                let t = r.bytes(k);
                v.extend(t)
            }
            6 if n > 1 => {
                let a = r.below(n);
                let k = r.range(1, (n - a).min(64));
                v.drain(a..a + k);
            }
            7 if n > 1 => {
                let a = r.below(n);
                let k = r.range(1, (n - a).min(64));
                let s = v[a..a + k].to_vec();
                let at = r.below(n);
                v.splice(at..at, s);
            }
            8 if n > 1 => {
                let a = r.below(n);
                let k = r.range(1, (n - a).min(96));
                for x in &mut v[a..a + k] {
                    *x = 0;
                }
            }
            _ => {
                let k = r.below(5);
                v.truncate(n.saturating_sub(k))
            }
        }
    }
    v
}
/// decode under guard: no panic, memory in proportion
fn dec<X: AsBytes>(c: &Case, name: &str, b: &[u8]) -> Result<Option<X>, String> {
    c.note(|| format!("decoding as {name}: {}", hex::encode(&b[..b.len().min(2000)])));
    reset_alloc();
    let r = guarded(|| X::try_from_bytes(b)).map_err(|p| format!("decoding {name} panics: {p}"))?;
    let m = max_alloc();
    ensure!(
        m <= 1000 * b.len() + (1 << 20),
        "decoding {} bytes as {name} reserves {m} bytes",
        b.len()
    );
    match r {
        Ok(x) => {
            guarded(|| x.len_bytes()).map_err(|p| format!("len_bytes of a decoded {name} panics: {p}"))?;
            guarded(|| x.try_into_bytes().map(|_| ()))
                .map_err(|p| format!("re-encoding a decoded {name} panics: {p}"))?
                .ok();
            Ok(Some(x))
        }
        Err(_) => Ok(None),
    }
}
fn u32at(b: &[u8], o: usize) -> usize {
    u32::from_be_bytes(b[o..o + 4].try_into().unwrap()) as usize
}
struct Sample<S: AbeScheme> {
    s: S,
    enc: [Vec<u8>; 6],
}
/// encodings of a span program, msk, mpk, delegation key, user key, ciphertext
fn sample<S: AbeScheme>(c: &mut Case, maxn: usize) -> Result<Sample<S>, String> {
    let s = S::default();
    let n = c.rng.range(1, maxn);
    let size = n + c.rng.below(3);
    let l = ascending(c, n, size as u32);
    let f = formula(&mut c.rng, &l);
    let (msk, pk, del) = e(s.generate_master_key(size), "generate_master_key")?;
    let msp = msp_of(&f)?;
    let key = e(s.key_generation(&msp, &msk), "key_generation")?;
    let m = e(s.generate_random_plaintext(), "random")?;
    let mut at = attrs(&mut c.rng, &l, size as u32, 90);
    if at.is_empty() {
        at.push(l[0]);
    }
    let ct = e(s.encrypt(&m, &at, &pk), "encrypt")?;
    let b = |x: Result<Vec<u8>, _>| e(x, "encoding");
    Ok(Sample {
        s,
        enc: [
            b(msp.try_into_bytes())?,
            b(msk.try_into_bytes())?,
            b(pk.try_into_bytes())?,
            b(del.try_into_bytes())?,
            b(key.try_into_bytes())?,
            b(ct.try_into_bytes())?,
        ],
    })
}
/// decode everything and use it together
fn play<S: AbeScheme>(c: &mut Case, s: &S, v: &[Vec<u8>; 6], g3: usize, g2: usize) -> Res {
    let msp = dec::<MonotoneSpanProgram<i32>>(c, "span program", &v[0])?;
    let msk = dec::<Msk<S>>(c, "master private key", &v[1])?;
    let mpk = dec::<Mpk<S>>(c, "public key", &v[2])?;
    let del = dec::<S::MasterPublicDelegationKey>(c, "delegation key", &v[3])?;
    let usk = dec::<Usk<S>>(c, "user key", &v[4])?;
    let ct = dec::<Ct<S>>(c, "ciphertext", &v[5])?;
    dec::<S::PlainText>(c, "message", &v[2][v[2].len().min(4)..])?;
    // one component per attribute, read off the re-encoding
    if let Some(k) = &usk {
        if let Ok(b) = k.try_into_bytes() {
            let n = if b.len() < 4 { 0 } else { u32at(&b, 0) };
            let o = 4 + n * g3;
            ensure!(b.len() >= o + 8 && u32at(&b, o) == n, "a decoded key has {n} elements and other rows");
        }
    }
    if let Some(k) = &ct {
        if let Ok(b) = k.try_into_bytes() {
            let n = if b.len() < 4 { 0 } else { u32at(&b, 0) };
            let o = 4 + 4 * n;
            ensure!(
                b.len() >= o + 4 + n * g2 && u32at(&b, o) == n,
                "a decoded ciphertext has {n} attributes and another number of elements"
            );
        }
    }
    c.note(|| format!("using together: {}", v.iter().map(|x| hex::encode(&x[..x.len().min(2000)])).collect::<Vec<_>>().join(" ; ")));
    let mut keys: Vec<Usk<S>> = usk.into_iter().collect();
    if let (Some(msp), Some(msk)) = (&msp, &msk) {
        if let Ok(k) = guarded(|| s.key_generation(msp, msk)).map_err(|p| format!("key generation panics: {p}"))? {
            keys.push(k);
        }
    }
    if let Some(del) = &del {
        for i in 0..keys.len() {
            for m in [&None, &msp] {
                if let Ok(k) = guarded(|| s.key_delegation(m, &keys[i], del))
                    .map_err(|p| format!("delegation (formula: {}) panics: {p}", m.is_some()))?
                {
                    keys.push(k);
                }
            }
        }
    }
    let mut cts: Vec<Ct<S>> = ct.into_iter().collect();
    if let Some(pk) = &mpk {
        let m = e(s.generate_random_plaintext(), "random")?;
        let at: Vec<u32> = (0..c.rng.range(0, 4)).map(|_| *c.rng.pick(&[0, 1, 2, 3, 5, 9, u32::MAX])).collect();
        if let Ok(x) = guarded(|| s.encrypt(&m, &at, pk)).map_err(|p| format!("encryption under {at:?} panics: {p}"))? {
            cts.push(x);
        }
    }
    for k in &keys {
        for x in &cts {
            guarded(|| s.decrypt(x, k).map(|_| ())).map_err(|p| format!("decryption panics: {p}"))?.ok();
        }
        guarded(|| k.try_into_bytes().map(|_| ())).map_err(|p| format!("encoding panics: {p}"))?.ok();
    }
    Ok(())
}
fn hostile<S: AbeScheme>(c: &mut Case, maxn: usize, g3: usize, g2: usize) -> Res {
    let a: Sample<S> = sample(c, maxn)?;
    let b: Sample<S> = if c.rng.coin() { sample(c, maxn)? } else { Sample { s: S::default(), enc: a.enc.clone() } };
    for _ in 0..3 {
        let mut v = a.enc.clone();
        for i in 0..6 {
            if c.rng.one_in(3) {
                v[i] = b.enc[i].clone();
            }
        }
        for _ in 0..c.rng.range(0, 3) {
            let i = c.rng.below(6);
            v[i] = match c.rng.below(8) {
                // another kind of value
                0 => v[c.rng.below(6)].clone(),
                _ => mutate(&mut c.rng, &v[i]),
            };
        }
        play(c, &a.s, &v, g3, g2)?;
    }
    Ok(())
}
/// a list of another length in the place of each list of a ciphertext or a key
fn mixed<S: AbeScheme>(c: &mut Case, maxn: usize, g3: usize, g2: usize) -> Res {
    let a: Sample<S> = sample(c, maxn)?;
    let list = |r: &mut Rng, b: &[u8], o: usize, size: usize| -> Vec<u8> {
        let n = u32at(b, o);
        let m = *r.pick(&[n - 1, n + 1, 0, 1, 2 * n, n - 1]);
        let mut v = (m as u32).to_be_bytes().to_vec();
        for i in 0..m {
            let k = o + 4 + size * (i % n);
            v.extend(&b[k..k + size]);
        }
        if m == 0 && r.coin() {
            v.clear();
        }
        v
    };
    for _ in 0..4 {
        let mut v = a.enc.clone();
        // ciphertext: attributes, elements, rest
        let n = u32at(&v[5], 0);
        let (x, y) = (4 + 4 * n, 8 + (4 + g2) * n);
        let (mut p, mut q, rest) = (v[5][..x].to_vec(), v[5][x..y].to_vec(), v[5][y..].to_vec());
        match c.rng.below(4) {
            0 => p = list(&mut c.rng, &v[5], 0, 4),
            1 | 2 => q = list(&mut c.rng, &v[5], x, g2),
            _ => {}
        }
        v[5] = [p, q, rest].concat();
        // key: elements, span program
        let n = u32at(&v[4], 0);
        let x = 4 + g3 * n;
        let (mut p, q) = (v[4][..x].to_vec(), v[4][x..].to_vec());
        if c.rng.coin() {
            p = list(&mut c.rng, &v[4], 0, g3);
        }
        v[4] = [p, q].concat();
        // private key, public key, delegation key: shorter or longer lists
        for (i, size) in [(1, 32), (2, g2), (3, g3)] {
            if c.rng.one_in(3) {
                let size = if size == 32 { (v[1].len() - 4) / (u32at(&v[1], 0) + 1) } else { size };
                let n = u32at(&v[i], 0);
                if v[i].len() >= 4 + n * size && n > 0 {
                    let rest = v[i][4 + n * size..].to_vec();
                    v[i] = [list(&mut c.rng, &v[i], 0, size), rest].concat();
                }
            }
        }
        play(c, &a.s, &v, g3, g2)?;
    }
    Ok(())
}
/// every truncation of every encoding, and special values in every 32-bit field
fn every<S: AbeScheme>(c: &mut Case, g3: usize, g2: usize, step: usize) -> Res {
    let a: Sample<S> = sample(c, 3)?;
    for i in 0..6 {
        let mut k = 0;
        while k < a.enc[i].len() {
            let mut v = a.enc.clone();
            v[i].truncate(k);
            play(c, &a.s, &v, g3, g2)?;
            k += if k < 16 { 1 } else { c.rng.range(1, step) };
        }
        let mut o = 0;
        while o + 4 <= a.enc[i].len() {
            for x in [0u32, 1, 2, 1 << 16, 1 << 30, 1 << 31, u32::MAX - 1, u32::MAX] {
                if x > 2 && o > 16 && !c.rng.one_in(step) {
                    continue;
                }
                let mut v = a.enc.clone();
                v[i][o..o + 4].copy_from_slice(&x.to_be_bytes());
                play(c, &a.s, &v, g3, g2)?;
            }
            o += if o < 16 { 1 } else { c.rng.range(1, step) };
        }
    }
    Ok(())
}
/// structured random bytes given to every decoder
fn random_bytes(c: &mut Case) -> Res {
    for _ in 0..40 {
        let n = *c.rng.pick(&[0, 1, 3, 4, 5, 7, 8, 9, 12, 16, 20, 31, 32, 33, 47, 48, 95, 96, 100, 287, 288, 300, 700]);
        let mut b: Vec<u8> = match c.rng.below(4) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => c.rng.bytes(n),
        };
        let lim = c.rng.below(12);
        for k in 0..n / 4 {
            if k < lim {
                b[4 * k..4 * k + 4].copy_from_slice(&(c.rng.below(9) as u32).to_be_bytes());
            }
        }
        macro_rules! all { ($($t:ty),*) => { $( dec::<$t>(c, stringify!($t), &b)?; )* } }
        all!(u32, i32, Vec<u32>, Vec<i32>, Vec<Vec<u32>>, Scalar, Vec<Scalar>, Sc, Vec<Sc>, Vec<E3>);
        all!(MonotoneSpanProgram<i32>, MonotoneSpanProgram<Sc>, MonotoneSpanProgram<Scalar>);
        all!(<Bls12_381 as BilinearMap>::G2, <Bls12_381 as BilinearMap>::G3, <Bls12_381 as BilinearMap>::Gt);
        all!(Vec<<Bls12_381 as BilinearMap>::G2>, Vec<<Bls12_381 as BilinearMap>::Gt>);
        all!(Msk<T>, Mpk<T>, <T as AbeScheme>::MasterPublicDelegationKey, Usk<T>, Ct<T>);
        all!(Msk<B>, Mpk<B>, <B as AbeScheme>::MasterPublicDelegationKey, Usk<B>, Ct<B>);
        headers(c, &b)?;
    }
    Ok(())
}
fn headers(c: &mut Case, b: &[u8]) -> Res {
    c.note(|| format!("hybrid header {}", hex::encode(&b[..b.len().min(2000)])));
    reset_alloc();
    guarded(|| EncryptedHeader::<Aes>::try_from_bytes(b).map(|_| ()))
        .map_err(|p| format!("EncryptedHeader::try_from_bytes panics: {p}"))?
        .ok();
    guarded(|| ClearTextHeader::<Aes>::try_from_bytes(b).map(|_| ()))
        .map_err(|p| format!("ClearTextHeader::try_from_bytes panics: {p}"))?
        .ok();
    let m = max_alloc();
    ensure!(m <= 1000 * b.len() + (1 << 20), "decoding a header of {} bytes reserves {m} bytes", b.len());
    Ok(())
}
fn hybrid(c: &mut Case) -> Res {
    let p = crate::pol::Pol::random(&mut c.rng, 2, 3);
    let eng = cosmian_abe_gpsw::core::Engine::<T>::new();
    let (msk, pk, _) = e(eng.generate_master_key(&p.p), "generate_master_key")?;
    let at = p.random_attrs(&mut c.rng);
    let key = e(eng.generate_user_key(&p.p, &msk, &abe_policy::AccessPolicy::All), "generate_user_key")?;
    let meta = match c.rng.below(3) {
        0 => None,
        _ => {
            let (a, b) = (c.rng.below(20), c.rng.below(20));
            Some(Metadata { uid: c.rng.bytes(a), additional_data: c.rng.coin().then(|| c.rng.bytes(b)) })
        }
    };
    let h = e(encrypt_hybrid_header::<T, Aes>(&p.p, &pk, &at, meta.clone()), "encrypt_hybrid_header")?;
    let hb = h.encrypted_header_bytes.clone();
    let eh = e(h.try_into_bytes(), "encoding")?;
    let ch = ClearTextHeader::<Aes> { symmetric_key: h.symmetric_key.clone(), meta_data: meta.unwrap_or_default() };
    let ch = e(ch.try_into_bytes(), "encoding")?;
    let blk = e(
        encrypt_hybrid_block::<T, Aes, 64>(&h.symmetric_key, b"u", 1, b"data"),
        "encrypt_hybrid_block",
    )?;
    let dh = |c: &mut Case, b: &[u8]| -> Res {
        c.note(|| format!("decrypt_hybrid_header on {}", hex::encode(b)));
        reset_alloc();
        guarded(|| decrypt_hybrid_header::<T, Aes>(&key, b).map(|_| ()))
            .map_err(|p| format!("decrypt_hybrid_header panics: {p}"))?
            .ok();
        let m = max_alloc();
        ensure!(m <= 1000 * b.len() + (1 << 20), "a header of {} bytes reserves {m} bytes", b.len());
        Ok(())
    };
    for k in 0..hb.len() {
        dh(c, &hb[..k])?;
    }
    for k in 0..eh.len() {
        headers(c, &eh[..k])?;
    }
    for k in 0..ch.len() {
        headers(c, &ch[..k])?;
    }
    for k in 0..blk.len() {
        c.note(|| format!("decrypt_hybrid_block on {}", hex::encode(&blk[..k])));
        let r = guarded(|| decrypt_hybrid_block::<T, Aes, 64>(&h.symmetric_key, b"u", 1, &blk[..k]).map(|_| ()))
            .map_err(|p| format!("decrypt_hybrid_block panics: {p}"))?;
        ensure!(r.is_err(), "a truncated block decrypts");
    }
    for _ in 0..30 {
        let v = mutate(&mut c.rng, &hb);
        dh(c, &v)?;
        let v = mutate(&mut c.rng, &eh);
        headers(c, &v)?;
        let v = mutate(&mut c.rng, &ch);
        headers(c, &v)?;
    }
    Ok(())
}
pub fn c06() -> Vec<Kind> {
    vec![
        kind("every-field-toy", 40, 400, |c| every::<T>(c, 12, 10, 3)),
        kind("mutated-toy", 6000, 100000, |c| hostile::<T>(c, 6, 12, 10)),
        kind("mixed-counts-toy", 1500, 30000, |c| mixed::<T>(c, 6, 12, 10)),
        kind("mixed-counts-bls", 12, 200, |c| mixed::<B>(c, 3, 96, 48)),
        kind("random-bytes", 300, 5000, random_bytes),
        kind("hybrid", 60, 1000, hybrid),
        kind("mutated-bls", 24, 400, |c| hostile::<B>(c, 3, 96, 48)),
        kind("every-field-bls", 2, 16, |c| every::<B>(c, 96, 48, 400)),
    ]
}
