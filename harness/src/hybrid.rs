//! C08, C09, C14: hybrid headers, blocks, key encapsulation
use crate::{ctx::*, ensure, pol, scheme::*};
use abe_policy::{AccessPolicy as AP, Attribute};
use cosmian_abe_gpsw::core::{
    gpsw::{AbeScheme, AsBytes},
    Engine,
};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::*;
use cosmian_crypto_base::{
    symmetric_crypto::{
        aes_256_gcm_pure::{Aes256GcmCrypto as Aes, Key, Nonce},
        nonce::NonceTrait,
        Metadata, SymKey, SymmetricCrypto,
    },
    KeyTrait,
};

struct Setup<S: AbeScheme> {
    p: pol::Pol,
    eng: Engine<S>,
    pk: Mpk<S>,
    /// attributes, a key they satisfy, a key they do not satisfy
    at: Vec<Attribute>,
    good: Usk<S>,
    bad: Option<Usk<S>>,
}
fn setup<S: AbeScheme>(c: &mut Case) -> Result<Setup<S>, String> {
    let large = c.index % 40 == 38;
    let p = if large { pol::Pol::large(&mut c.rng) } else { pol::Pol::random(&mut c.rng, 3, 4) };
    let eng = Engine::<S>::new();
    let (msk, pk, _) = e(eng.generate_master_key(&p.p), "generate_master_key")?;
    let at = p.random_attrs(&mut c.rng);
    let vals: Vec<u32> = at.iter().map(|a| p.current(a)).collect();
    let mut good = e(eng.generate_user_key(&p.p, &msk, &AP::All), "generate_user_key")?;
    let mut bad = None;
    for _ in 0..6 {
        let n = c.rng.range(1, 4);
        let ap = p.random_ap(&mut c.rng, n);
        let f = p.formula(&ap)?;
        if crate::form::dup(&f.leaves()) {
            continue;
        }
        let k = e(eng.generate_user_key(&p.p, &msk, &ap), "generate_user_key")?;
        if f.sat(&vals) {
            good = k
        } else {
            bad = Some(k)
        }
    }
    Ok(Setup { p, eng, pk, at, good, bad })
}
fn metadata(c: &mut Case) -> Option<Metadata> {
    let len = |c: &mut Case| match c.rng.below(5) {
        0 => 0,
        1 => 1,
        2 => c.rng.range(2, 40),
        3 => c.rng.range(41, 300),
        _ => *c.rng.pick(&[16, 32, 255, 256, 5000]),
    };
    if c.index % 60 == 59 {
        // around the sizes that fit in two and in three bytes
        let n = [65_490, 65_520, 65_535, 65_536, 65_600, 131_072, 1 << 20, (1 << 24) + 9][(c.index / 60) as usize % 8];
        let k = c.rng.below(30);
        return Some(Metadata { uid: c.rng.bytes(k), additional_data: Some(c.rng.bytes(n)) });
    }
    match c.index % 6 {
        0 => None,
        1 => Some(Metadata::default()),
        2 => {
            let n = len(c).max(1);
            Some(Metadata { uid: c.rng.bytes(n), additional_data: None })
        }
        3 => {
            let n = len(c).max(1);
            Some(Metadata { uid: vec![], additional_data: Some(c.rng.bytes(n)) })
        }
        _ => {
            let (a, b) = (len(c), len(c).max(1));
            Some(Metadata { uid: c.rng.bytes(a), additional_data: Some(c.rng.bytes(b)) })
        }
    }
}
fn be32(b: &[u8], o: usize) -> Result<usize, String> {
    ensure!(b.len() >= o + 4, "the header ends in a length field");
    Ok(u32::from_be_bytes(b[o..o + 4].try_into().unwrap()) as usize)
}
fn header<S: AbeScheme + Sync + Send>(c: &mut Case, tamper: usize) -> Res {
    let x: Setup<S> = setup(c)?;
    let meta = metadata(c);
    c.note(|| format!("policy {}, attributes {:?}, metadata {meta:?}", x.p.p, x.at));
    let h = e(encrypt_hybrid_header::<S, Aes>(&x.p.p, &x.pk, &x.at, meta.clone()), "encrypt_hybrid_header")?;
    let b = &h.encrypted_header_bytes;
    // framing
    let n = be32(b, 0)?;
    ensure!(b.len() >= 4 + n, "the header is shorter than its encapsulation");
    let enc = &b[4..4 + n];
    let ct = e(Ct::<S>::try_from_bytes(enc), "decoding the encapsulation of a header")?;
    ensure!(ct.len_bytes() == n, "the encapsulation length is {n}, the encapsulation has {} bytes", ct.len_bytes());
    let k = e(x.eng.decrypt_symmetric_key(&x.good, enc, 32), "decrypt_symmetric_key")?;
    ensure!(k == h.symmetric_key.as_bytes(), "the encapsulated key is not the one returned");
    let want = meta.clone().unwrap_or_default();
    match &meta {
        None => ensure!(b.len() == 4 + n, "{} bytes follow the encapsulation without metadata", b.len() - 4 - n),
        Some(m) => {
            ensure!(b.len() >= 4 + n + 12 + 4, "the header ends before the metadata");
            let nonce = Nonce::try_from_bytes(b[4 + n..16 + n].to_vec().as_slice()).map_err(|e| e.to_string())?;
            let l = be32(b, 16 + n)?;
            ensure!(b.len() == 20 + n + l, "metadata length {l}, {} bytes follow", b.len() - 20 - n);
            let clear = Aes::decrypt(&h.symmetric_key, &b[20 + n..], &nonce, None)
                .map_err(|e| format!("the metadata does not decrypt under the documented framing: {e}"))?;
            let mb = m.try_to_bytes().map_err(|e| e.to_string())?;
            ensure!(clear == mb, "the encrypted metadata is other metadata");
        }
    }
    // opening
    let d = e(decrypt_hybrid_header::<S, Aes>(&x.good, b), "decrypt_hybrid_header")?;
    ensure!(d.symmetric_key.as_bytes() == h.symmetric_key.as_bytes(), "the recovered symmetric key differs");
    ensure!(d.meta_data == want, "the recovered metadata is {:?}", d.meta_data);
    if let Some(bad) = &x.bad {
        ensure!(decrypt_hybrid_header::<S, Aes>(bad, b).is_err(), "an unauthorised key opens a header");
    }
    // altered metadata section
    for _ in 0..tamper {
        let mut v = b.clone();
        if v.len() > 4 + n {
            let i = c.rng.range(4 + n, v.len() - 1);
            // the length field may legitimately be read as shorter or longer: also refused
            v[i] ^= 1 << c.rng.below(8);
            c.note(|| format!("metadata {meta:?}, header altered at byte {i} (encapsulation ends at {})", 4 + n));
            ensure!(decrypt_hybrid_header::<S, Aes>(&x.good, &v).is_err(), "altered metadata is accepted");
            let cut = c.rng.range(5 + n, b.len() - 1);
            c.note(|| format!("metadata {meta:?}, header cut at {cut} (encapsulation ends at {})", 4 + n));
            ensure!(
                decrypt_hybrid_header::<S, Aes>(&x.good, &b[..cut]).is_err(),
                "a header cut in its metadata is accepted"
            );
        }
    }
    // exported objects
    c.note(|| format!("header objects, metadata {meta:?}"));
    let eb = e(h.try_into_bytes(), "EncryptedHeader::try_into_bytes")?;
    let mut w = 32u32.to_be_bytes().to_vec();
    w.extend(h.symmetric_key.as_bytes());
    w.extend(b);
    ensure!(eb == w, "EncryptedHeader: unexpected layout");
    let h2 = e(EncryptedHeader::<Aes>::try_from_bytes(&eb), "EncryptedHeader::try_from_bytes")?;
    ensure!(
        h2.symmetric_key.as_bytes() == h.symmetric_key.as_bytes() && h2.encrypted_header_bytes == *b,
        "EncryptedHeader: decodes to another value"
    );
    let db = e(d.try_into_bytes(), "ClearTextHeader::try_into_bytes")?;
    let mut w = 32u32.to_be_bytes().to_vec();
    w.extend(h.symmetric_key.as_bytes());
    w.extend(want.try_to_bytes().map_err(|e| e.to_string())?);
    ensure!(db == w, "ClearTextHeader: unexpected layout");
    let d2 = e(ClearTextHeader::<Aes>::try_from_bytes(&db), "ClearTextHeader::try_from_bytes")?;
    ensure!(
        d2.symmetric_key.as_bytes() == h.symmetric_key.as_bytes() && d2.meta_data == want,
        "ClearTextHeader: decodes to another value"
    );
    // header objects with an arbitrary payload
    let n = c.rng.below(60);
    let pl = c.rng.bytes(n);
    let h3 = EncryptedHeader::<Aes> { symmetric_key: h.symmetric_key.clone(), encrypted_header_bytes: pl.clone() };
    let eb = e(h3.try_into_bytes(), "EncryptedHeader::try_into_bytes")?;
    let h3 = e(EncryptedHeader::<Aes>::try_from_bytes(&eb), "EncryptedHeader::try_from_bytes")?;
    ensure!(
        h3.encrypted_header_bytes == pl && h3.symmetric_key.as_bytes() == h.symmetric_key.as_bytes(),
        "EncryptedHeader with a payload of {n} bytes decodes to another value"
    );
    Ok(())
}
pub fn c08() -> Vec<Kind> {
    vec![
        kind("headers-toy", 1200, 12000, |c| header::<T>(c, 3)),
        kind("headers-bls", 12, 120, |c| header::<B>(c, 1)),
    ]
}

fn key(c: &mut Case) -> Key {
    Key::try_from_bytes(&c.rng.bytes(32)).unwrap()
}
fn block<const MAX: usize>(c: &mut Case, lens: &[usize]) -> Res {
    let enc = |k: &Key, u: &[u8], b: usize, d: &[u8]| encrypt_hybrid_block::<T, Aes, MAX>(k, u, b, d);
    let dec = |k: &Key, u: &[u8], b: usize, d: &[u8]| decrypt_hybrid_block::<T, Aes, MAX>(k, u, b, d);
    let k = key(c);
    let n = if c.index % 30 == 29 {
        *c.rng.pick(&[127, 128, 255, 256, 257, 1000, 5000, 65_535, 65_536, 70_000])
    } else {
        *c.rng.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100])
    };
    let uid = c.rng.bytes(n);
    let bn = match c.rng.below(6) {
        0 => 0,
        1 => usize::MAX,
        2 => 1 << c.rng.below(64),
        3 => c.rng.below(300),
        _ => c.rng.next() as usize,
    };
    let n = if lens.is_empty() { c.rng.range(1, MAX) } else { lens[c.index as usize % lens.len()] };
    let data = match c.rng.below(4) {
        0 => vec![0; n],
        _ => c.rng.bytes(n),
    };
    c.note(|| {
        format!(
            "block limit {MAX}, {n} bytes of data, uid of {} bytes {}, block {bn}",
            uid.len(),
            hex::encode(&uid[..uid.len().min(200)])
        )
    });
    let over = symmetric_encryption_overhead::<Aes, MAX>();
    let r = enc(&k, &uid, bn, &data);
    if n == 0 || n > MAX {
        ensure!(r.is_err(), "{n} bytes are accepted");
        return Ok(());
    }
    let x = e(r, "encrypt_hybrid_block")?;
    ensure!(x.len() == n + over, "ciphertext of {} bytes for {n} bytes and an overhead of {over}", x.len());
    ensure!(e(dec(&k, &uid, bn, &x), "decrypt_hybrid_block")? == data, "decrypts to other data");
    let bad = |k: &Key, u: &[u8], b: usize, d: &[u8], what: &str| -> Res {
        ensure!(dec(k, u, b, d).is_err(), "decryption succeeds with {what}");
        Ok(())
    };
    // another block number
    for b2 in [bn.wrapping_add(1), bn.wrapping_sub(1), bn ^ 1 << c.rng.below(64), bn.swap_bytes(), bn << 8, bn >> 8, 0, bn & 0xffff_ffff, bn | 1 << 32, bn & 0xff] {
        if b2 != bn {
            bad(&k, &uid, b2, &x, &format!("block number {b2}"))?;
        }
    }
    // another uid
    let mut us: Vec<Vec<u8>> = vec![vec![], uid[..uid.len().saturating_sub(1)].to_vec()];
    for b in [0u8, 1, 0xff] {
        let mut u = uid.clone();
        u.push(b);
        us.push(u);
        let mut u = uid.clone();
        u.insert(0, b);
        us.push(u);
    }
    let mut u = uid.clone();
    u.extend((bn as u64).to_le_bytes());
    us.push(u);
    let ustep = uid.len() / 100 + 1;
    for i in (0..uid.len()).step_by(ustep).chain(uid.len().saturating_sub(2)..uid.len()) {
        let mut u = uid.clone();
        u[i] ^= 1 << c.rng.below(8);
        us.push(u);
    }
    if uid.len() > 1 {
        us.push(uid[1..].to_vec());
    }
    for u in us {
        if u != uid {
            bad(&k, &u, bn, &x, &format!("uid {}", hex::encode(&u[..u.len().min(200)])))?;
        }
    }
    // another key
    for i in 0..32 {
        let mut kb = k.as_bytes().to_vec();
        kb[i] ^= 1 << c.rng.below(8);
        bad(&Key::try_from_bytes(&kb).unwrap(), &uid, bn, &x, &format!("a key differing in byte {i}"))?;
    }
    // altered bytes, lengths
    let step = match x.len() {
        0..=400 => 1,
        401..=5000 => 37,
        n => n / 40,
    };
    let tail = x.len().saturating_sub(40).max(13)..x.len();
    for i in (0..x.len()).step_by(step).chain(tail) {
        let mut v = x.clone();
        v[i] ^= 1 << c.rng.below(8);
        bad(&k, &uid, bn, &v, &format!("byte {i} altered"))?;
    }
    for cut in (0..x.len()).step_by(step) {
        bad(&k, &uid, bn, &x[..cut], &format!("only the first {cut} bytes"))?;
    }
    for extra in [1, 12, MAX + over - x.len(), MAX + over + 1 - x.len(), MAX + over + 100] {
        let mut v = x.clone();
        v.extend(vec![0; extra]);
        if extra > 0 {
            bad(&k, &uid, bn, &v, &format!("{extra} more bytes"))?;
        }
    }
    // an over-long ciphertext which is genuine for a larger limit
    let big = MAX + 1 + c.rng.below(20);
    let d = c.rng.bytes(big);
    let y = e(encrypt_hybrid_block::<T, Aes, 200_000>(&k, &uid, bn, &d), "encrypt_hybrid_block")?;
    bad(&k, &uid, bn, &y, &format!("a ciphertext of {big} bytes of data"))?;
    Ok(())
}
pub fn c09() -> Vec<Kind> {
    vec![
        kind("limit-1", 6, 60, |c| block::<1>(c, &[0, 1, 2])),
        kind("limit-16", 360, 3600, |c| block::<16>(c, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17])),
        kind("limit-300", 400, 4000, |c| block::<300>(c, &[])),
        kind("limit-4096", 60, 600, |c| block::<4096>(c, &[1, 4095, 4096, 4097, 2048, 5000])),
        kind("limit-66000", 32, 160, |c| block::<66_000>(c, &[65_535, 65_536, 65_537, 65_999, 66_000, 66_001, 70_000, 40_000])),
    ]
}

fn kem<S: AbeScheme>(c: &mut Case, damage: bool) -> Res {
    let x: Setup<S> = setup(c)?;
    let lens = [0usize, 1, 15, 16, 31, 32, 33, 64, 135, 136, 137, 200, 255, 256, 257, 1000, 5000];
    let n = if c.index % 50 == 49 {
        *c.rng.pick(&[4095, 4096, 4097, 65_535, 65_536, 65_537, 100_000])
    } else if c.rng.coin() {
        *c.rng.pick(&lens)
    } else {
        c.rng.below(300)
    };
    c.note(|| format!("policy {}, attributes {:?}, length {n}", x.p.p, x.at));
    let (k, enc) = e(x.eng.generate_symmetric_key(&x.p.p, &x.pk, &x.at, n), "generate_symmetric_key")?;
    ensure!(k.len() == n, "the key has {} bytes instead of {n}", k.len());
    let k1 = e(x.eng.decrypt_symmetric_key(&x.good, &enc, n), "decrypt_symmetric_key")?;
    ensure!(k1 == k, "the recovered key differs");
    for m in lens {
        let r = e(x.eng.decrypt_symmetric_key(&x.good, &enc, m), "decrypt_symmetric_key")?;
        ensure!(r.len() == m, "the recovered key has {} bytes instead of {m}", r.len());
        let l = m.min(n);
        ensure!(r[..l] == k[..l], "keys of lengths {m} and {n} are not prefixes of one another");
    }
    if let Some(b) = &x.bad {
        ensure!(x.eng.decrypt_symmetric_key(b, &enc, n).is_err(), "an unauthorised key obtains a key");
    }
    if damage {
        let step = enc.len() / 300 + 1;
        for cut in (0..enc.len()).step_by(step) {
            c.note(|| format!("encapsulation of {} bytes cut to {cut}", enc.len()));
            ensure!(
                x.eng.decrypt_symmetric_key(&x.good, &enc[..cut], 32).is_err(),
                "an encapsulation cut to {cut} bytes gives a key"
            );
        }
    }
    Ok(())
}
pub fn c14() -> Vec<Kind> {
    vec![
        kind("toy", 3000, 30000, |c| kem::<T>(c, true)),
        kind("bls", 10, 100, |c| kem::<B>(c, false)),
    ]
}
