//! C10 and C11: the native interface
use crate::{ctx::*, ensure, scheme::*};
use abe_policy::{AccessPolicy as AP, Attribute, Policy, PolicyAxis};
use cosmian_abe_gpsw::core::{gpsw::AsBytes, Engine};
use cosmian_abe_gpsw::interfaces::ffi::{error::*, generate_gpsw_keys::*, hybrid_gpsw_aes::*};
use cosmian_abe_gpsw::interfaces::hybrid_crypto as hc;
use cosmian_crypto_base::symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto as Aes, Metadata, SymKey};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CString;
use std::os::raw::{c_char, c_int};
use std::sync::{Mutex, OnceLock};

const CANARY: u8 = 0xC5;
const GUARD: usize = 4096;
/// output buffer: declared capacity, larger allocation full of canaries
struct Out {
    mem: Vec<u8>,
    cap: c_int,
    len: c_int,
}
impl Out {
    fn new(cap: c_int) -> Out {
        Out { mem: vec![CANARY; cap.max(0) as usize + GUARD], cap, len: cap }
    }
    fn p(&mut self) -> *mut c_char {
        self.mem.as_mut_ptr().cast()
    }
    fn l(&mut self) -> *mut c_int {
        &mut self.len
    }
    fn untouched(&self) -> bool {
        self.mem.iter().all(|b| *b == CANARY)
    }
    /// after a successful call; the result
    fn result(&self, what: &str) -> Result<Vec<u8>, String> {
        ensure!(
            self.len >= 0 && self.len <= self.cap,
            "{what}: returned 0 with length {} for a capacity of {}",
            self.len,
            self.cap
        );
        self.inside(what)?;
        let n = self.len as usize;
        ensure!(
            self.mem[n..].iter().all(|b| *b == CANARY),
            "{what}: bytes are written after the {n} bytes of the result"
        );
        Ok(self.mem[..n].to_vec())
    }
    fn inside(&self, what: &str) -> Res {
        ensure!(
            self.mem[self.cap.max(0) as usize..].iter().all(|b| *b == CANARY),
            "{what}: writes beyond the declared capacity of {} bytes",
            self.cap
        );
        Ok(())
    }
}
/// the message of the last error, through the native call
fn last_error() -> Result<String, String> {
    let mut o = Out::new(20_000);
    let r = unsafe { get_last_error(o.p(), o.l()) };
    ensure!(r == 0, "get_last_error returns {r}");
    o.inside("get_last_error")?;
    ensure!(o.len >= 0 && o.len < 20_000, "get_last_error: length {}", o.len);
    Ok(String::from_utf8_lossy(&o.mem[..o.len as usize]).into())
}
fn clear_error() {
    let _ = last_error();
}
/// status 1 comes with an error message
fn refused(ret: c_int, what: &str) -> Res {
    ensure!(ret == 1, "{what}: returns {ret} instead of 1");
    ensure!(!last_error()?.is_empty(), "{what}: returns 1 without an error message");
    Ok(())
}

struct Fix {
    policy: Policy,
    pjson: CString,
    msk: Vec<u8>,
    pk: Vec<u8>,
    /// access policies and their keys
    keys: Vec<(CString, Vec<u8>)>,
    attrs: CString,
    attr_list: Vec<Attribute>,
}
fn cstr(s: &str) -> CString {
    CString::new(s).unwrap()
}
fn json<T: serde::Serialize>(x: &T) -> CString {
    cstr(&serde_json::to_string(x).unwrap())
}
/// three unrelated authorities
fn fixtures() -> &'static Vec<Fix> {
    static F: OnceLock<Vec<Fix>> = OnceLock::new();
    F.get_or_init(|| {
        let mut all: Vec<Fix> = (0..4)
            .map(|i| {
                let mut policy = Policy::new(if i == 3 { 100 } else { 12 });
                policy.add_axis(&PolicyAxis::new("Level", &["low", "mid", "top"], true)).unwrap();
                policy.add_axis(&PolicyAxis::new("Dpt", &["r", "d", "hr"], false)).unwrap();
                if i == 3 {
                    // a large one
                    let l: Vec<String> = (0..60).map(|j| format!("extra é€ {j}")).collect();
                    policy
                        .add_axis(&PolicyAxis::new("More", &l.iter().map(|x| x.as_str()).collect::<Vec<_>>(), true))
                        .unwrap();
                }
                for _ in 0..if i == 3 { 30 } else { i } {
                    policy.rotate(&Attribute::new("Dpt", "r")).unwrap();
                }
                let eng = Engine::<B>::new();
                let (msk, pk, _) = eng.generate_master_key(&policy).unwrap();
                let aps = [
                    AP::new("Level", "top") & AP::new("Dpt", "r"),
                    AP::new("Dpt", "hr"),
                    AP::new("Level", "low") & AP::new("Dpt", "d"),
                ];
                let keys = aps
                    .iter()
                    .map(|ap| {
                        (json(ap), eng.generate_user_key(&policy, &msk, ap).unwrap().try_into_bytes().unwrap())
                    })
                    .collect();
                let attr_list = vec![Attribute::new("Dpt", "r"), Attribute::new("Level", "mid")];
                Fix {
                    pjson: cstr(&policy.to_string()),
                    policy,
                    msk: msk.try_into_bytes().unwrap(),
                    pk: pk.try_into_bytes().unwrap(),
                    keys,
                    attrs: json(&attr_list),
                    attr_list,
                }
            })
            .collect();
        // the second authority after more rotations: same master keys, another policy
        let x = &all[1];
        let mut policy = x.policy.clone();
        policy.rotate(&Attribute::new("Dpt", "r")).unwrap();
        policy.rotate(&Attribute::new("Level", "mid")).unwrap();
        let msk = Msk::<B>::try_from_bytes(&x.msk).unwrap();
        let keys = x
            .keys
            .iter()
            .map(|k| {
                let ap: AP = serde_json::from_slice(k.0.as_bytes()).unwrap();
                let key = Engine::<B>::new().generate_user_key(&policy, &msk, &ap).unwrap();
                (k.0.clone(), key.try_into_bytes().unwrap())
            })
            .collect();
        let y = Fix {
            pjson: cstr(&policy.to_string()),
            policy,
            msk: x.msk.clone(),
            pk: x.pk.clone(),
            keys,
            attrs: x.attrs.clone(),
            attr_list: x.attr_list.clone(),
        };
        all.push(y);
        all
    })
}

/// inputs of a call; `None` is a null pointer; lengths may lie low
#[derive(Clone)]
struct In {
    b: Option<Vec<u8>>,
    len: Option<c_int>,
}
impl In {
    fn some(b: &[u8]) -> In {
        In { b: Some(b.to_vec()), len: None }
    }
    fn none() -> In {
        In { b: None, len: None }
    }
    fn p(&self) -> *const c_char {
        self.b.as_ref().map_or(std::ptr::null(), |b| b.as_ptr().cast())
    }
    fn l(&self) -> c_int {
        self.len.unwrap_or(self.b.as_ref().map_or(0, |b| b.len() as c_int))
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fun {
    Master,
    User,
    Rotate,
    EncHeader,
    DecHeader,
    EncCached,
    DecCached,
    EncBlock,
    DecBlock,
    NewEnc,
    NewDec,
}
use Fun::*;
const ALL: [Fun; 11] =
    [Master, User, Rotate, EncHeader, DecHeader, EncCached, DecCached, EncBlock, DecBlock, NewEnc, NewDec];
/// the outputs of a function (those with a buffer), and which inputs it has:
/// c strings end in a zero byte and have no length
fn outs(f: Fun) -> usize {
    match f {
        Master | User | Rotate | EncBlock | DecBlock => 1,
        EncHeader | EncCached => 2,
        DecHeader | DecCached => 3,
        NewEnc | NewDec => 0,
    }
}
/// (name, is a C string, may be absent)
fn ins(f: Fun) -> Vec<(&'static str, bool, bool)> {
    match f {
        Master => vec![("policy", true, false)],
        User => vec![("master key", false, false), ("access policy", true, false), ("policy", true, false)],
        Rotate => vec![("attributes", true, false), ("policy", true, false)],
        EncHeader => vec![
            ("policy", true, false),
            ("public key", false, false),
            ("attributes", true, false),
            ("uid", false, true),
            ("additional data", false, true),
        ],
        EncCached => vec![("attributes", true, false), ("uid", false, true), ("additional data", false, true)],
        DecHeader => vec![("header", false, false), ("user key", false, false)],
        DecCached => vec![("header", false, false)],
        EncBlock | DecBlock => vec![("key", false, false), ("uid", false, true), ("data", false, false)],
        NewEnc => vec![("policy", true, false), ("public key", false, false)],
        NewDec => vec![("user key", false, false)],
    }
}
/// `o`: for every output, pointer and length (null when None)
fn call(f: Fun, o: &mut [(Option<Out>, bool)], i: &[In], n: c_int, handle: *mut c_int) -> c_int {
    let mut q: Vec<(*mut c_char, *mut c_int)> = vec![];
    for (x, lnull) in o.iter_mut() {
        // a null buffer still gets a length unless that one is null
        static mut DUMMY: c_int = 100;
        match x {
            Some(x) => q.push((x.p(), if *lnull { std::ptr::null_mut() } else { x.l() })),
            None => {
                let d = Box::leak(Box::new(unsafe { DUMMY }));
                q.push((std::ptr::null_mut(), if *lnull { std::ptr::null_mut() } else { d }))
            }
        }
    }
    unsafe {
        match f {
            Master => h_generate_master_keys(q[0].0, q[0].1, i[0].p()),
            User => h_generate_user_private_key(q[0].0, q[0].1, i[0].p(), i[0].l(), i[1].p(), i[2].p()),
            Rotate => h_rotate_attributes(q[0].0, q[0].1, i[0].p(), i[1].p()),
            EncHeader => h_aes_encrypt_header(
                q[0].0, q[0].1, q[1].0, q[1].1,
                i[0].p(), i[1].p(), i[1].l(), i[2].p(), i[3].p(), i[3].l(), i[4].p(), i[4].l(),
            ),
            EncCached => h_aes_encrypt_header_using_cache(
                q[0].0, q[0].1, q[1].0, q[1].1, n,
                i[0].p(), i[1].p(), i[1].l(), i[2].p(), i[2].l(),
            ),
            DecHeader => h_aes_decrypt_header(
                q[0].0, q[0].1, q[1].0, q[1].1, q[2].0, q[2].1,
                i[0].p(), i[0].l(), i[1].p(), i[1].l(),
            ),
            DecCached => h_aes_decrypt_header_using_cache(
                q[0].0, q[0].1, q[1].0, q[1].1, q[2].0, q[2].1,
                i[0].p(), i[0].l(), n,
            ),
            EncBlock => h_aes_encrypt_block(
                q[0].0, q[0].1, i[0].p(), i[0].l(), i[1].p(), i[1].l(), n, i[2].p(), i[2].l(),
            ),
            DecBlock => h_aes_decrypt_block(
                q[0].0, q[0].1, i[0].p(), i[0].l(), i[1].p(), i[1].l(), n, i[2].p(), i[2].l(),
            ),
            NewEnc => h_aes_create_encryption_cache(handle, i[0].p(), i[1].p(), i[1].l()),
            NewDec => h_aes_create_decryption_cache(handle, i[0].p(), i[0].l()),
        }
    }
}
fn z(s: &CString) -> In {
    In::some(s.as_bytes_with_nul())
}
struct Good {
    i: Vec<In>,
    n: c_int,
    /// exact results, when they are determined
    want: Vec<Option<Vec<u8>>>,
    key: hc::EncryptedHeader<Aes>,
    meta: Metadata,
    fix: &'static Fix,
    data: Vec<u8>,
}
/// live handles shared by the cases of C10
fn handles() -> &'static Vec<(c_int, Vec<c_int>)> {
    static H: OnceLock<Vec<(c_int, Vec<c_int>)>> = OnceLock::new();
    H.get_or_init(|| {
        fixtures()
            .iter()
            .map(|f| {
                let mut h = -1;
                assert_eq!(call(NewEnc, &mut [], &[z(&f.pjson), In::some(&f.pk)], 0, &mut h), 0, "creating a cache");
                let d = f
                    .keys
                    .iter()
                    .map(|k| {
                        let mut h = -1;
                        assert_eq!(call(NewDec, &mut [], &[In::some(&k.1)], 0, &mut h), 0, "creating a cache");
                        h
                    })
                    .collect();
                (h, d)
            })
            .collect()
    })
}
/// valid arguments for `f`
fn good(c: &mut Case, f: Fun) -> Result<Good, String> {
    let v = c.rng.below(5);
    let x = &fixtures()[v];
    let some = |c: &mut Case| {
        if c.rng.one_in(5) {
            0
        } else if c.rng.one_in(12) {
            *c.rng.pick(&[255, 256, 257, 1000, 5000, 65_535, 65_536, 70_000])
        } else {
            c.rng.below(40)
        }
    };
    let n = some(c);
    let uid = c.rng.bytes(n);
    let n = some(c);
    let ad = c.rng.bytes(n);
    let meta = Metadata { uid: uid.clone(), additional_data: if n > 0 { Some(ad.clone()) } else { None } };
    let eng = Engine::<B>::new();
    let pk = e(Mpk::<B>::try_from_bytes(&x.pk), "decoding")?;
    let key = e(hc::encrypt_hybrid_header::<B, Aes>(&x.policy, &pk, &x.attr_list, Some(meta.clone())), "header")?;
    let _ = eng;
    let n = some(c).max(1);
    let data = c.rng.bytes(n);
    let bn = *c.rng.pick(&[0, 1, 7, 255, 256, c_int::MAX, -1, -7, c_int::MIN]);
    let kb = key.symmetric_key.as_bytes().to_vec();
    let h = &handles()[v];
    let mut good = Good { i: vec![], n: bn, want: vec![None; outs(f)], key, meta, fix: x, data: data.clone() };
    let hb = good.key.encrypted_header_bytes.clone();
    good.i = match f {
        Master => vec![z(&x.pjson)],
        User => {
            let k = &x.keys[c.rng.below(3)];
            vec![In::some(&x.msk), z(&k.0), z(&x.pjson)]
        }
        Rotate => {
            let mut p = x.policy.clone();
            let at = Attribute::new("Dpt", *c.rng.pick(&["r", "d", "hr"]));
            p.rotate(&at).map_err(|e| e.to_string())?;
            vec![z(&json(&vec![at])), z(&x.pjson)]
        }
        EncHeader => vec![z(&x.pjson), In::some(&x.pk), z(&x.attrs), In::some(&uid), In::some(&ad)],
        EncCached => {
            good.n = h.0;
            vec![z(&x.attrs), In::some(&uid), In::some(&ad)]
        }
        DecHeader => vec![In::some(&hb), In::some(&x.keys[0].1)],
        DecCached => {
            good.n = h.1[0];
            vec![In::some(&hb)]
        }
        EncBlock => vec![In::some(&kb), In::some(&uid), In::some(&data)],
        DecBlock => {
            let ct = e(
                hc::encrypt_hybrid_block::<B, Aes, MAX_CLEAR_TEXT_SIZE>(&good.key.symmetric_key, &uid, bn as usize, &data),
                "block",
            )?;
            good.want[0] = Some(data);
            vec![In::some(&kb), In::some(&uid), In::some(&ct)]
        }
        NewEnc => vec![z(&x.pjson), In::some(&x.pk)],
        NewDec => vec![In::some(&x.keys[0].1)],
    };
    if matches!(f, DecHeader | DecCached) {
        good.want = vec![
            Some(kb),
            Some(good.meta.uid.clone()),
            Some(good.meta.additional_data.clone().unwrap_or_default()),
        ];
    }
    Ok(good)
}
/// the results mean what they should
fn meaning(f: Fun, g: &Good, r: &[Vec<u8>]) -> Res {
    for (k, w) in g.want.iter().enumerate() {
        if let Some(w) = w {
            ensure!(*w == r[k], "{f:?}: result {k} is {} instead of {}", hex::encode(&r[k]), hex::encode(w));
        }
    }
    let eng = Engine::<B>::new();
    match f {
        Master => {
            let n = u32::from_be_bytes(r[0][..4].try_into().unwrap()) as usize;
            ensure!(r[0].len() > 4 + n, "Master: no public key");
            let msk = e(Msk::<B>::try_from_bytes(&r[0][4..4 + n]), "Master: private key")?;
            let pk = e(Mpk::<B>::try_from_bytes(&r[0][4 + n..]), "Master: public key")?;
            ensure!(msk.len_bytes() == n && pk.len_bytes() == r[0].len() - 4 - n, "Master: lengths");
            let m = e(eng.random_message(), "random")?;
            let k = e(eng.generate_user_key(&g.fix.policy, &msk, &AP::All), "user key")?;
            let ct = e(eng.encrypt(&g.fix.policy, &pk, &g.fix.attr_list, &m), "encrypt")?;
            ensure!(e(eng.decrypt(&ct, &k), "decrypt")? == Some(m), "Master: the keys do not match");
        }
        User => {
            let k = e(Usk::<B>::try_from_bytes(&r[0]), "User: key")?;
            ensure!(k.len_bytes() == r[0].len(), "User: length");
            let j = g.fix.keys.iter().position(|k| z(&k.0).b == g.i[1].b).unwrap();
            let pk = e(Mpk::<B>::try_from_bytes(&g.fix.pk), "decoding")?;
            let m = e(eng.random_message(), "random")?;
            for (at, ok) in [
                (vec![Attribute::new("Dpt", "r"), Attribute::new("Level", "top")], 0),
                (vec![Attribute::new("Dpt", "hr"), Attribute::new("Level", "low")], 1),
                (vec![Attribute::new("Dpt", "d"), Attribute::new("Level", "low")], 2),
            ] {
                let ct = e(eng.encrypt(&g.fix.policy, &pk, &at, &m), "encrypt")?;
                let d = eng.decrypt(&ct, &k).ok().flatten();
                ensure!(if j == ok { d.as_ref() == Some(&m) } else { d.is_none() }, "User: key {j} on attributes {ok}");
            }
        }
        Rotate => {
            let t = String::from_utf8(r[0].clone()).map_err(|e| e.to_string())?;
            let p: Policy = serde_json::from_str(&t).map_err(|e| format!("Rotate: {e}"))?;
            let at: Vec<Attribute> =
                serde_json::from_slice(&g.i[0].b.as_ref().unwrap()[..g.i[0].b.as_ref().unwrap().len() - 1]).unwrap();
            let mut q = g.fix.policy.clone();
            for a in &at {
                q.rotate(a).map_err(|e| e.to_string())?;
            }
            ensure!(
                serde_json::to_value(&p).unwrap() == serde_json::to_value(&q).unwrap(),
                "Rotate: unexpected policy {t}"
            );
        }
        EncHeader | EncCached => {
            let k = e(Usk::<B>::try_from_bytes(&g.fix.keys[0].1), "decoding")?;
            let d = e(hc::decrypt_hybrid_header::<B, Aes>(&k, &r[1]), "opening the header")?;
            ensure!(d.symmetric_key.as_bytes() == &r[0][..], "{f:?}: the symmetric key is not that of the header");
            ensure!(d.meta_data == g.meta, "{f:?}: metadata {:?}", d.meta_data);
        }
        EncBlock => {
            let d = e(
                hc::decrypt_hybrid_block::<B, Aes, MAX_CLEAR_TEXT_SIZE>(
                    &g.key.symmetric_key,
                    &g.meta.uid,
                    g.n as usize,
                    &r[0],
                ),
                "opening the block",
            )?;
            ensure!(d == g.data, "EncBlock: other data");
        }
        _ => (),
    }
    Ok(())
}
fn big(f: Fun) -> Vec<(Option<Out>, bool)> {
    (0..outs(f)).map(|_| (Some(Out::new(200_000)), false)).collect()
}
fn fun(c: &Case) -> Fun {
    ALL[c.index as usize % ALL.len()]
}
fn free(f: Fun, h: c_int) {
    unsafe {
        match f {
            NewEnc => h_aes_destroy_encryption_cache(h),
            NewDec => h_aes_destroy_decryption_cache(h),
            _ => 0,
        };
    }
}
fn sizes(c: &mut Case) -> Res {
    let f = fun(c);
    let g = good(c, f)?;
    c.note(|| format!("{f:?}, ample buffers"));
    let mut o = big(f);
    let mut h = -1;
    let r = call(f, &mut o, &g.i, g.n, &mut h);
    if r != 0 {
        return Err(format!("{f:?}: returns {r} on valid arguments: {}", last_error()?));
    }
    free(f, h);
    let res: Vec<Vec<u8>> =
        o.iter().map(|(x, _)| x.as_ref().unwrap().result(&format!("{f:?}"))).collect::<Result<_, _>>()?;
    meaning(f, &g, &res)?;
    if res.is_empty() {
        return Ok(());
    }
    for _ in 0..3 {
        let caps: Vec<c_int> = res
            .iter()
            .map(|r| {
                let n = r.len() as c_int;
                (match c.rng.below(9) {
                    0 => 1,
                    1 => n - 1,
                    2 | 3 => n,
                    4 => n + 1,
                    5 => n + 2,
                    6 => n + 1000,
                    _ => c.rng.range(1, n.max(1) as usize) as c_int,
                })
                .max(1)
            })
            .collect();
        c.note(|| format!("{f:?}, capacities {caps:?}, results of {:?} bytes", res.iter().map(|r| r.len()).collect::<Vec<_>>()));
        let mut o: Vec<_> = caps.iter().map(|n| (Some(Out::new(*n)), false)).collect();
        clear_error();
        let r = call(f, &mut o, &g.i, g.n, &mut h);
        let fits: Vec<bool> = caps.iter().zip(&res).map(|(n, r)| *n as usize >= r.len()).collect();
        for ((x, _), fit) in o.iter().zip(&fits) {
            let x = x.as_ref().unwrap();
            x.inside(&format!("{f:?}"))?;
            ensure!(*fit || x.untouched(), "{f:?}: a buffer whose result does not fit is written to");
        }
        if fits.iter().all(|x| *x) {
            if r != 0 {
                return Err(format!("{f:?}: returns {r} although every result fits: {}", last_error()?));
            }
            let res2: Vec<Vec<u8>> =
                o.iter().map(|(x, _)| x.as_ref().unwrap().result(&format!("{f:?}"))).collect::<Result<_, _>>()?;
            ensure!(res2.iter().zip(&res).all(|(a, b)| a.len() == b.len()), "{f:?}: lengths vary");
            meaning(f, &g, &res2)?;
        } else {
            refused(r, &format!("{f:?} with a result that does not fit"))?;
        }
    }
    Ok(())
}
fn nulls(c: &mut Case) -> Res {
    let f = fun(c);
    let g = good(c, f)?;
    let mut h = -1;
    // outputs
    let optional = |k: usize| matches!(f, DecHeader | DecCached) && k > 0;
    for k in 0..outs(f) {
        for m in 0..4 {
            let mut o = big(f);
            match m {
                0 => o[k].0 = None,
                1 => o[k].1 = true,
                2 => o[k] = (None, true),
                _ => {
                    let n = *c.rng.pick(&[0, -1, c_int::MIN, -1000]);
                    o[k].0.as_mut().unwrap().len = n;
                    o[k].0.as_mut().unwrap().cap = n;
                }
            }
            c.note(|| format!("{f:?}, output {k}: {}", ["null buffer", "null length", "both null", "capacity zero or negative"][m]));
            clear_error();
            let r = call(f, &mut o, &g.i, g.n, &mut h);
            if optional(k) {
                ensure!(r == 0, "{f:?}: refuses an absent optional output: {}", last_error()?);
                for (j, (x, _)) in o.iter().enumerate() {
                    if j != k {
                        let x = x.as_ref().unwrap().result(&format!("{f:?}"))?;
                        ensure!(Some(x) == g.want[j], "{f:?}: wrong result {j} when output {k} is absent");
                    } else if let Some(x) = x {
                        ensure!(x.untouched(), "{f:?}: writes to an output with no usable capacity");
                    }
                }
            } else {
                refused(r, &format!("{f:?}"))?;
                for (x, _) in o.iter().flat_map(|x| x.0.as_ref().map(|y| (y, 0))) {
                    ensure!(x.untouched(), "{f:?}: writes although it refuses the call");
                }
            }
        }
    }
    // inputs
    for (k, (name, is_c, opt)) in ins(f).into_iter().enumerate() {
        let mut bad: Vec<In> = vec![In::none()];
        if !is_c {
            for n in [0, -1, c_int::MIN, -100] {
                bad.push(In { b: g.i[k].b.clone(), len: Some(n) });
            }
            bad.push(In { b: None, len: Some(10) });
        } else {
            for t in [&b"\0"[..], b"x\0", b"\xff\xfe\0", b"[\0", b"{}\0", b"null\0", b"[1,2]\0"] {
                bad.push(In::some(t));
            }
        }
        for b in bad {
            let mut i = g.i.clone();
            i[k] = b.clone();
            c.note(|| format!("{f:?}, {name}: {:?} length {}", b.b.as_ref().map(hex::encode), b.l()));
            let mut o = big(f);
            clear_error();
            h = -77;
            let r = call(f, &mut o, &i, g.n, &mut h);
            if opt {
                if f == DecBlock {
                    // without its uid the block must not open, unless the uid is empty
                    ensure!((r == 0) == g.meta.uid.is_empty(), "DecBlock: absent uid gives status {r}");
                } else {
                    ensure!(r == 0, "{f:?}: refuses an absent {name}: {}", last_error()?);
                }
                continue;
            }
            refused(r, &format!("{f:?} with a bad {name}"))?;
            ensure!(h == -77, "{f:?}: sets the handle although it refuses the call");
            for (x, _) in &o {
                ensure!(x.as_ref().unwrap().untouched(), "{f:?}: writes although it refuses the call");
            }
        }
    }
    if matches!(f, NewEnc | NewDec) {
        c.note(|| format!("{f:?}, null handle pointer"));
        clear_error();
        refused(call(f, &mut [], &g.i, 0, std::ptr::null_mut()), &format!("{f:?}"))?;
    }
    if f == Master {
        c.note(|| "h_get_encrypted_header_size".to_string());
        let b = &g.key.encrypted_header_bytes;
        unsafe {
            clear_error();
            let n = i32::from_be_bytes(b[..4].try_into().unwrap());
            let r = h_get_encrypted_header_size(b.as_ptr().cast(), b.len() as c_int);
            ensure!(r == n, "h_get_encrypted_header_size is {r} instead of {n}");
            refused(h_get_encrypted_header_size(std::ptr::null(), 10), "h_get_encrypted_header_size on null")?;
            for n in [0, 1, 2, 3, -1, c_int::MIN] {
                refused(h_get_encrypted_header_size(b.as_ptr().cast(), n), "h_get_encrypted_header_size, short input")?;
            }
            let r = h_get_encrypted_header_size(b.as_ptr().cast(), 4);
            ensure!(r == n, "h_get_encrypted_header_size on 4 bytes is {r}");
            let o = h_aes_symmetric_encryption_overhead();
            ensure!(o == 28, "overhead {o}");
            clear_error();
            refused(set_error(std::ptr::null()), "set_error on null")?;
        }
    }
    Ok(())
}
fn mutate_text(r: &mut Rng, t: &[u8]) -> Vec<u8> {
    let mut v = t[..t.len() - 1].to_vec();
    for _ in 0..r.range(1, 3) {
        let n = v.len();
        if n == 0 {
            break;
        }
        match r.below(8) {
            7 => {
                // the counter of a policy, at and past its limits
                let s = String::from_utf8_lossy(&v).to_string();
                let w = *r.pick(&["4294967295", "4294967294", "2147483648", "101", "100", "0"]);
                let k = "\"last_attribute_value\":";
                if let Some(i) = s.find(k) {
                    let i = i + k.len();
                    let j = s[i..].find(|x: char| !x.is_ascii_digit()).map_or(s.len(), |x| i + x);
                    v = format!("{}{}{}", &s[..i], w, &s[j..]).into_bytes();
                }
            }
            0 => v.truncate(r.below(n)),
            1 => v[r.below(n)] = *r.pick(b"\"{}[],:0919a-.\\ \xc3\xff"),
            2 => {
                v.remove(r.below(n));
            }
            3 => {
                let i = r.below(n);
                v.insert(i, *r.pick(b"\"{}[],:019a-\\u"));
            }
            4 => {
                // swap two tokens
                let s = String::from_utf8_lossy(&v).to_string();
                let toks = ["low", "mid", "top", "r", "Dpt", "Level", "And", "Or", "Attr", "All", "true", "false", "null", "1", "2"];
                let (a, b) = (*r.pick(&toks), *r.pick(&toks));
                v = s.replacen(a, b, 1).into_bytes();
            }
            5 => {
                let s = String::from_utf8_lossy(&v).to_string();
                let w = *r.pick(&["l\\u0000w", "é", "", "a b", "\\u0000", "::"]);
                v = s.replace(*r.pick(&["low", "mid", "hr", "r"]), w).into_bytes();
            }
            _ => {
                let a = r.below(n);
                let k = r.range(1, (n - a).min(20));
                v.drain(a..a + k);
            }
        }
    }
    v.retain(|b| *b != 0);
    v.push(0);
    v
}
/// policies that parse but would only exhaust resources are not in the statement
fn reasonable(t: &[u8]) -> bool {
    match serde_json::from_slice::<serde_json::Value>(&t[..t.len() - 1]) {
        Ok(v) => {
            v.get("max_attribute_creations").and_then(|x| x.as_u64()).map_or(true, |x| x <= 200)
        }
        Err(_) => true,
    }
}
fn malformed(c: &mut Case) -> Res {
    let f = fun(c);
    let g = good(c, f)?;
    let spec = ins(f);
    for _ in 0..6 {
        let mut i = g.i.clone();
        let mut n = g.n;
        for _ in 0..c.rng.range(1, 2) {
            let k = c.rng.below(spec.len());
            let b = i[k].b.clone().unwrap();
            let v = if spec[k].1 {
                let v = mutate_text(&mut c.rng, &b);
                if !reasonable(&v) {
                    continue;
                }
                v
            } else {
                let mut v = crate::codec::mutate(&mut c.rng, &b);
                if v.is_empty() {
                    v.push(0);
                }
                v
            };
            i[k] = In::some(&v);
        }
        if matches!(f, EncBlock | DecBlock) && c.rng.one_in(4) {
            n = *c.rng.pick(&[-1, c_int::MIN, c_int::MAX]);
        }
        c.note(|| {
            format!(
                "{f:?} on {}",
                i.iter()
                    .zip(&spec)
                    .map(|(x, s)| {
                        let b = x.b.as_ref().unwrap();
                        format!("{}={}", s.0, if s.1 { String::from_utf8_lossy(b).to_string() } else { hex::encode(&b[..b.len().min(700)]) })
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            )
        });
        let mut o = big(f);
        let mut h = -77;
        clear_error();
        let r = call(f, &mut o, &i, n, &mut h);
        ensure!(r == 0 || r == 1, "{f:?}: status {r}");
        for (x, _) in &o {
            x.as_ref().unwrap().inside(&format!("{f:?}"))?;
        }
        if r == 1 {
            ensure!(!last_error()?.is_empty(), "{f:?}: returns 1 without an error message");
            ensure!(h == -77, "{f:?}: sets the handle although it refuses the call");
        } else {
            if h != -77 {
                free(f, h);
            }
            for (x, _) in &o {
                x.as_ref().unwrap().result(&format!("{f:?}"))?;
            }
        }
    }
    Ok(())
}
fn errors(c: &mut Case) -> Res {
    let n = if c.index % 10 == 9 { c.rng.range(200, 4000) } else { c.rng.below(40) };
    let s: String = (0..n).map(|_| *c.rng.pick(&['a', 'é', ' ', '%', '€', '\n', '"'])).collect();
    for cap in [1, 2, 3, s.len() as c_int, s.len() as c_int + 12, s.len() as c_int + 13, s.len() as c_int + 14, 200] {
        let cap = cap.max(1);
        c.note(|| format!("set_error({s:?}) and get_last_error with capacity {cap}"));
        let t = cstr(&s);
        let r = unsafe { set_error(t.as_ptr()) };
        ensure!(r == 0, "set_error returns {r}");
        let mut o = Out::new(cap);
        let r = unsafe { get_last_error(o.p(), o.l()) };
        ensure!(r == 0, "get_last_error returns {r}");
        o.inside("get_last_error")?;
        ensure!(o.len >= 0 && o.len <= cap, "get_last_error: length {} for capacity {cap}", o.len);
        ensure!(
            o.len < cap && o.mem[o.len as usize..cap as usize].iter().all(|x| *x == 0),
            "get_last_error: no null byte after the {} bytes of the message, capacity {cap}",
            o.len
        );
        let m = &o.mem[..o.len as usize];
        let full = {
            // the whole message
            unsafe { set_error(t.as_ptr()) };
            last_error()?
        };
        ensure!(full.ends_with(&s), "the error message is {full:?}");
        ensure!(full.as_bytes().starts_with(m), "the truncated message is not a prefix of the message");
        ensure!(
            m.len() + 1 >= full.len().min(cap as usize),
            "the message is cut to {} bytes for a capacity of {cap}",
            m.len()
        );
        // the latest error is the one reported, once; asking without a buffer keeps it
        let first = cstr("an earlier error");
        unsafe { set_error(first.as_ptr()) };
        unsafe { set_error(t.as_ptr()) };
        if c.rng.coin() {
            unsafe { get_last_error(std::ptr::null_mut(), o.l()) };
        }
        let m = last_error()?;
        ensure!(m == full, "after two errors the message is {m:?}, the last one is {full:?}");
        let m = last_error()?;
        ensure!(m.is_empty(), "a reported error is reported again: {m:?}");
    }
    let mut o = Out::new(20);
    for (p, l) in [(true, false), (false, true), (true, true)] {
        c.note(|| format!("get_last_error null buffer={p} null length={l}"));
        let (q, k) = (o.p(), o.l());
        let r = unsafe {
            get_last_error(if p { std::ptr::null_mut() } else { q }, if l { std::ptr::null_mut() } else { k })
        };
        ensure!(r == 1 && o.untouched(), "get_last_error on null returns {r}");
    }
    for n in [0, -1, c_int::MIN] {
        c.note(|| format!("get_last_error with capacity {n}"));
        o.len = n;
        let (q, k) = (o.p(), o.l());
        let r = unsafe { get_last_error(q, k) };
        ensure!(r == 1 && o.untouched(), "get_last_error with capacity {n} returns {r}");
    }
    Ok(())
}
pub fn c10() -> Vec<Kind> {
    vec![
        kind("sizes", 220, 4400, sizes),
        kind("nulls", 44, 220, nulls),
        kind("malformed", 880, 22000, malformed),
        kind("errors", 20, 100, errors),
    ]
}

// ------------------------------------------------------------------- caches
fn all_handles() -> &'static Mutex<[BTreeSet<c_int>; 2]> {
    static H: OnceLock<Mutex<[BTreeSet<c_int>; 2]>> = OnceLock::new();
    H.get_or_init(|| Mutex::new([BTreeSet::new(), BTreeSet::new()]))
}
#[derive(Default)]
struct World {
    /// live handles: authority, key
    enc: BTreeMap<c_int, usize>,
    dec: BTreeMap<c_int, (usize, usize)>,
    dead_enc: Vec<c_int>,
    dead_dec: Vec<c_int>,
}
fn new_enc(w: &mut World, v: usize) -> Res {
    let x = &fixtures()[v];
    let mut h = -1;
    let r = call(NewEnc, &mut [], &[z(&x.pjson), In::some(&x.pk)], 0, &mut h);
    ensure!(r == 0, "creating an encryption cache: {}", last_error()?);
    ensure!(all_handles().lock().unwrap()[0].insert(h), "encryption handle {h} was handed out before");
    w.enc.insert(h, v);
    Ok(())
}
fn new_dec(w: &mut World, v: usize, k: usize) -> Res {
    let mut h = -1;
    let r = call(NewDec, &mut [], &[In::some(&fixtures()[v].keys[k].1)], 0, &mut h);
    ensure!(r == 0, "creating a decryption cache: {}", last_error()?);
    ensure!(all_handles().lock().unwrap()[1].insert(h), "decryption handle {h} was handed out before");
    w.dec.insert(h, (v, k));
    Ok(())
}
fn use_enc(r: &mut Rng, h: c_int, v: usize) -> Res {
    let x = &fixtures()[v];
    let n = *r.pick(&[0, 1, 2, 8]);
    let uid = r.bytes(n);
    let n = *r.pick(&[0, 1, 2, 5]);
    let ad = r.bytes(n);
    let mut o = big(EncCached);
    let s = call(EncCached, &mut o, &[z(&x.attrs), In::some(&uid), In::some(&ad)], h, std::ptr::null_mut());
    if s != 0 {
        return Err(format!("encryption through live handle {h} fails: {}", last_error()?));
    }
    let k = o[0].0.as_ref().unwrap().result("EncCached")?;
    let b = o[1].0.as_ref().unwrap().result("EncCached")?;
    let uk = e(Usk::<B>::try_from_bytes(&x.keys[0].1), "decoding")?;
    let d = e(
        hc::decrypt_hybrid_header::<B, Aes>(&uk, &b),
        &format!("opening a header made through handle {h} with the key of its authority {v}"),
    )?;
    ensure!(d.symmetric_key.as_bytes() == &k[..], "header of handle {h} has another symmetric key");
    ensure!(
        d.meta_data == Metadata { uid: uid.clone(), additional_data: (n > 0).then(|| ad.clone()) },
        "header of handle {h} has other metadata"
    );
    // the length the uncached call gives
    let mut o2 = big(EncHeader);
    let s = call(
        EncHeader,
        &mut o2,
        &[z(&x.pjson), In::some(&x.pk), z(&x.attrs), In::some(&uid), In::some(&ad)],
        0,
        std::ptr::null_mut(),
    );
    ensure!(s == 0 && o2[1].0.as_ref().unwrap().len as usize == b.len(), "cached and plain headers differ in length");
    // the attribute values the header is made for
    let values = |b: &[u8]| -> Vec<u32> {
        let n = u32::from_be_bytes(b[4..8].try_into().unwrap()) as usize;
        let mut v: Vec<u32> = (0..n).map(|i| u32::from_be_bytes(b[8 + 4 * i..12 + 4 * i].try_into().unwrap())).collect();
        v.sort_unstable();
        v
    };
    let b2 = o2[1].0.as_ref().unwrap().result("EncHeader")?;
    ensure!(
        values(&b) == values(&b2),
        "the header of handle {h} is for the attribute values {:?}, the policy of the cache gives {:?}",
        values(&b),
        values(&b2)
    );
    Ok(())
}
fn use_dec(r: &mut Rng, h: c_int, v: usize, k: usize) -> Res {
    // a header of some authority, for some attributes
    let a = if r.one_in(4) { r.below(5) } else { v };
    let x = &fixtures()[a];
    let at = match r.below(3) {
        0 => x.attr_list.clone(),
        1 => vec![Attribute::new("Dpt", "hr")],
        _ => vec![Attribute::new("Level", "low"), Attribute::new("Dpt", "d")],
    };
    let pk = e(Mpk::<B>::try_from_bytes(&x.pk), "decoding")?;
    let n = r.below(3);
    let hd = e(
        hc::encrypt_hybrid_header::<B, Aes>(
            &x.policy,
            &pk,
            &at,
            Some(Metadata { uid: r.bytes(n), additional_data: Some(r.bytes(5)) }),
        ),
        "header",
    )?;
    let mut hb = hd.encrypted_header_bytes;
    if r.one_in(6) {
        let n = hb.len();
        hb[n - 1] ^= 1;
    }
    let mut o1 = big(DecCached);
    let s1 = call(DecCached, &mut o1, &[In::some(&hb)], h, std::ptr::null_mut());
    let e1 = if s1 == 0 { String::new() } else { last_error()? };
    let mut o2 = big(DecHeader);
    let s2 = call(DecHeader, &mut o2, &[In::some(&hb), In::some(&fixtures()[v].keys[k].1)], 0, std::ptr::null_mut());
    ensure!(s1 == s2, "decryption through handle {h} returns {s1} ({e1}), the plain call {s2}");
    for (a, b) in o1.iter().zip(&o2) {
        let (a, b) = (a.0.as_ref().unwrap(), b.0.as_ref().unwrap());
        ensure!(a.mem == b.mem && a.len == b.len, "decryption through handle {h} differs from the plain call");
    }
    Ok(())
}
fn dead(h: c_int, enc: bool) -> Res {
    clear_error();
    if enc {
        let mut o = big(EncCached);
        let s = call(EncCached, &mut o, &[z(&fixtures()[0].attrs), In::none(), In::none()], h, std::ptr::null_mut());
        refused(s, &format!("encryption through unknown handle {h}"))?;
        ensure!(o.iter().all(|x| x.0.as_ref().unwrap().untouched()), "an unknown handle writes output");
    } else {
        let mut o = big(DecCached);
        static HB: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
        // headers which every key of some authority opens
        let hbs = HB.get_or_init(|| {
            let at: Vec<Attribute> = [("Level", "mid"), ("Level", "low"), ("Dpt", "r"), ("Dpt", "d"), ("Dpt", "hr")]
                .iter()
                .map(|(x, y)| Attribute::new(x, y))
                .collect();
            fixtures()
                .iter()
                .map(|x| {
                    let pk = Mpk::<B>::try_from_bytes(&x.pk).unwrap();
                    hc::encrypt_hybrid_header::<B, Aes>(&x.policy, &pk, &at, None).unwrap().encrypted_header_bytes
                })
                .collect()
        });
        for hb in hbs {
            clear_error();
            let s = call(DecCached, &mut o, &[In::some(hb)], h, std::ptr::null_mut());
            refused(s, &format!("decryption through unknown handle {h}"))?;
            ensure!(o.iter().all(|x| x.0.as_ref().unwrap().untouched()), "an unknown handle writes output");
        }
    }
    Ok(())
}
fn step(r: &mut Rng, w: &mut World, t: &mut Vec<String>) -> Res {
    let pick = |r: &mut Rng, m: &BTreeMap<c_int, usize>| -> Option<(c_int, usize)> {
        m.iter().nth(r.below(m.len())).map(|x| (*x.0, *x.1))
    };
    let pickd = |r: &mut Rng, m: &BTreeMap<c_int, (usize, usize)>| -> Option<(c_int, (usize, usize))> {
        m.iter().nth(r.below(m.len())).map(|x| (*x.0, *x.1))
    };
    match r.below(13) {
        0 | 1 => {
            let v = r.below(5);
            t.push(format!("create encryption cache of authority {v}"));
            new_enc(w, v)?;
        }
        2 | 3 => {
            let (v, k) = (r.below(5), r.below(3));
            t.push(format!("create decryption cache of key {k} of authority {v}"));
            new_dec(w, v, k)?;
        }
        4 | 5 => {
            if let Some((h, v)) = pick(r, &w.enc) {
                t.push(format!("encrypt through {h} (authority {v})"));
                use_enc(r, h, v)?;
            }
        }
        6..=8 => {
            if let Some((h, (v, k))) = pickd(r, &w.dec) {
                t.push(format!("decrypt through {h} (key {k} of authority {v})"));
                use_dec(r, h, v, k)?;
            }
        }
        9 => {
            if let Some((h, _)) = pick(r, &w.enc) {
                t.push(format!("destroy encryption cache {h}"));
                free(NewEnc, h);
                w.enc.remove(&h);
                w.dead_enc.push(h);
                dead(h, true)?;
            }
        }
        10 => {
            if let Some((h, _)) = pickd(r, &w.dec) {
                t.push(format!("destroy decryption cache {h}"));
                free(NewDec, h);
                w.dec.remove(&h);
                w.dead_dec.push(h);
                dead(h, false)?;
            }
        }
        11 => {
            // unknown and destroyed handles; destroying them changes nothing
            let mut l = w.dead_enc.clone();
            l.extend([-1, c_int::MIN, c_int::MAX, 1_000_000]);
            let h = *r.pick(&l);
            t.push(format!("use and destroy dead encryption handle {h}"));
            dead(h, true)?;
            free(NewEnc, h);
            let mut l = w.dead_dec.clone();
            l.extend([-1, c_int::MIN, c_int::MAX, 1_000_000]);
            let h = *r.pick(&l);
            t.push(format!("use and destroy dead decryption handle {h}"));
            dead(h, false)?;
            free(NewDec, h);
        }
        _ => {
            t.push("creations that are refused".into());
            let x = &fixtures()[0];
            let mut h = -77;
            let s = call(NewEnc, &mut [], &[z(&x.pjson), In::some(&x.pk[..20])], 0, &mut h);
            refused(s, "creating a cache of a truncated public key")?;
            let s = call(NewDec, &mut [], &[In::some(&x.keys[0].1[..50])], 0, &mut h);
            refused(s, "creating a cache of a truncated key")?;
            ensure!(h == -77, "a refused creation sets the handle");
        }
    }
    Ok(())
}
fn finish(r: &mut Rng, w: &mut World) -> Res {
    for (h, v) in &w.enc {
        use_enc(r, *h, *v)?;
    }
    for (h, (v, k)) in &w.dec {
        use_dec(r, *h, *v, *k)?;
    }
    for h in &w.dead_enc {
        dead(*h, true)?;
    }
    for h in &w.dead_dec {
        dead(*h, false)?;
    }
    for (h, _) in std::mem::take(&mut w.enc) {
        free(NewEnc, h);
        dead(h, true)?;
    }
    for (h, _) in std::mem::take(&mut w.dec) {
        free(NewDec, h);
        dead(h, false)?;
    }
    Ok(())
}
fn history(c: &mut Case) -> Res {
    let mut w = World::default();
    let mut t = vec![];
    let n = c.rng.range(4, 40);
    for _ in 0..n {
        let r = step(&mut c.rng, &mut w, &mut t);
        c.note(|| format!("{t:?}"));
        r?;
    }
    finish(&mut c.rng, &mut w)
}
/// the same handles used by all threads at once, while others come and go
fn shared(c: &mut Case) -> Res {
    let h = handles();
    let mut w = World::default();
    for i in 0..4 {
        let v = c.rng.below(5);
        c.note(|| format!("{} used by several callers at once (authority {v})", if i % 2 == 0 { "an encryption cache" } else { "a decryption cache" }));
        use_enc(&mut c.rng, h[0].0, 0)?;
        use_dec(&mut c.rng, h[0].1[i % 3], 0, i % 3)?;
        if v != 3 {
            new_enc(&mut w, v)?;
            new_dec(&mut w, v, i % 3)?;
        }
        use_enc(&mut c.rng, h[v].0, v)?;
        use_dec(&mut c.rng, h[v].1[0], v, 0)?;
        if i % 2 == 1 {
            finish(&mut c.rng, &mut w)?;
            w = World::default();
        }
    }
    Ok(())
}
/// more live caches than any small bound
fn many(c: &mut Case) -> Res {
    let mut w = World::default();
    let n = 140;
    let mut he = vec![];
    let mut hd = vec![];
    c.note(|| format!("{n} encryption and {} decryption caches live at once", 2 * n));
    for i in 0..n {
        new_enc(&mut w, i % 3)?;
        he.push(*w.enc.keys().last().unwrap());
        for k in 0..2 {
            new_dec(&mut w, i % 3, (i + k) % 3)?;
        }
        hd.extend(w.dec.keys().copied().filter(|h| !hd.contains(h)).collect::<Vec<_>>());
    }
    for i in (0..n).step_by(4).chain(0..3) {
        use_enc(&mut c.rng, he[i], w.enc[&he[i]])?;
    }
    for i in (0..2 * n).step_by(5).chain(0..3) {
        let (v, k) = w.dec[&hd[i]];
        use_dec(&mut c.rng, hd[i], v, k)?;
    }
    for i in (1..n).step_by(2) {
        free(NewEnc, he[i]);
        w.enc.remove(&he[i]);
        free(NewDec, hd[i]);
        w.dec.remove(&hd[i]);
        w.dead_enc.push(he[i]);
        w.dead_dec.push(hd[i]);
    }
    for i in (0..n).step_by(6) {
        use_enc(&mut c.rng, he[i], w.enc[&he[i]])?;
    }
    for h in w.dead_enc.iter().step_by(7) {
        dead(*h, true)?;
    }
    for h in w.dead_dec.iter().step_by(7) {
        dead(*h, false)?;
    }
    // new handles are not old ones
    for i in 0..20 {
        new_enc(&mut w, i % 3)?;
        new_dec(&mut w, i % 3, 0)?;
    }
    for h in w.enc.keys() {
        free(NewEnc, *h);
    }
    for h in w.dec.keys() {
        free(NewDec, *h);
    }
    Ok(())
}
pub fn c11() -> Vec<Kind> {
    vec![
        serial("many-caches", 1, 4, many),
        // one history at a time, then several at once on the same maps
        serial("one-at-a-time", 16, 200, history),
        kind("shared-handles", 16, 400, shared),
        kind("concurrent", 80, 2000, history),
    ]
}
