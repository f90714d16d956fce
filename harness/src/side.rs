//! The core operations, for the comparison with the Python and the JavaScript module:
//! one JSON request per line, one JSON answer per line.
use crate::ctx::guarded;
use crate::scheme::{Del, Mpk, Msk, Usk, B};
use abe_policy::{AccessPolicy, Attribute, Attributes, Policy, PolicyAxis};
use cosmian_abe_gpsw::core::{gpsw::AsBytes, Engine};
use cosmian_abe_gpsw::interfaces::hybrid_crypto as hc;
use cosmian_crypto_base::{
    symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto as Aes, Metadata, SymKey, SymmetricCrypto},
    KeyTrait,
};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

const MAX: usize = 1 << 30;
type Key = <Aes as SymmetricCrypto>::Key;
fn er<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
fn js<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    serde_json::from_slice(b).map_err(er)
}
fn op(name: &str, a: &[Vec<u8>], n: usize) -> Result<Vec<Vec<u8>>, String> {
    let eng = Engine::<B>::new();
    let ap = |b: &[u8]| -> Result<AccessPolicy, String> {
        AccessPolicy::from_boolean_expression(std::str::from_utf8(b).map_err(er)?).map_err(er)
    };
    Ok(match name {
        "policy" => {
            let axes: Vec<PolicyAxis> = js(&a[0])?;
            let mut p = Policy::new(u32::try_from(n).map_err(er)?);
            for x in &axes {
                p.add_axis(x).map_err(er)?;
            }
            vec![serde_json::to_vec(&p).map_err(er)?]
        }
        "attributes" => {
            let t = std::str::from_utf8(&a[0]).map_err(er)?;
            vec![serde_json::to_vec(&*Attributes::try_from(t).map_err(er)?).map_err(er)?]
        }
        "rotate" => {
            let at: Vec<Attribute> = js(&a[0])?;
            let mut p: Policy = js(&a[1])?;
            if p.last_attribute_value > p.max_attribute_creations {
                return Err("not a valid policy".into());
            }
            for x in &at {
                p.rotate(x).map_err(er)?;
            }
            vec![serde_json::to_vec(&p).map_err(er)?]
        }
        "master" => {
            let (x, y, z) = eng.generate_master_key(&js(&a[0])?).map_err(er)?;
            vec![x.try_into_bytes().map_err(er)?, y.try_into_bytes().map_err(er)?, z.try_into_bytes().map_err(er)?]
        }
        "user" => {
            let msk = Msk::<B>::try_from_bytes(&a[0]).map_err(er)?;
            let k = eng.generate_user_key(&js(&a[2])?, &msk, &ap(&a[1])?).map_err(er)?;
            vec![k.try_into_bytes().map_err(er)?]
        }
        "delegate" => {
            let del = Del::<B>::try_from_bytes(&a[0]).map_err(er)?;
            let k = Usk::<B>::try_from_bytes(&a[1]).map_err(er)?;
            let k = eng.delegate_user_key(&js(&a[3])?, &del, &k, &ap(&a[2])?).map_err(er)?;
            vec![k.try_into_bytes().map_err(er)?]
        }
        "enc_header" => {
            let meta: Metadata = js(&a[0])?;
            let pk = Mpk::<B>::try_from_bytes(&a[3]).map_err(er)?;
            let at: Vec<Attribute> = js(&a[2])?;
            let h = hc::encrypt_hybrid_header::<B, Aes>(&js(&a[1])?, &pk, &at, Some(meta)).map_err(er)?;
            vec![h.symmetric_key.as_bytes().to_vec(), h.encrypted_header_bytes]
        }
        "dec_header" => {
            let k = Usk::<B>::try_from_bytes(&a[0]).map_err(er)?;
            let h = hc::decrypt_hybrid_header::<B, Aes>(&k, &a[1]).map_err(er)?;
            vec![h.symmetric_key.as_bytes().to_vec(), h.meta_data.try_to_bytes().map_err(er)?, h.meta_data.uid]
        }
        "enc_block" => {
            let k = Key::try_from_bytes(&a[0]).map_err(er)?;
            vec![hc::encrypt_hybrid_block::<B, Aes, MAX>(&k, &a[1], n, &a[2]).map_err(er)?]
        }
        "dec_block" => {
            let k = Key::try_from_bytes(&a[0]).map_err(er)?;
            vec![hc::decrypt_hybrid_block::<B, Aes, MAX>(&k, &a[1], n, &a[2]).map_err(er)?]
        }
        _ => return Err("unknown operation".into()),
    })
}
pub fn main(_a: &[String]) {
    std::panic::set_hook(Box::new(|i| {
        crate::ctx::PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let a: Vec<Vec<u8>> =
            v["a"].as_array().unwrap().iter().map(|x| hex::decode(x.as_str().unwrap()).unwrap()).collect();
        let n = v["n"].as_u64().unwrap_or(0) as usize;
        let r = match guarded(|| op(v["op"].as_str().unwrap(), &a, n)) {
            Ok(Ok(r)) => json!({"ok": r.iter().map(hex::encode).collect::<Vec<_>>()}),
            Ok(Err(e)) => json!({"err": e}),
            Err(p) => json!({"panic": p}),
        };
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
