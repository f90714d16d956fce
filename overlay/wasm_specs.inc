// ---- results of the JavaScript calls
pub open spec fn js(r: Result<Uint8Array, JsValue>) -> Option<Seq<u8>> { match r { Ok(x) => Some(x.v()), Err(_) => None } }
pub open spec fn opt_js(o: Option<Uint8Array>) -> Seq<u8> { match o { Some(x) => x.v(), None => Seq::empty() } }
pub open spec fn opt_no(o: Option<usize>) -> usize { match o { Some(n) => n, None => 0 } }
// a header for the attributes of a text and a resource: the key and the header for it
pub open spec fn named_meta(m: Metadata, uid: Seq<u8>) -> bool { m.uid@ == uid && m.additional_data is None }
pub open spec fn js_header(p: Policy, pk: PublicKey, text: Seq<char>, uid: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    let l = attributes_text(text);
    match r {
        Some(b) => l is Some && exists|m: Metadata, key: Seq<u8>, h: Seq<u8>| named_meta(m, uid) && #[trigger] header_made::<Scheme, Aes256GcmCrypto>(p, &pk, l->0, Some(m), key, h) && b == keyed(key, h),
        None => l is None || (l->0).len() == 0 || not_current::<Scheme>(p, l->0, &pk) || (l->0).len() >= 0x7_0000 || uid.len() + 4 >= u32::MAX - 0x2000,
    }
}
pub open spec fn js_header_request(pb: Seq<u8>, kb: Seq<u8>, text: Seq<char>, uid: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    if pb.len() == 0 || kb.len() == 0 || uid.len() == 0 || text.len() == 0 || Policy::parse(pb) is None { r is None }
    else { exists|pk: Option<PublicKey>| #[trigger] reads(kb, pk) && match pk { None => r is None, Some(pk) => js_header(Policy::parse(pb)->0, pk, text, uid, r) } }
}
// the key and the metadata of a header
pub open spec fn js_opened(k: DecryptionKey, hb: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    exists|h: Option<(Seq<u8>, MetaView)>| #[trigger] header_open::<Scheme, Aes256GcmCrypto>(&k, hb, h) && match h { None => r is None, Some((key, v)) => r == Some(keyed(key, view_enc(v))) }
}
pub open spec fn js_header_result(kb: Seq<u8>, hb: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    if kb.len() == 0 || hb.len() < 4 { r is None } else { exists|k: Option<DecryptionKey>| #[trigger] reads(kb, k) && match k { None => r is None, Some(k) => js_opened(k, hb, r) } }
}
pub proof fn whole_slices() ensures forall|s: Seq<u8>| #[trigger] s.subrange(0, s.len() as int) == s { assert forall|s: Seq<u8>| #[trigger] s.subrange(0, s.len() as int) == s by { assert(s.subrange(0, s.len() as int) =~= s); } }
