// ---- results of the native calls
// blocks
pub open spec fn block_sealed_call<const MAX: usize>(m: Mem, w: Mem, res: i32, p: MPtr, l: IPtr, key: Option<Seq<u8>>, uid: Seq<u8>, no: usize, data: Option<Seq<u8>>) -> bool {
    if bad_out(m, p, l) || key is None || data is None || (key->0).len() != AesKey::klen() { failed(m, w, res) }
    else { failed(m, w, res) && (data->0).len() > MAX || exists|n: Seq<u8>| n.len() == AesNonce::nlen() && nonce_random(n) && output(m, w, res, p, l, #[trigger] block_bytes::<Aes256GcmCrypto>(key->0, data->0, n, uid, no)) }
}
pub open spec fn block_opened_call<const MAX: usize>(m: Mem, w: Mem, res: i32, p: MPtr, l: IPtr, key: Option<Seq<u8>>, uid: Seq<u8>, no: usize, data: Option<Seq<u8>>) -> bool {
    if bad_out(m, p, l) || key is None || data is None || (key->0).len() != AesKey::klen() { failed(m, w, res) }
    else { failed(m, w, res) && block_opened::<Aes256GcmCrypto>(data->0, key->0, uid, no, cap_of::<MAX>(), None) || exists|b: Seq<u8>| #[trigger] block_opened::<Aes256GcmCrypto>(data->0, key->0, uid, no, cap_of::<MAX>(), Some(b)) && output(m, w, res, p, l, b) }
}
// headers
pub open spec fn header_call(m: Mem, w: Mem, res: i32, kp: MPtr, kl: IPtr, hp: MPtr, hl: IPtr, p: Policy, pk: PublicKey, attrs: Seq<Attribute>, uid: Seq<u8>, ad: Option<Seq<u8>>) -> bool {
    failed(m, w, res) && (attrs.len() == 0 || not_current::<Scheme>(p, attrs, &pk) || attrs.len() >= 0x7_0000 || uid.len() + or_empty(ad).len() + 4 >= u32::MAX - 0x2000)
    || exists|meta: Metadata, key: Seq<u8>, b: Seq<u8>| #[trigger] header_made::<Scheme, Aes256GcmCrypto>(p, &pk, attrs, Some(meta), key, b) && meta.uid@ == uid && opt_view(meta.additional_data) == ad && outputs(m, w, res, kp, kl, key, hp, hl, b)
}
pub open spec fn open_call(m: Mem, w: Mem, res: i32, kp: MPtr, kl: IPtr, up: MPtr, ul: IPtr, ap: MPtr, al: IPtr, k: DecryptionKey, b: Seq<u8>) -> bool {
    exists|h: Option<(Seq<u8>, MetaView)>| #[trigger] header_open::<Scheme, Aes256GcmCrypto>(&k, b, h) && match h { None => failed(m, w, res), Some((key, v)) => clear_outputs(m, w, res, kp, kl, key, up, ul, v.0, ap, al, v.1) }
}
pub open spec fn apart(a: usize, b: usize, c: usize) -> bool { (a != b || a == 0) && (a != c || a == 0) && (b != c || b == 0) }
