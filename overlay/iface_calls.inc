// ---- results of calls on bytes
pub open spec fn keys_bytes(p: Policy, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) -> bool {
    exists|pr: MasterPrivateKey, pb: MasterPublicKey, del: MasterPublicDelegationKey| #[trigger] Scheme::authority(&pr, &pb, &del) && Scheme::slots(&pr) == p.max_attribute_creations + 1 && pr.wf() && pb.wf() && del.wf() && a == pr.enc() && b == pb.enc() && c == del.enc()
}
pub open spec fn key_given(pr: MasterPrivateKey, p: Policy, ap: AccessPolicy, k: DecryptionKey, n: Node) -> bool { k.wf() && compiles(n, p, ap) && Scheme::issued(&k, n, &pr) }
pub open spec fn key_encoded(pr: MasterPrivateKey, p: Policy, ap: AccessPolicy, b: Seq<u8>) -> bool { exists|k: DecryptionKey, n: Node| #[trigger] key_given(pr, p, ap, k, n) && b == k.enc() }
pub open spec fn key_refused(pr: MasterPrivateKey, p: Policy, ap: AccessPolicy) -> bool { (Scheme::ready(&pr) ==> refused(p, ap) || overflows(p, ap, Scheme::slots(&pr))) || exists|k: DecryptionKey, n: Node| #[trigger] key_given(pr, p, ap, k, n) && !k.fits() }
pub open spec fn key_derived(uk: DecryptionKey, del: MasterPublicDelegationKey, p: Policy, ap: AccessPolicy, d: DecryptionKey) -> bool {
    d.wf() && if ap is All { Scheme::derived(&uk, &d, &del, None) } else { exists|m: MonotoneSpanProgram<i32>, n: Node| #[trigger] realises(m, n) && compiles(n, p, ap) && #[trigger] Scheme::derived(&uk, &d, &del, Some(m)) }
}
pub open spec fn derive_refused(uk: DecryptionKey, del: MasterPublicDelegationKey, p: Policy, ap: AccessPolicy) -> bool {
    (if ap is All { exists|x: u32| #[trigger] Scheme::key_attrs(&uk).contains(x) && x >= Scheme::del_slots(&del) } else { refused(p, ap) || outside(p, ap, Scheme::key_attrs(&uk), Scheme::del_slots(&del)) })
    || exists|d: DecryptionKey| #[trigger] key_derived(uk, del, p, ap, d) && !d.fits()
}
pub proof fn keys_given() ensures
    forall|pr: MasterPrivateKey, p: Policy, ap: AccessPolicy, k: DecryptionKey, n: Node| #![trigger Scheme::issued(&k, n, &pr), compiles(n, p, ap)] k.wf() && compiles(n, p, ap) && Scheme::issued(&k, n, &pr) ==> key_given(pr, p, ap, k, n),
    forall|uk: DecryptionKey, del: MasterPublicDelegationKey, p: Policy, ap: AccessPolicy, d: DecryptionKey| #![trigger Scheme::derived(&uk, &d, &del, None), rooms(p, ap)] d.wf() && ap is All && Scheme::derived(&uk, &d, &del, None) ==> key_derived(uk, del, p, ap, d),
    forall|uk: DecryptionKey, del: MasterPublicDelegationKey, p: Policy, ap: AccessPolicy, d: DecryptionKey, m: MonotoneSpanProgram<i32>, n: Node| #![trigger Scheme::derived(&uk, &d, &del, Some(m)), compiles(n, p, ap)] d.wf() && !(ap is All) && realises(m, n) && compiles(n, p, ap) && Scheme::derived(&uk, &d, &del, Some(m)) ==> key_derived(uk, del, p, ap, d)
{ }
// headers
pub open spec fn header_refused(p: Policy, pk: PublicKey, attrs: Seq<Attribute>, meta: Metadata) -> bool { attrs.len() == 0 || not_current::<Scheme>(p, attrs, &pk) || attrs.len() >= 0x7_0000 || meta_enc(meta).len() >= u32::MAX - 0x2000 }
pub open spec fn header_request(mb: Seq<u8>, pb: Seq<u8>, ab: Seq<u8>, kb: Seq<u8>, r: Option<(Seq<u8>, Seq<u8>)>) -> bool {
    let (m, p, l) = (Metadata::parse(mb), Policy::parse(pb), <Vec<Attribute> as Json>::parse(ab));
    match r {
        Some((key, h)) => m is Some && p is Some && l is Some && exists|pk: PublicKey| #[trigger] reads(kb, Some(pk)) && header_made::<Scheme, Aes256GcmCrypto>(p->0, &pk, (l->0)@, m, key, h),
        None => m is None || p is None || l is None || exists|pk: Option<PublicKey>| #[trigger] reads(kb, pk) && (pk is None || header_refused(p->0, pk->0, (l->0)@, m->0)),
    }
}
pub open spec fn view_enc(v: MetaView) -> Seq<u8> { let x = match v.1 { Some(e) => e, None => Seq::empty() }; if v.0.len() + x.len() == 0 { Seq::empty() } else { be4(v.0.len() as u32) + (v.0 + x) } }
pub open spec fn header_result(kb: Seq<u8>, hb: Seq<u8>, r: Option<(Seq<u8>, Seq<u8>)>) -> bool {
    exists|k: Option<DecryptionKey>| #[trigger] reads(kb, k) && match k { None => r is None, Some(k) => exists|h: Option<(Seq<u8>, MetaView)>| #[trigger] header_open::<Scheme, Aes256GcmCrypto>(&k, hb, h) && match h { None => r is None, Some((key, v)) => r == Some((key, view_enc(v))) } }
}
pub open spec fn pair_of(r: Result<(Vec<u8>, Vec<u8>), FormatErr>) -> Option<(Seq<u8>, Seq<u8>)> { match r { Ok(x) => Some((x.0@, x.1@)), Err(_) => None } }
pub open spec fn bytes_of(r: Result<Vec<u8>, FormatErr>) -> Option<Seq<u8>> { match r { Ok(x) => Some(x@), Err(_) => None } }
// blocks
pub open spec fn block_made<const MAX: usize>(key: Seq<u8>, uid: Seq<u8>, no: usize, text: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    match r {
        Some(b) => key.len() == 32 && 0 < text.len() <= MAX && exists|n: Seq<u8>| n.len() == AesNonce::nlen() && nonce_random(n) && b == #[trigger] block_bytes::<Aes256GcmCrypto>(key, text, n, uid, no),
        None => key.len() != 32 || text.len() == 0 || text.len() > MAX || uid.len() >= 0x1_0000_0000 - 8,
    }
}
pub open spec fn block_result<const MAX: usize>(key: Seq<u8>, uid: Seq<u8>, no: usize, b: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    match r { Some(m) => key.len() == 32 && b.len() > 0 && block_opened::<Aes256GcmCrypto>(b, key, uid, no, cap_of::<MAX>(), r), None => key.len() != 32 || b.len() == 0 || block_opened::<Aes256GcmCrypto>(b, key, uid, no, cap_of::<MAX>(), r) }
}
// a header and block 0 under its key, bound to the resource
pub open spec fn framed(h: Seq<u8>, c: Seq<u8>) -> Seq<u8> { be4(h.len() as u32) + h + c }
// what a one-call decryption gives
pub open spec fn opened_all<const MAX: usize>(kb: Seq<u8>, b: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    let n = of_be4(b.subrange(0, 4)) as int; let hb = b.subrange(4, 4 + n);
    if b.len() < 4 || b.len() < 4 + n { r is None }
    else { exists|h: Option<(Seq<u8>, Seq<u8>)>| #[trigger] header_result(kb, hb, h) && match h { None => r is None, Some((key, m)) => match meta_dec(m) { None => r is None, Some(v) => block_result::<MAX>(key, v.0, 0, rest(b, 4 + n), r) } } }
}
