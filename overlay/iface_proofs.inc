// ---- lengths
pub proof fn header_len() ensures forall|p: Policy, pk: PublicKey, l: Seq<Attribute>, meta: Option<Metadata>, key: Seq<u8>, b: Seq<u8>| #[trigger] header_made::<Scheme, Aes256GcmCrypto>(p, &pk, l, meta, key, b) ==> b.len() <= 0x2_0000_0100 && key.len() == 32
{
    assert forall|p: Policy, pk: PublicKey, l: Seq<Attribute>, meta: Option<Metadata>, key: Seq<u8>, b: Seq<u8>| #[trigger] header_made::<Scheme, Aes256GcmCrypto>(p, &pk, l, meta, key, b) implies b.len() <= 0x2_0000_0100 && key.len() == 32 by {
        let esk = choose|esk: Seq<u8>| #[trigger] capsule::<Scheme>(p, &pk, l, AesKey::klen(), key, esk) && made::<Scheme, Aes256GcmCrypto>(p, &pk, l, meta, key, b, esk);
        if meta is Some {
            let n = choose|n: Seq<u8>| n.len() == AesNonce::nlen() && nonce_random(n) && b == be4(esk.len() as u32) + esk + #[trigger] sealed_meta::<Aes256GcmCrypto>(key, meta->0, n);
            Aes256GcmCrypto::ct_len(key, meta_enc(meta->0), n, Seq::empty());
        }
    }
}
pub proof fn block_len<const MAX: usize>() ensures forall|key: Seq<u8>, uid: Seq<u8>, no: usize, text: Seq<u8>, b: Seq<u8>| #[trigger] block_made::<MAX>(key, uid, no, text, Some(b)) ==> b.len() == text.len() + 28 && text.len() <= MAX
{
    assert forall|key: Seq<u8>, uid: Seq<u8>, no: usize, text: Seq<u8>, b: Seq<u8>| #[trigger] block_made::<MAX>(key, uid, no, text, Some(b)) implies b.len() == text.len() + 28 && text.len() <= MAX by {
        let n = choose|n: Seq<u8>| n.len() == AesNonce::nlen() && nonce_random(n) && b == #[trigger] block_bytes::<Aes256GcmCrypto>(key, text, n, uid, no);
        Aes256GcmCrypto::ct_len(key, text, n, block_aad(uid, no));
    }
}
// metadata found in a header is shorter than it
pub proof fn meta_short(b: Seq<u8>) ensures forall|k: DecryptionKey, key: Seq<u8>, v: MetaView| #[trigger] header_open::<Scheme, Aes256GcmCrypto>(&k, b, Some((key, v))) ==> v.0.len() + (match v.1 { Some(e) => e.len(), None => 0 }) + 4 <= b.len() && v.0.len() <= u32::MAX
{
    assert forall|k: DecryptionKey, key: Seq<u8>, v: MetaView| #[trigger] header_open::<Scheme, Aes256GcmCrypto>(&k, b, Some((key, v))) implies v.0.len() + (match v.1 { Some(e) => e.len(), None => 0 }) + 4 <= b.len() && v.0.len() <= u32::MAX by {
        let at = 4 + of_be4(b.subrange(0, 4)) as int; let n = of_be4(b.subrange(at + 12, at + 16)) as int; let ct = b.subrange(at + 16, at + 16 + n);
        if b.len() != at {
            let m = choose|m: Seq<u8>| ct == #[trigger] Aes256GcmCrypto::ct(key, m, b.subrange(at, at + 12), Seq::empty()) && meta_dec(m) == Some(v);
            Aes256GcmCrypto::ct_len(key, m, b.subrange(at, at + 12), Seq::empty());
        }
    }
}
// ---- whole trips, through bytes alone
pub proof fn framed_parts(h: Seq<u8>, c: Seq<u8>) requires h.len() <= u32::MAX
    ensures framed(h, c).subrange(0, 4) == be4(h.len() as u32), of_be4(framed(h, c).subrange(0, 4)) == h.len(), framed(h, c).subrange(4, 4 + h.len() as int) == h, rest(framed(h, c), 4 + h.len() as int) == c, framed(h, c).len() == 4 + h.len() + c.len()
{
    let b = framed(h, c); be4_inv(h.len() as u32); assert(b.subrange(0, 4) =~= be4(h.len() as u32)); assert(b.subrange(4, 4 + h.len() as int) =~= h); assert(rest(b, 4 + h.len() as int) =~= c);
}
// what is read back from the encoding of a value is a copy of it
pub proof fn reads_copy<T: AsBytes>(v: T, r: Option<T>) requires v.wf(), v.fits(), reads(v.enc(), r) ensures r is Some, v.same(&r->0), (r->0).wf()
{
    assert(head_is(v.enc(), v.enc(), v.whole())) by { assert(v.enc().subrange(0, v.enc().len() as int) =~= v.enc()); }
}
// the header of a message opens exactly for the keys whose formula is satisfied
pub proof fn header_opens(pr: MasterPrivateKey, pb: MasterPublicKey, del: MasterPublicDelegationKey, k: DecryptionKey, f: Node, p: Policy, attrs: Seq<Attribute>, meta: Metadata, g: Seq<u32>, key: Seq<u8>, h: Seq<u8>, r: Option<(Seq<u8>, MetaView)>)
    requires Scheme::able(), Scheme::authority(&pr, &pb, &del), Scheme::issued(&k, f, &pr), attrs.len() > 0, cur_vals(p, attrs, g), header_made::<Scheme, Aes256GcmCrypto>(p, &pb, attrs, Some(meta), key, h), header_open::<Scheme, Aes256GcmCrypto>(&k, h, r), h.len() <= isize::MAX
    ensures sat(f, g) ==> r == Some((key, meta_view(meta))), !sat(f, g) ==> r is None
{
    let kl = AesKey::klen();
    let esk = choose|esk: Seq<u8>| #[trigger] capsule::<Scheme>(p, &pb, attrs, kl, key, esk) && made::<Scheme, Aes256GcmCrypto>(p, &pb, attrs, Some(meta), key, h, esk);
    let n = choose|n: Seq<u8>| n.len() == AesNonce::nlen() && nonce_random(n) && h == be4(esk.len() as u32) + esk + #[trigger] sealed_meta::<Aes256GcmCrypto>(key, meta, n);
    be4_inv(esk.len() as u32); assert(h.subrange(0, 4) =~= be4(esk.len() as u32)); assert(h.subrange(4, 4 + esk.len() as int) =~= esk);
    assert(head_is(esk, esk, false)) by { assert(esk.subrange(0, esk.len() as int) =~= esk); }
    meta_holds::<Scheme, Aes256GcmCrypto>(p, &pb, attrs, Some(meta), key, h, esk);
    assert forall|x: Option<Seq<u8>>| #[trigger] decap::<Scheme>(&k, esk, kl, x) implies (sat(f, g) ==> x == Some(key)) && (!sat(f, g) ==> x is None) by { capsule_opens::<Scheme>(&pr, &pb, &del, &k, f, p, attrs, g, kl, kl, key, esk, esk, x); }
}
pub proof fn view_dec(m: Metadata) requires m.uid@.len() <= u32::MAX ensures meta_dec(view_enc(meta_view(m))) == Some(meta_view(m))
{
    assert(view_enc(meta_view(m)) =~= meta_enc(m)); meta_trip(m);
}
// a block opens under its key, its resource and its number
pub proof fn block_opens<const MAX: usize>(key: Seq<u8>, uid: Seq<u8>, no: usize, text: Seq<u8>, b: Seq<u8>, r: Option<Seq<u8>>)
    requires block_made::<MAX>(key, uid, no, text, Some(b)), block_result::<MAX>(key, uid, no, b, r), MAX <= 0x4000_0000, uid.len() <= 0x1_0000_0000 - 8 ensures r == Some(text)
{
    let n = choose|n: Seq<u8>| n.len() == AesNonce::nlen() && nonce_random(n) && b == #[trigger] block_bytes::<Aes256GcmCrypto>(key, text, n, uid, no);
    Aes256GcmCrypto::ct_len(key, text, n, block_aad(uid, no)); assert(b.subrange(0, 12) =~= n);
    block_split::<Aes256GcmCrypto>(b, key, uid, no);
    if let Some(m) = r { Aes256GcmCrypto::ct_inj(key, text, m, n, block_aad(uid, no)); }
}
