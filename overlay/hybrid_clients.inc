// ---- theorems over the contracts of the hybrid layer
pub proof fn cur_unique(p: Policy, attrs: Seq<Attribute>, g: Seq<u32>, h: Seq<u32>) requires cur_vals(p, attrs, g), cur_vals(p, attrs, h) ensures g == h
{
    assert forall|i: int| 0 <= i < g.len() implies g[i] == h[i] by {
        assert(current(p, attrs[i], g[i]) && current(p, attrs[i], h[i])); let v = p.attribute_to_int.view()[att(attrs[i])]@;
        let a = choose|a: int| 0 <= a < v.len() && v[a] == g[i]; let b = choose|b: int| 0 <= b < v.len() && v[b] == h[i]; assert(v[a] <= h[i] && v[b] <= g[i]);
    }
    assert(g =~= h);
}
// C14: whatever follows the encapsulation, the key comes back exactly when the formula is satisfied
pub proof fn capsule_opens<A: AbeScheme>(pr: &A::MasterPrivateKey, pb: &A::MasterPublicKey, del: &A::MasterPublicDelegationKey, k: &A::UserDecryptionKey, f: Node, p: Policy, attrs: Seq<Attribute>, g: Seq<u32>, n: nat, n2: nat, key: Seq<u8>, enc: Seq<u8>, b: Seq<u8>, r: Option<Seq<u8>>)
    requires A::able(), A::authority(pr, pb, del), A::issued(k, f, pr), cur_vals(p, attrs, g), attrs.len() > 0, capsule::<A>(p, pb, attrs, n, key, enc), head_is(b, enc, false), decap::<A>(k, b, n2, r)
    ensures sat(f, g) ==> r is Some && r->0.len() == n2 && (n == n2 ==> r->0 == key) && (n2 <= n ==> r->0 == key.take(n2 as int)), !sat(f, g) ==> r is None
{
    able_facts::<A>();
    let (m, c, h) = choose|m: A::PlainText, c: A::CipherText, h: Seq<u32>| A::clear(&m) && cur_vals(p, attrs, h) && #[trigger] A::sealed(&c, &m, h, pb) && c.wf() && (attrs.len() > 0 ==> c.fits()) && !c.whole() && enc == c.enc() && key == shake(m.enc(), n);
    cur_unique(p, attrs, g, h);
    assert(head_is(b, c.enc(), c.whole()));
    let (c2, x) = choose|c2: A::CipherText, x: Option<A::PlainText>| #[trigger] A::decrypted(k, &c2, x) && c.same(&c2) && c2.wf() && r == key_of::<A>(x, n2);
    A::copy_ct(&c, &c2, &m, g, pb);
    A::opening(pr, pb, del, k, f, &c2, &m, g, x);
    if sat(f, g) { m.same_enc(&x->0); if n2 <= n { assert(shake(m.enc(), n2) =~= key.take(n2 as int)); } }
}
// C08: a header opens exactly for the keys whose formula is satisfied, with the key and the metadata it was made with
pub fn header_trip<A: AbeScheme, S: SymmetricCrypto>(policy: &Policy, pk: &A::MasterPublicKey, attrs: &[Attribute], meta: Option<Metadata>, k: &A::UserDecryptionKey, Ghost(pr): Ghost<A::MasterPrivateKey>, Ghost(del): Ghost<A::MasterPublicDelegationKey>, Ghost(f): Ghost<Node>)
    requires A::able(), 0 < attrs@.len() < u32::MAX, 0x2000 * (attrs@.len() + 1) <= usize::MAX, meta is Some ==> meta_mem(meta->0), A::authority(&pr, pk, &del), A::issued(k, f, &pr), k.wf()
{
    let ghost mt = meta;
    let r = encrypt_hybrid_header::<A, S>(policy, pk, attrs, meta);
    match r {
        Err(_) => { proof { assert(not_current::<A>(*policy, attrs@, pk) || attrs@.len() >= 0x7_0000 || (mt is Some && meta_enc(mt->0).len() >= u32::MAX - 0x2000)); } }
        Ok(h) => {
            __slice_len(&h.encrypted_header_bytes);
            let o = decrypt_hybrid_header::<A, S>(k, &h.encrypted_header_bytes);
            proof {
                let b = h.encrypted_header_bytes@; let key = h.symmetric_key.kb(); let kl = S::Key::klen();
                let res: Option<(Seq<u8>, MetaView)> = match o { Ok(c) => Some((c.symmetric_key.kb(), (c.meta_data.uid@, opt_view(c.meta_data.additional_data)))), Err(_) => None };
                let esk = choose|esk: Seq<u8>| #[trigger] made::<A, S>(*policy, pk, attrs@, mt, key, b, esk);
                be4_inv(esk.len() as u32); assert(b.subrange(0, 4) =~= be4(esk.len() as u32)); assert(b.subrange(4, 4 + esk.len() as int) =~= esk);
                assert(head_is(esk, esk, false)) by { assert(esk.subrange(0, esk.len() as int) =~= esk); }
                let want: MetaView = match mt { Some(m) => meta_view(m), None => (Seq::empty(), None) };
                assert forall|g: Seq<u32>| #[trigger] cur_vals(*policy, attrs@, g) implies (sat(f, g) ==> res == Some((key, want))) && (!sat(f, g) ==> res is None) by {
                    meta_holds::<A, S>(*policy, pk, attrs@, mt, key, b, esk);
                    assert forall|x: Option<Seq<u8>>| #[trigger] decap::<A>(k, esk, kl, x) implies (sat(f, g) ==> x == Some(key)) && (!sat(f, g) ==> x is None) by { capsule_opens::<A>(&pr, pk, &del, k, f, *policy, attrs@, g, kl, kl, key, esk, esk, x); }
                }
            }
        }
    }
}
// the metadata part of a header says what was put there
pub proof fn meta_holds<A: AbeScheme, S: SymmetricCrypto>(p: Policy, pk: &A::MasterPublicKey, attrs: Seq<Attribute>, meta: Option<Metadata>, key: Seq<u8>, b: Seq<u8>, esk: Seq<u8>)
    requires made::<A, S>(p, pk, attrs, meta, key, b, esk), b.len() <= isize::MAX
    ensures forall|r: Option<MetaView>| #[trigger] meta_open::<S>(key, b, 4 + esk.len() as int, r) ==> r == Some(match meta { Some(m) => meta_view(m), None => (Seq::<u8>::empty(), None::<Seq<u8>>) })
{
    let at = 4 + esk.len() as int; let l = S::Nonce::nlen() as int;
    match meta {
        None => {}
        Some(m) => {
            let n = choose|n: Seq<u8>| n.len() == S::Nonce::nlen() && nonce_random(n) && b == be4(esk.len() as u32) + esk + #[trigger] sealed_meta::<S>(key, m, n);
            let e = meta_enc(m); let ct = S::ct(key, e, n, Seq::empty()); S::ct_len(key, e, n, Seq::empty()); be4_inv(ct.len() as u32); be4_inv(esk.len() as u32);
            assert(b.subrange(at, at + l) =~= n); assert(b.subrange(at + l, at + l + 4) =~= be4(ct.len() as u32)); assert(b.subrange(at + l + 4, at + l + 4 + ct.len()) =~= ct);
            meta_trip(m);
            assert forall|x: Seq<u8>| #[trigger] S::ct(key, x, n, Seq::empty()) == ct implies x == e by { S::ct_inj(key, x, e, n, Seq::empty()); }
        }
    }
}
// the encodings of headers
pub proof fn unkey_trip(k: Seq<u8>, b: Seq<u8>) requires k.len() <= u32::MAX ensures unkey(keyed(k, b), k.len()) == Some((k, b))
{
    let x = keyed(k, b); be4_inv(k.len() as u32); assert(x.subrange(0, 4) =~= be4(k.len() as u32)); assert(x.subrange(4, 4 + k.len() as int) =~= k); assert(rest(x, 4 + k.len() as int) =~= b);
}
pub fn encrypted_header_trip<S: SymmetricCrypto>(h: &EncryptedHeader<S>)
{
    let e = h.try_into_bytes();
    proof { assert(e is Ok); h.symmetric_key.klen_is(); unkey_trip(h.symmetric_key.kb(), h.encrypted_header_bytes@); }
    if let Ok(b) = e { let d = EncryptedHeader::<S>::try_from_bytes(&b); assert(d is Ok && (d->Ok_0).symmetric_key.kb() == h.symmetric_key.kb() && (d->Ok_0).encrypted_header_bytes@ == h.encrypted_header_bytes@); }
}
pub fn clear_header_trip<S: SymmetricCrypto>(h: &ClearTextHeader<S>) requires meta_mem(h.meta_data)
{
    let e = h.try_into_bytes();
    proof { h.symmetric_key.klen_is(); unkey_trip(h.symmetric_key.kb(), meta_enc(h.meta_data)); if e is Ok { meta_trip(h.meta_data); } }
    if let Ok(b) = e { let d = ClearTextHeader::<S>::try_from_bytes(&b); assert(d is Ok && (d->Ok_0).symmetric_key.kb() == h.symmetric_key.kb() && ((d->Ok_0).meta_data.uid@, opt_view((d->Ok_0).meta_data.additional_data)) == meta_view(h.meta_data)); }
}
// C09
pub proof fn le8_inj(a: u64, b: u64) requires le8(a) == le8(b) ensures a == b
{
    let (x, y) = (le8(a), le8(b));
    assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6] && x[7] == y[7]);
    assert(a == b) by(bit_vector) requires (a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8, ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8, ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8,
        ((a >> 32) & 0xff) as u8 == ((b >> 32) & 0xff) as u8, ((a >> 40) & 0xff) as u8 == ((b >> 40) & 0xff) as u8, ((a >> 48) & 0xff) as u8 == ((b >> 48) & 0xff) as u8, ((a >> 56) & 0xff) as u8 == ((b >> 56) & 0xff) as u8;
}
// different identifiers or block numbers give different associated data
pub proof fn aad_inj(u: Seq<u8>, n: usize, u2: Seq<u8>, n2: usize) requires block_aad(u, n) == block_aad(u2, n2) ensures u == u2 && n == n2
{
    let (a, b) = (block_aad(u, n), block_aad(u2, n2)); assert(a.len() == u.len() + 8 && b.len() == u2.len() + 8);
    assert(a.subrange(0, u.len() as int) =~= u); assert(b.subrange(0, u.len() as int) =~= u2);
    assert(a.subrange(u.len() as int, a.len() as int) =~= le8(n as u64)); assert(b.subrange(u.len() as int, a.len() as int) =~= le8(n2 as u64));
    le8_inj(n as u64, n2 as u64);
}
// a ciphertext accepted under another key or for other associated data: a forgery against the authenticated cipher
pub open spec fn forgery<S: SymmetricCrypto>(k: Seq<u8>, m: Seq<u8>, a: Seq<u8>, k2: Seq<u8>, m2: Seq<u8>, a2: Seq<u8>, n: Seq<u8>) -> bool { S::ct(k, m, n, a) == S::ct(k2, m2, n, a2) && (k != k2 || a != a2) }
pub fn block_trip<A: AbeScheme, S: SymmetricCrypto, const MAX_CLEAR_TEXT_SIZE: usize>(key: &S::Key, uid: &[u8], no: usize, text: &[u8], key2: &S::Key, uid2: &[u8], no2: usize)
    requires MAX_CLEAR_TEXT_SIZE + 0x2000 <= usize::MAX, uid@.len() + text@.len() + 0x3000 <= usize::MAX, uid@.len() < 0x1_0000_0000 - 8, text@.len() <= 0x1_0000_0000
{
    let e = encrypt_hybrid_block::<A, S, MAX_CLEAR_TEXT_SIZE>(key, uid, no, text);
    assert(e is Ok == (0 < text@.len() <= MAX_CLEAR_TEXT_SIZE));
    if let Ok(b) = e {
        let over = symmetric_encryption_overhead::<S, MAX_CLEAR_TEXT_SIZE>();
        let d = decrypt_hybrid_block::<A, S, MAX_CLEAR_TEXT_SIZE>(key, uid, no, &b);
        let d2 = decrypt_hybrid_block::<A, S, MAX_CLEAR_TEXT_SIZE>(key2, uid2, no2, &b);
        proof {
            let l = S::Nonce::nlen() as int; let m = text@; let a = block_aad(uid@, no); let a2 = block_aad(uid2@, no2);
            let n = choose|n: Seq<u8>| n.len() == S::Nonce::nlen() && nonce_random(n) && b@ == #[trigger] block_bytes::<S>(key.kb(), m, n, uid@, no);
            S::ct_len(key.kb(), m, n, a); assert(b@.subrange(0, l) =~= n);
            assert(b@.len() == m.len() + over);
            block_split::<S>(b@, key.kb(), uid@, no); block_split::<S>(b@, key2.kb(), uid2@, no2);
            assert(d is Ok) by { if d is Err { assert(b@ != block_bytes::<S>(key.kb(), m, b@.subrange(0, l), uid@, no)); } }
            S::ct_inj(key.kb(), m, (d->Ok_0)@, n, a);
            assert((d->Ok_0)@ == m);
            if d2 is Ok && (key2.kb() != key.kb() || uid2@ != uid@ || no2 != no) {
                if a == a2 { aad_inj(uid@, no, uid2@, no2); }
                assert(forgery::<S>(key.kb(), m, a, key2.kb(), (d2->Ok_0)@, a2, n));
            }
        }
    }
}
