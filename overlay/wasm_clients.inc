// ---- C16: whole trips of a JavaScript caller
pub open spec fn enc_table(s: Statics) -> Table<EncryptionCache> { Table { map: s.enc.v@, next: s.enc_id.at() } }
pub open spec fn dec_table(s: Statics) -> Table<DecryptionCache> { Table { map: s.dec.v@, next: s.dec_id.at() } }
// what the caller does itself: copies, and the parts of a result that starts with a length
#[verifier::external_body] pub fn js_copy(a: &Uint8Array) -> (r: Uint8Array) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn js_bytes(s: Ghost<Seq<u8>>) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
pub open spec fn parted(b: Seq<u8>, x: Seq<u8>, y: Seq<u8>) -> bool { b.len() >= 4 && 4 + of_be4(b.subrange(0, 4)) <= b.len() && x == b.subrange(4, 4 + of_be4(b.subrange(0, 4)) as int) && y == rest(b, 4 + of_be4(b.subrange(0, 4)) as int) }
#[verifier::external_body] pub fn js_parts(a: &Uint8Array) -> (r: (Uint8Array, Uint8Array)) requires a.v().len() >= 4, 4 + of_be4(a.v().subrange(0, 4)) <= a.v().len() ensures parted(a.v(), r.0.v(), r.1.v()) { unimplemented!() }
pub proof fn parted_is(x: Seq<u8>, y: Seq<u8>) requires x.len() <= u32::MAX
    ensures ({ let b = be4(x.len() as u32) + x + y; b.len() >= 4 && 4 + of_be4(b.subrange(0, 4)) <= b.len() && forall|u: Seq<u8>, w: Seq<u8>| parted(b, u, w) ==> u == x && w == y })
{
    let b = be4(x.len() as u32) + x + y; be4_inv(x.len() as u32); assert(b.subrange(0, 4) =~= be4(x.len() as u32)); assert(b.subrange(4, 4 + x.len() as int) =~= x); assert(rest(b, 4 + x.len() as int) =~= y);
}
// what JavaScript gets for a header it made: the key and the resource, exactly when the formula of the key is satisfied
pub open spec fn js_answer(p: Policy, l: Seq<Attribute>, f: Node, key: Seq<u8>, uid: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    forall|g: Seq<u32>| #[trigger] cur_vals(p, l, g) ==> r == if sat(f, g) { Some(keyed(key, view_enc((uid, None)))) } else { None }
}
pub proof fn js_trip(pr: MasterPrivateKey, pb: MasterPublicKey, del: MasterPublicDelegationKey, k: DecryptionKey, f: Node, p: Policy, text: Seq<char>, uid: Seq<u8>, key: Seq<u8>, h: Seq<u8>, r: Option<Seq<u8>>)
    requires Scheme::able(), Scheme::authority(&pr, &pb, &del), Scheme::issued(&k, f, &pr), attributes_text(text) is Some, (attributes_text(text)->0).len() > 0, js_header(p, pb, text, uid, Some(keyed(key, h))), key.len() == 32, h.len() <= isize::MAX, js_opened(k, h, r)
    ensures js_answer(p, attributes_text(text)->0, f, key, uid, r)
{
    header_len();
    let l = attributes_text(text)->0;
    let (m, key2, h2) = choose|m: Metadata, key2: Seq<u8>, h2: Seq<u8>| named_meta(m, uid) && #[trigger] header_made::<Scheme, Aes256GcmCrypto>(p, &pb, l, Some(m), key2, h2) && keyed(key, h) == keyed(key2, h2);
    assert(key2.len() == 32);
    parted_is(key, h); assert(parted(keyed(key2, h2), key2, h2)) by { parted_is(key2, h2); be4_inv(32); let b = keyed(key2, h2); assert(b.subrange(0, 4) =~= be4(32)); assert(b.subrange(4, 36) =~= key2); assert(rest(b, 36) =~= h2); }
    assert(key2 == key && h2 == h);
    let o = choose|o: Option<(Seq<u8>, MetaView)>| #[trigger] header_open::<Scheme, Aes256GcmCrypto>(&k, h, o) && match o { None => r is None, Some((key, v)) => r == Some(keyed(key, view_enc(v))) };
    assert(meta_view(m) == (uid, None::<Seq<u8>>));
    assert forall|g: Seq<u32>| #[trigger] cur_vals(p, l, g) implies r == if sat(f, g) { Some(keyed(key, view_enc((uid, None)))) } else { None } by { header_opens(pr, pb, del, k, f, p, l, m, g, key, h, o); }
}
// keys for a policy, a user key, headers made directly and through a cache, each opened directly and through a cache
pub fn client_javascript(policy: Uint8Array, formula: &str, attributes: &str, uid: Uint8Array, st: &mut Statics)
    requires Policy::parse(policy.v()) is Some ==> (Policy::parse(policy.v())->0).max_attribute_creations < 0x7_0000, ascii_text(formula@), policy.v().len() * formula@.len() < 0x4000_0000, policy.v().len() < 0x4000_0000, attributes@.len() < 0x7_0000, uid.v().len() <= u32::MAX - 8,
        numbered_from(old(st).enc_id.at()), numbered_from(old(st).dec_id.at()), decoded(*old(st))
{
    proof { scheme_able(); Scheme::usable(); own_keys(); header_len(); }
    if let Ok(keys) = webassembly_generate_master_keys(js_copy(&policy)) {
        let ghost p = Policy::parse(policy.v())->0;
        let ghost (pr, pb) = choose|pr: MasterPrivateKey, pb: MasterPublicKey| #[trigger] key_pair(p, pr, pb) && keys.v() == key_pair_bytes(pr, pb);
        let ghost del = choose|del: MasterPublicDelegationKey| #[trigger] Scheme::authority(&pr, &pb, &del);
        proof { parted_is(pr.enc(), pb.enc()); }
        let dr = __reads::<MasterPublicDelegationKey>(js_bytes(Ghost(del.enc())).as_slice());
        let ghost del2 = ok_of(dr)->0;
        let (private, public) = js_parts(&keys);
        if let Ok(user) = webassembly_generate_user_private_key(private, formula, js_copy(&policy)) {
            let ghost ap = formula_text(formula@)->0;
            let ghost pr2 = choose|pr2: MasterPrivateKey| #[trigger] reads(pr.enc(), Some(pr2)) && key_encoded(pr2, p, ap, user.v());
            let ghost (k, f) = choose|k: DecryptionKey, f: Node| #[trigger] key_given(pr2, p, ap, k, f) && user.v() == k.enc();
            // the key may exceed the format's counters; the list of attributes may be refused
            if let Ok(made) = webassembly_encrypt_hybrid_header(js_copy(&policy), js_copy(&public), attributes, js_copy(&uid)) {
                let ghost l = attributes_text(attributes@)->0;
                let ghost pk = (choose|pk: Option<PublicKey>| #[trigger] reads(pb.enc(), pk) && match pk { None => false, Some(pk) => js_header(p, pk, attributes@, uid.v(), Some(made.v())) })->0;
                let ghost (m, key, h) = choose|m: Metadata, key: Seq<u8>, h: Seq<u8>| named_meta(m, uid.v()) && #[trigger] header_made::<Scheme, Aes256GcmCrypto>(p, &pk, l, Some(m), key, h) && made.v() == keyed(key, h);
                proof { parted_is(key, h); }
                let (_, header) = js_parts(&made);
                let answer = webassembly_decrypt_hybrid_header(js_copy(&user), js_copy(&header));
                proof {
                    if k.fits() && k.enc().len() > 0 && l.len() > 0 && h.len() <= isize::MAX && h.len() >= 4 {
                        reads_copy(pr, Some(pr2)); reads_copy(pb, Some(pk));
                        let k2 = choose|k2: Option<DecryptionKey>| #[trigger] reads(k.enc(), k2) && match k2 { None => js(answer) is None, Some(k2) => js_opened(k2, h, js(answer)) };
                        reads_copy(k, k2); Scheme::copy_key(&k, &k2->0, f, &pr2);
                        reads_copy(del, ok_of(dr)); Scheme::copy_authority(&pr, &pb, &del, &pr2, &pk, &del2);
                        js_trip(pr2, pk, del2, k2->0, f, p, attributes@, uid.v(), key, h, js(answer));
                        assert(compiles(f, p, ap) && js_answer(p, l, f, key, uid.v(), js(answer)));
                    }
                }
                // through caches
                if let (Ok(x), Ok(y)) = (webassembly_create_encryption_cache(js_copy(&policy), js_copy(&public), st), webassembly_create_decryption_cache(js_copy(&user), st)) {
                    if let Ok(made2) = webassembly_encrypt_hybrid_header_using_cache(x, attributes, js_copy(&uid), st) {
                        let ghost pk2 = st.enc.v@[x].public_key;
                        let ghost (m2, key2, h2) = choose|m2: Metadata, key2: Seq<u8>, h2: Seq<u8>| named_meta(m2, uid.v()) && #[trigger] header_made::<Scheme, Aes256GcmCrypto>(p, &pk2, l, Some(m2), key2, h2) && made2.v() == keyed(key2, h2);
                        proof { parted_is(key2, h2); }
                        let (_, header2) = js_parts(&made2);
                        let answer2 = webassembly_decrypt_hybrid_header_using_cache(y, header2, st);
                        proof {
                            if k.fits() && l.len() > 0 && h2.len() <= isize::MAX {
                                let k2 = st.dec.v@[y].user_decryption_key;
                                reads_copy(pr, Some(pr2)); reads_copy(pb, Some(pk2)); reads_copy(k, Some(k2)); Scheme::copy_key(&k, &k2, f, &pr2);
                                reads_copy(del, ok_of(dr)); Scheme::copy_authority(&pr, &pb, &del, &pr2, &pk2, &del2);
                                js_trip(pr2, pk2, del2, k2, f, p, attributes@, uid.v(), key2, h2, js(answer2));
                                assert(compiles(f, p, ap) && js_answer(p, l, f, key2, uid.v(), js(answer2)));
                            }
                        }
                    }
                }
            }
        }
    }
}
// blocks: sealed under a key, a resource and a number, opened under the same
pub fn client_blocks(key: Uint8Array, uid: Uint8Array, no: usize, text: Uint8Array) requires uid.v().len() + text.v().len() + 0x3000 <= usize::MAX, uid.v().len() < 0x1_0000_0000 - 8
{
    if let Ok(c) = webassembly_encrypt_hybrid_block(js_copy(&key), Some(js_copy(&uid)), Some(no), js_copy(&text)) {
        let r = webassembly_decrypt_hybrid_block(key, Some(js_copy(&uid)), Some(no), c);
        proof { block_opens::<MAX_CLEAR_TEXT_SIZE>(key.v(), uid.v(), no, text.v(), c.v(), js(r)); }
        assert(r is Ok && (r->Ok_0).v() == text.v());
    }
}
// the calls are steps of histories
pub fn client_js_caches(policy: Uint8Array, public: Uint8Array, user: Uint8Array, x: i32, y: i32, st: &mut Statics) requires numbered_from(old(st).enc_id.at()), numbered_from(old(st).dec_id.at())
{
    let ghost (e0, d0) = (enc_table(*st), dec_table(*st));
    let r = webassembly_create_encryption_cache(policy, public, st);
    let ghost (e1, d1) = (enc_table(*st), dec_table(*st));
    proof { assert(d1 == d0); if let Ok(h) = r { let m = Table { map: e0.map, next: e1.next }; assert(step(e0, Op::Take(h), m)); assert(step(m, Op::Put(h, e1.map[h]), e1)); } else { assert(step(e0, Op::Other, e1)); } }
    let q = webassembly_create_decryption_cache(user, st);
    let ghost (e2, d2) = (enc_table(*st), dec_table(*st));
    proof { assert(e2 == e1); if let Ok(h) = q { let m = Table { map: d1.map, next: d2.next }; assert(step(d1, Op::Take(h), m)); assert(step(m, Op::Put(h, d2.map[h]), d2)); } else { assert(step(d1, Op::Other, d2)); } }
    let _ = webassembly_destroy_encryption_cache(x, st);
    let ghost (e3, d3) = (enc_table(*st), dec_table(*st));
    assert(step(e2, Op::Destroy(x), e3) && d3 == d2);
    let _ = webassembly_destroy_decryption_cache(y, st);
    assert(step(d3, Op::Destroy(y), dec_table(*st)) && enc_table(*st) == e3);
}
