// what one-call decryption makes of a message
pub proof fn message_opens(pr: MasterPrivateKey, pb: MasterPublicKey, del: MasterPublicDelegationKey, k: DecryptionKey, f: Node, p: Policy, attrs: Seq<Attribute>, meta: Metadata, g: Seq<u32>, key: Seq<u8>, h: Seq<u8>, text: Seq<u8>, c: Seq<u8>, r: Option<Seq<u8>>)
    requires Scheme::able(), Scheme::authority(&pr, &pb, &del), Scheme::issued(&k, f, &pr), k.wf(), k.fits(), attrs.len() > 0, cur_vals(p, attrs, g), header_made::<Scheme, Aes256GcmCrypto>(p, &pb, attrs, Some(meta), key, h), h.len() <= u32::MAX,
        block_made::<MAX_CLEAR_TEXT_SIZE>(key, meta.uid@, 0, text, Some(c)), opened_all::<MAX_CLEAR_TEXT_SIZE>(k.enc(), framed(h, c), r)
    ensures sat(f, g) ==> r == Some(text), !sat(f, g) ==> r is None
{
    framed_parts(h, c);
    let hr = choose|hr: Option<(Seq<u8>, Seq<u8>)>| #[trigger] header_result(k.enc(), h, hr) && match hr { None => r is None, Some((key, m)) => match meta_dec(m) { None => r is None, Some(v) => block_result::<MAX_CLEAR_TEXT_SIZE>(key, v.0, 0, c, r) } };
    let k2 = choose|k2: Option<DecryptionKey>| #[trigger] reads(k.enc(), k2) && match k2 { None => hr is None, Some(k2) => exists|o: Option<(Seq<u8>, MetaView)>| #[trigger] header_open::<Scheme, Aes256GcmCrypto>(&k2, h, o) && match o { None => hr is None, Some((key, v)) => hr == Some((key, view_enc(v))) } };
    reads_copy(k, k2); let k2 = k2->0; Scheme::copy_key(&k, &k2, f, &pr);
    let o = choose|o: Option<(Seq<u8>, MetaView)>| #[trigger] header_open::<Scheme, Aes256GcmCrypto>(&k2, h, o) && match o { None => hr is None, Some((key, v)) => hr == Some((key, view_enc(v))) };
    header_opens(pr, pb, del, k2, f, p, attrs, meta, g, key, h, o);
    if sat(f, g) {
        assert(meta.uid@.len() <= u32::MAX - 16) by { let esk = choose|esk: Seq<u8>| #[trigger] capsule::<Scheme>(p, &pb, attrs, AesKey::klen(), key, esk) && made::<Scheme, Aes256GcmCrypto>(p, &pb, attrs, Some(meta), key, h, esk); }
        view_dec(meta); block_opens::<MAX_CLEAR_TEXT_SIZE>(key, meta.uid@, 0, text, c, r);
    }
}
// a caller: keys for a policy, a user key for a formula, a key delegated from it to a second one, a message, and what each key makes of it
pub fn client_python(policy: Vec<u8>, formula: String, formula2: String, metadata: Vec<u8>, attributes: Vec<u8>, text: Vec<u8>)
    requires ascii_text(formula@), formula@.len() < 0x8000_0000, ascii_text(formula2@), formula2@.len() < 0x8000_0000, short(policy@), metadata@.len() + text@.len() + 0x4000 <= usize::MAX, attributes@.len() <= u32::MAX
{
    proof { scheme_able(); Scheme::usable(); own_keys(); }
    if let Ok((private, public, delegation)) = py::generate_master_keys(policy.clone()) {
        let ghost p = Policy::parse(policy@)->0;
        let ghost (pr, pb, del) = choose|pr: MasterPrivateKey, pb: MasterPublicKey, del: MasterPublicDelegationKey| #[trigger] Scheme::authority(&pr, &pb, &del) && Scheme::slots(&pr) == p.max_attribute_creations + 1 && pr.wf() && pb.wf() && del.wf() && private@ == pr.enc() && public@ == pb.enc() && delegation@ == del.enc();
        let dr = __reads::<MasterPublicDelegationKey>(&delegation);
        let ghost ap = formula_text(formula@)->0; let ghost ap2 = formula_text(formula2@)->0;
        if let Ok(user) = py::generate_user_private_key(private, formula, policy.clone()) {
            let ghost pr2 = choose|pr2: MasterPrivateKey| #[trigger] reads(pr.enc(), Some(pr2)) && key_encoded(pr2, p, ap, user@);
            let ghost (k, f) = choose|k: DecryptionKey, f: Node| #[trigger] key_given(pr2, p, ap, k, f) && user@ == k.enc();
            let user2 = py::generate_delegated_key(delegation, user.clone(), formula2, policy.clone());
            if let Ok(message) = py::encrypt(metadata.clone(), policy.clone(), attributes.clone(), public, text.clone()) {
                let ghost (key, h, c) = choose|key: Seq<u8>, h: Seq<u8>, c: Seq<u8>| #[trigger] header_request(metadata@, policy@, attributes@, pb.enc(), Some((key, h))) && Metadata::parse(metadata@) is Some && #[trigger] block_made::<MAX_CLEAR_TEXT_SIZE>(key, (Metadata::parse(metadata@)->0).uid@, 0, text@, Some(c)) && message@ == framed(h, c);
                let ghost attrs = (<Vec<Attribute> as Json>::parse(attributes@)->0)@; let ghost meta = Metadata::parse(metadata@)->0;
                let ghost pb2 = choose|pb2: PublicKey| #[trigger] reads(pb.enc(), Some(pb2)) && header_made::<Scheme, Aes256GcmCrypto>(p, &pb2, attrs, Some(meta), key, h);
                let plain = py::decrypt(user, message.clone());
                proof {
                    if p.max_attribute_creations < u32::MAX - 1 && k.fits() && attrs.len() > 0 && h.len() <= u32::MAX {
                        reads_copy(pr, Some(pr2)); reads_copy(pb, Some(pb2)); reads_copy(del, ok_of(dr)); let del2 = ok_of(dr)->0;
                        Scheme::copy_authority(&pr, &pb, &del, &pr2, &pb2, &del2);
                        assert forall|g: Seq<u32>| #[trigger] cur_vals(p, attrs, g) implies (sat(f, g) ==> bytes_of(plain) == Some(text@)) && (!sat(f, g) ==> plain is Err) by { message_opens(pr2, pb2, del2, k, f, p, attrs, meta, g, key, h, text@, c, bytes_of(plain)); }
                        assert(compiles(f, p, ap));
                    }
                }
                if let Ok(b2) = user2 {
                    let ghost (del3, k3, d) = choose|del3: MasterPublicDelegationKey, k3: DecryptionKey, d: DecryptionKey| reads(del.enc(), Some(del3)) && reads(k.enc(), Some(k3)) && #[trigger] key_derived(k3, del3, p, ap2, d) && b2@ == d.enc();
                    let plain2 = py::decrypt(b2, message);
                    proof {
                        if p.max_attribute_creations < u32::MAX - 1 && k.fits() && d.fits() && attrs.len() > 0 && h.len() <= u32::MAX {
                            reads_copy(del, Some(del3)); reads_copy(k, Some(k3)); Scheme::copy_key(&k, &k3, f, &pr2);
                            Scheme::copy_authority(&pr, &pb, &del, &pr2, &pb2, &del3);
                            // re-randomised, or narrowed to a formula f2 that trims f
                            if ap2 is All { Scheme::delegation(&pr2, &pb2, &del3, &k3, f, &d, None, f); assert forall|g: Seq<u32>| #[trigger] cur_vals(p, attrs, g) implies (sat(f, g) ==> bytes_of(plain2) == Some(text@)) && (!sat(f, g) ==> plain2 is Err) by { message_opens(pr2, pb2, del3, d, f, p, attrs, meta, g, key, h, text@, c, bytes_of(plain2)); } }
                            else {
                                let (m, f2) = choose|m: MonotoneSpanProgram<i32>, f2: Node| #[trigger] realises(m, f2) && compiles(f2, p, ap2) && #[trigger] Scheme::derived(&k3, &d, &del3, Some(m));
                                if trims(f2, f) { Scheme::delegation(&pr2, &pb2, &del3, &k3, f, &d, Some(m), f2); assert forall|g: Seq<u32>| #[trigger] cur_vals(p, attrs, g) implies (sat(f2, g) ==> bytes_of(plain2) == Some(text@)) && (!sat(f2, g) ==> plain2 is Err) by { message_opens(pr2, pb2, del3, d, f2, p, attrs, meta, g, key, h, text@, c, bytes_of(plain2)); } }
                            }
                        }
                    }
                }
            }
        }
    }
}
