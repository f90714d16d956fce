pub open spec fn enc_table(s: Statics) -> Table<EncryptionCache> { Table { map: s.enc.v@, next: s.enc_id.at() } }
pub open spec fn dec_table(s: Statics) -> Table<DecryptionCache> { Table { map: s.dec.v@, next: s.dec_id.at() } }
// the native calls are steps of such histories
pub fn client_caches(mem: &mut Mem, st: &mut Statics, hp: IPtr, pol: CPtr, key: CPtr, key_len: i32, ukey: CPtr, ukey_len: i32, x: i32, y: i32)
    requires hp.0 != 0 ==> old(mem).ram.ints().contains_key(hp.0), has_text(*old(mem), pol), has_in(*old(mem), key, key_len), has_in(*old(mem), ukey, ukey_len), numbered_from(old(st).enc_id.at()), numbered_from(old(st).dec_id.at())
{
    let ghost (e0, d0) = (enc_table(*st), dec_table(*st));
    let r = h_aes_create_encryption_cache(hp, pol, key, key_len, mem, st);
    let ghost (e1, d1) = (enc_table(*st), dec_table(*st));
    proof {
        assert(d1 == d0);
        if r == 0 { let h = mem.ram.ints()[hp.0]; let m = Table { map: e0.map, next: e1.next }; assert(step(e0, Op::Take(h), m)); assert(step(m, Op::Put(h, e1.map[h]), e1)); } else { assert(step(e0, Op::Other, e1)); }
    }
    let q = h_aes_create_decryption_cache(hp, ukey, ukey_len, mem, st);
    let ghost (e2, d2) = (enc_table(*st), dec_table(*st));
    proof {
        assert(e2 == e1);
        if q == 0 { let h = mem.ram.ints()[hp.0]; let m = Table { map: d1.map, next: d2.next }; assert(step(d1, Op::Take(h), m)); assert(step(m, Op::Put(h, d2.map[h]), d2)); } else { assert(step(d1, Op::Other, d2)); }
    }
    let _ = h_aes_destroy_encryption_cache(x, mem, st);
    let ghost (e3, d3) = (enc_table(*st), dec_table(*st));
    assert(step(e2, Op::Destroy(x), e3) && d3 == d2);
    let _ = h_aes_destroy_decryption_cache(y, mem, st);
    assert(step(d3, Op::Destroy(y), dec_table(*st)) && enc_table(*st) == e3);
}
