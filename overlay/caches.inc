// ---- caches
pub struct Statics { pub enc: Lock<HashMap<i32, EncryptionCache>>, pub enc_id: Counter, pub dec: Lock<HashMap<i32, DecryptionCache>>, pub dec_id: Counter }
pub open spec fn numbered_from(n: int) -> bool { i32::MIN <= n <= i32::MAX }
pub open spec fn same_dec(s: Statics, t: Statics) -> bool { t.dec.v@ == s.dec.v@ && t.dec_id == s.dec_id }
pub open spec fn same_enc_st(s: Statics, t: Statics) -> bool { t.enc.v@ == s.enc.v@ && t.enc_id == s.enc_id }
pub open spec fn cached<T>(o: Map<i32, T>, n: Map<i32, T>, h: i32) -> bool { n.contains_key(h) && n == o.insert(h, n[h]) }
// cached keys were decoded
pub open spec fn decoded(s: Statics) -> bool { forall|h: i32| #[trigger] s.dec.v@.contains_key(h) ==> s.dec.v@[h].user_decryption_key.wf() }
// h was handed out by this call alone
pub open spec fn issued_now(o: Counter, n: Counter, h: i32) -> bool { o.at() <= h < n.at() && n.given().contains(h as int) }
