pub open spec fn scan_ok(s: BytesScanner) -> bool { s.start <= s.bytes@.len() && 2 * s.bytes@.len() < usize::MAX }
pub open spec fn opt_view(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn extra(m: Metadata) -> Seq<u8> { match m.additional_data { Some(v) => v@, None => Seq::empty() } }
pub open spec fn meta_mem(m: Metadata) -> bool { m.uid@.len() + extra(m).len() + 4 <= usize::MAX }
pub open spec fn meta_enc(m: Metadata) -> Seq<u8> { if m.uid@.len() + extra(m).len() == 0 { Seq::empty() } else { be4(m.uid@.len() as u32) + (m.uid@ + extra(m)) } }
pub open spec fn meta_dec(b: Seq<u8>) -> Option<(Seq<u8>, Option<Seq<u8>>)> {
    if b.len() == 0 { Some((Seq::empty(), None)) } else if b.len() < 4 || 4 + of_be4(b.subrange(0, 4)) > b.len() { None }
    else { let n = of_be4(b.subrange(0, 4)) as int; Some((b.subrange(4, 4 + n), if 4 + n == b.len() { None } else { Some(rest(b, 4 + n)) })) }
}
// what the decoder gives back: an empty list of additional data counts as none
pub open spec fn meta_view(m: Metadata) -> (Seq<u8>, Option<Seq<u8>>) { (m.uid@, if extra(m).len() == 0 { None } else { Some(extra(m)) }) }
pub proof fn meta_trip(m: Metadata) requires m.uid@.len() <= u32::MAX ensures meta_dec(meta_enc(m)) == Some(meta_view(m))
{
    let b = meta_enc(m); be4_inv(m.uid@.len() as u32);
    if m.uid@.len() + extra(m).len() == 0 { assert(m.uid@ =~= Seq::<u8>::empty()); }
    else {
        assert(b.subrange(0, 4) =~= be4(m.uid@.len() as u32)); let n = m.uid@.len() as int;
        assert(b.subrange(4, 4 + n) =~= m.uid@); assert(rest(b, 4 + n) =~= extra(m));
    }
}
pub open spec fn overhead<S: SymmetricCrypto>() -> nat { S::Nonce::nlen() + S::mac() }
pub open spec fn block_aad(uid: Seq<u8>, n: usize) -> Seq<u8> { uid + le8(n as u64) }
pub open spec fn block_bytes<S: SymmetricCrypto>(k: Seq<u8>, m: Seq<u8>, n: Seq<u8>, uid: Seq<u8>, no: usize) -> Seq<u8> { n + S::ct(k, m, n, block_aad(uid, no)) }
// the outcome of opening a block
pub open spec fn block_opened<S: SymmetricCrypto>(b: Seq<u8>, k: Seq<u8>, uid: Seq<u8>, no: usize, max: nat, r: Option<Seq<u8>>) -> bool {
    let l = S::Nonce::nlen() as int;
    match r {
        Some(m) => b.len() >= overhead::<S>() && b.len() <= max + overhead::<S>() && b == block_bytes::<S>(k, m, b.subrange(0, l), uid, no),
        None => b.len() < overhead::<S>() || b.len() > max + overhead::<S>() || (block_aad(uid, no).len() <= 0x1_0000_0000 ==> forall|m: Seq<u8>| m.len() <= 0x1_0000_0000 ==> b != #[trigger] block_bytes::<S>(k, m, b.subrange(0, l), uid, no)),
    }
}
impl Metadata { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.uid@ == Seq::<u8>::empty(), r.additional_data is None { unimplemented!() } }
pub proof fn block_split<S: SymmetricCrypto>(b: Seq<u8>, k: Seq<u8>, uid: Seq<u8>, no: usize)
    requires b.len() >= S::Nonce::nlen()
    ensures forall|m: Seq<u8>| (b == #[trigger] block_bytes::<S>(k, m, b.subrange(0, S::Nonce::nlen() as int), uid, no)) <==> rest(b, S::Nonce::nlen() as int) == S::ct(k, m, b.subrange(0, S::Nonce::nlen() as int), block_aad(uid, no))
{
    let l = S::Nonce::nlen() as int; let n = b.subrange(0, l);
    assert forall|m: Seq<u8>| (b == #[trigger] block_bytes::<S>(k, m, n, uid, no)) <==> rest(b, l) == S::ct(k, m, n, block_aad(uid, no)) by {
        let c = S::ct(k, m, n, block_aad(uid, no));
        if b == n + c { assert(rest(b, l) =~= c); }
        if rest(b, l) == c { assert(b =~= n + c); }
    }
}
pub open spec fn cap_of<const MAX: usize>() -> nat { MAX as nat }
