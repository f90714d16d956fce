// ---- the properties, from the contracts alone
// encode, append anything, decode: an equal value, the announced length, the same bytes again
pub fn client_round_trip<T: AsBytes>(v: &T, trailing: Vec<u8>)
    requires v.wf(), v.fits(), T::can(), v.enc().len() <= usize::MAX, v.whole() ==> trailing@.len() == 0
{
    let mut t = trailing;
    let mut b = match v.try_into_bytes() { Ok(b) => b, Err(_) => { assert(false); return; } };
    let n = v.len_bytes();
    assert(b@.len() == n);
    b.append(&mut t);
    proof { assert(b@.subrange(0, n as int) =~= v.enc()); assert(head_is(b@, v.enc(), v.whole())); }
    match T::try_from_bytes(b.as_slice()) {
        Ok(w) => {
            assert(v.same(&w));
            proof { v.same_enc(&w); }
            let m = w.len_bytes();
            assert(m == n);
            match w.try_into_bytes() { Ok(c) => { assert(c@ == v.enc()); } Err(_) => { assert(false); } }
        }
        Err(_) => { assert(false); }
    }
}
// any bytes: a value or an error, and the value can be encoded again within the size of the input
pub fn client_decode_any<T: AsBytes>(bytes: &[u8]) requires T::can()
{
    let l = bytes.len();
    match T::try_from_bytes(bytes) {
        Ok(w) => { let n = w.len_bytes(); assert(n <= l); match w.try_into_bytes() { Ok(c) => { assert(c@.len() == n); } Err(_) => { assert(false); } } }
        Err(_) => {}
    }
}
// a decoded key or ciphertext has one component per attribute
pub fn client_decode_key<G: BilinearMap>(bytes: &[u8]) requires GpswDecryptionKey::<G>::can()
{
    match GpswDecryptionKey::<G>::try_from_bytes(bytes) {
        Ok(k) => { assert(wf_key(k)); assert(k.raw_d_i@.len() == k.msp.row_to_attr@.len() && k.d_i@.len() == k.msp.row_to_attr@.len() && k.msp.matrix@.len() == k.msp.row_to_attr@.len()); }
        Err(_) => {}
    }
}
pub fn client_decode_ciphertext<G: BilinearMap>(bytes: &[u8]) requires GpswCipherText::<G>::can()
{
    match GpswCipherText::<G>::try_from_bytes(bytes) {
        Ok(c) => { assert(c.gamma@.len() == c.e_i@.len() && c.gamma@.len() > 0); }
        Err(_) => {}
    }
}
// the concrete types satisfy the preconditions above
pub proof fn bls_types()
    ensures GpswMasterPrivateKey::<Bls12_381>::can(), GpswMasterPublicKey::<Bls12_381>::can(), GpswMasterPublicDelegationKey::<Bls12_381>::can(), GpswDecryptionKey::<Bls12_381>::can(),
        GpswCipherText::<Bls12_381>::can(), MonotoneSpanProgram::<Scalar>::can(), MonotoneSpanProgram::<i32>::can(), Vec::<u32>::can(), Vec::<Scalar>::can(), Gt::can()
{}
