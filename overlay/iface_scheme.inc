// ---- the scheme and the cipher the native and Python interfaces are compiled with: opaque, by the contracts of their traits
// (unit abe proves the scheme's; unit codecs its encodings')
#[verifier::external_body] pub struct Scheme { x: u8 }
#[verifier::external_body] pub struct MasterPrivateKey { x: u8 }
#[verifier::external_body] pub struct MasterPublicKey { x: u8 }
#[verifier::external_body] pub struct MasterPublicDelegationKey { x: u8 }
#[verifier::external_body] pub struct DecryptionKey { x: u8 }
#[verifier::external_body] pub struct Message { x: u8 }
#[verifier::external_body] pub struct CipherText { x: u8 }
pub type PublicKey = MasterPublicKey;
pub type UserDecryptionKey = DecryptionKey;
impl AsBytes for MasterPrivateKey {
    uninterp spec fn wf(&self) -> bool; uninterp spec fn fits(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; uninterp spec fn whole(&self) -> bool; uninterp spec fn same(&self, o: &Self) -> bool; uninterp spec fn size() -> Option<nat>; uninterp spec fn can() -> bool;
    #[verifier::external_body] proof fn size_is(&self) { }
    #[verifier::external_body] proof fn same_enc(&self, o: &Self) { }
    #[verifier::external_body] fn try_into_bytes(&self) -> (res: Result<Vec<u8>, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn try_from_bytes(bytes: &[u8]) -> (res: Result<Self, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn len_bytes(&self) -> (res: usize) { unimplemented!() }
}
impl AsBytes for MasterPublicKey {
    uninterp spec fn wf(&self) -> bool; uninterp spec fn fits(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; uninterp spec fn whole(&self) -> bool; uninterp spec fn same(&self, o: &Self) -> bool; uninterp spec fn size() -> Option<nat>; uninterp spec fn can() -> bool;
    #[verifier::external_body] proof fn size_is(&self) { }
    #[verifier::external_body] proof fn same_enc(&self, o: &Self) { }
    #[verifier::external_body] fn try_into_bytes(&self) -> (res: Result<Vec<u8>, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn try_from_bytes(bytes: &[u8]) -> (res: Result<Self, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn len_bytes(&self) -> (res: usize) { unimplemented!() }
}
impl AsBytes for MasterPublicDelegationKey {
    uninterp spec fn wf(&self) -> bool; uninterp spec fn fits(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; uninterp spec fn whole(&self) -> bool; uninterp spec fn same(&self, o: &Self) -> bool; uninterp spec fn size() -> Option<nat>; uninterp spec fn can() -> bool;
    #[verifier::external_body] proof fn size_is(&self) { }
    #[verifier::external_body] proof fn same_enc(&self, o: &Self) { }
    #[verifier::external_body] fn try_into_bytes(&self) -> (res: Result<Vec<u8>, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn try_from_bytes(bytes: &[u8]) -> (res: Result<Self, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn len_bytes(&self) -> (res: usize) { unimplemented!() }
}
impl AsBytes for DecryptionKey {
    uninterp spec fn wf(&self) -> bool; uninterp spec fn fits(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; uninterp spec fn whole(&self) -> bool; uninterp spec fn same(&self, o: &Self) -> bool; uninterp spec fn size() -> Option<nat>; uninterp spec fn can() -> bool;
    #[verifier::external_body] proof fn size_is(&self) { }
    #[verifier::external_body] proof fn same_enc(&self, o: &Self) { }
    #[verifier::external_body] fn try_into_bytes(&self) -> (res: Result<Vec<u8>, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn try_from_bytes(bytes: &[u8]) -> (res: Result<Self, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn len_bytes(&self) -> (res: usize) { unimplemented!() }
}
impl AsBytes for Message {
    uninterp spec fn wf(&self) -> bool; uninterp spec fn fits(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; uninterp spec fn whole(&self) -> bool; uninterp spec fn same(&self, o: &Self) -> bool; uninterp spec fn size() -> Option<nat>; uninterp spec fn can() -> bool;
    #[verifier::external_body] proof fn size_is(&self) { }
    #[verifier::external_body] proof fn same_enc(&self, o: &Self) { }
    #[verifier::external_body] fn try_into_bytes(&self) -> (res: Result<Vec<u8>, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn try_from_bytes(bytes: &[u8]) -> (res: Result<Self, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn len_bytes(&self) -> (res: usize) { unimplemented!() }
}
impl AsBytes for CipherText {
    uninterp spec fn wf(&self) -> bool; uninterp spec fn fits(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; uninterp spec fn whole(&self) -> bool; uninterp spec fn same(&self, o: &Self) -> bool; uninterp spec fn size() -> Option<nat>; uninterp spec fn can() -> bool;
    #[verifier::external_body] proof fn size_is(&self) { }
    #[verifier::external_body] proof fn same_enc(&self, o: &Self) { }
    #[verifier::external_body] fn try_into_bytes(&self) -> (res: Result<Vec<u8>, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn try_from_bytes(bytes: &[u8]) -> (res: Result<Self, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn len_bytes(&self) -> (res: usize) { unimplemented!() }
}
impl AbeScheme for Scheme {
    type MasterPrivateKey = MasterPrivateKey; type MasterPublicKey = MasterPublicKey; type MasterPublicDelegationKey = MasterPublicDelegationKey; type UserDecryptionKey = DecryptionKey; type PlainText = Message; type CipherText = CipherText;
    uninterp spec fn able() -> bool;
    uninterp spec fn slots(pr: &MasterPrivateKey) -> nat;
    uninterp spec fn pub_slots(pb: &MasterPublicKey) -> nat;
    uninterp spec fn del_slots(del: &MasterPublicDelegationKey) -> nat;
    uninterp spec fn ready(pr: &MasterPrivateKey) -> bool;
    uninterp spec fn authority(pr: &MasterPrivateKey, pb: &MasterPublicKey, del: &MasterPublicDelegationKey) -> bool;
    uninterp spec fn issued(k: &DecryptionKey, n: Node, pr: &MasterPrivateKey) -> bool;
    uninterp spec fn derived(k: &DecryptionKey, d: &DecryptionKey, del: &MasterPublicDelegationKey, m: Option<MonotoneSpanProgram<i32>>) -> bool;
    uninterp spec fn key_attrs(k: &DecryptionKey) -> Set<u32>;
    uninterp spec fn clear(m: &Message) -> bool;
    uninterp spec fn sealed(c: &CipherText, m: &Message, gamma: Seq<u32>, pb: &MasterPublicKey) -> bool;
    uninterp spec fn decrypted(k: &DecryptionKey, c: &CipherText, r: Option<Message>) -> bool;
    #[verifier::external_body] proof fn usable() { }
    #[verifier::external_body] proof fn plain(m: &Message) { }
    #[verifier::external_body] proof fn sized_ct(c: &CipherText, m: &Message, gamma: Seq<u32>, pb: &MasterPublicKey) { }
    #[verifier::external_body] proof fn own(pr: &MasterPrivateKey, pb: &MasterPublicKey, del: &MasterPublicDelegationKey) { }
    #[verifier::external_body] proof fn own_codec(pr: &MasterPrivateKey, pb: &MasterPublicKey, del: &MasterPublicDelegationKey) { }
    #[verifier::external_body] proof fn copy_authority(pr: &MasterPrivateKey, pb: &MasterPublicKey, del: &MasterPublicDelegationKey, pr2: &MasterPrivateKey, pb2: &MasterPublicKey, del2: &MasterPublicDelegationKey) { }
    #[verifier::external_body] proof fn copy_key(k: &DecryptionKey, k2: &DecryptionKey, n: Node, pr: &MasterPrivateKey) { }
    #[verifier::external_body] proof fn copy_ct(c: &CipherText, c2: &CipherText, m: &Message, gamma: Seq<u32>, pb: &MasterPublicKey) { }
    #[verifier::external_body] proof fn opening(pr: &MasterPrivateKey, pb: &MasterPublicKey, del: &MasterPublicDelegationKey, k: &DecryptionKey, n: Node, c: &CipherText, m: &Message, gamma: Seq<u32>, r: Option<Message>) { }
    #[verifier::external_body] proof fn delegation(pr: &MasterPrivateKey, pb: &MasterPublicKey, del: &MasterPublicDelegationKey, k: &DecryptionKey, n: Node, d: &DecryptionKey, m: Option<MonotoneSpanProgram<i32>>, p: Node) { }
    #[verifier::external_body] fn default() -> Self { unimplemented!() }
    #[verifier::external_body] fn generate_master_key(&self, size: usize) -> (res: Result<(MasterPrivateKey, MasterPublicKey, MasterPublicDelegationKey), FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn key_generation(&self, msp: &MonotoneSpanProgram<i32>, priv_key: &MasterPrivateKey) -> (res: Result<DecryptionKey, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn key_delegation(&self, msp: &Option<MonotoneSpanProgram<i32>>, user_key: &DecryptionKey, del_key: &MasterPublicDelegationKey) -> (res: Result<DecryptionKey, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn generate_random_plaintext(&self) -> (res: Result<Message, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn encrypt(&self, msg: &Message, attr: &[u32], pub_key: &MasterPublicKey) -> (res: Result<CipherText, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn decrypt(&self, enc: &CipherText, key: &DecryptionKey) -> (res: Result<Option<Message>, FormatErr>) { unimplemented!() }
}
pub axiom fn scheme_able() ensures <Scheme as AbeScheme>::able();
// what is in memory can be encoded in memory
pub axiom fn key_mem() ensures forall|k: DecryptionKey| #[trigger] k.wf() ==> k.enc().len() <= usize::MAX;
#[verifier::external_body] pub struct AesKey { x: u8 }
#[verifier::external_body] pub struct AesNonce { x: u8 }
#[verifier::external_body] pub struct Aes256GcmCrypto { x: u8 }
impl KeyTrait for AesKey {
    open spec fn klen() -> nat { 32 } uninterp spec fn kb(&self) -> Seq<u8>;
    #[verifier::external_body] proof fn klen_is(&self) { }
    #[verifier::external_body] fn __len_usize() -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn __len_u32() -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn to_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn try_from_bytes(b: &[u8]) -> (r: Result<Self, FormatErr>) { unimplemented!() }
}
impl NonceTrait for AesNonce {
    open spec fn nlen() -> nat { 12 } uninterp spec fn nb(&self) -> Seq<u8>;
    #[verifier::external_body] proof fn nlen_is(&self) { }
    #[verifier::external_body] fn __length() -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn new<R: RngCore + CryptoRng>(rng: &mut R) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn try_from_bytes(b: &[u8]) -> (r: Result<Self, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn as_slice(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl SymmetricCrypto for Aes256GcmCrypto {
    type Key = AesKey; type Nonce = AesNonce;
    open spec fn mac() -> nat { 16 } uninterp spec fn ct(k: Seq<u8>, m: Seq<u8>, n: Seq<u8>, aad: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body] proof fn ct_len(k: Seq<u8>, m: Seq<u8>, n: Seq<u8>, aad: Seq<u8>) { }
    #[verifier::external_body] proof fn ct_inj(k: Seq<u8>, m: Seq<u8>, m2: Seq<u8>, n: Seq<u8>, aad: Seq<u8>) { }
    #[verifier::external_body] fn __mac_length() -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn encrypt(key: &AesKey, bytes: &[u8], nonce: &AesNonce, aad: Option<&[u8]>) -> (r: Result<Vec<u8>, FormatErr>) { unimplemented!() }
    #[verifier::external_body] fn decrypt(key: &AesKey, bytes: &[u8], nonce: &AesNonce, aad: Option<&[u8]>) -> (r: Result<Vec<u8>, FormatErr>) { unimplemented!() }
}
