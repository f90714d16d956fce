// ---- bytes
pub trait Bts { spec fn bts(&self) -> Seq<u8>; }
impl Bts for Vec<u8> { open spec fn bts(&self) -> Seq<u8> { self@ } }
impl<const N: usize> Bts for [u8; N] { open spec fn bts(&self) -> Seq<u8> { self@ } }
impl Bts for [u8] { open spec fn bts(&self) -> Seq<u8> { self@ } }
impl<T: Bts + ?Sized> Bts for &T { open spec fn bts(&self) -> Seq<u8> { (**self).bts() } }
// Vec::extend, Vec::extend_from_slice, to_vec
#[verifier::external_body] pub fn __extend<B: Bts>(v: &mut Vec<u8>, b: B) ensures final(v)@ == old(v)@ + b.bts() { unimplemented!() }
#[verifier::external_body] pub fn __bytes<B: Bts>(b: B) -> (r: Vec<u8>) ensures r@ == b.bts() { unimplemented!() }
// conversions by try_into
pub trait TryTo<B> { spec fn gives(&self, r: Result<B, FromSliceErr>) -> bool; }
impl<const N: usize> TryTo<[u8; N]> for [u8] { open spec fn gives(&self, r: Result<[u8; N], FromSliceErr>) -> bool { (self@.len() == N <==> r is Ok) && (r is Ok ==> (r->Ok_0)@ == self@) } }
impl TryTo<Vec<u8>> for [u8] { open spec fn gives(&self, r: Result<Vec<u8>, FromSliceErr>) -> bool { r is Ok && (r->Ok_0)@ == self@ } }
impl<const N: usize> TryTo<Vec<u8>> for [u8; N] { open spec fn gives(&self, r: Result<Vec<u8>, FromSliceErr>) -> bool { r is Ok && (r->Ok_0)@ == self@ } }
impl<B, T: TryTo<B> + ?Sized> TryTo<B> for &T { open spec fn gives(&self, r: Result<B, FromSliceErr>) -> bool { (**self).gives(r) } }
#[verifier::external_body] pub fn __try_to<A: TryTo<B> + ?Sized, B>(a: &A) -> (r: Result<B, FromSliceErr>) ensures a.gives(r) { unimplemented!() }
#[verifier::external_body] pub fn __u32_from(n: usize) -> (r: Result<u32, FromSliceErr>) ensures n <= u32::MAX ==> r == Ok::<u32, FromSliceErr>(n as u32), n > u32::MAX ==> r is Err { unimplemented!() }
pub open spec fn le8(x: u64) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8, ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, ((x >> 56) & 0xff) as u8] }
pub trait LeBytes { spec fn le(&self) -> Seq<u8>; fn __to_le_bytes(&self) -> (r: [u8; 8]) ensures r@ == self.le(); }
impl LeBytes for u64 { open spec fn le(&self) -> Seq<u8> { le8(*self) } #[verifier::external_body] fn __to_le_bytes(&self) -> (r: [u8; 8]) { self.to_le_bytes() } }
// ---- cosmian_crypto_base traits, by contract
pub trait KeyTrait: Sized {
    spec fn klen() -> nat;
    spec fn kb(&self) -> Seq<u8>;
    proof fn klen_is(&self) ensures self.kb().len() == Self::klen(), 0 < Self::klen() <= 0x1000;
    fn __len_usize() -> (r: usize) ensures r == Self::klen();
    fn __len_u32() -> (r: u32) ensures r == Self::klen();
    fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.kb();
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.kb();
    fn try_from_bytes(b: &[u8]) -> (r: Result<Self, FormatErr>) ensures r is Ok <==> b@.len() == Self::klen(), r is Ok ==> (r->Ok_0).kb() == b@;
}
pub trait NonceTrait: Sized {
    spec fn nlen() -> nat;
    spec fn nb(&self) -> Seq<u8>;
    proof fn nlen_is(&self) ensures self.nb().len() == Self::nlen();
    fn __length() -> (r: usize) ensures r == Self::nlen() <= 0x1000;
    // drawn from the generator
    fn new<R: RngCore + CryptoRng>(rng: &mut R) -> (r: Self) ensures old(rng).seeded() ==> final(rng).seeded() && final(rng).stream() == old(rng).stream() && final(rng).pos() > old(rng).pos() && nonce_drawn(r.nb(), old(rng).stream(), old(rng).pos());
    fn try_from_bytes(b: &[u8]) -> (r: Result<Self, FormatErr>) ensures r is Ok <==> b@.len() == Self::nlen(), r is Ok ==> (r->Ok_0).nb() == b@;
    fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.nb();
    fn clone(&self) -> (r: Self) ensures r.nb() == self.nb();
}
// streams seeded from the system's entropy
pub uninterp spec fn from_entropy(s: int) -> bool;
pub uninterp spec fn nonce_drawn(b: Seq<u8>, stream: int, pos: nat) -> bool;
pub struct CsRng { }
impl CryptoRng for CsRng {}
impl RngCore for CsRng { uninterp spec fn seeded(&self) -> bool; uninterp spec fn stream(&self) -> int; uninterp spec fn pos(&self) -> nat; }
impl CsRng { #[verifier::external_body] pub fn new() -> (r: Self) ensures r.seeded(), from_entropy(r.stream()) { unimplemented!() } }
pub type CryptoCoreError = FormatErr;
pub type CryptoBaseError = FormatErr;
pub type Error = FormatErr;
pub fn __same<T>(x: T) -> (r: T) ensures r == x { x }
pub open spec fn aad_of(a: Option<&[u8]>) -> Seq<u8> { match a { Some(s) => s@, None => Seq::empty() } }
// authenticated encryption: `ct` is the ciphertext with its tag; decryption accepts exactly the ciphertexts of the same key, nonce and associated data
pub trait SymmetricCrypto: Sized {
    type Key: KeyTrait;
    type Nonce: NonceTrait;
    spec fn mac() -> nat;
    spec fn ct(k: Seq<u8>, m: Seq<u8>, n: Seq<u8>, aad: Seq<u8>) -> Seq<u8>;
    proof fn ct_len(k: Seq<u8>, m: Seq<u8>, n: Seq<u8>, aad: Seq<u8>) ensures Self::ct(k, m, n, aad).len() == m.len() + Self::mac();
    proof fn ct_inj(k: Seq<u8>, m: Seq<u8>, m2: Seq<u8>, n: Seq<u8>, aad: Seq<u8>) requires Self::ct(k, m, n, aad) == Self::ct(k, m2, n, aad) ensures m == m2;
    fn __mac_length() -> (r: usize) ensures r == Self::mac() <= 0x1000;
    fn encrypt(key: &Self::Key, bytes: &[u8], nonce: &Self::Nonce, aad: Option<&[u8]>) -> (r: Result<Vec<u8>, FormatErr>)
        ensures bytes@.len() <= 0x1_0000_0000 && aad_of(aad).len() <= 0x1_0000_0000 ==> r is Ok, r is Ok ==> (r->Ok_0)@ == Self::ct(key.kb(), bytes@, nonce.nb(), aad_of(aad));
    fn decrypt(key: &Self::Key, bytes: &[u8], nonce: &Self::Nonce, aad: Option<&[u8]>) -> (r: Result<Vec<u8>, FormatErr>)
        ensures r is Ok ==> bytes@ == Self::ct(key.kb(), (r->Ok_0)@, nonce.nb(), aad_of(aad)),
            r is Ok ==> forall|m: Seq<u8>| bytes@ == #[trigger] Self::ct(key.kb(), m, nonce.nb(), aad_of(aad)) ==> m == (r->Ok_0)@,
            r is Err && aad_of(aad).len() <= 0x1_0000_0000 ==> forall|m: Seq<u8>| m.len() <= 0x1_0000_0000 ==> bytes@ != #[trigger] Self::ct(key.kb(), m, nonce.nb(), aad_of(aad));
}
// ---- sha3: the output of SHAKE-256 is a stream of bytes, of which any number is read
pub uninterp spec fn xof(d: Seq<u8>, i: int) -> u8;
pub open spec fn xofs(d: Seq<u8>, at: nat, n: nat) -> Seq<u8> { Seq::new(n, |i: int| xof(d, at + i)) }
pub proof fn xofs_shake() ensures forall|d: Seq<u8>, n: nat| #[trigger] xofs(Seq::<u8>::empty() + d, 0, n) == shake(d, n)
{ assert forall|d: Seq<u8>, n: nat| #[trigger] xofs(Seq::<u8>::empty() + d, 0, n) == shake(d, n) by { assert(Seq::<u8>::empty() + d =~= d); assert(xofs(d, 0, n) =~= shake(d, n)); } }
pub open spec fn shake(d: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| xof(d, i)) }
#[verifier::external_body] pub struct Shake256 { x: u8 }
#[verifier::external_body] pub struct XofReader { x: u8 }
impl Shake256 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, b: Vec<u8>) -> (r: Self) ensures r.fed() == self.fed() + b@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize_xof(self) -> (r: XofReader) ensures r.fed() == self.fed(), r.at() == 0 { unimplemented!() }
}
impl XofReader {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body] pub fn read_boxed(self, n: usize) -> (r: Boxed) ensures r.0@ == xofs(self.fed(), self.at(), n as nat) { unimplemented!() }
}
pub struct Boxed(pub Vec<u8>);
impl Boxed { pub fn into_vec(self) -> (r: Vec<u8>) ensures r@ == self.0@ { self.0 } }
// any slice of the running program is shorter than half of the address space
#[verifier::external_body] pub fn __slice_len(b: &[u8]) ensures b@.len() <= isize::MAX, 2 * b@.len() < usize::MAX { }
