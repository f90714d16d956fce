// ---- current attribute values
pub trait Peek<'a> { spec fn top(&self) -> Option<Seq<u32>>; fn __peek(self) -> (r: Option<&'a u32>) where Self: Sized ensures match r { Some(v) => self.top() is Some && peak(self.top()->0, *v), None => self.top() is None || self.top()->0.len() == 0 }; }
impl<'a> Peek<'a> for Option<&'a Heap> { open spec fn top(&self) -> Option<Seq<u32>> { match *self { Some(h) => Some(h@), None => None } } #[verifier::external_body] fn __peek(self) -> (r: Option<&'a u32>) { unimplemented!() } }
pub open spec fn peak(h: Seq<u32>, v: u32) -> bool { h.contains(v) && forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] <= v }
pub open spec fn current(p: Policy, a: Attribute, v: u32) -> bool { usable(p, att(a)) && peak(p.attribute_to_int.view()[att(a)]@, v) }
pub open spec fn cur_vals(p: Policy, attrs: Seq<Attribute>, g: Seq<u32>) -> bool { g.len() == attrs.len() && forall|i: int| 0 <= i < attrs.len() ==> current(p, #[trigger] attrs[i], g[i]) }
// the policy formula uses a value the authority has no slot for; that the key or the delegation key has none for
pub open spec fn overflows(p: Policy, ap: AccessPolicy, slots: nat) -> bool { exists|n: Node, v: u32| compiles(n, p, ap) && #[trigger] leaves(n).count(v) > 0 && v >= slots }
pub open spec fn outside(p: Policy, ap: AccessPolicy, s: Set<u32>, slots: nat) -> bool { exists|n: Node, v: u32| compiles(n, p, ap) && #[trigger] leaves(n).count(v) > 0 && (v >= slots || !s.contains(v)) }
// an attribute is unknown or the authority has no slot for its current value
pub open spec fn not_current<S: AbeScheme>(p: Policy, attrs: Seq<Attribute>, pk: &S::MasterPublicKey) -> bool {
    exists|i: int| 0 <= i < attrs.len() && (!usable(p, att(#[trigger] attrs[i])) || exists|v: u32| #[trigger] current(p, attrs[i], v) && v >= S::pub_slots(pk))
}
pub proof fn slot_fail<S: AbeScheme>(p: Policy, attrs: Seq<Attribute>, pk: &S::MasterPublicKey)
    ensures forall|g: Seq<u32>, i: int| cur_vals(p, attrs, g) && 0 <= i < g.len() && #[trigger] g[i] >= S::pub_slots(pk) ==> not_current::<S>(p, attrs, pk)
{
    assert forall|g: Seq<u32>, i: int| cur_vals(p, attrs, g) && 0 <= i < g.len() && #[trigger] g[i] >= S::pub_slots(pk) implies not_current::<S>(p, attrs, pk) by { assert(current(p, attrs[i], g[i])); }
}
// ---- encapsulated symmetric keys
pub open spec fn capsule<S: AbeScheme>(p: Policy, pk: &S::MasterPublicKey, attrs: Seq<Attribute>, n: nat, key: Seq<u8>, enc: Seq<u8>) -> bool {
    exists|m: S::PlainText, c: S::CipherText, g: Seq<u32>| S::clear(&m) && cur_vals(p, attrs, g) && #[trigger] S::sealed(&c, &m, g, pk) && c.wf() && (attrs.len() > 0 ==> c.fits()) && !c.whole() && enc == c.enc() && key == shake(m.enc(), n)
}
pub open spec fn decap<S: AbeScheme>(k: &S::UserDecryptionKey, b: Seq<u8>, n: nat, r: Option<Seq<u8>>) -> bool {
    &&& r is Some ==> r->0.len() == n && exists|c: S::CipherText, x: Option<S::PlainText>| #[trigger] S::decrypted(k, &c, x) && c.wf() && r == key_of::<S>(x, n)
    &&& forall|c0: S::CipherText| c0.wf() && c0.fits() && #[trigger] head_is(b, c0.enc(), c0.whole()) ==> exists|c: S::CipherText, x: Option<S::PlainText>| #[trigger] S::decrypted(k, &c, x) && c0.same(&c) && c.wf() && r == key_of::<S>(x, n)
}
pub open spec fn key_of<S: AbeScheme>(x: Option<S::PlainText>, n: nat) -> Option<Seq<u8>> { match x { Some(m) => Some(shake(m.enc(), n)), None => None } }
// facts about the scheme used by the engine
pub proof fn able_facts<S: AbeScheme>() requires S::able()
    ensures S::UserDecryptionKey::can(), S::PlainText::can(), S::CipherText::can(),
        forall|m: S::PlainText| #![trigger m.wf()] #![trigger m.fits()] #![trigger m.enc()] m.wf() && m.fits() && m.enc().len() <= 0x1000,
        forall|c: S::CipherText, m: S::PlainText, g: Seq<u32>, pk: &S::MasterPublicKey| #[trigger] S::sealed(&c, &m, g, pk) ==> c.wf() && (0 < g.len() < u32::MAX ==> c.fits()) && c.enc().len() <= 0x2000 * (g.len() + 1) && !c.whole(),
{
    S::usable();
    assert forall|m: S::PlainText| #![trigger m.wf()] #![trigger m.fits()] #![trigger m.enc()] m.wf() && m.fits() && m.enc().len() <= 0x1000 by { S::plain(&m); }
    assert forall|c: S::CipherText, m: S::PlainText, g: Seq<u32>, pk: &S::MasterPublicKey| #[trigger] S::sealed(&c, &m, g, pk) implies c.wf() && (0 < g.len() < u32::MAX ==> c.fits()) && c.enc().len() <= 0x2000 * (g.len() + 1) && !c.whole() by { S::sized_ct(&c, &m, g, pk); }
}
pub proof fn row_leaf() ensures forall|m: MonotoneSpanProgram<i32>, n: Node, r: int| 0 <= r < m.nb_row && #[trigger] realises(m, n) ==> leaves(n).count(#[trigger] m.row_to_attr@[r]) > 0
{
    assert forall|m: MonotoneSpanProgram<i32>, n: Node, r: int| 0 <= r < m.nb_row && #[trigger] realises(m, n) implies leaves(n).count(#[trigger] m.row_to_attr@[r]) > 0 by {
        m.row_to_attr@.to_multiset_ensures(); assert(m.row_to_attr@.contains(m.row_to_attr@[r])); assert(m.row_to_attr@.to_multiset() == leaves(n));
    }
}
// ---- headers
pub open spec fn keyed(k: Seq<u8>, b: Seq<u8>) -> Seq<u8> { be4(k.len() as u32) + k + b }
pub open spec fn unkey(b: Seq<u8>, klen: nat) -> Option<(Seq<u8>, Seq<u8>)> {
    if b.len() >= 4 + klen && of_be4(b.subrange(0, 4)) == klen { Some((b.subrange(4, 4 + klen as int), rest(b, 4 + klen as int))) } else { None }
}
pub open spec fn nonce_random(n: Seq<u8>) -> bool { exists|s: int, p: nat| from_entropy(s) && #[trigger] nonce_drawn(n, s, p) }
pub open spec fn sealed_meta<S: SymmetricCrypto>(key: Seq<u8>, m: Metadata, n: Seq<u8>) -> Seq<u8> { let ct = S::ct(key, meta_enc(m), n, Seq::empty()); n + be4(ct.len() as u32) + ct }
pub open spec fn made<A: AbeScheme, S: SymmetricCrypto>(p: Policy, pk: &A::MasterPublicKey, attrs: Seq<Attribute>, meta: Option<Metadata>, key: Seq<u8>, b: Seq<u8>, esk: Seq<u8>) -> bool {
    capsule::<A>(p, pk, attrs, S::Key::klen(), key, esk) && esk.len() <= u32::MAX && match meta {
        None => b == be4(esk.len() as u32) + esk,
        Some(m) => m.uid@.len() <= u32::MAX && meta_enc(m).len() + S::mac() <= u32::MAX && exists|n: Seq<u8>| n.len() == S::Nonce::nlen() && nonce_random(n) && b == be4(esk.len() as u32) + esk + #[trigger] sealed_meta::<S>(key, m, n),
    }
}
pub open spec fn header_made<A: AbeScheme, S: SymmetricCrypto>(p: Policy, pk: &A::MasterPublicKey, attrs: Seq<Attribute>, meta: Option<Metadata>, key: Seq<u8>, b: Seq<u8>) -> bool {
    exists|esk: Seq<u8>| #[trigger] capsule::<A>(p, pk, attrs, S::Key::klen(), key, esk) && made::<A, S>(p, pk, attrs, meta, key, b, esk)
}
pub type MetaView = (Seq<u8>, Option<Seq<u8>>);
// the part of a header after the encapsulated key
pub open spec fn meta_open<S: SymmetricCrypto>(key: Seq<u8>, b: Seq<u8>, at: int, r: Option<MetaView>) -> bool {
    let l = S::Nonce::nlen() as int; let n = of_be4(b.subrange(at + l, at + l + 4)) as int; let ct = b.subrange(at + l + 4, at + l + 4 + n);
    if b.len() == at { r == Some((Seq::<u8>::empty(), None::<Seq<u8>>)) } else if b.len() < at + l + 4 || at + l + 4 + n > b.len() { r is None }
    else { match r {
        Some(v) => exists|m: Seq<u8>| ct == #[trigger] S::ct(key, m, b.subrange(at, at + l), Seq::empty()) && meta_dec(m) == Some(v),
        None => forall|m: Seq<u8>| m.len() <= 0x1_0000_0000 && ct == #[trigger] S::ct(key, m, b.subrange(at, at + l), Seq::empty()) ==> meta_dec(m) is None,
    } }
}
pub open spec fn header_open<A: AbeScheme, S: SymmetricCrypto>(k: &A::UserDecryptionKey, b: Seq<u8>, r: Option<(Seq<u8>, MetaView)>) -> bool {
    let n = of_be4(b.subrange(0, 4)) as int; let esk = b.subrange(4, 4 + n);
    if b.len() < 4 || 4 + n > b.len() { r is None }
    else { match r {
        Some((key, v)) => decap::<A>(k, esk, S::Key::klen(), Some(key)) && meta_open::<S>(key, b, 4 + n, Some(v)),
        None => decap::<A>(k, esk, S::Key::klen(), None) || exists|key: Seq<u8>| #[trigger] decap::<A>(k, esk, S::Key::klen(), Some(key)) && meta_open::<S>(key, b, 4 + n, None),
    } }
}
// rotation of a policy
// every value of every attribute of p is still there in q
pub open spec fn grown(p: Policy, q: Policy) -> bool {
    &&& p.max_attribute_creations == q.max_attribute_creations && p.axes.view() == q.axes.view()
    &&& forall|k: (Txt, Txt)| #[trigger] p.attribute_to_int.view().contains_key(k) ==> q.attribute_to_int.view().contains_key(k) && forall|v: u32| #[trigger] p.attribute_to_int.view()[k]@.contains(v) ==> q.attribute_to_int.view()[k]@.contains(v)
}
// q is p after giving attribute k the new value v
pub open spec fn renewed(p: Policy, q: Policy, k: (Txt, Txt), v: u32) -> bool {
    &&& grown(p, q) && v == q.last_attribute_value && p.last_attribute_value < v
    &&& p.attribute_to_int.view().contains_key(k) && q.attribute_to_int.view()[k]@.to_multiset() == p.attribute_to_int.view()[k]@.to_multiset().insert(v)
    &&& forall|j: (Txt, Txt)| j != k ==> p.attribute_to_int.view().contains_key(j) == q.attribute_to_int.view().contains_key(j) && #[trigger] q.attribute_to_int.view()[j] == p.attribute_to_int.view()[j]
}
