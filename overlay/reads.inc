// ---- decoding
pub open spec fn ok_of<T>(r: Result<T, FormatErr>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
pub open spec fn reads<T: AsBytes>(b: Seq<u8>, r: Option<T>) -> bool {
    (r is Some ==> (r->0).wf() && (r->0).fits()) && forall|v: &T| v.wf() && v.fits() && #[trigger] head_is(b, v.enc(), v.whole()) ==> r is Some && v.same(&r->0)
}
pub fn __reads<T: AsBytes>(b: &[u8]) -> (r: Result<T, FormatErr>) requires T::can() ensures reads::<T>(b@, ok_of(r)) { T::try_from_bytes(b) }
