// matrix entries (program over i32 or over scalars), scalars, group elements
pub trait Entry: Sized { spec fn v(&self) -> int; }
impl Entry for i32 { open spec fn v(&self) -> int { *self as int } }
pub trait FromI32: Entry { fn __from_i32(i: i32) -> (o: Self) ensures cong(o.v(), i as int); }
pub trait IntoS<S: Entry>: Entry + Clone {
    fn __into(self) -> (o: S) ensures cong(o.v(), self.v());
    proof fn clone_v() ensures forall|a: Self, b: Self| #[trigger] cloned(a, b) ==> a.v() == b.v(), forall|a: Self, b: Self| #[trigger] call_ensures(Self::clone, (&a,), b) ==> a.v() == b.v();
}
impl<S: FromI32> IntoS<S> for i32 { fn __into(self) -> (o: S) { S::__from_i32(self) } proof fn clone_v() {} }
pub trait ScalarOps: Entry + FromI32 + IntoS<Self> {
    proof fn canon(&self) ensures 0 <= self.v() < R();
    fn op_add(self, r: &Self) -> (o: Self) ensures cong(o.v(), self.v() + r.v());
    fn op_sub(self, r: &Self) -> (o: Self) ensures cong(o.v(), self.v() - r.v());
    fn op_mul(self, r: &Self) -> (o: Self) ensures cong(o.v(), self.v() * r.v());
    fn op_div(self, r: &Self) -> (o: Self) requires r.v() != 0 ensures cong(o.v() * r.v(), self.v());
    fn op_neg(self) -> (o: Self) ensures cong(o.v(), - self.v());
    fn op_eq(&self, r: &Self) -> (o: bool) ensures o == (self.v() == r.v());
    proof fn clone_law_all() ensures forall|a: Self, b: Self| #[trigger] cloned(a, b) ==> a.v() == b.v(), forall|a: Self, b: Self| #[trigger] call_ensures(Self::clone, (&a,), b) ==> a.v() == b.v();
}
// `member`: the element lies in the subgroup of order R() that dl() is the discrete logarithm of
pub trait Grp: Sized { spec fn dl(&self) -> int; spec fn member(&self) -> bool; }
