// ---- counters
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body] pub struct Counter { x: u8 }
impl Counter {
    // the next number; the numbers handed out by one atomic operation each
    pub uninterp spec fn at(&self) -> int;
    pub uninterp spec fn given(&self) -> Set<int>;
    #[verifier::external_body] pub fn fetch_add(&mut self, d: i32, o: Ordering) -> (r: i32) requires i32::MIN <= old(self).at() <= i32::MAX ensures r == old(self).at(), final(self).at() == r + d, final(self).given() == if d == 1 { old(self).given().insert(r as int) } else { old(self).given() } { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&mut self, d: i32, o: Ordering) -> (r: i32) requires i32::MIN <= old(self).at() <= i32::MAX ensures r == old(self).at(), final(self).at() == r - d, final(self).given() == old(self).given() { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: i32) requires i32::MIN <= self.at() <= i32::MAX ensures r == self.at() { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, d: i32, o: Ordering) ensures final(self).at() == d, final(self).given() == old(self).given() { unimplemented!() }
}
