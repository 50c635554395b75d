pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
// ---------------------------------------------------------------- numbers
/// Machine numbers (f32) are treated as mathematical: a number is a real, and arithmetic is exact.
pub struct F32(pub Ghost<real>);
impl Clone for F32 { fn clone(&self) -> (r: F32) ensures r == *self { *self } }
impl Copy for F32 {}
#[verifier::external_body]
pub fn num(n: u32) -> (r: F32) ensures r.0@ == n as real { unimplemented!() }
pub open spec fn fl(x: real) -> F32 { F32(Ghost(x)) }
impl AddSpecImpl<F32> for F32 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F32) -> bool { true }
    open spec fn add_spec(self, o: F32) -> F32 { fl(self.0@ + o.0@) }
}
impl Add for F32 { type Output = F32; fn add(self, o: F32) -> F32 { F32(Ghost(self.0@ + o.0@)) } }
impl SubSpecImpl<F32> for F32 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: F32) -> bool { true }
    open spec fn sub_spec(self, o: F32) -> F32 { fl(self.0@ - o.0@) }
}
impl Sub for F32 { type Output = F32; fn sub(self, o: F32) -> F32 { F32(Ghost(self.0@ - o.0@)) } }
impl MulSpecImpl<F32> for F32 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F32) -> bool { true }
    open spec fn mul_spec(self, o: F32) -> F32 { fl(self.0@ * o.0@) }
}
impl Mul for F32 { type Output = F32; fn mul(self, o: F32) -> F32 { F32(Ghost(self.0@ * o.0@)) } }
impl DivSpecImpl<F32> for F32 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F32) -> bool { o.0@ != 0real }
    open spec fn div_spec(self, o: F32) -> F32 { fl(self.0@ / o.0@) }
}
impl Div for F32 { type Output = F32; fn div(self, o: F32) -> F32 { F32(Ghost(self.0@ / o.0@)) } }
impl NegSpecImpl for F32 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F32 { fl(-self.0@) }
}
impl Neg for F32 { type Output = F32; fn neg(self) -> F32 { F32(Ghost(-self.0@)) } }
impl PartialEqSpecImpl for F32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F32) -> bool { *self == *o }
}
impl PartialEq for F32 { #[verifier::external_body] fn eq(&self, o: &F32) -> bool { unimplemented!() } }
impl F32 {
    pub fn add_assign(&mut self, o: F32) ensures *final(self) == fl(old(self).0@ + o.0@) { *self = *self + o; }
    pub fn sub_assign(&mut self, o: F32) ensures *final(self) == fl(old(self).0@ - o.0@) { *self = *self - o; }
    #[verifier::external_body]
    pub fn max(self, o: F32) -> (r: F32) ensures r == (if self.0@ >= o.0@ { self } else { o }) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: F32) -> (r: F32) ensures r == (if self.0@ <= o.0@ { self } else { o }) { unimplemented!() }
    /// the operator >=
    #[verifier::external_body]
    pub fn at_least(self, o: F32) -> (r: bool) ensures r == (self.0@ >= o.0@) { unimplemented!() }
    /// the operator >
    #[verifier::external_body]
    pub fn more_than(self, o: F32) -> (r: bool) ensures r == (self.0@ > o.0@) { unimplemented!() }
}
//@@ gsub /\bf32\b/ => F32
//@@ gsub /(?<![\w.])(\d+)\.(?![\w.])/ => num(\1)
