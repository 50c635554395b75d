// ---------------------------------------------------------------- euclid: numbers with units
#[verifier::external_body]
pub fn tenths(n: u32) -> (r: F32) ensures r.0@ == n as real / 10real { unimplemented!() }
#[verifier::external_body]
pub fn float(n: usize) -> (r: F32) ensures r.0@ == n as real { unimplemented!() }
pub struct Length<U>(pub F32, pub PhantomData<U>);
pub struct Scale<A, B>(pub F32, pub PhantomData<(A, B)>);
pub struct Size<U> { pub width: F32, pub height: F32, pub u: PhantomData<U> }
pub struct Point<U> { pub x: F32, pub y: F32, pub u: PhantomData<U> }
pub struct Rect<U> { pub origin: Point<U>, pub size: Size<U> }
pub struct SideOffsets<U> { pub top: F32, pub right: F32, pub bottom: F32, pub left: F32, pub u: PhantomData<U> }
impl<U> Clone for Length<U> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<U> Copy for Length<U> {}
impl<A, B> Clone for Scale<A, B> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<A, B> Copy for Scale<A, B> {}
impl<U> Clone for Size<U> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<U> Copy for Size<U> {}
impl<U> Clone for Point<U> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<U> Copy for Point<U> {}
impl<U> Clone for Rect<U> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<U> Copy for Rect<U> {}
pub open spec fn length<U>(x: real) -> Length<U> { Length(fl(x), PhantomData) }
pub open spec fn scale<A, B>(x: real) -> Scale<A, B> { Scale(fl(x), PhantomData) }
impl<U> Length<U> {
    pub open spec fn v(self) -> real { self.0.0@ }
    pub fn new(x: F32) -> (r: Self) ensures r == length::<U>(x.0@) { Length(x, PhantomData) }
    pub fn add_assign(&mut self, o: Self) ensures *final(self) == length::<U>(old(self).v() + o.v()) { self.0.add_assign(o.0) }
}
impl<A, B> Scale<A, B> {
    pub open spec fn v(self) -> real { self.0.0@ }
    pub fn new(x: F32) -> (r: Self) ensures r == scale::<A, B>(x.0@) { Scale(x, PhantomData) }
    pub fn inv(&self) -> (r: Scale<B, A>) requires self.v() != 0real ensures r == scale::<B, A>(1real / self.v()) { Scale(num(1) / self.0, PhantomData) }
}
impl<U> Size<U> {
    pub fn width_typed(&self) -> (r: Length<U>) ensures r == length::<U>(self.width.0@) { Length(self.width, PhantomData) }
    pub fn height_typed(&self) -> (r: Length<U>) ensures r == length::<U>(self.height.0@) { Length(self.height, PhantomData) }
}
impl<U> Point<U> {
    pub fn origin() -> (r: Self) ensures r.x.0@ == 0real, r.y.0@ == 0real { Point { x: num(0), y: num(0), u: PhantomData } }
    pub fn from_lengths(x: Length<U>, y: Length<U>) -> (r: Self) ensures r.x == x.0, r.y == y.0 { Point { x: x.0, y: y.0, u: PhantomData } }
}
impl<U> SideOffsets<U> {
    pub fn from_length_all_same(l: Length<U>) -> (r: Self) ensures r.top == l.0, r.right == l.0, r.bottom == l.0, r.left == l.0
    { SideOffsets { top: l.0, right: l.0, bottom: l.0, left: l.0, u: PhantomData } }
}
impl<U> Rect<U> {
    pub fn new(origin: Point<U>, size: Size<U>) -> (r: Self) ensures r.origin == origin, r.size == size { Rect { origin, size } }
    pub fn inner_rect(&self, o: SideOffsets<U>) -> (r: Self)
        requires self.size.width.0@ >= o.left.0@ + o.right.0@, self.size.height.0@ >= o.top.0@ + o.bottom.0@
        ensures
            r.origin.x.0@ == self.origin.x.0@ + o.left.0@, r.origin.y.0@ == self.origin.y.0@ + o.top.0@,
            r.size.width.0@ == self.size.width.0@ - (o.left.0@ + o.right.0@), r.size.height.0@ == self.size.height.0@ - (o.top.0@ + o.bottom.0@),
    {
        Rect {
            origin: Point { x: self.origin.x + o.left, y: self.origin.y + o.top, u: PhantomData },
            size: Size { width: self.size.width - (o.left + o.right), height: self.size.height - (o.top + o.bottom), u: PhantomData },
        }
    }
    pub fn min_x_typed(&self) -> (r: Length<U>) ensures r == length::<U>(self.origin.x.0@) { Length(self.origin.x, PhantomData) }
    pub fn min_y_typed(&self) -> (r: Length<U>) ensures r == length::<U>(self.origin.y.0@) { Length(self.origin.y, PhantomData) }
    pub fn max_x_typed(&self) -> (r: Length<U>) ensures r == length::<U>(self.origin.x.0@ + self.size.width.0@) { Length(self.origin.x + self.size.width, PhantomData) }
    pub fn max_y_typed(&self) -> (r: Length<U>) ensures r == length::<U>(self.origin.y.0@ + self.size.height.0@) { Length(self.origin.y + self.size.height, PhantomData) }
}
impl<U> PartialEqSpecImpl for Length<U> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Length<U>) -> bool { *self == *o }
}
impl<U> PartialEq for Length<U> { #[verifier::external_body] fn eq(&self, o: &Length<U>) -> bool { unimplemented!() } }
impl<U> PartialOrdSpecImpl<Length<U>> for Length<U> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Length<U>) -> Option<std::cmp::Ordering> {
        Some(if self.v() < o.v() { std::cmp::Ordering::Less } else if self.v() == o.v() { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
    }
}
impl<U> PartialOrd for Length<U> { #[verifier::external_body] fn partial_cmp(&self, o: &Length<U>) -> Option<std::cmp::Ordering> { unimplemented!() } }
impl<U> AddSpecImpl<Length<U>> for Length<U> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Length<U>) -> bool { true }
    open spec fn add_spec(self, o: Length<U>) -> Length<U> { length(self.v() + o.v()) }
}
impl<U> Add for Length<U> { type Output = Length<U>; fn add(self, o: Length<U>) -> Length<U> { Length(self.0 + o.0, PhantomData) } }
impl<U> SubSpecImpl<Length<U>> for Length<U> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Length<U>) -> bool { true }
    open spec fn sub_spec(self, o: Length<U>) -> Length<U> { length(self.v() - o.v()) }
}
impl<U> Sub for Length<U> { type Output = Length<U>; fn sub(self, o: Length<U>) -> Length<U> { Length(self.0 - o.0, PhantomData) } }
impl<U> MulSpecImpl<F32> for Length<U> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F32) -> bool { true }
    open spec fn mul_spec(self, o: F32) -> Length<U> { length(self.v() * o.0@) }
}
impl<U> Mul<F32> for Length<U> { type Output = Length<U>; fn mul(self, o: F32) -> Length<U> { Length(self.0 * o, PhantomData) } }
/// dividing floating-point numbers by zero gives something (an infinity)
impl<U> DivSpecImpl<F32> for Length<U> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F32) -> bool { true }
    open spec fn div_spec(self, o: F32) -> Length<U> { length(self.v() / o.0@) }
}
impl<U> Div<F32> for Length<U> { type Output = Length<U>; #[verifier::external_body] fn div(self, o: F32) -> Length<U> { unimplemented!() } }
impl<A, B> DivSpecImpl<Length<B>> for Length<A> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Length<B>) -> bool { o.v() != 0real }
    open spec fn div_spec(self, o: Length<B>) -> Scale<B, A> { scale(self.v() / o.v()) }
}
impl<A, B> Div<Length<B>> for Length<A> { type Output = Scale<B, A>; fn div(self, o: Length<B>) -> Scale<B, A> { Scale(self.0 / o.0, PhantomData) } }
impl<A, B> MulSpecImpl<Scale<A, B>> for Length<A> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Scale<A, B>) -> bool { true }
    open spec fn mul_spec(self, o: Scale<A, B>) -> Length<B> { length(self.v() * o.v()) }
}
impl<A, B> Mul<Scale<A, B>> for Length<A> { type Output = Length<B>; fn mul(self, o: Scale<A, B>) -> Length<B> { Length(self.0 * o.0, PhantomData) } }
impl<A, B> MulSpecImpl<Scale<A, B>> for Size<A> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Scale<A, B>) -> bool { true }
    open spec fn mul_spec(self, o: Scale<A, B>) -> Size<B> { Size { width: fl(self.width.0@ * o.v()), height: fl(self.height.0@ * o.v()), u: PhantomData } }
}
impl<A, B> Mul<Scale<A, B>> for Size<A> { type Output = Size<B>; fn mul(self, o: Scale<A, B>) -> Size<B> { Size { width: self.width * o.0, height: self.height * o.0, u: PhantomData } } }
impl<A, B, C> MulSpecImpl<Scale<B, C>> for Scale<A, B> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Scale<B, C>) -> bool { true }
    open spec fn mul_spec(self, o: Scale<B, C>) -> Scale<A, C> { scale(self.v() * o.v()) }
}
impl<A, B, C> Mul<Scale<B, C>> for Scale<A, B> { type Output = Scale<A, C>; fn mul(self, o: Scale<B, C>) -> Scale<A, C> { Scale(self.0 * o.0, PhantomData) } }
