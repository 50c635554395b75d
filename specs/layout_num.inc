//@@ include num.inc
//@@ gsub /\bself\.px \+= other\.px/ => self.px.add_assign(other.px)
//@@ gsub /\bself\.px -= other\.px/ => self.px.sub_assign(other.px)

// ---------------------------------------------------------------- style/values/length.rs
//@@ item victor/src/style/values/length.rs | struct Length
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/length.rs | struct Percentage
//@@ attr #[derive(Clone, Copy)]
//@@ sub /unit_value/ => pub unit_value
//@@ end
//@@ item victor/src/style/values/length.rs | enum LengthOrPercentage
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/length.rs | enum LengthOrPercentageOrAuto
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/length.rs | enum LengthOrAuto
//@@ attr #[derive(Clone, Copy)]
//@@ end
pub open spec fn len(x: real) -> Length { Length { px: fl(x) } }
impl Length { pub open spec fn v(self) -> real { self.px.0@ } }
impl Percentage { pub open spec fn of(self, l: real) -> real { l * self.unit_value.0@ } }
impl LengthOrPercentage {
    pub open spec fn at(self, l: real) -> real { match self { LengthOrPercentage::Length(l) => l.v(), LengthOrPercentage::Percentage(p) => p.of(l) } }
}
impl LengthOrPercentageOrAuto {
    pub open spec fn is_auto(self) -> bool { self is Auto }
    pub open spec fn at(self, l: real) -> LengthOrAuto {
        match self {
            LengthOrPercentageOrAuto::Length(l) => LengthOrAuto::Length(l),
            LengthOrPercentageOrAuto::Percentage(p) => LengthOrAuto::Length(len(p.of(l))),
            LengthOrPercentageOrAuto::Auto => LengthOrAuto::Auto,
        }
    }
}
impl LengthOrAuto {
    pub open spec fn or(self, x: real) -> real { match self { LengthOrAuto::Length(l) => l.v(), LengthOrAuto::Auto => x } }
}
pub open spec fn lp_of(x: LengthOrPercentageOrAuto) -> LengthOrPercentage {
    match x { LengthOrPercentageOrAuto::Length(l) => LengthOrPercentage::Length(l), LengthOrPercentageOrAuto::Percentage(p) => LengthOrPercentage::Percentage(p), LengthOrPercentageOrAuto::Auto => arbitrary() }
}
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }

impl PartialEqSpecImpl for Length {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Length) -> bool { *self == *o }
}
// derived: equal numbers
impl PartialEq for Length { fn eq(&self, o: &Length) -> bool { self.px == o.px } }
impl PartialEqSpecImpl for LengthOrAuto {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LengthOrAuto) -> bool { *self == *o }
}
// derived: the same variant with equal contents
impl PartialEq for LengthOrAuto {
    fn eq(&self, o: &LengthOrAuto) -> bool {
        match (self, o) { (LengthOrAuto::Auto, LengthOrAuto::Auto) => true, (LengthOrAuto::Length(a), LengthOrAuto::Length(b)) => *a == *b, _ => false }
    }
}
impl Length {
//@@ fn victor/src/style/values/length.rs | impl Length :: zero
//@@ ret r
//@@ spec
    ensures r == len(0real)
//@@ end
//@@ fn victor/src/style/values/length.rs | impl Length :: max
//@@ ret r
//@@ spec
    ensures r == len(rmax(self.v(), other.v()))
//@@ end
//@@ fn victor/src/style/values/length.rs | impl Length :: min
//@@ ret r
//@@ spec
    ensures r == len(rmin(self.v(), other.v()))
//@@ end
//@@ fn victor/src/style/values/length.rs | impl Length :: max_assign
//@@ spec
    ensures *final(self) == len(rmax(old(self).v(), other.v()))
//@@ end
//@@ fn victor/src/style/values/length.rs | impl ops::AddAssign for Length :: add_assign
//@@ spec
    ensures *final(self) == len(old(self).v() + other.v())
//@@ end
//@@ fn victor/src/style/values/length.rs | impl ops::SubAssign for Length :: sub_assign
//@@ spec
    ensures *final(self) == len(old(self).v() - other.v())
//@@ end
}
impl AddSpecImpl<Length> for Length {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Length) -> bool { true }
    open spec fn add_spec(self, o: Length) -> Length { len(self.v() + o.v()) }
}
impl Add for Length {
    type Output = Length;
//@@ fn victor/src/style/values/length.rs | impl ops::Add for Length :: add
//@@ ret r
//@@ spec
//@@ end
}
impl SubSpecImpl<Length> for Length {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Length) -> bool { true }
    open spec fn sub_spec(self, o: Length) -> Length { len(self.v() - o.v()) }
}
impl Sub for Length {
    type Output = Length;
//@@ fn victor/src/style/values/length.rs | impl ops::Sub for Length :: sub
//@@ ret r
//@@ spec
//@@ end
}
impl NegSpecImpl for Length {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Length { len(-self.v()) }
}
impl Neg for Length {
    type Output = Length;
//@@ fn victor/src/style/values/length.rs | impl ops::Neg for Length :: neg
//@@ ret r
//@@ spec
//@@ end
}
impl MulSpecImpl<F32> for Length {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F32) -> bool { true }
    open spec fn mul_spec(self, o: F32) -> Length { len(self.v() * o.0@) }
}
impl Mul<F32> for Length {
    type Output = Length;
//@@ fn victor/src/style/values/length.rs | impl ops::Mul<f32> for Length :: mul
//@@ ret r
//@@ spec
//@@ end
}
impl MulSpecImpl<Percentage> for Length {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Percentage) -> bool { true }
    open spec fn mul_spec(self, o: Percentage) -> Length { len(o.of(self.v())) }
}
impl Mul<Percentage> for Length {
    type Output = Length;
//@@ fn victor/src/style/values/length.rs | impl ops::Mul<Percentage> for Length :: mul
//@@ ret r
//@@ spec
//@@ end
}
impl DivSpecImpl<F32> for Length {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F32) -> bool { o.0@ != 0real }
    open spec fn div_spec(self, o: F32) -> Length { len(self.v() / o.0@) }
}
impl Div<F32> for Length {
    type Output = Length;
//@@ fn victor/src/style/values/length.rs | impl ops::Div<f32> for Length :: div
//@@ ret r
//@@ spec
//@@ end
}
impl LengthOrPercentage {
//@@ fn victor/src/style/values/length.rs | impl LengthOrPercentage :: percentage_relative_to
//@@ ret r
//@@ spec
    ensures r == len(self.at(reference.v()))
//@@ end
}
impl LengthOrPercentageOrAuto {
//@@ fn victor/src/style/values/length.rs | impl LengthOrPercentageOrAuto :: non_auto
//@@ ret r
//@@ spec
    ensures
        self is Auto <==> r is None,
        r is Some ==> r->0 == lp_of(*self)
//@@ end
//@@ fn victor/src/style/values/length.rs | impl LengthOrPercentageOrAuto :: percentage_relative_to
//@@ ret r
//@@ spec
    ensures r == self.at(reference.v())
//@@ end
}
impl LengthOrAuto {
//@@ fn victor/src/style/values/length.rs | impl LengthOrAuto :: auto_is
//@@ ret r
//@@ spec
    requires self is Auto ==> auto_value.requires(())
    ensures *self matches LengthOrAuto::Length(l) ==> r == l, self is Auto ==> auto_value.ensures((), r)
//@@ end
//@@ fn victor/src/style/values/length.rs | impl LengthOrAuto :: map
//@@ ret r
//@@ spec
    requires *self matches LengthOrAuto::Length(l) ==> f.requires((l,))
    ensures self is Auto ==> r is Auto, *self matches LengthOrAuto::Length(l) ==> (r matches LengthOrAuto::Length(m) && f.ensures((l,), m))
//@@ end
}
