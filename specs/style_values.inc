
// ---------------------------------------------------------------- types of style/values
//@@ gsub /\bcrate::style::(?:values|properties|cascade)::/ =>
//@@ gsub /(?<![\w.])(\d+)\.0(?![\w.])/ => num(\1)
//@@ gsub /\b(?:std::convert::)?From::from\(/ => Conv::from(
//@@ gsub /\bArc::make_mut\(/ => make_mut(
/// cssparser's types
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub struct RGBA { pub red: u8, pub green: u8, pub blue: u8, pub alpha: u8 }
impl RGBA {
    /// cssparser: the transparent color
    #[verifier::external_body]
    pub fn transparent() -> (r: RGBA) ensures r == (RGBA { red: 0, green: 0, blue: 0, alpha: 0 }) { unimplemented!() }
}
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub enum Color { CurrentColor, RGBA(RGBA) }
//@@ item victor/src/style/values/color.rs | const BLACK
//@@ end
//@@ item victor/src/style/values/fonts.rs | struct FontSize
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/border.rs | struct LineWidth
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/border.rs | enum LineStyle
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum Position
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum Float
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum Display
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayGeneratingBox
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayOutside
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayInside
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/mod.rs | enum CssWideKeyword
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/length.rs | enum SpecifiedLength
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/length.rs | enum SpecifiedLengthOrPercentage
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/length.rs | enum SpecifiedLengthOrPercentageOrAuto
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/border.rs | struct SpecifiedLineWidth
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ gsub /\bLineWidth::MEDIUM\b/ => LineWidth::medium()
impl LineWidth {
//@@ item victor/src/style/values/border.rs | impl LineWidth :: MEDIUM
//@@ sub /pub const MEDIUM: Self\s*=(.*);/ => pub fn medium() -> (r: Self) ensures r == LineWidth(LengthOrPercentage::Length(len(3real))) {\1}
//@@ end
}
impl Display {
//@@ item victor/src/style/values/box_.rs | impl Display :: INITIAL
//@@ end
}
impl Position {
//@@ fn victor/src/style/values/box_.rs | impl Position :: is_absolutely_positioned
//@@ ret r
//@@ spec
    ensures r == (self is Absolute)
//@@ end
}
impl Float {
//@@ fn victor/src/style/values/box_.rs | impl Float :: is_floating
//@@ ret r
//@@ spec
    ensures r == !(self is None)
//@@ end
}

// ---------------------------------------------------------------- the tables of properties (properties/definitions.rs, expanded)
//@@ item @expanded | mod style :: mod properties :: mod definitions :: struct ComputedValues
//@@ end
pub mod style_structs {
    use super::*;
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct font
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct color
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct box_
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct margin
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct padding
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct border
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct background
//@@ end
}
//@@ item @expanded | mod style :: mod properties :: mod definitions :: enum LonghandId
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: enum LonghandDeclaration
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: struct ComputedValuesForEarlyCascade
//@@ sub /\(&'a mut/ => (pub &'a mut
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: struct ComputedValuesForLateCascade
//@@ sub /\(&'a mut/ => (pub &'a mut
//@@ end
//@@ item victor/src/style/values/mod.rs | struct CascadeContext
//@@ end
//@@ item victor/src/style/values/mod.rs | struct EarlyCascadeContext
//@@ end
//@@ item victor/src/style/properties/mod.rs | struct PerPhase
//@@ end
impl Clone for PerPhase<bool> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for PerPhase<bool> {}

impl ComputedValuesForEarlyCascade<'_> { pub open spec fn cv(&self) -> ComputedValues { *self.0 } }
impl ComputedValuesForLateCascade<'_> { pub open spec fn cv(&self) -> ComputedValues { *self.0 } }
/// Arc::make_mut: the value is only changed for the owner of this pointer
#[verifier::external_body]
pub fn make_mut<T>(this: &mut Arc<T>) -> (r: &mut T)
    ensures *r == **old(this), **final(this) == *final(r)
{ unimplemented!() }

// ---------------------------------------------------------------- what CSS says
pub enum Val { Size(FontSize), Rgba(RGBA), Pos(Position), Float(Float), Disp(Display), Lpa(LengthOrPercentageOrAuto), Lp(LengthOrPercentage), Col(Color), Style(LineStyle), Width(LineWidth) }
pub open spec fn display(outside: DisplayOutside, inside: DisplayInside) -> Display { Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside, inside }) }
/// em is relative to fs
pub open spec fn px(v: SpecifiedLength, fs: Length) -> Length {
    match v { SpecifiedLength::Absolute(l) => l, SpecifiedLength::Em(x) => len(fs.v() * x.0@) }
}
pub open spec fn lp(v: SpecifiedLengthOrPercentage, fs: Length) -> LengthOrPercentage {
    match v { SpecifiedLengthOrPercentage::Length(l) => LengthOrPercentage::Length(px(l, fs)), SpecifiedLengthOrPercentage::Percentage(p) => LengthOrPercentage::Percentage(p) }
}
pub open spec fn lpa(v: SpecifiedLengthOrPercentageOrAuto, fs: Length) -> LengthOrPercentageOrAuto {
    match v {
        SpecifiedLengthOrPercentageOrAuto::Length(l) => LengthOrPercentageOrAuto::Length(px(l, fs)),
        SpecifiedLengthOrPercentageOrAuto::Percentage(p) => LengthOrPercentageOrAuto::Percentage(p),
        SpecifiedLengthOrPercentageOrAuto::Auto => LengthOrPercentageOrAuto::Auto,
    }
}
/// inherited properties
pub open spec fn is_inherited(id: LonghandId) -> bool { id is font_size || id is color }
/// the property that em depends on comes first
pub open spec fn comes_first(id: LonghandId) -> bool { id is font_size }
pub open spec fn get(cv: ComputedValues, id: LonghandId) -> Val {
    match id {
        LonghandId::font_size => Val::Size(cv.font.font_size),
        LonghandId::color => Val::Rgba(cv.color.color),
        LonghandId::position => Val::Pos(cv.box_.position),
        LonghandId::float => Val::Float(cv.box_.float),
        LonghandId::display => Val::Disp(cv.box_.display),
        LonghandId::top => Val::Lpa(cv.box_.top),
        LonghandId::left => Val::Lpa(cv.box_.left),
        LonghandId::bottom => Val::Lpa(cv.box_.bottom),
        LonghandId::right => Val::Lpa(cv.box_.right),
        LonghandId::width => Val::Lpa(cv.box_.width),
        LonghandId::height => Val::Lpa(cv.box_.height),
        LonghandId::margin_top => Val::Lpa(cv.margin.margin_top),
        LonghandId::margin_left => Val::Lpa(cv.margin.margin_left),
        LonghandId::margin_bottom => Val::Lpa(cv.margin.margin_bottom),
        LonghandId::margin_right => Val::Lpa(cv.margin.margin_right),
        LonghandId::padding_top => Val::Lp(cv.padding.padding_top),
        LonghandId::padding_left => Val::Lp(cv.padding.padding_left),
        LonghandId::padding_bottom => Val::Lp(cv.padding.padding_bottom),
        LonghandId::padding_right => Val::Lp(cv.padding.padding_right),
        LonghandId::border_top_color => Val::Col(cv.border.border_top_color),
        LonghandId::border_left_color => Val::Col(cv.border.border_left_color),
        LonghandId::border_bottom_color => Val::Col(cv.border.border_bottom_color),
        LonghandId::border_right_color => Val::Col(cv.border.border_right_color),
        LonghandId::border_top_style => Val::Style(cv.border.border_top_style),
        LonghandId::border_left_style => Val::Style(cv.border.border_left_style),
        LonghandId::border_bottom_style => Val::Style(cv.border.border_bottom_style),
        LonghandId::border_right_style => Val::Style(cv.border.border_right_style),
        LonghandId::border_top_width => Val::Width(cv.border.border_top_width),
        LonghandId::border_left_width => Val::Width(cv.border.border_left_width),
        LonghandId::border_bottom_width => Val::Width(cv.border.border_bottom_width),
        LonghandId::border_right_width => Val::Width(cv.border.border_right_width),
        LonghandId::background_color => Val::Col(cv.background.background_color),
    }
}
/// the initial value of each property (CSS 2.1, Backgrounds 3, Color 3)
pub open spec fn initial(id: LonghandId) -> Val {
    match id {
        LonghandId::font_size => Val::Size(FontSize(len(16real))),
        LonghandId::color => Val::Rgba(RGBA { red: 0, green: 0, blue: 0, alpha: 255 }),
        LonghandId::position => Val::Pos(Position::Static),
        LonghandId::float => Val::Float(Float::None),
        LonghandId::display => Val::Disp(display(DisplayOutside::Inline, DisplayInside::Flow)),
        LonghandId::top => Val::Lpa(LengthOrPercentageOrAuto::Auto),
        LonghandId::left => Val::Lpa(LengthOrPercentageOrAuto::Auto),
        LonghandId::bottom => Val::Lpa(LengthOrPercentageOrAuto::Auto),
        LonghandId::right => Val::Lpa(LengthOrPercentageOrAuto::Auto),
        LonghandId::width => Val::Lpa(LengthOrPercentageOrAuto::Auto),
        LonghandId::height => Val::Lpa(LengthOrPercentageOrAuto::Auto),
        LonghandId::margin_top => Val::Lpa(LengthOrPercentageOrAuto::Length(len(0real))),
        LonghandId::margin_left => Val::Lpa(LengthOrPercentageOrAuto::Length(len(0real))),
        LonghandId::margin_bottom => Val::Lpa(LengthOrPercentageOrAuto::Length(len(0real))),
        LonghandId::margin_right => Val::Lpa(LengthOrPercentageOrAuto::Length(len(0real))),
        LonghandId::padding_top => Val::Lp(LengthOrPercentage::Length(len(0real))),
        LonghandId::padding_left => Val::Lp(LengthOrPercentage::Length(len(0real))),
        LonghandId::padding_bottom => Val::Lp(LengthOrPercentage::Length(len(0real))),
        LonghandId::padding_right => Val::Lp(LengthOrPercentage::Length(len(0real))),
        LonghandId::border_top_color => Val::Col(Color::CurrentColor),
        LonghandId::border_left_color => Val::Col(Color::CurrentColor),
        LonghandId::border_bottom_color => Val::Col(Color::CurrentColor),
        LonghandId::border_right_color => Val::Col(Color::CurrentColor),
        LonghandId::border_top_style => Val::Style(LineStyle::None),
        LonghandId::border_left_style => Val::Style(LineStyle::None),
        LonghandId::border_bottom_style => Val::Style(LineStyle::None),
        LonghandId::border_right_style => Val::Style(LineStyle::None),
        LonghandId::border_top_width => Val::Width(LineWidth(LengthOrPercentage::Length(len(3real)))),
        LonghandId::border_left_width => Val::Width(LineWidth(LengthOrPercentage::Length(len(3real)))),
        LonghandId::border_bottom_width => Val::Width(LineWidth(LengthOrPercentage::Length(len(3real)))),
        LonghandId::border_right_width => Val::Width(LineWidth(LengthOrPercentage::Length(len(3real)))),
        LonghandId::background_color => Val::Col(Color::RGBA(RGBA { red: 0, green: 0, blue: 0, alpha: 0 })),
    }
}
/// the property that a declaration is about
pub open spec fn id_of(d: LonghandDeclaration) -> LonghandId {
    match d {
        LonghandDeclaration::font_size(_) => LonghandId::font_size,
        LonghandDeclaration::color(_) => LonghandId::color,
        LonghandDeclaration::position(_) => LonghandId::position,
        LonghandDeclaration::float(_) => LonghandId::float,
        LonghandDeclaration::display(_) => LonghandId::display,
        LonghandDeclaration::top(_) => LonghandId::top,
        LonghandDeclaration::left(_) => LonghandId::left,
        LonghandDeclaration::bottom(_) => LonghandId::bottom,
        LonghandDeclaration::right(_) => LonghandId::right,
        LonghandDeclaration::width(_) => LonghandId::width,
        LonghandDeclaration::height(_) => LonghandId::height,
        LonghandDeclaration::margin_top(_) => LonghandId::margin_top,
        LonghandDeclaration::margin_left(_) => LonghandId::margin_left,
        LonghandDeclaration::margin_bottom(_) => LonghandId::margin_bottom,
        LonghandDeclaration::margin_right(_) => LonghandId::margin_right,
        LonghandDeclaration::padding_top(_) => LonghandId::padding_top,
        LonghandDeclaration::padding_left(_) => LonghandId::padding_left,
        LonghandDeclaration::padding_bottom(_) => LonghandId::padding_bottom,
        LonghandDeclaration::padding_right(_) => LonghandId::padding_right,
        LonghandDeclaration::border_top_color(_) => LonghandId::border_top_color,
        LonghandDeclaration::border_left_color(_) => LonghandId::border_left_color,
        LonghandDeclaration::border_bottom_color(_) => LonghandId::border_bottom_color,
        LonghandDeclaration::border_right_color(_) => LonghandId::border_right_color,
        LonghandDeclaration::border_top_style(_) => LonghandId::border_top_style,
        LonghandDeclaration::border_left_style(_) => LonghandId::border_left_style,
        LonghandDeclaration::border_bottom_style(_) => LonghandId::border_bottom_style,
        LonghandDeclaration::border_right_style(_) => LonghandId::border_right_style,
        LonghandDeclaration::border_top_width(_) => LonghandId::border_top_width,
        LonghandDeclaration::border_left_width(_) => LonghandId::border_left_width,
        LonghandDeclaration::border_bottom_width(_) => LonghandId::border_bottom_width,
        LonghandDeclaration::border_right_width(_) => LonghandId::border_right_width,
        LonghandDeclaration::background_color(_) => LonghandId::background_color,
        LonghandDeclaration::CssWide(id, _) => id,
    }
}
/// the computed value that a declaration stands for; fs: the font size of the element; inh: the style that it inherits from
pub open spec fn declared(d: LonghandDeclaration, fs: Length, inh: ComputedValues) -> Val {
    match d {
        LonghandDeclaration::font_size(v) => Val::Size(FontSize(px(v, inh.font.font_size.0))),
        LonghandDeclaration::color(v) => Val::Rgba(match v { Color::RGBA(c) => c, Color::CurrentColor => inh.color.color }),
        LonghandDeclaration::position(v) => Val::Pos(v),
        LonghandDeclaration::float(v) => Val::Float(v),
        LonghandDeclaration::display(v) => Val::Disp(v),
        LonghandDeclaration::top(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::left(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::bottom(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::right(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::width(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::height(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::margin_top(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::margin_left(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::margin_bottom(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::margin_right(v) => Val::Lpa(lpa(v, fs)),
        LonghandDeclaration::padding_top(v) => Val::Lp(lp(v, fs)),
        LonghandDeclaration::padding_left(v) => Val::Lp(lp(v, fs)),
        LonghandDeclaration::padding_bottom(v) => Val::Lp(lp(v, fs)),
        LonghandDeclaration::padding_right(v) => Val::Lp(lp(v, fs)),
        LonghandDeclaration::border_top_color(v) => Val::Col(v),
        LonghandDeclaration::border_left_color(v) => Val::Col(v),
        LonghandDeclaration::border_bottom_color(v) => Val::Col(v),
        LonghandDeclaration::border_right_color(v) => Val::Col(v),
        LonghandDeclaration::border_top_style(v) => Val::Style(v),
        LonghandDeclaration::border_left_style(v) => Val::Style(v),
        LonghandDeclaration::border_bottom_style(v) => Val::Style(v),
        LonghandDeclaration::border_right_style(v) => Val::Style(v),
        LonghandDeclaration::border_top_width(v) => Val::Width(LineWidth(lp(v.0, fs))),
        LonghandDeclaration::border_left_width(v) => Val::Width(LineWidth(lp(v.0, fs))),
        LonghandDeclaration::border_bottom_width(v) => Val::Width(LineWidth(lp(v.0, fs))),
        LonghandDeclaration::border_right_width(v) => Val::Width(LineWidth(lp(v.0, fs))),
        LonghandDeclaration::background_color(v) => Val::Col(v),
        LonghandDeclaration::CssWide(id, k) => match k {
            CssWideKeyword::Initial => initial(id),
            CssWideKeyword::Inherit => get(inh, id),
            CssWideKeyword::Unset => if is_inherited(id) { get(inh, id) } else { initial(id) },
        },
    }
}

// ---------------------------------------------------------------- values: from specified to computed
pub trait SpecifiedValue { type SpecifiedValue; }
pub trait FromSpecified: SpecifiedValue + Sized {
    spec fn computed(s: Self::SpecifiedValue, fs: Length, inh: ComputedValues) -> Self;
    fn from_specified(specified: &Self::SpecifiedValue, context: &CascadeContext) -> (r: Self)
        ensures r == Self::computed(*specified, context.this.cv().font.font_size.0, *context.inherited);
}
pub trait EarlyFromSpecified: SpecifiedValue + Sized {
    spec fn early_computed(s: Self::SpecifiedValue, inh: ComputedValues) -> Self;
    fn early_from_specified(specified: &Self::SpecifiedValue, context: &EarlyCascadeContext) -> (r: Self)
        ensures r == Self::early_computed(*specified, *context.inherited);
}
impl ComputedValuesForLateCascade<'_> {
//@@ fn @expanded | mod style :: mod properties :: mod definitions :: impl ComputedValuesForLateCascade<'_> :: font_size
//@@ ret r
//@@ spec
    ensures *r == self.cv().font.font_size
//@@ end
}
//@@ gsub /use FromSpecified;/ =>
impl SpecifiedValue for FontSize { type SpecifiedValue = SpecifiedLength; }
impl EarlyFromSpecified for FontSize {
    open spec fn early_computed(s: SpecifiedLength, inh: ComputedValues) -> Self { FontSize(px(s, inh.font.font_size.0)) }
//@@ fn victor/src/style/values/fonts.rs | impl EarlyFromSpecified for FontSize :: early_from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for Length { type SpecifiedValue = SpecifiedLength; }
impl FromSpecified for Length {
    open spec fn computed(s: SpecifiedLength, fs: Length, inh: ComputedValues) -> Self { px(s, fs) }
//@@ fn victor/src/style/values/length.rs | impl FromSpecified for Length :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for Percentage { type SpecifiedValue = Percentage; }
impl FromSpecified for Percentage {
    open spec fn computed(s: Percentage, fs: Length, inh: ComputedValues) -> Self { s }
//@@ fn @expanded | mod style :: mod values :: mod length :: impl crate::style::values::FromSpecified for Percentage :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for LengthOrPercentage { type SpecifiedValue = SpecifiedLengthOrPercentage; }
impl FromSpecified for LengthOrPercentage {
    open spec fn computed(s: SpecifiedLengthOrPercentage, fs: Length, inh: ComputedValues) -> Self { lp(s, fs) }
//@@ fn @expanded | mod style :: mod values :: mod length :: impl crate::style::values::FromSpecified for LengthOrPercentage where :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for LengthOrPercentageOrAuto { type SpecifiedValue = SpecifiedLengthOrPercentageOrAuto; }
impl FromSpecified for LengthOrPercentageOrAuto {
    open spec fn computed(s: SpecifiedLengthOrPercentageOrAuto, fs: Length, inh: ComputedValues) -> Self { lpa(s, fs) }
//@@ fn @expanded | mod style :: mod values :: mod length :: impl crate::style::values::FromSpecified for LengthOrPercentageOrAuto where :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for LineWidth { type SpecifiedValue = SpecifiedLineWidth; }
impl FromSpecified for LineWidth {
    open spec fn computed(s: SpecifiedLineWidth, fs: Length, inh: ComputedValues) -> Self { LineWidth(lp(s.0, fs)) }
//@@ fn @expanded | mod style :: mod values :: mod border :: impl crate::style::values::FromSpecified for LineWidth where :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for LineStyle { type SpecifiedValue = LineStyle; }
impl FromSpecified for LineStyle {
    open spec fn computed(s: LineStyle, fs: Length, inh: ComputedValues) -> Self { s }
//@@ fn @expanded | mod style :: mod values :: mod border :: impl crate::style::values::FromSpecified for LineStyle :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for Display { type SpecifiedValue = Display; }
impl FromSpecified for Display {
    open spec fn computed(s: Display, fs: Length, inh: ComputedValues) -> Self { s }
//@@ fn @expanded | mod style :: mod values :: mod box_ :: impl crate::style::values::FromSpecified for Display :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for Float { type SpecifiedValue = Float; }
impl FromSpecified for Float {
    open spec fn computed(s: Float, fs: Length, inh: ComputedValues) -> Self { s }
//@@ fn @expanded | mod style :: mod values :: mod box_ :: impl crate::style::values::FromSpecified for Float :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for Position { type SpecifiedValue = Position; }
impl FromSpecified for Position {
    open spec fn computed(s: Position, fs: Length, inh: ComputedValues) -> Self { s }
//@@ fn @expanded | mod style :: mod values :: mod box_ :: impl crate::style::values::FromSpecified for Position :: from_specified
//@@ ret r
//@@ end
}
impl SpecifiedValue for Color { type SpecifiedValue = Color; }
impl FromSpecified for Color {
    open spec fn computed(s: Color, fs: Length, inh: ComputedValues) -> Self { s }
//@@ fn victor/src/style/values/color.rs | impl FromSpecified for Color :: from_specified
//@@ sub OPT /, _:/ => , _context:
//@@ ret r
//@@ end
}
impl SpecifiedValue for RGBA { type SpecifiedValue = Color; }
impl FromSpecified for RGBA {
    open spec fn computed(s: Color, fs: Length, inh: ComputedValues) -> Self { match s { Color::RGBA(c) => c, Color::CurrentColor => inh.color.color } }
//@@ fn victor/src/style/values/color.rs | impl FromSpecified for RGBA :: from_specified
//@@ ret r
//@@ end
}
/// std::convert::From; its reflexive implementation gives the value itself
pub trait Conv<T>: Sized {
    spec fn of(x: T) -> Self;
    fn from(x: T) -> (r: Self) ensures r == Self::of(x);
}
impl<T> Conv<T> for T {
    open spec fn of(x: T) -> T { x }
    fn from(x: T) -> (r: T) { x }
}
impl Conv<Length> for FontSize {
    open spec fn of(x: Length) -> Self { FontSize(x) }
//@@ fn victor/src/style/values/fonts.rs | impl From<Length> for FontSize :: from
//@@ ret r
//@@ end
}
impl Conv<Length> for LengthOrPercentage {
    open spec fn of(x: Length) -> Self { LengthOrPercentage::Length(x) }
//@@ fn @expanded | mod style :: mod values :: mod length :: impl std::convert::From<Length> for LengthOrPercentage :: from
//@@ ret r
//@@ end
}
impl Conv<Length> for LengthOrPercentageOrAuto {
    open spec fn of(x: Length) -> Self { LengthOrPercentageOrAuto::Length(x) }
//@@ fn @expanded | mod style :: mod values :: mod length :: impl std::convert::From<Length> for LengthOrPercentageOrAuto :: from
//@@ ret r
//@@ end
}
