
// ---------------------------------------------------------------- style/values/box_.rs, style/properties/mod.rs
//@@ item victor/src/style/values/box_.rs | enum Display
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayGeneratingBox
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayOutside
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayInside
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
#[verifier::external_body]
pub struct Float { x: u8 }
#[verifier::external_body]
pub struct LineStyle { x: u8 }
// cssparser's
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub struct RGBA { pub red: u8, pub green: u8, pub blue: u8, pub alpha: u8 }
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub enum Color { CurrentColor, RGBA(RGBA) }
//@@ item victor/src/style/values/fonts.rs | struct FontSize
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/border.rs | struct LineWidth
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum Position
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
impl Position {
//@@ fn victor/src/style/values/box_.rs | impl Position :: is_relatively_positioned
//@@ ret r
//@@ spec
    ensures r == (self is Relative)
//@@ end
//@@ fn victor/src/style/values/box_.rs | impl Position :: is_absolutely_positioned
//@@ ret r
//@@ spec
    ensures r == (self is Absolute)
//@@ end
}
//@@ item @expanded | mod style :: mod properties :: mod definitions :: struct ComputedValues
//@@ end
pub mod style_structs {
    use super::*;
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct font
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct color
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct box_
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct margin
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct padding
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct border
//@@ end
//@@ item @expanded | mod style :: mod properties :: mod definitions :: mod style_structs :: struct background
//@@ end
}
/// the four sides in a left-to-right document
pub open spec fn ltr_sides<T>(top: T, right: T, bottom: T, left: T) -> Sides<T> { Sides { inline_start: left, inline_end: right, block_start: top, block_end: bottom } }
impl ComputedValues {
    pub open spec fn margins(self) -> Sides<LengthOrPercentageOrAuto> { ltr_sides(self.margin.margin_top, self.margin.margin_right, self.margin.margin_bottom, self.margin.margin_left) }
    pub open spec fn paddings(self) -> Sides<LengthOrPercentage> { ltr_sides(self.padding.padding_top, self.padding.padding_right, self.padding.padding_bottom, self.padding.padding_left) }
    pub open spec fn borders(self) -> Sides<LengthOrPercentage> { ltr_sides(self.border.border_top_width.0, self.border.border_right_width.0, self.border.border_bottom_width.0, self.border.border_left_width.0) }
    pub open spec fn offsets(self) -> Sides<LengthOrPercentageOrAuto> { ltr_sides(self.box_.top, self.box_.right, self.box_.bottom, self.box_.left) }
    pub open spec fn sizes(self) -> Vec2<LengthOrPercentageOrAuto> { Vec2 { inline: self.box_.width, block: self.box_.height } }
//@@ fn victor/src/style/properties/mod.rs | impl ComputedValues :: writing_mode
//@@ ret r
//@@ spec
    ensures r == (WritingMode::HorizontalTb, Direction::Ltr)
//@@ end
//@@ gsub /\bvalues::(?=Length)/ =>
//@@ fn victor/src/style/properties/mod.rs | impl ComputedValues :: box_offsets
//@@ ret r
//@@ spec
    ensures r == self.offsets()
//@@ end
//@@ fn victor/src/style/properties/mod.rs | impl ComputedValues :: box_size
//@@ ret r
//@@ spec
    ensures r == self.sizes()
//@@ end
//@@ fn victor/src/style/properties/mod.rs | impl ComputedValues :: padding
//@@ ret r
//@@ spec
    ensures r == self.paddings()
//@@ end
//@@ fn victor/src/style/properties/mod.rs | impl ComputedValues :: border_width
//@@ ret r
//@@ spec
    ensures r == self.borders()
//@@ end
//@@ fn victor/src/style/properties/mod.rs | impl ComputedValues :: margin
//@@ ret r
//@@ spec
    ensures r == self.margins()
//@@ end
}
