// Contracts for plain text layout (victor/src/text_plain.rs)
#![allow(unused, nonstandard_style)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, AddAssign, Sub, Mul, Div, Neg, Range};
use std::sync::Arc;
use std::marker::PhantomData;

verus! {
//@@ include num.inc
//@@ gsub /(?<![\w.])(\d+)\.(\d)(?![\w.])/ => tenths(\1\2)
//@@ include plain_euclid.inc
// ---------------------------------------------------------------- fonts, segments (units fonts, inline), documents (unit convert)
pub struct Em;
/// primitives.rs
pub struct CssPx;
pub type Px = CssPx;
#[derive(Clone, Copy)]
pub struct GlyphId(pub u16);
#[derive(Debug)]
pub struct FontError;
#[verifier::external_body]
pub struct Font { x: u8 }
impl Font {
    pub uninterp spec fn glyph(self, c: char) -> GlyphId;
    pub uninterp spec fn advance(self, g: GlyphId) -> real;
    pub uninterp spec fn ascent(self) -> real;
    #[verifier::external_body]
    pub fn ascender(&self) -> (r: Length<Em>) ensures r == length::<Em>(self.ascent()) { unimplemented!() }
}
pub open spec fn glyphs_of(f: Font, text: Seq<char>) -> Seq<GlyphId> { text.map_values(|c: char| f.glyph(c)) }
/// the sum of the advances of the characters of a text
pub open spec fn advance_of(f: Font, text: Seq<char>) -> real
    decreases text.len()
{
    if text.len() == 0 { 0real } else { advance_of(f, text.drop_last()) + f.advance(f.glyph(text.last())) }
}
//@@ item victor/src/text.rs | struct ShapedSegment
//@@ end
impl ShapedSegment {
    pub open spec fn shapes(self, text: Seq<char>) -> bool { self.glyphs@ == glyphs_of(*self.font, text) && self.advance_width == length::<Em>(advance_of(*self.font, text)) }
    /// proved in unit fonts (V05): one glyph for each character, and the sum of their advances
    #[verifier::external_body]
    pub fn naive_shape(text: &str, font: Arc<Font>) -> (r: Result<ShapedSegment, FontError>)
        ensures r matches Ok(s) ==> s.font == font && s.shapes(text@)
    { unimplemented!() }
}
/// a text on a page
pub ghost struct Shown { pub page: int, pub glyphs: Seq<GlyphId>, pub font: Font, pub size: real, pub x: real, pub y: real }
//@@ item victor/src/primitives.rs | struct TextRun
//@@ sub /text::ShapedSegment/ => ShapedSegment
//@@ end
/// A document: its pages, and what is shown on them in order.  A page belongs to the document from add_page on, for nothing else can be done
/// with the document while the page is borrowed from it, and dropping the page adds it (V10).
#[verifier::external_body]
pub struct Document { x: u8 }
pub struct Page<'a> { pub doc: &'a mut Document }
impl Document {
    pub uninterp spec fn pages(self) -> Seq<(real, real)>;
    pub uninterp spec fn shown(self) -> Seq<Shown>;
    #[verifier::external_body]
    pub fn new() -> (r: Document) ensures r.pages().len() == 0, r.shown().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn add_page<'a>(&'a mut self, size: Size<CssPx>) -> (r: Page<'a>)
        ensures
            r.doc.pages() == old(self).pages().push((size.width.0@, size.height.0@)), r.doc.shown() == old(self).shown(),
            *final(r.doc) == *final(self)
    { unimplemented!() }
}
impl<'a> Page<'a> {
    #[verifier::external_body]
    pub fn show_text(&mut self, text: &TextRun) -> (r: Result<(), FontError>)
        ensures
            *final(final(self).doc) == *final(old(self).doc),
            final(self).doc.pages() == old(self).doc.pages(),
            r is Ok ==> final(self).doc.shown() == old(self).doc.shown().push(Shown {
                page: old(self).doc.pages().len() - 1,
                glyphs: text.segment.glyphs@, font: *text.segment.font, size: text.font_size.0.0@, x: text.origin.x.0@, y: text.origin.y.0@,
            })
    { unimplemented!() }
}
//@@ include plain.inc
} // verus!
fn main() {}
