// Contracts for painting (victor/src/paint.rs)
#![allow(unused, nonstandard_style)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, AddAssign, Sub, Mul, Div, Neg};
use std::sync::Arc;
use std::marker::PhantomData;

verus! {
//@@ include layout_num.inc
//@@ include layout_geom.inc
use flow_relative::{Rect, Sides, Vec2};
//@@ include layout_style.inc
impl ComputedValues {
//@@ fn victor/src/style/properties/mod.rs | impl ComputedValues :: to_rgba
//@@ ret r
//@@ spec
    ensures r == (match color { Color::RGBA(c) => c, Color::CurrentColor => self.color.color })
//@@ end
}
// ---------------------------------------------------------------- euclid and primitives.rs
pub struct Em;
pub struct GlyphId(pub u16);
/// euclid::Length: a number with a unit
pub struct Measure<U>(pub F32, pub PhantomData<U>);
impl<U> Measure<U> {
    pub fn new(x: F32) -> (r: Self) ensures r.0 == x { Measure(x, PhantomData) }
}
pub mod primitives {
    use super::*;
    pub struct CssPx;
    pub struct Point<U> { pub x: F32, pub y: F32, pub _unit: PhantomData<U> }
    impl<U> Point<U> {
        pub fn new(x: F32, y: F32) -> (r: Self) ensures r.x == x, r.y == y { Point { x, y, _unit: PhantomData } }
        pub fn from_lengths(x: Measure<U>, y: Measure<U>) -> (r: Self) ensures r.x == x.0, r.y == y.0 { Point { x: x.0, y: y.0, _unit: PhantomData } }
    }
    pub struct Size<U> { pub width: F32, pub height: F32, pub _unit: PhantomData<U> }
    impl<U> Size<U> {
        pub fn new(width: F32, height: F32) -> (r: Self) ensures r.width == width, r.height == height { Size { width, height, _unit: PhantomData } }
    }
    impl<U> Clone for Size<U> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
    impl<U> Copy for Size<U> {}
    pub struct Rect<U> { pub origin: Point<U>, pub size: Size<U> }
//@@ item victor/src/primitives.rs | struct RGBA
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/primitives.rs | struct TextRun
//@@ sub /text::ShapedSegment/ => ShapedSegment
//@@ sub /font_size: Length</ => font_size: Measure<
//@@ end
    /// a color of a style sheet as one of a page: 0 … 255 becomes 0 … 1
    pub open spec fn page_color(c: super::RGBA) -> RGBA { RGBA(fl(c.red as real / 255real), fl(c.green as real / 255real), fl(c.blue as real / 255real), fl(c.alpha as real / 255real)) }
    impl RGBA {
//@@ fn victor/src/primitives.rs | impl From<cssparser::RGBA> for RGBA :: from
//@@ sub /fn from\(c: cssparser::RGBA/ => pub fn from(c: super::RGBA
//@@ ret r
//@@ spec
    ensures r == page_color(c)
//@@ end
    }
}
use primitives::{page_color, CssPx, Size, TextRun};
impl RGBA {
    // cssparser
    #[verifier::external_body]
    pub fn red_f32(&self) -> (r: F32) ensures r == fl(self.red as real / 255real) { unimplemented!() }
    #[verifier::external_body]
    pub fn green_f32(&self) -> (r: F32) ensures r == fl(self.green as real / 255real) { unimplemented!() }
    #[verifier::external_body]
    pub fn blue_f32(&self) -> (r: F32) ensures r == fl(self.blue as real / 255real) { unimplemented!() }
    #[verifier::external_body]
    pub fn alpha_f32(&self) -> (r: F32) ensures r == fl(self.alpha as real / 255real) { unimplemented!() }
}
// `a.into()`: the trait is only used for these
pub trait Into_<T>: Sized { spec fn into_spec(self) -> T; fn into_(self) -> (r: T) ensures r == self.into_spec(); }
impl Into_<Measure<CssPx>> for Length {
    open spec fn into_spec(self) -> Measure<CssPx> { Measure(self.px, PhantomData) }
//@@ fn victor/src/style/values/length.rs | impl From<Length> for euclid::Length<f32, crate::primitives::CssPx> :: from
//@@ sub /fn from\(l: Length\) -> Self/ => fn into_(self) -> Measure<CssPx>
//@@ sub /euclid::Length::new\(l\.px\)/ => Measure::new(self.px)
//@@ ret r
//@@ spec
//@@ end
}
impl Into_<primitives::RGBA> for RGBA {
    open spec fn into_spec(self) -> primitives::RGBA { page_color(self) }
    fn into_(self) -> (r: primitives::RGBA) { primitives::RGBA::from(self) }
}
impl Into_<primitives::Point<CssPx>> for physical::Vec2<Length> {
    open spec fn into_spec(self) -> primitives::Point<CssPx> { primitives::Point { x: self.x.px, y: self.y.px, _unit: PhantomData } }
//@@ fn victor/src/geom.rs | impl From<physical::Vec2<Length>> for crate::primitives::Point<crate::primitives::CssPx> :: from
//@@ sub /fn from\(v: physical::Vec2<Length>\) -> Self/ => fn into_(self) -> primitives::Point<CssPx>
//@@ sub /crate::primitives/ => primitives
//@@ sub /\bv\.(\w)\.into\(\)/ => self.\1.into_()
//@@ ret r
//@@ spec
//@@ end
}
impl Into_<primitives::Rect<CssPx>> for physical::Rect<Length> {
    open spec fn into_spec(self) -> primitives::Rect<CssPx> {
        primitives::Rect { origin: primitives::Point { x: self.top_left.x.px, y: self.top_left.y.px, _unit: PhantomData }, size: primitives::Size { width: self.size.x.px, height: self.size.y.px, _unit: PhantomData } }
    }
//@@ fn victor/src/geom.rs | impl From<physical::Rect<Length>> for crate::primitives::Rect<crate::primitives::CssPx> :: from
//@@ sub /fn from\(r: physical::Rect<Length>\) -> Self/ => fn into_(self) -> primitives::Rect<CssPx>
//@@ sub /crate::primitives/ => primitives
//@@ sub /\br\./ => self.
//@@ ret r
//@@ spec
//@@ end
}
// ---------------------------------------------------------------- fonts, text
#[verifier::external_body]
pub struct Font { x: u8 }
/// the distance from the baseline to the top of the line, in ems
pub uninterp spec fn ascent(f: Font) -> real;
impl Font {
    #[verifier::external_body]
    pub fn ascender(&self) -> (r: Measure<Em>) ensures r.0 == fl(ascent(*self)) { unimplemented!() }
}
//@@ item victor/src/text.rs | struct ShapedSegment
//@@ sub /advance_width: Length</ => advance_width: Measure<
//@@ end
impl MulSpecImpl<Measure<Em>> for FontSize {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Measure<Em>) -> bool { true }
    open spec fn mul_spec(self, o: Measure<Em>) -> Length { len(self.0.v() * o.0.0@) }
}
impl Mul<Measure<Em>> for FontSize {
    type Output = Length;
//@@ fn victor/src/style/values/fonts.rs | impl std::ops::Mul<Em> for FontSize :: mul
//@@ sub /other: Em/ => other: Measure<Em>
//@@ ret r
//@@ spec
//@@ end
}
//@@ gsub /([\w.]+) \+= ([^;]+);/ => \1.add_assign(\2);
//@@ gsub /for (\w+) in ([&\w.]+) \{/ => for \1 in it: \2 {
// ---------------------------------------------------------------- fragments
//@@ item victor/src/layout/fragments.rs | enum Fragment
//@@ end
//@@ item victor/src/layout/fragments.rs | struct BoxFragment
//@@ end
//@@ item victor/src/layout/fragments.rs | struct CollapsedBlockMargins
//@@ end
//@@ item victor/src/layout/fragments.rs | struct CollapsedMargin
//@@ attr #[derive(Clone, Copy)]
//@@ sub /max_positive/ => pub max_positive
//@@ sub /min_negative/ => pub min_negative
//@@ end
//@@ item victor/src/layout/fragments.rs | struct AnonymousFragment
//@@ end
//@@ item victor/src/layout/fragments.rs | struct TextFragment
//@@ end
impl BoxFragment {
    /// the border box: the content with the padding and the border around it
    pub open spec fn border_box(self) -> Rect<Length> {
        Rect {
            start_corner: Vec2 {
                inline: len(self.content_rect.start_corner.inline.v() - self.padding.inline_start.v() - self.border.inline_start.v()),
                block: len(self.content_rect.start_corner.block.v() - self.padding.block_start.v() - self.border.block_start.v()),
            },
            size: Vec2 {
                inline: len(self.content_rect.size.inline.v() + self.padding.inline_start.v() + self.padding.inline_end.v() + self.border.inline_start.v() + self.border.inline_end.v()),
                block: len(self.content_rect.size.block.v() + self.padding.block_start.v() + self.padding.block_end.v() + self.border.block_start.v() + self.border.block_end.v()),
            },
        }
    }
//@@ fn victor/src/layout/fragments.rs | impl BoxFragment :: border_rect
//@@ ret r
//@@ spec
    ensures r == self.border_box()
//@@ end
}
pub open spec fn children(f: Fragment) -> Seq<Fragment> {
    match f { Fragment::Box(b) => b.children@, Fragment::Anonymous(a) => a.children@, Fragment::Text(_) => Seq::empty() }
}
/// the place of a fragment's content in its containing block
pub open spec fn place(f: Fragment) -> Rect<Length> {
    match f { Fragment::Box(b) => b.content_rect, Fragment::Anonymous(a) => a.rect, Fragment::Text(t) => t.content_rect }
}
/// all anonymous fragments inside have the writing mode of all boxes
pub open spec fn upright(f: Fragment) -> bool
    decreases f
{
    &&& (f matches Fragment::Anonymous(a) ==> a.mode == (WritingMode::HorizontalTb, Direction::Ltr))
    &&& match f {
        Fragment::Box(b) => forall|i: int| 0 <= i < b.children@.len() ==> upright(#[trigger] b.children@[i]),
        Fragment::Anonymous(a) => forall|i: int| 0 <= i < a.children@.len() ==> upright(#[trigger] a.children@[i]),
        Fragment::Text(_) => true,
    }
}
/// a rectangle that is relative to the corner of another one, in absolute coordinates
pub open spec fn absolute(r: Rect<Length>, cb: physical::Rect<Length>) -> physical::Rect<Length> {
    physical::Rect {
        top_left: physical::Vec2 { x: len(r.start_corner.inline.v() + cb.top_left.x.v()), y: len(r.start_corner.block.v() + cb.top_left.y.v()) },
        size: physical::Vec2 { x: r.size.inline, y: r.size.block },
    }
}
// ---------------------------------------------------------------- what a page shows
pub enum Mark {
    Fill { area: primitives::Rect<CssPx>, color: primitives::RGBA },
    Text { text: ShapedSegment, size: F32, baseline: primitives::Point<CssPx>, color: primitives::RGBA },
}
/// what one fragment paints itself, without its children
pub open spec fn own(f: Fragment, cb: physical::Rect<Length>) -> Seq<Mark> {
    match f {
        Fragment::Box(b) => {
            let color = match b.style.background.background_color { Color::RGBA(c) => c, Color::CurrentColor => b.style.color.color };
            if color.alpha > 0 { seq![Mark::Fill { area: absolute(b.border_box(), cb).into_spec(), color: page_color(color) }] } else { Seq::empty() }
        },
        Fragment::Anonymous(_) => Seq::empty(),
        Fragment::Text(t) => {
            let at = absolute(t.content_rect, cb).top_left;
            let size = t.parent_style.font.font_size.0;
            seq![Mark::Text { text: t.text, size: size.px, baseline: primitives::Point { x: at.x.px, y: fl(at.y.v() + size.v() * ascent(*t.text.font)), _unit: PhantomData }, color: page_color(t.parent_style.color.color) }]
        },
    }
}
/// the first n of these fragments, one after the other
pub open spec fn shown_upto(fs: Seq<Fragment>, n: int, cb: physical::Rect<Length>) -> Seq<Mark>
    decreases fs, n
{
    if n <= 0 || n > fs.len() { Seq::empty() } else { shown_upto(fs, n - 1, cb) + shown(fs[n - 1], cb) }
}
/// a fragment paints itself, then its children in order
pub open spec fn shown(f: Fragment, cb: physical::Rect<Length>) -> Seq<Mark>
    decreases f
{
    match f {
        Fragment::Box(b) => own(f, cb) + shown_upto(b.children@, b.children@.len() as int, absolute(b.content_rect, cb)),
        Fragment::Anonymous(a) => shown_upto(a.children@, a.children@.len() as int, absolute(a.rect, cb)),
        Fragment::Text(_) => own(f, cb),
    }
}
/// pdf::Page: the marks on it, and the color of the next one
#[verifier::external_body]
pub struct Page { x: u8 }
pub struct FontError;
impl Page {
    pub uninterp spec fn marks(self) -> Seq<Mark>;
    pub uninterp spec fn color(self) -> primitives::RGBA;
    pub uninterp spec fn size(self) -> Size<CssPx>;
    #[verifier::external_body]
    pub fn set_color(&mut self, rgba: &primitives::RGBA)
        ensures final(self).color() == *rgba, final(self).marks() == old(self).marks(), final(self).size() == old(self).size()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn paint_rectangle(&mut self, rect: &primitives::Rect<CssPx>)
        ensures final(self).color() == old(self).color(), final(self).size() == old(self).size(),
            final(self).marks() == old(self).marks().push(Mark::Fill { area: *rect, color: old(self).color() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn show_text(&mut self, text: &TextRun) -> (r: Result<(), FontError>)
        ensures r is Ok, final(self).color() == old(self).color(), final(self).size() == old(self).size(),
            final(self).marks() == old(self).marks().push(Mark::Text { text: *text.segment, size: text.font_size.0, baseline: text.origin, color: old(self).color() })
    { unimplemented!() }
}
//@@ gsub /\.into\(\)/ => .into_()
//@@ gsub /: &Rect<Length>/ => : &physical::Rect<Length>
//@@ gsub /\.unwrap\(\)/ => .unwrap_or_panic()
pub trait Unwrap<T> { spec fn good(self) -> bool; fn unwrap_or_panic(self) -> T where Self: Sized requires self.good(); }
impl<T, E> Unwrap<T> for Result<T, E> {
    open spec fn good(self) -> bool { self is Ok }
    fn unwrap_or_panic(self) -> T { match self { Ok(x) => x, Err(_) => { assert(false); vstd::pervasive::unreached() } } }
}
impl Fragment {
//@@ fn victor/src/paint.rs | impl Fragment :: paint_onto
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires upright(*self)
    ensures
        final(page).marks() == old(page).marks() + shown(*self, *containing_block),
        final(page).size() == old(page).size()
//@@ loop 1
        invariant
            upright(*self), *self == Fragment::Anonymous(*a), rect == absolute(a.rect, *containing_block),
            page.size() == old(page).size(),
            page.marks() == old(page).marks() + shown_upto(a.children@, it.index@, rect)
//@@ end
}
impl BoxFragment {
//@@ fn victor/src/paint.rs | impl BoxFragment :: paint_onto
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires upright(Fragment::Box(*self))
    ensures
        final(page).marks() == old(page).marks() + shown(Fragment::Box(*self), *containing_block),
        final(page).size() == old(page).size()
//@@ loop 1
        invariant
            upright(Fragment::Box(*self)), content_rect == absolute(self.content_rect, *containing_block),
            page.size() == old(page).size(),
            page.marks() == old(page).marks() + own(Fragment::Box(*self), *containing_block) + shown_upto(self.children@, it.index@, content_rect)
//@@ end
}
// ---------------------------------------------------------------- the document
/// a page of a PDF document: its size and the marks on it
pub struct PageContent { pub size: Size<CssPx>, pub marks: Seq<Mark> }
pub mod dom {
    use super::*;
    #[verifier::external_body]
    pub struct Document { x: u8 }
}
pub uninterp spec fn laid_out(d: dom::Document, page: Size<CssPx>) -> Seq<Fragment>;
pub mod pdf {
    use super::*;
    #[verifier::external_body]
    pub struct Document { x: u8 }
    /// the PDF file with these pages
    pub uninterp spec fn file_of(pages: Seq<PageContent>) -> Seq<u8>;
    impl Document {
        pub uninterp spec fn pages(self) -> Seq<PageContent>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r.pages() == Seq::<PageContent>::empty() { unimplemented!() }
        /// add_page: a page without marks …
        #[verifier::external_body]
        pub fn open_page(&self, size: Size<CssPx>) -> (r: Page) ensures r.marks() == Seq::<Mark>::empty(), r.size() == size { unimplemented!() }
        /// … that becomes part of the document when it is dropped
        #[verifier::external_body]
        pub fn close_page(&mut self, page: Page) ensures final(self).pages() == old(self).pages().push(PageContent { size: page.size(), marks: page.marks() }) { unimplemented!() }
        #[verifier::external_body]
        pub fn write_to_pdf_bytes(&self) -> (r: Vec<u8>) ensures r@ == file_of(self.pages()) { unimplemented!() }
    }
}
pub open spec fn page_area(w: F32, h: F32) -> physical::Rect<Length> {
    physical::Rect { top_left: physical::Vec2 { x: len(0real), y: len(0real) }, size: physical::Vec2 { x: Length { px: w }, y: Length { px: h } } }
}
pub open spec fn the_page() -> Size<CssPx> { primitives::Size { width: fl(600real), height: fl(800real), _unit: PhantomData } }
impl dom::Document {
    #[verifier::external_body]
    fn layout(&self, viewport: Size<CssPx>) -> (r: Vec<Fragment>)
        ensures r@ == laid_out(*self, viewport), forall|i: int| 0 <= i < r@.len() ==> upright(#[trigger] r@[i])
    { unimplemented!() }
//@@ fn victor/src/paint.rs | impl crate::dom::Document :: to_pdf_bytes
//@@ sub /= Rect \{/ => = physical::Rect {
//@@ sub /: Vec2 \{/ => : physical::Vec2 {
//@@ sub /crate::pdf/ => pdf
//@@ sub /let mut page = doc\.add_page\((\w+)\);(.*?\n            \})/ => let mut page = doc.open_page(\1);\2 doc.close_page(page);
//@@ ret r
//@@ spec
    ensures
        r@ == pdf::file_of(seq![PageContent { size: the_page(), marks: shown_upto(laid_out(*self, the_page()), laid_out(*self, the_page()).len() as int, page_area(fl(600real), fl(800real))) }])
//@@ loop 1
        invariant
            containing_block == page_area(fl(600real), fl(800real)), page_size == the_page(),
            it.seq() == laid_out(*self, the_page()),
            forall|i: int| 0 <= i < it.seq().len() ==> upright(#[trigger] it.seq()[i]),
            page.size() == the_page(), doc.pages() == Seq::<PageContent>::empty(),
            page.marks() == shown_upto(it.seq(), it.index@, containing_block)
//@@ end
}
} // verus!
fn main() {}
