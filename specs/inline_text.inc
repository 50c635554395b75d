// ---------------------------------------------------------------- text.rs, with the numbers of the layout
pub struct Em;
#[derive(Clone, Copy)]
pub struct GlyphId(pub u16);
#[derive(Debug)]
pub struct FontError;
/// euclid::Length: a number with a unit
pub struct Measure<U>(pub F32, pub PhantomData<U>);
impl<U> Clone for Measure<U> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<U> Copy for Measure<U> {}
pub open spec fn measure<U>(x: real) -> Measure<U> { Measure(fl(x), PhantomData) }
impl<U> Measure<U> {
    pub fn new(x: F32) -> (r: Self) ensures r.0 == x { Measure(x, PhantomData) }
    pub fn add_assign(&mut self, o: Self) ensures *final(self) == measure::<U>(old(self).0.0@ + o.0.0@) { self.0.add_assign(o.0) }
}
/// The font of all texts: its character map and advances (V08 and V09 are about these).  It has a width for each glyph.
#[verifier::external_body]
pub struct Font { x: u8 }
impl Font {
    pub uninterp spec fn glyph(self, c: char) -> GlyphId;
    pub uninterp spec fn advance(self, g: GlyphId) -> real;
    #[verifier::external_body]
    pub fn glyph_id(&self, c: char) -> (r: Result<GlyphId, FontError>) ensures r == Ok::<GlyphId, FontError>(self.glyph(c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn glyph_width(&self, g: GlyphId) -> (r: Result<Measure<Em>, FontError>) ensures r == Ok::<Measure<Em>, FontError>(measure(self.advance(g))) { unimplemented!() }
}
/// BITSTREAM_VERA_SANS
pub uninterp spec fn vera() -> Font;
#[verifier::external_body]
pub fn bitstream_vera_sans() -> (r: Arc<Font>) ensures *r == vera() { unimplemented!() }
//@@ gsub /BITSTREAM_VERA_SANS\.clone\(\)/ => bitstream_vera_sans()
impl MulSpecImpl<Measure<Em>> for FontSize {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Measure<Em>) -> bool { true }
    open spec fn mul_spec(self, o: Measure<Em>) -> Length { len(self.0.v() * o.0.0@) }
}
impl Mul<Measure<Em>> for FontSize {
    type Output = Length;
//@@ fn victor/src/style/values/fonts.rs | impl std::ops::Mul<Em> for FontSize :: mul
//@@ sub /other: Em/ => other: Measure<Em>
//@@ ret r
//@@ spec
//@@ end
}
pub open spec fn glyphs_of(f: Font, text: Seq<char>) -> Seq<GlyphId> { text.map_values(|c: char| f.glyph(c)) }
/// the sum of the advances of the characters of a text
pub open spec fn advance_of(f: Font, text: Seq<char>) -> real
    decreases text.len()
{
    if text.len() == 0 { 0real } else { advance_of(f, text.drop_last()) + f.advance(f.glyph(text.last())) }
}
//@@ item victor/src/text.rs | struct ShapedSegment
//@@ sub /advance_width: Length</ => advance_width: Measure<
//@@ end
//@@ item victor/src/text.rs | struct ShapedSegmentState
//@@ sub /glyphs: usize/ => pub glyphs: usize
//@@ sub /advance_width: Length</ => pub advance_width: Measure<
//@@ end
impl ShapedSegment {
    /// the segment of these characters
    pub open spec fn shapes(self, text: Seq<char>) -> bool { self.glyphs@ == glyphs_of(*self.font, text) && self.advance_width.0.0@ == advance_of(*self.font, text) }
//@@ fn victor/src/text.rs | impl ShapedSegment :: new_with_naive_shaping
//@@ sub /Length::new\(/ => Measure::new(
//@@ ret r
//@@ spec
    ensures r.font == font, r.shapes(Seq::<char>::empty())
//@@ start
    proof { assert(glyphs_of(*font, Seq::<char>::empty()) =~= Seq::<GlyphId>::empty()); }
//@@ end
//@@ fn victor/src/text.rs | impl ShapedSegment :: append_char
//@@ sub /([\w.]+) \+= ([^;]+);/ => \1.add_assign(\2);
//@@ ret r
//@@ spec
    ensures
        final(self).font == old(self).font, r is Ok,
        forall|text: Seq<char>| #[trigger] old(self).shapes(text) ==> final(self).shapes(text.push(ch)),
//@@ before /Ok\(\(\)\)/
    proof {
        assert forall|text: Seq<char>| #[trigger] old(self).shapes(text) implies self.shapes(text.push(ch)) by {
            assert(glyphs_of(*self.font, text.push(ch)) =~= glyphs_of(*self.font, text).push(self.font.glyph(ch)));
            assert(text.push(ch).drop_last() =~= text);
        }
    }
//@@ end
//@@ fn victor/src/text.rs | impl ShapedSegment :: save
//@@ ret r
//@@ spec
    ensures r.glyphs == self.glyphs@.len(), r.advance_width == self.advance_width
//@@ end
//@@ fn victor/src/text.rs | impl ShapedSegment :: restore
//@@ spec
    ensures
        final(self).font == old(self).font,
        // the segment is the one of the first characters again, when the state is what was saved after these
        forall|text: Seq<char>, k: int| #[trigger] old(self).shapes(text) && 0 <= k <= text.len() && state.glyphs == k && state.advance_width.0.0@ == advance_of(*old(self).font, #[trigger] text.take(k))
            ==> final(self).shapes(text.take(k)),
//@@ after /self\.advance_width = [^;]*;/
    proof {
        assert forall|text: Seq<char>, k: int| #[trigger] old(self).shapes(text) && 0 <= k <= text.len() && state.glyphs == k && state.advance_width.0.0@ == advance_of(*old(self).font, #[trigger] text.take(k))
            implies self.shapes(text.take(k)) by {
            assert(glyphs_of(*self.font, text.take(k)) =~= glyphs_of(*self.font, text).take(k));
        }
    }
//@@ end
}
