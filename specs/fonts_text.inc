/// f32 addition of lengths, as euclid does it
pub uninterp spec fn plus_em(a: Length<f32, Em>, b: Length<f32, Em>) -> Length<f32, Em>;
#[verifier::external_body]
pub fn add_em(a: Length<f32, Em>, b: Length<f32, Em>) -> (r: Length<f32, Em>) ensures r == plus_em(a, b) { unimplemented!() }
pub uninterp spec fn zero_em() -> Length<f32, Em>;
#[verifier::external_body]
pub fn no_length() -> (r: Length<f32, Em>) ensures r == zero_em() { unimplemented!() }

impl Font {
    /// the glyph of a character, by the character map; 0 if there is none
    pub open spec fn has_glyph(self, c: char, g: GlyphId) -> bool {
        if g.0 != 0 { self.cmap.maps(self.bytes@, c as u32, g.0) }
        else { self.cmap.in_order(self.bytes@) ==> forall|h: u16| h != 0 ==> !#[trigger] self.cmap.maps(self.bytes@, c as u32, h) }
    }
    /// the advance of a glyph, in ems
    pub open spec fn advance_of(self, g: GlyphId) -> Length<f32, Em> {
        let last = self.horizontal_metrics.count - 1;
        let i = if g.0 < last { g.0 as int } else { last };
        in_ems(Length::<u16, FontDesignUnit> { v: be16(self.bytes@, self.horizontal_metrics.start.byte_position + 4 * i), unit: PhantomData }, self.font_design_units_per_em)
    }
    /// the sum of advances, from the first glyph to the last
    pub open spec fn total(self, glyphs: Seq<GlyphId>) -> Length<f32, Em>
        decreases glyphs.len()
    {
        if glyphs.len() == 0 { zero_em() } else { plus_em(self.total(glyphs.drop_last()), self.advance_of(glyphs.last())) }
    }
}

/// The characters of a text, one after the other
pub trait Chars: Sized {
    spec fn rest(self) -> Seq<char>;
    fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1);
}
#[verifier::external_body]
pub struct StrChars<'a> { x: &'a str }
pub uninterp spec fn str_rest(c: StrChars) -> Seq<char>;
impl<'a> Chars for StrChars<'a> {
    open spec fn rest(self) -> Seq<char> { str_rest(self) }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>) { unimplemented!() }
}
#[verifier::external_body]
pub fn chars_of<'a>(t: &'a str) -> (r: StrChars<'a>) ensures r.rest() == t@ { unimplemented!() }

//@@ item victor/src/text.rs | struct ShapedSegment
//@@ sub /Length<Em>/ => Length<f32, Em>
//@@ end
//@@ item victor/src/text.rs | struct ShapedSegmentState
//@@ sub /glyphs: usize/ => pub glyphs: usize
//@@ sub /advance_width: Length<Em>/ => pub advance_width: Length<f32, Em>
//@@ end
impl ShapedSegment {
    /// the segment of these characters
    pub open spec fn shapes(self, text: Seq<char>) -> bool {
        &&& self.glyphs@.len() == text.len()
        &&& forall|i: int| 0 <= i < text.len() ==> self.font.has_glyph(text[i], #[trigger] self.glyphs@[i])
        &&& self.advance_width == self.font.total(self.glyphs@)
    }
    pub open spec fn same_font(self, other: Self) -> bool { self.font == other.font }
}
/// what save gives for a segment, and what a segment may be restored to later
pub open spec fn saved(s: ShapedSegmentState, glyphs: Seq<GlyphId>, f: Font) -> bool {
    s.glyphs == glyphs.len() && s.advance_width == f.total(glyphs)
}

impl ShapedSegment {
//@@ fn victor/src/text.rs | impl ShapedSegment :: naive_shape
//@@ sub /text\.chars\(\)/ => chars_of(text)
//@@ ret r
//@@ spec
    requires file(font.bytes@)
    ensures r matches Ok(s) ==> s.font == font && s.shapes(text@)
//@@ end
//@@ fn victor/src/text.rs | impl ShapedSegment :: new_with_naive_shaping
//@@ sub /Length::new\(0\.\)/ => no_length()
//@@ ret r
//@@ spec
    ensures r.font == font, r.shapes(Seq::<char>::empty())
//@@ end
//@@ fn victor/src/text.rs | impl ShapedSegment :: append
//@@ sub /mut text: impl Iterator<Item = char>/ => text_: impl Chars
//@@ sub /text\.try_for_each\(\|ch\| self\.append_char\(ch\)\)/ => let mut text = text_; while let Some(ch) = text.next() { self.append_char(ch)? } Ok(())
//@@ ret r
//@@ spec
    requires file(old(self).font.bytes@)
    ensures
        final(self).font == old(self).font,
        r is Ok ==> forall|before: Seq<char>| #[trigger] old(self).shapes(before) ==> final(self).shapes(before + text_.rest()),
        // also when an error ends it, what was there stays
        forall|before: Seq<char>| #[trigger] old(self).shapes(before) ==> exists|k: int| 0 <= k <= text_.rest().len() && #[trigger] final(self).shapes(before + text_.rest().take(k)),
        old(self).glyphs@.len() <= final(self).glyphs@.len() && final(self).glyphs@.take(old(self).glyphs@.len() as int) == old(self).glyphs@,
//@@ loop 1
    invariant
        file(self.font.bytes@), self.font == old(self).font,
        text.rest().len() <= text_.rest().len(),
        text.rest() == text_.rest().skip(text_.rest().len() - text.rest().len()),
        forall|before: Seq<char>| #[trigger] old(self).shapes(before) ==> self.shapes(before + text_.rest().take(text_.rest().len() - text.rest().len())),
        old(self).glyphs@.len() <= self.glyphs@.len(), self.glyphs@.take(old(self).glyphs@.len() as int) == old(self).glyphs@,
    ensures
        text.rest().len() == 0
    decreases text.rest().len()
//@@ end
//@@ fn victor/src/text.rs | impl ShapedSegment :: append_char
//@@ sub /self\.advance_width \+= (self\.font\.glyph_width\(id\)\?);/ => self.advance_width = add_em(self.advance_width, \1);
//@@ ret r
//@@ spec
    requires file(old(self).font.bytes@)
    ensures
        final(self).font == old(self).font,
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).glyphs@.len() == old(self).glyphs@.len() + 1 && final(self).glyphs@.drop_last() == old(self).glyphs@
            && final(self).font.has_glyph(ch, final(self).glyphs@.last())
            && final(self).advance_width == plus_em(old(self).advance_width, final(self).font.advance_of(final(self).glyphs@.last())),
        r is Ok ==> forall|before: Seq<char>| #[trigger] old(self).shapes(before) ==> final(self).shapes(before.push(ch)),
//@@ end
//@@ fn victor/src/text.rs | impl ShapedSegment :: save
//@@ ret r
//@@ spec
    ensures
        r.glyphs == self.glyphs@.len(), r.advance_width == self.advance_width,
        forall|text: Seq<char>| #[trigger] self.shapes(text) ==> saved(r, self.glyphs@, *self.font),
//@@ end
//@@ fn victor/src/text.rs | impl ShapedSegment :: restore
//@@ spec
    ensures
        final(self).font == old(self).font,
        final(self).advance_width == state.advance_width,
        state.glyphs <= old(self).glyphs@.len() ==> final(self).glyphs@ == old(self).glyphs@.take(state.glyphs as int),
        // the segment is what it was when the state was saved, if it still starts with what it had then
        forall|g: Seq<GlyphId>| #[trigger] saved(*state, g, *old(self).font) && g.len() <= old(self).glyphs@.len() && g == old(self).glyphs@.take(g.len() as int)
            ==> final(self).glyphs@ == g && final(self).advance_width == final(self).font.total(g),
//@@ end
}
/// Going back gives exactly the segment of the text that had been there when the state was saved, whatever was appended since.
proof fn lemma_restored(before: ShapedSegment, state: ShapedSegmentState, after: ShapedSegment, text: Seq<char>)
    requires before.shapes(text), saved(state, before.glyphs@, *before.font), after.font == before.font, after.glyphs@ == before.glyphs@, after.advance_width == state.advance_width
    ensures after.shapes(text)
{}
