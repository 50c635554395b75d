//@@ gsub /match \*contents \{\}/ => never(contents)
//@@ gsub /(?<![\w.])(\d+)\.(\d)(?![\w.])/ => tenths(\1\2)
#[verifier::external_body]
pub fn tenths(n: u32) -> (r: F32) ensures r.0@ == n as real / 10real { unimplemented!() }
// derived: the same number
impl PartialOrdSpecImpl<Length> for Length {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Length) -> Option<std::cmp::Ordering> {
        Some(if self.v() < o.v() { std::cmp::Ordering::Less } else if self.v() == o.v() { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
    }
}
impl PartialOrd for Length {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Length) -> Option<std::cmp::Ordering> { unimplemented!() }
}
// derived: field by field
impl Clone for Sides<Length> {
    fn clone(&self) -> (r: Self) ensures r == *self
    { Sides { inline_start: self.inline_start, inline_end: self.inline_end, block_start: self.block_start, block_end: self.block_end } }
}
/// `take` of layout/mod.rs, for lists
fn take<T>(x: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(x)@, final(x)@ == Seq::<T>::empty() { std::mem::replace(x, Vec::new()) }
/// std::slice::Iter of a list of boxes
pub struct Boxes<'a> { pub v: &'a Vec<Arc<InlineLevelBox>>, pub at: usize }
impl<'a> Boxes<'a> {
    pub open spec fn ok(self) -> bool { self.at <= self.v@.len() }
    fn next(&mut self) -> (r: Option<&'a Arc<InlineLevelBox>>)
        requires old(self).ok()
        ensures
            final(self).v == old(self).v, final(self).ok(),
            old(self).at == old(self).v@.len() ==> r is None && *final(self) == *old(self),
            old(self).at < old(self).v@.len() ==> (r matches Some(x) && *x == old(self).v@[old(self).at as int]) && final(self).at == old(self).at + 1
    {
        if self.at < self.v.len() { let r = &self.v[self.at]; self.at = self.at + 1; Some(r) } else { None }
    }
}
fn boxes_of<'a>(v: &'a Vec<Arc<InlineLevelBox>>) -> (r: Boxes<'a>) ensures r.v == v, r.at == 0 { Boxes { v, at: 0 } }
//@@ gsub /std::slice::Iter<'box_tree, Arc<InlineLevelBox>>/ => Boxes<'box_tree>
//@@ gsub /self\.(inline_level_boxes|children)\.iter\(\)/ => boxes_of(&self.\1)
/// std::str::Chars
#[verifier::external_body]
pub struct TextChars<'a> { x: std::str::Chars<'a> }
impl<'a> TextChars<'a> {
    /// the whole text, and how many characters of it have been taken
    pub uninterp spec fn of(self) -> Seq<char>;
    pub uninterp spec fn at(self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures
            final(self).of() == old(self).of(), 0 <= old(self).at() <= old(self).of().len(), final(self).at() <= old(self).of().len(),
            old(self).at() == old(self).of().len() ==> r is None && final(self).at() == old(self).at(),
            old(self).at() < old(self).of().len() ==> r == Some(old(self).of()[old(self).at()]) && final(self).at() == old(self).at() + 1
    { self.x.next() }
    #[verifier::external_body]
    fn at_end(&self) -> (r: bool) ensures r == (self.at() == self.of().len()) { self.x.as_str().is_empty() }
    #[verifier::external_body]
    fn copy(&self) -> (r: Self) ensures r.of() == self.of(), r.at() == self.at() { TextChars { x: self.x.clone() } }
}
#[verifier::external_body]
fn chars_of<'a>(t: &'a String) -> (r: TextChars<'a>) ensures r.of() == t@, r.at() == 0 { TextChars { x: t.chars() } }

//@@ item victor/src/layout/flow/inline.rs | struct InlineNestingLevelState
//@@ sub /(\n    )(\w+):/ => \1pub \2:
//@@ sub /\bstruct/ => pub struct
//@@ end
//@@ item victor/src/layout/flow/inline.rs | struct PartialInlineBoxFragment
//@@ sub /(\n    )(\w+):/ => \1pub \2:
//@@ sub /\bstruct/ => pub struct
//@@ end
//@@ item victor/src/layout/flow/inline.rs | struct InlineFormattingContextState
//@@ sub /(\n    )(\w+):/ => \1pub \2:
//@@ sub /\bstruct/ => pub struct
//@@ end
//@@ item victor/src/layout/flow/inline.rs | struct LinesBoxes
//@@ sub /(\n    )(\w+):/ => \1pub \2:
//@@ sub /\bstruct/ => pub struct
//@@ end

// ---------------------------------------------------------------- what lines of text are
pub open spec fn text_width(size: real, text: Seq<char>) -> real { size * advance_of(vera(), text) }
/// Where the piece of a text ends that starts at `from` and goes on a line with this room, and where the next one starts:
/// `i` characters have been looked at, and they fit up to the break opportunity `last`
pub open spec fn piece(text: Seq<char>, from: int, i: int, last: Option<int>, room: real, size: real) -> (int, int)
    decreases text.len() - i
{
    if i >= text.len() || text[i] == ' ' {
        if text_width(size, text.subrange(from, i)) > room {
            match last { Some(l) => (l, l + 1), None => (i, if i < text.len() { i + 1 } else { i }) }
        } else if i >= text.len() { (i, i) } else { piece(text, from, i + 1, Some(i), room, size) }
    } else { piece(text, from, i + 1, last, room, size) }
}
/// the pieces of a text from `from` on: on a first line with this room, and then on whole lines
pub open spec fn pieces(text: Seq<char>, from: int, room: real, whole: real, size: real) -> Seq<(int, int)>
    decreases text.len() - from
{
    let p = piece(text, from, from, None, room, size);
    if 0 <= from && from < p.1 < text.len() { seq![p] + pieces(text, p.1, whole, whole, size) } else { seq![p] }
}
/// the next place behind i where a line may end
pub open spec fn next_stop(text: Seq<char>, i: int) -> int
    decreases text.len() - i
{
    if i >= text.len() || text[i] == ' ' { i } else { next_stop(text, i + 1) }
}
pub open spec fn no_space(text: Seq<char>, from: int, to: int) -> bool { forall|k: int| from <= k < to ==> #[trigger] text[k] != ' ' }
/// A piece is as much of the text as fits, or the first word if not even that fits.
pub open spec fn is_line(text: Seq<char>, from: int, p: (int, int), room: real, size: real) -> bool {
    &&& from <= p.0 <= p.1 <= text.len()
    // it ends at the end of the text or at a space, which goes away
    &&& if p.0 == text.len() { p.1 == text.len() } else { text[p.0] == ' ' && p.1 == p.0 + 1 }
    &&& (p.0 < text.len() ==> {
        ||| !(text_width(size, text.subrange(from, p.0)) <= room)
        ||| !(text_width(size, text.subrange(from, next_stop(text, p.0 + 1))) <= room)
    })
    &&& (text_width(size, text.subrange(from, p.0)) <= room || no_space(text, from, p.0))
}
proof fn lemma_piece(text: Seq<char>, from: int, i: int, last: Option<int>, room: real, size: real)
    requires
        0 <= from <= i <= text.len(),
        last is None ==> no_space(text, from, i),
        last matches Some(l) ==> from <= l < i && text[l] == ' ' && text_width(size, text.subrange(from, l)) <= room && no_space(text, l + 1, i),
    ensures is_line(text, from, piece(text, from, i, last, room, size), room, size)
    decreases text.len() - i
{
    if i >= text.len() || text[i] == ' ' {
        if text_width(size, text.subrange(from, i)) > room {
            if last is Some { lemma_next_stop(text, last->0 + 1, i); }
        } else if i < text.len() { lemma_piece(text, from, i + 1, Some(i), room, size); }
    } else { lemma_piece(text, from, i + 1, last, room, size); }
}
proof fn lemma_next_stop(text: Seq<char>, a: int, i: int)
    requires 0 <= a <= i <= text.len(), no_space(text, a, i), i == text.len() || text[i] == ' '
    ensures next_stop(text, a) == i
    decreases i - a
{ if a < i { lemma_next_stop(text, a + 1, i); } }
/// The pieces of a text are its lines, and nothing but one space between two of them (and one at the very end) is left out.
pub proof fn text_is_kept(text: Seq<char>, from: int, room: real, whole: real, size: real)
    requires 0 <= from <= text.len()
    ensures ({
        let ps = pieces(text, from, room, whole, size);
        &&& ps.len() > 0
        &&& is_line(text, from, ps[0], room, size)
        &&& forall|k: int| 0 < k < ps.len() ==> is_line(text, ps[k - 1].1, #[trigger] ps[k], whole, size)
        &&& ps.last().1 == text.len()
    })
    decreases text.len() - from
{
    lemma_piece(text, from, from, None, room, size);
    let p = piece(text, from, from, None, room, size);
    if 0 <= from && from < p.1 < text.len() {
        text_is_kept(text, p.1, whole, whole, size);
        let (ps, rest) = (pieces(text, from, room, whole, size), pieces(text, p.1, whole, whole, size));
        assert(ps == seq![p] + rest);
        assert forall|k: int| 0 < k < ps.len() implies is_line(text, ps[k - 1].1, #[trigger] ps[k], whole, size) by {
            assert(ps[k] == rest[k - 1]);
            if k > 1 { assert(ps[k - 1] == rest[k - 2]); }
        }
    } else if p.1 < text.len() {
        assert(p.0 == p.1 - 1);
        assert(p.1 > from);
    }
}

// ---------------------------------------------------------------- what inline layout gives
/// What is on the lines, in order from left to right and from top to bottom
pub enum Mark {
    /// an inline box starts on a line: where its content starts, relative to the line, with what is at its start
    Start { x: Length, y: Length, style: Arc<ComputedValues>, padding: Sides<Length>, border: Sides<Length>, margin: Sides<Length> },
    /// … and ends on it: where its content ends, with what is at its end, and how high its content is
    End { x: Length, padding: Length, border: Length, margin: Length, height: Length },
    /// a text: its font size gives its height
    Text { x: Length, y: Length, width: Length, height: Length, style: Arc<ComputedValues>, glyphs: Seq<GlyphId> },
    /// the line ends: where it is, and how high
    Line { y: Length, width: Length, height: Length },
}
/// An inline box that has started
pub struct Open { pub style: Arc<ComputedValues>, pub y: Length, pub padding: Sides<Length>, pub border: Sides<Length>, pub margin: Sides<Length>, pub last: bool }
/// A place on a line: how far it is, the boxes that it is in, the heights of the line and of these boxes so far,
/// what is in front of it, and the boxes out of flow with their static positions
pub struct Place { pub x: real, pub y: real, pub opens: Seq<Open>, pub heights: Seq<real>, pub marks: Seq<Mark>, pub out: Seq<(AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>)> }
pub open spec fn relative(st: ComputedValues, cb: ContainingBlock) -> (real, real) { css_relative(st, cb.inline_size.v(), cb.block_size.or(0real)) }
/// how far the boxes move what is in them, by relative positioning
pub open spec fn shift(opens: Seq<Open>, cb: ContainingBlock) -> real
    decreases opens.len()
{
    if opens.len() == 0 { 0real } else { shift(opens.drop_last(), cb) + relative(*opens.last().style, cb).0 }
}
pub open spec fn lens(s: Sides<LengthOrPercentage>, w: real) -> Sides<Length> {
    Sides { inline_start: len(s.inline_start.at(w)), inline_end: len(s.inline_end.at(w)), block_start: len(s.block_start.at(w)), block_end: len(s.block_end.at(w)) }
}
pub open spec fn auto_is_0(s: Sides<LengthOrPercentageOrAuto>, w: real) -> Sides<Length> {
    Sides { inline_start: len(s.inline_start.at(w).or(0real)), inline_end: len(s.inline_end.at(w).or(0real)), block_start: len(s.block_start.at(w).or(0real)), block_end: len(s.block_end.at(w).or(0real)) }
}
pub open spec fn no_start(s: Sides<Length>) -> Sides<Length> { Sides { inline_start: len(0real), ..s } }
pub open spec fn no_end(s: Sides<Length>) -> Sides<Length> { Sides { inline_end: len(0real), ..s } }
pub open spec fn block_len(s: Sides<Length>) -> real { s.block_start.v() + s.block_end.v() }
impl Open {
    pub open spec fn around(self) -> real { block_len(self.padding) + block_len(self.border) + block_len(self.margin) }
    pub open spec fn before(self) -> real { self.padding.inline_start.v() + self.border.inline_start.v() + self.margin.inline_start.v() }
    pub open spec fn after(self) -> real { self.padding.inline_end.v() + self.border.inline_end.v() + self.margin.inline_end.v() }
    /// the box on the next line
    pub open spec fn again(self) -> Open { Open { padding: no_start(self.padding), border: no_start(self.border), margin: no_start(self.margin), ..self } }
    pub open spec fn start(self, x: real) -> Mark { Mark::Start { x: len(x), y: self.y, style: self.style, padding: no_end(self.padding), border: no_end(self.border), margin: no_end(self.margin) } }
    pub open spec fn end(self, x: real, broken: bool, height: real) -> Mark {
        if self.last && !broken { Mark::End { x: len(x), padding: self.padding.inline_end, border: self.border.inline_end, margin: self.margin.inline_end, height: len(height) } }
        else { Mark::End { x: len(x), padding: len(0real), border: len(0real), margin: len(0real), height: len(height) } }
    }
}
/// an inline box starts: what is at its start takes space, if this is its first part
pub open spec fn opening(b: InlineBox, cb: ContainingBlock) -> Open {
    let w = cb.inline_size.v();
    let (p, r, m) = (lens(b.style.paddings(), w), lens(b.style.borders(), w), auto_is_0(b.style.margins(), w));
    let o = Open { style: b.style, y: len(p.block_start.v() + r.block_start.v() + m.block_start.v() + relative(*b.style, cb).1), padding: p, border: r, margin: m, last: b.last_fragment };
    if b.first_fragment { o } else { o.again() }
}
pub open spec fn open_box(s: Place, b: InlineBox, cb: ContainingBlock) -> Place {
    let o = opening(b, cb);
    let x = s.x + o.before();
    let opens = s.opens.push(o);
    Place { x, opens, heights: s.heights.push(0real), marks: s.marks.push(o.start(x + shift(opens, cb))), ..s }
}
/// the innermost box ends on this line: the boxes around it are as high as it is
pub open spec fn end_box(s: Place, broken: bool, cb: ContainingBlock) -> Place {
    let o = s.opens.last();
    let n = s.heights.len() - 1;
    Place {
        opens: s.opens.drop_last(), heights: s.heights.drop_last().update(n - 1, rmax(s.heights[n - 1], s.heights[n] + o.around())),
        marks: s.marks.push(o.end(s.x + shift(s.opens, cb), broken, s.heights[n])), x: if o.last && !broken { s.x + o.after() } else { s.x }, ..s
    }
}
/// … and all of them
pub open spec fn end_boxes(s: Place, cb: ContainingBlock) -> Place
    decreases s.opens.len()
{
    if s.opens.len() == 0 { s } else { end_boxes(end_box(s, true, cb), cb) }
}
pub open spec fn end_line(s: Place, cb: ContainingBlock) -> Place {
    Place { marks: s.marks.push(Mark::Line { y: len(s.y), width: cb.inline_size, height: len(s.heights[0]) }), y: s.y + s.heights[0], heights: s.heights.update(0, 0real), ..s }
}
pub open spec fn starts(opens: Seq<Open>, cb: ContainingBlock) -> Seq<Mark>
    decreases opens.len()
{
    if opens.len() == 0 { Seq::empty() } else { starts(opens.drop_last(), cb).push(opens.last().start(shift(opens, cb))) }
}
pub open spec fn again(opens: Seq<Open>) -> Seq<Open> { opens.map_values(|o: Open| o.again()) }
pub open spec fn zeros(n: nat) -> Seq<real> { Seq::new(n, |i: int| 0real) }
/// A line ends, and the boxes go on on the next one: nothing is at their ends and starts there
pub open spec fn break_line(s: Place, cb: ContainingBlock) -> Place {
    let e = end_line(end_boxes(s, cb), cb);
    let opens = again(s.opens);
    Place { x: 0real, opens, heights: zeros(opens.len() + 1), marks: e.marks + starts(opens, cb), ..e }
}
/// 1.2 times the font size
pub open spec fn line_height(st: ComputedValues) -> real { st.font.font_size.0.v() * (12real / 10real) }
pub open spec fn put_piece(s: Place, text: Seq<char>, st: Arc<ComputedValues>, cb: ContainingBlock) -> Place {
    let w = text_width(st.font.font_size.0.v(), text);
    let n = s.heights.len() - 1;
    Place {
        marks: s.marks.push(Mark::Text { x: len(s.x + shift(s.opens, cb)), y: len(0real), width: len(w), height: len(line_height(*st)), style: st, glyphs: glyphs_of(vera(), text) }),
        x: s.x + w, heights: s.heights.update(n, rmax(s.heights[n], line_height(*st))), ..s
    }
}
/// the pieces of a text, the first of which starts at `from`
pub open spec fn put(s: Place, text: Seq<char>, from: int, ps: Seq<(int, int)>, st: Arc<ComputedValues>, cb: ContainingBlock) -> Place
    decreases ps.len()
{
    if ps.len() == 0 { s } else {
        let t = put_piece(s, text.subrange(from, ps[0].0), st, cb);
        if ps.len() == 1 { t } else { put(break_line(t, cb), text, ps[0].1, ps.skip(1), st, cb) }
    }
}
pub open spec fn put_text(s: Place, r: TextRun, cb: ContainingBlock) -> Place {
    put(s, r.text@, 0, pieces(r.text@, 0, cb.inline_size.v() - s.x, cb.inline_size.v(), r.parent_style.font.font_size.0.v()), r.parent_style, cb)
}
/// a box out of flow: its static position is here if it is an inline box, else at the start of the line
pub open spec fn put_out(s: Place, b: AbsolutelyPositionedBox) -> Place {
    let x = match b.style.specified_display { Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Inline, inside: _ }) => s.x, _ => 0real };
    Place { out: s.out.push((b, offsets_of(len(x), b.style.offsets().inline_start, b.style.offsets().inline_end), offsets_of(len(s.y), b.style.offsets().block_start, b.style.offsets().block_end))), ..s }
}
/// The inline contents of a block in order
pub enum Item { Open(InlineBox), Close, Text(TextRun), Out(AbsolutelyPositionedBox), Skip }
pub open spec fn items(b: InlineLevelBox) -> Seq<Item>
    decreases b
{
    match b {
        InlineLevelBox::InlineBox(i) => (seq![Item::Open(i)] + items_from(i.children@, 0)).push(Item::Close),
        InlineLevelBox::TextRun(r) => seq![Item::Text(r)],
        InlineLevelBox::OutOfFlowAbsolutelyPositionedBox(a) => seq![Item::Out(a)],
        // not implemented
        InlineLevelBox::OutOfFlowFloatBox(_) => seq![Item::Skip],
        // there are none
        InlineLevelBox::Atomic { .. } => seq![Item::Skip],
    }
}
pub open spec fn items_from(bs: Seq<Arc<InlineLevelBox>>, i: int) -> Seq<Item>
    decreases bs, bs.len() - i
{
    if i < 0 || i >= bs.len() { Seq::empty() } else { items(*bs[i]) + items_from(bs, i + 1) }
}
pub open spec fn step(s: Place, i: Item, cb: ContainingBlock) -> Place {
    match i { Item::Open(b) => open_box(s, b, cb), Item::Close => end_box(s, false, cb), Item::Text(r) => put_text(s, r, cb), Item::Out(a) => put_out(s, a), Item::Skip => s }
}
pub open spec fn run(s: Place, todo: Seq<Item>, cb: ContainingBlock) -> Place
    decreases todo.len()
{
    if todo.len() == 0 { s } else { run(step(s, todo[0], cb), todo.skip(1), cb) }
}
pub open spec fn nowhere() -> Place { Place { x: 0real, y: 0real, opens: Seq::empty(), heights: seq![0real], marks: Seq::empty(), out: Seq::empty() } }
/// all of it, on lines
pub open spec fn inline_layout(boxes: Seq<Arc<InlineLevelBox>>, cb: ContainingBlock) -> Place { end_line(run(nowhere(), items_from(boxes, 0), cb), cb) }

// ---------------------------------------------------------------- what fragments are
/// what is in a fragment, with x the place of its container
pub open spec fn marks_of(f: Fragment, x: real) -> Seq<Mark>
    decreases f
{
    match f {
        Fragment::Box(b) => {
            let c = x + b.content_rect.start_corner.inline.v();
            (seq![Mark::Start { x: len(c), y: b.content_rect.start_corner.block, style: b.style, padding: no_end(b.padding), border: no_end(b.border), margin: no_end(b.margin) }]
                + marks_upto(b.children@, b.children@.len() as int, c))
                .push(Mark::End { x: len(c + b.content_rect.size.inline.v()), padding: b.padding.inline_end, border: b.border.inline_end, margin: b.margin.inline_end, height: b.content_rect.size.block })
        },
        Fragment::Text(t) => seq![Mark::Text { x: len(x + t.content_rect.start_corner.inline.v()), y: t.content_rect.start_corner.block, width: t.content_rect.size.inline, height: t.content_rect.size.block, style: t.parent_style, glyphs: t.text.glyphs@ }],
        Fragment::Anonymous(a) => marks_upto(a.children@, a.children@.len() as int, x + a.rect.start_corner.inline.v()).push(Mark::Line { y: a.rect.start_corner.block, width: a.rect.size.inline, height: a.rect.size.block }),
    }
}
pub open spec fn marks_upto(fs: Seq<Fragment>, n: int, x: real) -> Seq<Mark>
    decreases fs, n
{
    if n <= 0 || n > fs.len() { Seq::empty() } else { marks_upto(fs, n - 1, x) + marks_of(fs[n - 1], x) }
}
pub open spec fn marks(fs: Seq<Fragment>, x: real) -> Seq<Mark> { marks_upto(fs, fs.len() as int, x) }
/// line boxes: without any but lines in them
pub open spec fn lines(fs: Seq<Fragment>, cb: ContainingBlock) -> bool { forall|i: int| 0 <= i < fs.len() ==> is_line_box(#[trigger] fs[i], cb) }
pub open spec fn is_line_box(f: Fragment, cb: ContainingBlock) -> bool { f matches Fragment::Anonymous(a) && a.rect.start_corner.inline.v() == 0real && a.mode == cb.mode }
proof fn lemma_marks_same(a: Seq<Fragment>, b: Seq<Fragment>, n: int, x: real)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures marks_upto(a, n, x) == marks_upto(b, n, x)
    decreases n
{ if n > 0 { lemma_marks_same(a, b, n - 1, x); } }
proof fn lemma_marks_push(fs: Seq<Fragment>, f: Fragment, x: real)
    ensures marks(fs.push(f), x) == marks(fs, x) + marks_of(f, x)
{ lemma_marks_same(fs, fs.push(f), fs.len() as int, x); }

// ---------------------------------------------------------------- the state of the layout as a place
pub type Level<'a> = InlineNestingLevelState<'a>;
pub type Partial<'a> = PartialInlineBoxFragment<'a>;
pub open spec fn open_of(p: Partial) -> Open { Open { style: p.style, y: p.start_corner.block, padding: p.padding, border: p.border, margin: p.margin, last: p.last_box_tree_fragment } }
pub open spec fn opens_of(stack: Seq<Partial>) -> Seq<Open> { Seq::new(stack.len(), |i: int| open_of(stack[i])) }
/// level i: level 0 is the line, level i + 1 is in box i
pub open spec fn level<'a>(stack: Seq<Partial<'a>>, current: Level<'a>, i: int) -> Level<'a> { if i < stack.len() { stack[i].parent_nesting_level } else { current } }
pub open spec fn heights_of(stack: Seq<Partial>, current: Level) -> Seq<real> { Seq::new(stack.len() + 1, |i: int| level(stack, current, i).max_block_size_of_fragments_so_far.v()) }
pub open spec fn content_x(stack: Seq<Partial>, current: Level, cb: ContainingBlock) -> real { current.inline_start.v() + shift(opens_of(stack), cb) }
pub open spec fn marks_on_line(stack: Seq<Partial>, current: Level, cb: ContainingBlock) -> Seq<Mark>
    decreases stack.len()
{
    let c = content_x(stack, current, cb);
    if stack.len() == 0 { marks(current.fragments_so_far@, c) }
    else { marks_on_line(stack.drop_last(), stack.last().parent_nesting_level, cb).push(open_of(stack.last()).start(c)) + marks(current.fragments_so_far@, c) }
}
pub open spec fn todo_of(stack: Seq<Partial>, current: Level) -> Seq<Item>
    decreases stack.len()
{
    let here = items_from(current.remaining_boxes.v@, current.remaining_boxes.at as int);
    if stack.len() == 0 { here } else { here.push(Item::Close) + todo_of(stack.drop_last(), stack.last().parent_nesting_level) }
}
/// the content of a box starts where it does relative to what is around it
pub open spec fn linked<'a>(stack: Seq<Partial<'a>>, current: Level<'a>, cb: ContainingBlock) -> bool {
    &&& level(stack, current, 0).inline_start.v() == 0real
    &&& forall|i: int| 0 <= i < stack.len() ==> linked_at(#[trigger] stack[i], level(stack, current, i + 1), cb)
    &&& forall|i: int| 0 <= i <= stack.len() ==> (#[trigger] level(stack, current, i)).remaining_boxes.ok()
}
pub open spec fn linked_at(p: Partial, inside: Level, cb: ContainingBlock) -> bool {
    p.start_corner.inline.v() == inside.inline_start.v() - p.parent_nesting_level.inline_start.v() + relative(*p.style, cb).0
}
pub open spec fn place_of(x: Length, lines: LinesBoxes, stack: Seq<Partial>, current: Level, cb: ContainingBlock) -> Place {
    Place {
        x: x.v(), y: lines.next_line_block_position.v(), opens: opens_of(stack), heights: heights_of(stack, current),
        marks: marks(lines.boxes@, 0real) + marks_on_line(stack, current, cb), out: Seq::empty(),
    }
}
impl<'box_tree, 'cb> InlineFormattingContextState<'box_tree, 'cb> {
    pub open spec fn place(self) -> Place { place_of(self.inline_position, self.line_boxes, self.partial_inline_boxes_stack@, self.current_nesting_level, *self.containing_block) }
    pub open spec fn todo(self) -> Seq<Item> { todo_of(self.partial_inline_boxes_stack@, self.current_nesting_level) }
    pub open spec fn ok(self) -> bool { linked(self.partial_inline_boxes_stack@, self.current_nesting_level, *self.containing_block) && lines(self.line_boxes.boxes@, *self.containing_block) }
}
// ---------------------------------------------------------------- boxes
/// The box of a part of an inline box
pub open spec fn part(p: Partial, inside: Level, x: real, broken: bool) -> BoxFragment {
    let end = p.last_box_tree_fragment && !broken;
    BoxFragment {
        style: p.style, children: inside.fragments_so_far,
        content_rect: Rect { start_corner: p.start_corner, size: Vec2 { inline: len(x - inside.inline_start.v()), block: inside.max_block_size_of_fragments_so_far } },
        padding: if end { p.padding } else { no_end(p.padding) }, border: if end { p.border } else { no_end(p.border) }, margin: if end { p.margin } else { no_end(p.margin) },
        block_margins_collapsed_with_children: arbitrary(),
    }
}
/// … as far as its place and contents go
pub open spec fn is_part(b: BoxFragment, c: BoxFragment) -> bool {
    b.style == c.style && b.children@ == c.children@ && b.content_rect == c.content_rect && b.padding == c.padding && b.border == c.border && b.margin == c.margin
}
/// a level without fragments
pub open spec fn emptied(a: Level, b: Level) -> bool {
    b.fragments_so_far@ == Seq::<Fragment>::empty() && b.max_block_size_of_fragments_so_far == len(0real) && b.remaining_boxes == a.remaining_boxes && b.inline_start == a.inline_start
}
/// the level around a box that has ended
pub open spec fn with_part(a: Level, b: Level, f: BoxFragment) -> bool {
    &&& b.remaining_boxes == a.remaining_boxes && b.inline_start == a.inline_start
    &&& b.max_block_size_of_fragments_so_far == len(rmax(a.max_block_size_of_fragments_so_far.v(), f.content_rect.size.block.v() + (block_len(f.padding) + block_len(f.border) + block_len(f.margin))))
    &&& b.fragments_so_far@.len() == a.fragments_so_far@.len() + 1 && b.fragments_so_far@.drop_last() == a.fragments_so_far@
    &&& (b.fragments_so_far@.last() matches Fragment::Box(c) && is_part(c, f))
}
impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
//@@ fn victor/src/layout/flow/inline.rs | impl<'box_tree> PartialInlineBoxFragment<'box_tree> :: finish_layout
//@@ spec
    ensures
        emptied(*old(nesting_level), *final(nesting_level)),
        with_part(old(self).parent_nesting_level, final(self).parent_nesting_level, part(*old(self), *old(nesting_level), old(inline_position).v(), at_line_break)),
        final(self).style == old(self).style, final(self).start_corner == old(self).start_corner, final(self).padding == old(self).padding,
        final(self).border == old(self).border, final(self).margin == old(self).margin, final(self).last_box_tree_fragment == old(self).last_box_tree_fragment,
        *final(inline_position) == len(old(inline_position).v() + if old(self).last_box_tree_fragment && !at_line_break { open_of(*old(self)).after() } else { 0real }),
//@@ after /\.push\(Fragment::Box\(fragment\)\);/
    proof {
        let (a, b) = (old(self).parent_nesting_level, self.parent_nesting_level);
        assert(b.fragments_so_far@.drop_last() =~= a.fragments_so_far@);
        let c = b.fragments_so_far@.last()->Box_0;
        let f = part(*old(self), *old(nesting_level), old(inline_position).v(), at_line_break);
        assert(c.content_rect.size == f.content_rect.size);
        assert(c.content_rect.start_corner == f.content_rect.start_corner);
        assert(c.padding == f.padding && c.border == f.border && c.margin == f.margin);
        assert(is_part(c, f));
    }
//@@ end
}

/// one more line
pub open spec fn with_line(a: LinesBoxes, b: LinesBoxes, line: Level, cb: ContainingBlock) -> bool {
    let h = line.max_block_size_of_fragments_so_far;
    &&& b.next_line_block_position == len(a.next_line_block_position.v() + h.v())
    &&& b.boxes@.len() == a.boxes@.len() + 1 && b.boxes@.drop_last() == a.boxes@
    &&& (b.boxes@.last() matches Fragment::Anonymous(f) && f.children@ == line.fragments_so_far@ && f.mode == cb.mode
        && f.rect == (Rect { start_corner: Vec2 { inline: len(0real), block: a.next_line_block_position }, size: Vec2 { inline: cb.inline_size, block: h } }))
}
impl LinesBoxes {
//@@ fn victor/src/layout/flow/inline.rs | impl LinesBoxes :: finish_line
//@@ sub OPT /self\.next_line_block_position \+= ([^;]*);/ => self.next_line_block_position.add_assign(\1);
//@@ spec
    ensures emptied(*old(top_nesting_level), *final(top_nesting_level)), with_line(*old(self), *final(self), *old(top_nesting_level), *containing_block)
//@@ after /\.push\(Fragment::Anonymous\(AnonymousFragment \{.*\}\)\)/
    ; proof { assert(self.boxes@.drop_last() =~= old(self).boxes@); }
//@@ end
}
impl InlineBox {
//@@ fn victor/src/layout/flow/inline.rs | impl InlineBox :: start_layout
//@@ ret r
//@@ spec
    ensures
        final(ifc).containing_block == old(ifc).containing_block, final(ifc).line_boxes == old(ifc).line_boxes, final(ifc).partial_inline_boxes_stack == old(ifc).partial_inline_boxes_stack,
        final(ifc).inline_position == len(old(ifc).inline_position.v() + opening(*self, *old(ifc).containing_block).before()),
        r.parent_nesting_level == old(ifc).current_nesting_level,
        open_of(r) == opening(*self, *old(ifc).containing_block),
        linked_at(r, final(ifc).current_nesting_level, *old(ifc).containing_block),
        ({
            let l = final(ifc).current_nesting_level;
            l.remaining_boxes.v@ == self.children@ && l.remaining_boxes.at == 0 && l.fragments_so_far@ == Seq::<Fragment>::empty() && l.inline_start == final(ifc).inline_position && l.max_block_size_of_fragments_so_far == len(0real)
        }),
//@@ end
}
// ---------------------------------------------------------------- what the steps do to the place
proof fn lemma_opens(stack: Seq<Partial>)
    requires stack.len() > 0
    ensures opens_of(stack).last() == open_of(stack.last()), opens_of(stack).drop_last() == opens_of(stack.drop_last())
{ assert(opens_of(stack).drop_last() =~= opens_of(stack.drop_last())); }
#[verifier::spinoff_prover]
proof fn lemma_open_linked(x: Length, x2: Length, lines: LinesBoxes, stack: Seq<Partial>, current: Level, stack2: Seq<Partial>, inside: Level, b: InlineBox, cb: ContainingBlock)
    requires
        linked(stack, current, cb),
        stack2.len() == stack.len() + 1, stack2.drop_last() == stack, stack2.last().parent_nesting_level == current, open_of(stack2.last()) == opening(b, cb),
        linked_at(stack2.last(), inside, cb), x2 == len(x.v() + opening(b, cb).before()),
        inside.remaining_boxes.v@ == b.children@, inside.remaining_boxes.at == 0, inside.fragments_so_far@ == Seq::<Fragment>::empty(), inside.inline_start == x2, inside.max_block_size_of_fragments_so_far == len(0real),
    ensures linked(stack2, inside, cb)
{
    hide(opening); hide(open_of);
    let n = stack.len() as int;
    assert forall|i: int| 0 <= i < stack2.len() implies linked_at(#[trigger] stack2[i], level(stack2, inside, i + 1), cb) by {
        if i < n { assert(stack2[i] == stack[i]); if i + 1 < n { assert(stack2[i + 1] == stack[i + 1]); } assert(level(stack2, inside, i + 1) == level(stack, current, i + 1)); assert(linked_at(stack[i], level(stack, current, i + 1), cb)); }
        else { assert(stack2[i] == stack2.last()); assert(level(stack2, inside, i + 1) == inside); }
    }
    assert forall|i: int| 0 <= i <= stack2.len() implies (#[trigger] level(stack2, inside, i)).remaining_boxes.ok() by {
        if i < n { assert(stack2[i] == stack[i]); } if i <= n { assert(level(stack2, inside, i) == level(stack, current, i)); assert(level(stack, current, i).remaining_boxes.ok()); }
    }
    if n > 0 { assert(stack2[0] == stack[0]); }
    assert(level(stack2, inside, 0) == level(stack, current, 0));
}
#[verifier::spinoff_prover]
proof fn lemma_open(x: Length, x2: Length, lines: LinesBoxes, stack: Seq<Partial>, current: Level, stack2: Seq<Partial>, inside: Level, b: InlineBox, cb: ContainingBlock)
    requires
        linked(stack, current, cb),
        stack2.len() == stack.len() + 1, stack2.drop_last() == stack, stack2.last().parent_nesting_level == current, open_of(stack2.last()) == opening(b, cb),
        linked_at(stack2.last(), inside, cb), x2 == len(x.v() + opening(b, cb).before()),
        inside.remaining_boxes.v@ == b.children@, inside.remaining_boxes.at == 0, inside.fragments_so_far@ == Seq::<Fragment>::empty(), inside.inline_start == x2, inside.max_block_size_of_fragments_so_far == len(0real),
    ensures
        linked(stack2, inside, cb),
        place_of(x2, lines, stack2, inside, cb) == open_box(place_of(x, lines, stack, current, cb), b, cb),
        todo_of(stack2, inside) == items_from(b.children@, 0).push(Item::Close) + todo_of(stack, current),
{
    hide(opening); hide(linked); hide(linked_at); hide(items_from);
    lemma_open_linked(x, x2, lines, stack, current, stack2, inside, b, cb);
    let n = stack.len() as int;
    lemma_opens(stack2);
    let (s, t) = (place_of(x, lines, stack, current, cb), place_of(x2, lines, stack2, inside, cb));
    assert(t.opens =~= s.opens.push(opening(b, cb)));
    assert(t.heights =~= s.heights.push(0real)) by { assert forall|i: int| 0 <= i < t.heights.len() implies t.heights[i] == s.heights.push(0real)[i] by { if i < n { assert(stack2[i] == stack[i]); } } }
    assert(marks(inside.fragments_so_far@, content_x(stack2, inside, cb)) =~= Seq::<Mark>::empty());
    assert(t.marks =~= s.marks.push(opening(b, cb).start(x2.v() + shift(t.opens, cb))));
}
#[verifier::spinoff_prover]
proof fn lemma_end(x: Length, x2: Length, lines: LinesBoxes, stack: Seq<Partial>, current: Level, stack2: Seq<Partial>, around: Level, broken: bool, cb: ContainingBlock)
    requires
        stack.len() > 0, linked_at(stack.last(), current, cb),
        stack2 == stack.drop_last(), with_part(stack.last().parent_nesting_level, around, part(stack.last(), current, x.v(), broken)),
        x2 == len(x.v() + if stack.last().last_box_tree_fragment && !broken { open_of(stack.last()).after() } else { 0real }),
    ensures place_of(x2, lines, stack2, around, cb) == end_box(place_of(x, lines, stack, current, cb), broken, cb)
{
    let n = stack.len() as int;
    let p = stack.last();
    let (s, t) = (place_of(x, lines, stack, current, cb), place_of(x2, lines, stack2, around, cb));
    let e = end_box(s, broken, cb);
    lemma_opens(stack);
    assert(t.opens =~= e.opens);
    let f = around.fragments_so_far@.last()->Box_0;
    assert(s.heights[n] == current.max_block_size_of_fragments_so_far.v());
    assert(s.heights[n - 1] == p.parent_nesting_level.max_block_size_of_fragments_so_far.v());
    assert(t.heights =~= e.heights);
    let (c, c2) = (content_x(stack, current, cb), content_x(stack2, around, cb));
    let was = p.parent_nesting_level.fragments_so_far@;
    assert(around.fragments_so_far@ =~= was.push(Fragment::Box(f)));
    lemma_marks_push(was, Fragment::Box(f), c2);
    assert(c2 == content_x(stack2, p.parent_nesting_level, cb));
    assert(c == c2 + f.content_rect.start_corner.inline.v());
    let inside = marks(current.fragments_so_far@, c);
    let end = open_of(p).end(x.v() + shift(s.opens, cb), broken, s.heights[n]);
    assert(marks_of(Fragment::Box(f), c2) == (seq![open_of(p).start(c)] + inside).push(end));
    let before = marks_on_line(stack2, p.parent_nesting_level, cb);
    assert(marks_on_line(stack, current, cb) == before.push(open_of(p).start(c)) + inside);
    assert(marks_on_line(stack2, around, cb) =~= before + marks_of(Fragment::Box(f), c2));
    assert(t.marks =~= e.marks);
    assert(t.x == e.x);
}
/// the line: nothing is open
proof fn lemma_line(x: Length, a: LinesBoxes, b: LinesBoxes, line: Level, cb: ContainingBlock)
    requires with_line(a, b, line, cb), line.inline_start.v() == 0real, lines(a.boxes@, cb)
    ensures
        lines(b.boxes@, cb),
        ({
            let e = end_line(place_of(x, a, Seq::<Partial>::empty(), line, cb), cb);
            e.marks == marks(b.boxes@, 0real) && e.y == b.next_line_block_position.v()
        })
{
    let f = b.boxes@.last();
    assert(b.boxes@ =~= a.boxes@.push(f));
    lemma_marks_push(a.boxes@, f, 0real);
    let none = Seq::<Partial>::empty();
    let s = place_of(x, a, none, line, cb);
    assert(s.heights[0] == line.max_block_size_of_fragments_so_far.v());
    assert(shift(opens_of(none), cb) == 0real);
    assert(content_x(none, line, cb) == 0real);
    assert(marks_of(f, 0real) == marks(line.fragments_so_far@, 0real).push(Mark::Line { y: len(s.y), width: cb.inline_size, height: len(s.heights[0]) }));
    assert(end_line(s, cb).marks =~= marks(b.boxes@, 0real));
    assert forall|i: int| 0 <= i < b.boxes@.len() implies is_line_box(#[trigger] b.boxes@[i], cb) by { if i < a.boxes@.len() { assert(b.boxes@[i] == a.boxes@[i]); } }
}
/// boxes that have started on a line without anything on it yet
proof fn lemma_starts(stack: Seq<Partial>, current: Level, cb: ContainingBlock)
    requires forall|i: int| 0 <= i <= stack.len() ==> fresh_level(#[trigger] level(stack, current, i))
    ensures marks_on_line(stack, current, cb) == starts(opens_of(stack), cb)
    decreases stack.len()
{
    assert(fresh_level(level(stack, current, stack.len() as int)));
    if stack.len() > 0 {
        let (s, c) = (stack.drop_last(), stack.last().parent_nesting_level);
        assert forall|i: int| 0 <= i <= s.len() implies fresh_level(#[trigger] level(s, c, i)) by { assert(level(s, c, i) == level(stack, current, i)); }
        lemma_starts(s, c, cb);
        lemma_opens(stack);
    }
    assert(marks_on_line(stack, current, cb) =~= starts(opens_of(stack), cb));
}
pub open spec fn fresh_level(l: Level) -> bool { l.fragments_so_far@ == Seq::<Fragment>::empty() && l.max_block_size_of_fragments_so_far.v() == 0real && l.inline_start.v() == 0real }
/// what is left to do is known from the boxes that are left on each level
proof fn lemma_todo(a: Seq<Partial>, ac: Level, b: Seq<Partial>, bc: Level)
    requires a.len() == b.len(), forall|i: int| 0 <= i <= a.len() ==> (#[trigger] level(b, bc, i)).remaining_boxes == level(a, ac, i).remaining_boxes
    ensures todo_of(a, ac) == todo_of(b, bc)
    decreases a.len()
{
    assert(level(b, bc, a.len() as int).remaining_boxes == level(a, ac, a.len() as int).remaining_boxes);
    if a.len() > 0 {
        let (x, y) = (a.last().parent_nesting_level, b.last().parent_nesting_level);
        assert forall|i: int| 0 <= i <= a.drop_last().len() implies (#[trigger] level(b.drop_last(), y, i)).remaining_boxes == level(a.drop_last(), x, i).remaining_boxes by {
            assert(level(b.drop_last(), y, i) == level(b, bc, i) && level(a.drop_last(), x, i) == level(a, ac, i));
        }
        lemma_todo(a.drop_last(), x, b.drop_last(), y);
    }
}
/// the box at `at`, and the level inside of it
#[verifier::external_body]
fn box_and_inside<'a, 'b>(stack: &'a mut Vec<Partial<'b>>, current: &'a mut Level<'b>, at: usize) -> (r: (&'a mut Partial<'b>, &'a mut Level<'b>))
    requires at < old(stack)@.len()
    ensures
        *r.0 == old(stack)@[at as int], *r.1 == level(old(stack)@, *old(current), at + 1),
        at + 1 == old(stack)@.len() ==> *final(current) == *final(r.1) && final(stack)@ == old(stack)@.update(at as int, *final(r.0)),
        at + 1 < old(stack)@.len() ==> *final(current) == *old(current)
            && final(stack)@ == old(stack)@.update(at as int, *final(r.0)).update(at + 1, PartialInlineBoxFragment { parent_nesting_level: *final(r.1), ..old(stack)@[at + 1] }),
{
    let (a, b) = stack.split_at_mut(at + 1);
    (&mut a[at], match b.first_mut() { Some(p) => &mut p.parent_nesting_level, None => current })
}
/// the level of the line
#[verifier::external_body]
fn line_level<'a, 'b>(stack: &'a mut Vec<Partial<'b>>, current: &'a mut Level<'b>) -> (r: &'a mut Level<'b>)
    ensures
        *r == level(old(stack)@, *old(current), 0),
        old(stack)@.len() == 0 ==> *final(current) == *final(r) && final(stack)@ == old(stack)@,
        old(stack)@.len() > 0 ==> *final(current) == *old(current) && final(stack)@ == old(stack)@.update(0, PartialInlineBoxFragment { parent_nesting_level: *final(r), ..old(stack)@[0] }),
{ match stack.first_mut() { Some(p) => &mut p.parent_nesting_level, None => current } }
/// a text is put on the line
#[verifier::spinoff_prover]
proof fn lemma_put(x: Length, x2: Length, lines: LinesBoxes, stack: Seq<Partial>, current: Level, current2: Level, f: Fragment, text: Seq<char>, st: Arc<ComputedValues>, cb: ContainingBlock)
    requires
        x2 == len(x.v() + text_width(st.font.font_size.0.v(), text)),
        current2.inline_start == current.inline_start, current2.remaining_boxes == current.remaining_boxes, linked(stack, current, cb),
        current2.max_block_size_of_fragments_so_far == len(rmax(current.max_block_size_of_fragments_so_far.v(), line_height(*st))),
        current2.fragments_so_far@ == current.fragments_so_far@.push(f),
        f matches Fragment::Text(t) && t.parent_style == st && t.text.shapes(text) && *t.text.font == vera() && t.content_rect.start_corner.block == len(0real)
            && t.content_rect.start_corner.inline == len(x.v() - current.inline_start.v()) && t.content_rect.size.inline == len(text_width(st.font.font_size.0.v(), text)) && t.content_rect.size.block == len(line_height(*st)),
    ensures
        linked(stack, current2, cb), todo_of(stack, current2) == todo_of(stack, current),
        place_of(x2, lines, stack, current2, cb) == put_piece(place_of(x, lines, stack, current, cb), text, st, cb),
{
    let n = stack.len() as int;
    assert forall|i: int| 0 <= i <= n implies (#[trigger] level(stack, current2, i)).remaining_boxes.ok() by { assert(level(stack, current, i).remaining_boxes.ok()); }
    assert(level(stack, current2, 0).inline_start == level(stack, current, 0).inline_start);
    assert forall|i: int| 0 <= i < n implies linked_at(#[trigger] stack[i], level(stack, current2, i + 1), cb) by { assert(linked_at(stack[i], level(stack, current, i + 1), cb)); }
    let (s, t) = (place_of(x, lines, stack, current, cb), place_of(x2, lines, stack, current2, cb));
    let e = put_piece(s, text, st, cb);
    assert(s.heights[n] == current.max_block_size_of_fragments_so_far.v());
    assert(t.heights =~= e.heights);
    let c = content_x(stack, current, cb);
    lemma_marks_push(current.fragments_so_far@, f, c);
    assert(t.marks =~= e.marks);
}
proof fn lemma_same_level(x: Length, lines: LinesBoxes, stack: Seq<Partial>, current: Level, current2: Level, cb: ContainingBlock)
    requires current2.inline_start == current.inline_start, current2.fragments_so_far == current.fragments_so_far, current2.max_block_size_of_fragments_so_far == current.max_block_size_of_fragments_so_far, current2.remaining_boxes.ok(), linked(stack, current, cb)
    ensures place_of(x, lines, stack, current2, cb) == place_of(x, lines, stack, current, cb), linked(stack, current2, cb)
{
    let n = stack.len() as int;
    assert forall|i: int| 0 <= i <= n implies (#[trigger] level(stack, current2, i)).remaining_boxes.ok() by { if i < n { assert(level(stack, current, i).remaining_boxes.ok()); } }
    assert(level(stack, current2, 0).inline_start == level(stack, current, 0).inline_start);
    assert forall|i: int| 0 <= i < n implies linked_at(#[trigger] stack[i], level(stack, current2, i + 1), cb) by { assert(linked_at(stack[i], level(stack, current, i + 1), cb)); }
    assert(heights_of(stack, current2) =~= heights_of(stack, current));
    assert(marks_on_line(stack, current2, cb) == marks_on_line(stack, current, cb));
}
/// all boxes from `at` on have ended on the last line, and start on the next one
pub open spec fn broken_from<'a>(s0: Seq<Partial<'a>>, c0: Level<'a>, s: Seq<Partial<'a>>, c: Level<'a>, at: int, cb: ContainingBlock) -> bool {
    &&& s.len() == s0.len() && 0 <= at <= s.len()
    &&& forall|i: int| 0 <= i < at ==> #[trigger] s[i] == s0[i]
    &&& forall|i: int| at <= i < s.len() ==> again_at(s0[i], #[trigger] s[i], cb)
    &&& forall|i: int| at < i <= s.len() ==> fresh_level(#[trigger] level(s, c, i))
    &&& forall|i: int| 0 <= i <= s.len() ==> (#[trigger] level(s, c, i)).remaining_boxes == level(s0, c0, i).remaining_boxes
    &&& level(s, c, at).inline_start == level(s0, c0, at).inline_start
}
pub open spec fn again_at(p: Partial, q: Partial, cb: ContainingBlock) -> bool { open_of(q) == open_of(p).again() && q.start_corner.inline.v() == relative(*p.style, cb).0 }
/// one box more
#[verifier::spinoff_prover]
proof fn lemma_broken_step_a<'a>(x: Length, lines: LinesBoxes, s0: Seq<Partial<'a>>, c0: Level<'a>, s: Seq<Partial<'a>>, c: Level<'a>, s2: Seq<Partial<'a>>, c2: Level<'a>, at: int, cb: ContainingBlock)
    requires
        linked(s0, c0, cb), broken_from(s0, c0, s, c, at + 1, cb), 0 <= at,
        at + 1 == s.len() ==> s2 == s.update(at, s2[at]),
        at + 1 < s.len() ==> c2 == c && s2 == s.update(at, s2[at]).update(at + 1, PartialInlineBoxFragment { parent_nesting_level: level(s2, c2, at + 1), ..s[at + 1] }),
        with_part(s[at].parent_nesting_level, s2[at].parent_nesting_level, part(s[at], level(s, c, at + 1), x.v(), true)),
        again_at(s[at], s2[at], cb), fresh_level(level(s2, c2, at + 1)), level(s2, c2, at + 1).remaining_boxes == level(s, c, at + 1).remaining_boxes,
    ensures broken_from(s0, c0, s2, c2, at, cb)
{
    hide(part); hide(relative); hide(open_of); hide(linked);
    assert(s[at] == s0[at]);
    assert forall|i: int| 0 <= i < at implies #[trigger] s2[i] == s0[i] by { assert(s[i] == s0[i]); }
    assert forall|i: int| at <= i < s2.len() implies again_at(s0[i], #[trigger] s2[i], cb) by {
        if i > at { assert(again_at(s0[i], s[i], cb)); if i == at + 1 { lemma_other_level(s[i], s2[i], level(s2, c2, at + 1), s0[i], cb); } else { assert(s2[i] == s[i]); } }
    }
    assert forall|i: int| at < i <= s2.len() implies fresh_level(#[trigger] level(s2, c2, i)) by { if i > at + 1 { assert(fresh_level(level(s, c, i))); assert(level(s2, c2, i) == level(s, c, i)); } }
    assert forall|i: int| 0 <= i <= s2.len() implies (#[trigger] level(s2, c2, i)).remaining_boxes == level(s0, c0, i).remaining_boxes by {
        assert(level(s, c, i).remaining_boxes == level(s0, c0, i).remaining_boxes);
        if i < at || i > at + 1 { assert(level(s2, c2, i) == level(s, c, i)); }
    }
    assert(level(s2, c2, at) == s2[at].parent_nesting_level && level(s0, c0, at) == s0[at].parent_nesting_level);
}
proof fn lemma_other_level(p: Partial, q: Partial, l: Level, p0: Partial, cb: ContainingBlock)
    requires q == (PartialInlineBoxFragment { parent_nesting_level: l, ..p }), again_at(p0, p, cb)
    ensures again_at(p0, q, cb)
{}
#[verifier::spinoff_prover]
proof fn lemma_broken_step<'a>(x: Length, lines: LinesBoxes, s0: Seq<Partial<'a>>, c0: Level<'a>, s: Seq<Partial<'a>>, c: Level<'a>, s2: Seq<Partial<'a>>, c2: Level<'a>, at: int, cb: ContainingBlock)
    requires
        linked(s0, c0, cb), broken_from(s0, c0, s, c, at + 1, cb), 0 <= at,
        at + 1 == s.len() ==> s2 == s.update(at, s2[at]),
        at + 1 < s.len() ==> c2 == c && s2 == s.update(at, s2[at]).update(at + 1, PartialInlineBoxFragment { parent_nesting_level: level(s2, c2, at + 1), ..s[at + 1] }),
        with_part(s[at].parent_nesting_level, s2[at].parent_nesting_level, part(s[at], level(s, c, at + 1), x.v(), true)),
        again_at(s[at], s2[at], cb), fresh_level(level(s2, c2, at + 1)), level(s2, c2, at + 1).remaining_boxes == level(s, c, at + 1).remaining_boxes,
    ensures
        broken_from(s0, c0, s2, c2, at, cb),
        end_boxes(place_of(x, lines, s2.take(at), level(s2, c2, at), cb), cb) == end_boxes(place_of(x, lines, s.take(at + 1), level(s, c, at + 1), cb), cb),
{
    hide(part); hide(relative); hide(end_boxes); hide(again_at); hide(place_of); hide(with_part);
    lemma_broken_step_a(x, lines, s0, c0, s, c, s2, c2, at, cb);
    let (t, t2) = (s.take(at + 1), s2.take(at));
    assert(t.last() == s[at]);
    assert(linked_at(t.last(), level(s, c, at + 1), cb)) by {
        assert(s[at] == s0[at]);
        assert(linked_at(s0[at], level(s0, c0, at + 1), cb));
    }
    assert(t.drop_last() == t2) by {
        assert forall|i: int| 0 <= i < at implies t[i] == t2[i] by { }
        assert(t.drop_last() =~= t2);
    }
    assert(level(s2, c2, at) == s2[at].parent_nesting_level);
    lemma_step_ends(x, lines, t, level(s, c, at + 1), t2, s2[at].parent_nesting_level, cb);
}
#[verifier::spinoff_prover]
proof fn lemma_step_ends(x: Length, lines: LinesBoxes, stack: Seq<Partial>, current: Level, stack2: Seq<Partial>, around: Level, cb: ContainingBlock)
    requires stack.len() > 0, linked_at(stack.last(), current, cb), stack2 == stack.drop_last(), with_part(stack.last().parent_nesting_level, around, part(stack.last(), current, x.v(), true))
    ensures end_boxes(place_of(x, lines, stack2, around, cb), cb) == end_boxes(place_of(x, lines, stack, current, cb), cb)
{
    hide(end_box); hide(with_part); hide(linked_at);
    assert(len(x.v()) == x);
    lemma_end(x, x, lines, stack, current, stack2, around, true, cb);
    assert(place_of(x, lines, stack, current, cb).opens.len() == stack.len());
}
/// and then the line
#[verifier::spinoff_prover]
proof fn lemma_broken<'a>(x: Length, l0: LinesBoxes, l: LinesBoxes, s0: Seq<Partial<'a>>, c0: Level<'a>, s: Seq<Partial<'a>>, c: Level<'a>, s2: Seq<Partial<'a>>, c2: Level<'a>, cb: ContainingBlock)
    requires
        linked(s0, c0, cb), broken_from(s0, c0, s, c, 0, cb), lines(l0.boxes@, cb),
        end_boxes(place_of(x, l0, s0, c0, cb), cb) == place_of(x, l0, Seq::<Partial>::empty(), level(s, c, 0), cb),
        with_line(l0, l, level(s, c, 0), cb), emptied(level(s, c, 0), level(s2, c2, 0)),
        s.len() == 0 ==> s2 == s,
        s.len() > 0 ==> c2 == c && s2 == s.update(0, PartialInlineBoxFragment { parent_nesting_level: s2[0].parent_nesting_level, ..s[0] }),
    ensures
        linked(s2, c2, cb), lines(l.boxes@, cb), todo_of(s2, c2) == todo_of(s0, c0),
        place_of(len(0real), l, s2, c2, cb) == break_line(place_of(x, l0, s0, c0, cb), cb),
{
    let n = s.len() as int;
    lemma_line(x, l0, l, level(s, c, 0), cb);
    let (p0, p2) = (place_of(x, l0, s0, c0, cb), place_of(len(0real), l, s2, c2, cb));
    let b = break_line(p0, cb);
    assert forall|i: int| 0 <= i <= n implies fresh_level(#[trigger] level(s2, c2, i)) && level(s2, c2, i).remaining_boxes == level(s0, c0, i).remaining_boxes by {
        assert(level(s, c, i).remaining_boxes == level(s0, c0, i).remaining_boxes);
        if i > 0 { assert(fresh_level(level(s, c, i))); assert(level(s2, c2, i) == level(s, c, i)); }
    }
    assert forall|i: int| 0 <= i < n implies linked_at(#[trigger] s2[i], level(s2, c2, i + 1), cb) by {
        assert(again_at(s0[i], s[i], cb));
        assert(fresh_level(level(s2, c2, i)) && fresh_level(level(s2, c2, i + 1)));
        assert(s2[i].style == s0[i].style);
        assert(level(s2, c2, i) == s2[i].parent_nesting_level);
    }
    assert forall|i: int| 0 <= i <= n implies (#[trigger] level(s2, c2, i)).remaining_boxes.ok() by { assert(level(s0, c0, i).remaining_boxes.ok()); }
    assert(fresh_level(level(s2, c2, 0)));
    lemma_todo(s0, c0, s2, c2);
    lemma_starts(s2, c2, cb);
    assert(p2.opens =~= again(p0.opens)) by { assert forall|i: int| 0 <= i < n implies p2.opens[i] == again(p0.opens)[i] by { assert(again_at(s0[i], s[i], cb)); assert(open_of(s2[i]) == open_of(s[i])); } }
    assert(p2.heights =~= b.heights) by { assert forall|i: int| 0 <= i <= n implies p2.heights[i] == 0real by { assert(fresh_level(level(s2, c2, i))); } }
    assert(p2.marks =~= b.marks);
    assert(p2.y == b.y);
    assert(p2.x == b.x);
}
proof fn lemma_none_broken(s: Seq<Partial>, c: Level, cb: ContainingBlock) ensures broken_from(s, c, s, c, s.len() as int, cb) {}
proof fn lemma_none_open(x: Length, l: LinesBoxes, c: Level, cb: ContainingBlock)
    ensures end_boxes(place_of(x, l, Seq::<Partial>::empty(), c, cb), cb) == place_of(x, l, Seq::<Partial>::empty(), c, cb)
{}
proof fn lemma_x(x: Length, l: LinesBoxes, s: Seq<Partial>, c: Level, cb: ContainingBlock) ensures place_of(x, l, s, c, cb).x == x.v() {}
/// the pieces of a text that are left
proof fn lemma_pieces(s: Place, text: Seq<char>, from: int, st: Arc<ComputedValues>, room: real, whole: real, cb: ContainingBlock)
    requires 0 <= from <= text.len()
    ensures ({
        let size = st.font.font_size.0.v();
        let p = piece(text, from, from, None, room, size);
        let t = put_piece(s, text.subrange(from, p.0), st, cb);
        &&& from <= p.0 <= p.1 <= text.len() && (p.1 < text.len() ==> from < p.1)
        &&& put(s, text, from, pieces(text, from, room, whole, size), st, cb) == if p.1 < text.len() { put(break_line(t, cb), text, p.1, pieces(text, p.1, whole, whole, size), st, cb) } else { t }
    })
{
    let size = st.font.font_size.0.v();
    lemma_piece(text, from, from, None, room, size);
    let p = piece(text, from, from, None, room, size);
    let ps = pieces(text, from, room, whole, size);
    assert(ps[0] == p);
    if p.1 < text.len() {
        let rest = pieces(text, p.1, whole, whole, size);
        assert(ps == seq![p] + rest);
        text_is_kept(text, p.1, whole, whole, size);
        assert(rest.len() > 0);
        assert(ps.skip(1) =~= rest);
    }
}
impl TextRun {
//@@ fn victor/src/layout/flow/inline.rs | impl TextRun :: layout
//@@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover]
//@@ sub /let mut last_break_opportunity = None;/ => let mut last_break_opportunity: Option<(ShapedSegmentState, TextChars)> = None;
//@@ sub /self\.text\.chars\(\)/ => chars_of(&self.text)
//@@ sub /chars\.clone\(\)/ => chars.copy()
//@@ sub /chars\.as_str\(\)\.is_empty\(\)/ => chars.at_end()
//@@ sub /let mut nesting_level = &mut ifc\.current_nesting_level;\s*for partial in ifc\.partial_inline_boxes_stack\.iter_mut\(\)\.rev\(\) \{/ => let mut at_ = ifc.partial_inline_boxes_stack.len(); while at_ > 0 { at_ = at_ - 1; let (partial, nesting_level) = box_and_inside(&mut ifc.partial_inline_boxes_stack, &mut ifc.current_nesting_level, at_);
//@@ sub /nesting_level = &mut partial\.parent_nesting_level;\s*\}/ => } let nesting_level = line_level(&mut ifc.partial_inline_boxes_stack, &mut ifc.current_nesting_level);
//@@ spec
    requires old(ifc).ok()
    ensures
        final(ifc).ok(), final(ifc).containing_block == old(ifc).containing_block, final(ifc).todo() == old(ifc).todo(),
        final(ifc).place() == put_text(old(ifc).place(), *self, *old(ifc).containing_block),
//@@ start
    hide(place_of); hide(put); hide(pieces); hide(break_line); hide(end_boxes); hide(linked); hide(lines); hide(todo_of); hide(put_piece); hide(with_part); hide(broken_from); hide(advance_of);
    let ghost cb = *ifc.containing_block;
    let ghost text = self.text@;
    let ghost size = self.parent_style.font.font_size.0.v();
    let ghost whole = cb.inline_size.v();
    let ghost s0 = ifc.place();
    proof { lemma_x(ifc.inline_position, ifc.line_boxes, ifc.partial_inline_boxes_stack@, ifc.current_nesting_level, cb); }
//@@ loop 1
        invariant
            chars.of() == text, 0 <= chars.at() <= text.len(), ifc.ok(), ifc.containing_block == old(ifc).containing_block, ifc.todo() == old(ifc).todo(),
            put(ifc.place(), text, chars.at(), pieces(text, chars.at(), whole - ifc.inline_position.v(), whole, size), self.parent_style, cb) == put_text(s0, *self, cb),
        ensures ifc.ok(), ifc.containing_block == old(ifc).containing_block, ifc.todo() == old(ifc).todo(), ifc.place() == put_text(s0, *self, cb)
        decreases text.len() - chars.at()
//@@ loopstart 1
            let ghost from = chars.at();
            let ghost room = whole - ifc.inline_position.v();
            let ghost p = piece(text, from, from, None, room, size);
            proof { lemma_pieces(ifc.place(), text, from, self.parent_style, room, whole, cb); }
            let ghost i0 = *ifc;
//@@ beforeloop 2
            proof { assert(text.subrange(from, from) =~= Seq::<char>::empty()); }
//@@ loop 2
                invariant
                    chars.of() == text, from <= chars.at() <= text.len(), *shaped.font == vera(), shaped.shapes(text.subrange(from, chars.at())),
                    last_break_opportunity matches Some((state, iter)) ==> iter.of() == text && from < iter.at() <= chars.at() && state.glyphs == iter.at() - 1 - from && state.advance_width.0.0@ == advance_of(vera(), text.subrange(from, iter.at() - 1)),
                    p == piece(text, from, chars.at(), (match last_break_opportunity { Some((_, iter)) => Some(iter.at() - 1), None => None }), room, size),
                ensures chars.of() == text, chars.at() == p.1, *shaped.font == vera(), shaped.shapes(text.subrange(from, p.0))
                decreases text.len() - chars.at()
//@@ loopstart 2
                let ghost i = chars.at();
                proof {
                    if i < text.len() { assert(text.subrange(from, i + 1) =~= text.subrange(from, i).push(text[i])); }
                    if last_break_opportunity is Some { assert(text.subrange(from, i).take((last_break_opportunity->0).1.at() - 1 - from) =~= text.subrange(from, (last_break_opportunity->0).1.at() - 1)); }
                }
//@@ loop 3
                    invariant
                        at_ <= ifc.partial_inline_boxes_stack@.len(), ifc.containing_block == old(ifc).containing_block, ifc.line_boxes == i1.line_boxes, ifc.inline_position == i1.inline_position,
                        broken_from(i1.partial_inline_boxes_stack@, i1.current_nesting_level, ifc.partial_inline_boxes_stack@, ifc.current_nesting_level, at_ as int, cb),
                        end_boxes(place_of(i1.inline_position, i1.line_boxes, ifc.partial_inline_boxes_stack@.take(at_ as int), level(ifc.partial_inline_boxes_stack@, ifc.current_nesting_level, at_ as int), cb), cb) == end_boxes(i1.place(), cb),
                    decreases at_
//@@ beforeloop 3
                let ghost i1 = *ifc;
                proof { assert(i1.partial_inline_boxes_stack@.take(at_ as int) =~= i1.partial_inline_boxes_stack@); lemma_none_broken(i1.partial_inline_boxes_stack@, i1.current_nesting_level, cb); }
//@@ loopstart 3
                    let ghost (s, c) = (ifc.partial_inline_boxes_stack@, ifc.current_nesting_level);
//@@ loopend 3
                    proof { lemma_broken_step(i1.inline_position, i1.line_boxes, i1.partial_inline_boxes_stack@, i1.current_nesting_level, s, c, ifc.partial_inline_boxes_stack@, ifc.current_nesting_level, at_ as int, cb); }
//@@ afterloop 3
                let ghost (s, c) = (ifc.partial_inline_boxes_stack@, ifc.current_nesting_level);
                proof { assert(s.take(0) =~= Seq::<Partial>::empty()); lemma_none_open(i1.inline_position, i1.line_boxes, level(s, c, 0), cb); }
//@@ after /ifc\.inline_position = Length::zero\(\);/
                proof { lemma_broken(i1.inline_position, i1.line_boxes, ifc.line_boxes, i1.partial_inline_boxes_stack@, i1.current_nesting_level, s, c, ifc.partial_inline_boxes_stack@, ifc.current_nesting_level, cb); }
//@@ before /if chars\.at_end\(\)/
            proof {
                lemma_put(i0.inline_position, ifc.inline_position, i0.line_boxes, i0.partial_inline_boxes_stack@, i0.current_nesting_level, ifc.current_nesting_level, ifc.current_nesting_level.fragments_so_far@.last(), text.subrange(from, p.0), self.parent_style, cb);
            }
//@@ end
}

// ---------------------------------------------------------------- all of it
pub open spec fn with_out(s: Place, out: Seq<(AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>)>) -> Place { Place { out, ..s } }
proof fn lemma_out_ends(s: Place, out: Seq<(AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>)>, cb: ContainingBlock)
    ensures end_boxes(with_out(s, out), cb) == with_out(end_boxes(s, cb), out)
    decreases s.opens.len()
{ if s.opens.len() > 0 { lemma_out_ends(end_box(s, true, cb), out, cb); } }
proof fn lemma_out_put(s: Place, out: Seq<(AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>)>, text: Seq<char>, from: int, ps: Seq<(int, int)>, st: Arc<ComputedValues>, cb: ContainingBlock)
    ensures put(with_out(s, out), text, from, ps, st, cb) == with_out(put(s, text, from, ps, st, cb), out)
    decreases ps.len()
{
    if ps.len() > 1 {
        let t = put_piece(s, text.subrange(from, ps[0].0), st, cb);
        lemma_out_ends(t, out, cb);
        lemma_out_put(break_line(t, cb), out, text, ps[0].1, ps.skip(1), st, cb);
    }
}
/// the boxes out of flow
pub open spec fn out_is(o: Seq<AbsolutelyPositionedFragment>, out: Seq<(AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>)>, rank: usize) -> bool {
    o.len() == out.len() && forall|i: int| 0 <= i < o.len() ==> out_one(#[trigger] o[i], out[i], rank)
}
pub open spec fn out_one(f: AbsolutelyPositionedFragment, o: (AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>), rank: usize) -> bool {
    &&& *f.absolutely_positioned_box == o.0 && f.inline_start == o.1 && f.block_start == o.2 && f.tree_rank == rank
    &&& f.inline_size == o.0.style.sizes().inline && f.block_size == o.0.style.sizes().block
}
/// boxes out of flow are of elements that are displayed
pub open spec fn displayed(todo: Seq<Item>) -> bool { forall|i: int| 0 <= i < todo.len() ==> (#[trigger] todo[i] matches Item::Out(a) ==> a.style.specified_display is GeneratingBox) }
/// the first thing to do, when boxes are left here
proof fn lemma_next(stack: Seq<Partial>, a: Level, b: Level)
    requires a.remaining_boxes.at < a.remaining_boxes.v@.len(), b.remaining_boxes.v == a.remaining_boxes.v, b.remaining_boxes.at == a.remaining_boxes.at + 1
    ensures todo_of(stack, a) == items(*a.remaining_boxes.v@[a.remaining_boxes.at as int]) + todo_of(stack, b)
{
    let (v, i) = (a.remaining_boxes.v@, a.remaining_boxes.at as int);
    assert(items_from(v, i) == items(*v[i]) + items_from(v, i + 1));
    assert(todo_of(stack, a) =~= items(*v[i]) + todo_of(stack, b));
}
/// … and when none is
proof fn lemma_last(stack: Seq<Partial>, a: Level)
    requires a.remaining_boxes.at == a.remaining_boxes.v@.len()
    ensures todo_of(stack, a) == if stack.len() == 0 { Seq::<Item>::empty() } else { seq![Item::Close] + todo_of(stack.drop_last(), stack.last().parent_nesting_level) }
{
    if stack.len() > 0 { assert(todo_of(stack, a) =~= seq![Item::Close] + todo_of(stack.drop_last(), stack.last().parent_nesting_level)); }
}
proof fn lemma_run(s: Place, i: Item, rest: Seq<Item>, cb: ContainingBlock)
    ensures run(s, seq![i] + rest, cb) == run(step(s, i, cb), rest, cb), displayed(seq![i] + rest) ==> displayed(rest) && (i matches Item::Out(a) ==> a.style.specified_display is GeneratingBox)
{
    let all = seq![i] + rest;
    assert(all.skip(1) =~= rest);
    assert(all[0] == i);
    if displayed(all) { assert forall|k: int| 0 <= k < rest.len() implies (#[trigger] rest[k] matches Item::Out(a) ==> a.style.specified_display is GeneratingBox) by { assert(all[k + 1] == rest[k]); } }
}
#[verifier::spinoff_prover]
proof fn lemma_linked_less(stack: Seq<Partial>, current: Level, cb: ContainingBlock, around: Level)
    requires linked(stack, current, cb), stack.len() > 0, around.inline_start == stack.last().parent_nesting_level.inline_start, around.remaining_boxes == stack.last().parent_nesting_level.remaining_boxes
    ensures linked(stack.drop_last(), around, cb), linked_at(stack.last(), current, cb)
{
    let (s, p) = (stack.drop_last(), stack.last());
    let n = s.len() as int;
    assert(linked_at(stack[n], level(stack, current, n + 1), cb));
    assert forall|i: int| 0 <= i < s.len() implies linked_at(#[trigger] s[i], level(s, around, i + 1), cb) by { assert(linked_at(stack[i], level(stack, current, i + 1), cb)); }
    assert forall|i: int| 0 <= i <= s.len() implies (#[trigger] level(s, around, i)).remaining_boxes.ok() by { assert(level(stack, current, i).remaining_boxes.ok()); }
    assert(level(s, around, 0).inline_start == level(stack, current, 0).inline_start);
}
proof fn lemma_start(x: Length, l: LinesBoxes, current: Level, cb: ContainingBlock)
    requires x.v() == 0real, l.boxes@ == Seq::<Fragment>::empty(), l.next_line_block_position.v() == 0real, fresh_level(current), current.remaining_boxes.at == 0
    ensures
        linked(Seq::<Partial>::empty(), current, cb), lines(l.boxes@, cb),
        place_of(x, l, Seq::<Partial>::empty(), current, cb) == nowhere(), todo_of(Seq::<Partial>::empty(), current) == items_from(current.remaining_boxes.v@, 0),
{
    let s = place_of(x, l, Seq::<Partial>::empty(), current, cb);
    assert(s.opens =~= nowhere().opens);
    assert(s.heights =~= nowhere().heights);
    assert(s.marks =~= nowhere().marks);
}
proof fn lemma_out_steps(s: Place, out: Seq<(AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>)>, b: InlineBox, r: TextRun, cb: ContainingBlock)
    ensures
        step(with_out(s, out), Item::Open(b), cb) == with_out(open_box(s, b, cb), out),
        step(with_out(s, out), Item::Close, cb) == with_out(end_box(s, false, cb), out),
        step(with_out(s, out), Item::Text(r), cb) == with_out(put_text(s, r, cb), out),
{ lemma_out_put(s, out, r.text@, 0, pieces(r.text@, 0, cb.inline_size.v() - s.x, cb.inline_size.v(), r.parent_style.font.font_size.0.v()), r.parent_style, cb); }
proof fn lemma_with_part(a: Level, b: Level, f: BoxFragment) requires with_part(a, b, f) ensures b.remaining_boxes == a.remaining_boxes, b.inline_start == a.inline_start {}
proof fn lemma_run_done(s: Place, cb: ContainingBlock) ensures run(s, Seq::<Item>::empty(), cb) == s {}
proof fn lemma_ok_here(stack: Seq<Partial>, current: Level, cb: ContainingBlock) requires linked(stack, current, cb) ensures current.remaining_boxes.ok(), level(stack, current, 0).inline_start.v() == 0real
{ assert(level(stack, current, stack.len() as int).remaining_boxes.ok()); }
proof fn lemma_items(b: &InlineLevelBox)
    ensures match *b {
        InlineLevelBox::InlineBox(i) => items(*b) =~= seq![Item::Open(i)] + items_from(i.children@, 0).push(Item::Close),
        InlineLevelBox::TextRun(r) => items(*b) == seq![Item::Text(r)],
        InlineLevelBox::OutOfFlowAbsolutelyPositionedBox(a) => items(*b) == seq![Item::Out(a)],
        InlineLevelBox::OutOfFlowFloatBox(_) => items(*b) == seq![Item::Skip],
        InlineLevelBox::Atomic { .. } => true,
    }
{}
/// a place where a box out of flow is
proof fn lemma_out(x: Length, l: LinesBoxes, stack: Seq<Partial>, current: Level, a: AbsolutelyPositionedBox, out: Seq<(AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>)>, was: Seq<AbsolutelyPositionedFragment>, f: AbsolutelyPositionedFragment, rank: usize, n: int, cb: ContainingBlock)
    requires
        0 <= n <= was.len(), out_is(was.skip(n), out, rank), *f.absolutely_positioned_box == a, f.tree_rank == rank, f.inline_size == a.style.sizes().inline, f.block_size == a.style.sizes().block,
        a.style.specified_display is GeneratingBox,
        f.inline_start == offsets_of((match a.style.specified_display { Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Inline, inside: _ }) => x, _ => len(0real) }), a.style.offsets().inline_start, a.style.offsets().inline_end),
        f.block_start == offsets_of(l.next_line_block_position, a.style.offsets().block_start, a.style.offsets().block_end),
    ensures ({
        let s = place_of(x, l, stack, current, cb);
        let t = put_out(with_out(s, out), a);
        &&& t == with_out(s, t.out) && out_is(was.push(f).skip(n), t.out, rank) && was.push(f).take(n) == was.take(n)
    })
{
    let s = place_of(x, l, stack, current, cb);
    let t = put_out(with_out(s, out), a);
    assert(len(s.x) == x && len(s.y) == l.next_line_block_position);
    assert(was.push(f).take(n) =~= was.take(n));
    assert(was.push(f).skip(n) =~= was.skip(n).push(f));
    assert forall|i: int| 0 <= i < t.out.len() implies out_one(#[trigger] was.push(f).skip(n)[i], t.out[i], rank) by { if i < out.len() { assert(out_one(was.skip(n)[i], out[i], rank)); } }
}
impl InlineFormattingContext {
    /// these fragments are the inline content on its lines
    pub open spec fn gives(self, cb: ContainingBlock, rank: usize, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment>) -> bool {
        let end = inline_layout(self.inline_level_boxes@, cb);
        let cm = c.collapsible_margins_in_children;
        &&& marks(c.fragments@, 0real) == end.marks && lines(c.fragments@, cb)
        &&& c.block_size.v() == end.y
        // lines without any height are treated as not existing
        &&& cm.collapsed_through == (end.y == 0real) && cm.start.m() == no_margins() && cm.end.m() == no_margins()
        &&& out_is(o, end.out, rank)
    }
//@@ fn victor/src/layout/flow/inline.rs | impl InlineFormattingContext :: layout
//@@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover]
//@@ sub /panic!\("[^"]*"\)/ => not_reached()
//@@ sub /=> run\.layout\(&mut ifc\),/ => => { run.layout(&mut ifc); }
//@@ ret r
//@@ spec
    requires displayed(items_from(self.inline_level_boxes@, 0))
    ensures
        ({
            let (was, now) = (old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@);
            was.len() <= now.len() && now.take(was.len() as int) == was && self.gives(*containing_block, tree_rank, r, now.skip(was.len() as int))
        })
//@@ start
    hide(place_of); hide(run); hide(linked); hide(lines); hide(todo_of); hide(with_part); hide(open_box); hide(end_box); hide(put_text); hide(items_from); hide(displayed); hide(marks);
    let ghost cb = *containing_block;
    let ghost was = absolutely_positioned_fragments@;
    let ghost all = items_from(self.inline_level_boxes@, 0);
    let ghost mut out = Seq::<(AbsolutelyPositionedBox, AbsoluteBoxOffsets<LengthOrPercentage>, AbsoluteBoxOffsets<LengthOrPercentage>)>::empty();
//@@ beforeloop 1
    proof { lemma_start(ifc.inline_position, ifc.line_boxes, ifc.current_nesting_level, cb); assert(ifc.partial_inline_boxes_stack@ =~= Seq::<Partial>::empty()); assert(absolutely_positioned_fragments@.skip(was.len() as int) =~= Seq::<AbsolutelyPositionedFragment>::empty()); assert(absolutely_positioned_fragments@.take(was.len() as int) =~= was); }
//@@ loop 1
        invariant
            *ifc.containing_block == cb, ifc.ok(), displayed(ifc.todo()),
            run(with_out(ifc.place(), out), ifc.todo(), cb) == run(nowhere(), all, cb),
            was.len() <= absolutely_positioned_fragments@.len(), absolutely_positioned_fragments@.take(was.len() as int) == was,
            out_is(absolutely_positioned_fragments@.skip(was.len() as int), out, tree_rank),
        decreases ifc.todo().len()
//@@ loopstart 1
            let ghost i0 = ifc;
            proof { lemma_ok_here(i0.partial_inline_boxes_stack@, i0.current_nesting_level, cb); }
            let ghost mut i1 = ifc;
            let ghost mut rest = Seq::<Item>::empty();
            let ghost here = with_out(i0.place(), out);
//@@ after /remaining_boxes\.next\(\) \{/
                proof {
                    i1 = ifc;
                    rest = i1.todo();
                    lemma_next(i0.partial_inline_boxes_stack@, i0.current_nesting_level, i1.current_nesting_level);
                    lemma_same_level(i0.inline_position, i0.line_boxes, i0.partial_inline_boxes_stack@, i0.current_nesting_level, i1.current_nesting_level, cb);
                    lemma_items(&**child);
                    assert(i0.todo() == items(**child) + rest);
                    assert(i1.place() == i0.place());
                }
//@@ before /let partial = inline\.start_layout/
                        proof {
                            let inside = items_from(inline.children@, 0).push(Item::Close) + rest;
                            assert(i0.todo() =~= seq![Item::Open(*inline)] + inside);
                            lemma_run(here, Item::Open(*inline), inside, cb);
                            lemma_out_steps(i0.place(), out, *inline, arbitrary(), cb);
                        }
//@@ after /partial_inline_boxes_stack\.push\(partial\)/
                        ; proof {
                            assert(ifc.partial_inline_boxes_stack@.drop_last() =~= i1.partial_inline_boxes_stack@);
                            lemma_open(i1.inline_position, ifc.inline_position, i1.line_boxes, i1.partial_inline_boxes_stack@, i1.current_nesting_level, ifc.partial_inline_boxes_stack@, ifc.current_nesting_level, *inline, cb);
                        }
//@@ before /run\.layout\(&mut ifc\);/
                        proof {
                            lemma_run(here, Item::Text(*run), rest, cb);
                            lemma_out_steps(i0.place(), out, arbitrary(), *run, cb);
                        }
//@@ before /let initial_start_corner = /
                        let ghost before_ = absolutely_positioned_fragments@;
                        proof { lemma_run(here, Item::Out(*box_), rest, cb); }
//@@ after /\.push\(box_\.layout\(initial_start_corner, tree_rank\)\);/
                        proof {
                            let f = absolutely_positioned_fragments@.last();
                            lemma_out(i0.inline_position, i0.line_boxes, i1.partial_inline_boxes_stack@, i1.current_nesting_level, *box_, out, before_, f, tree_rank, was.len() as int, cb);
                            assert(absolutely_positioned_fragments@ == before_.push(f));
                            out = put_out(with_out(i1.place(), out), *box_).out;
                        }
//@@ before /continue;/
                        proof { lemma_run(here, Item::Skip, rest, cb); }
//@@ after /partial_inline_boxes_stack\.pop\(\) \{/
                let ghost partial0 = partial;
                proof {
                    lemma_last(i0.partial_inline_boxes_stack@, i0.current_nesting_level);
                    lemma_ok_here(i0.partial_inline_boxes_stack@, i0.current_nesting_level, cb);
                }
//@@ after /ifc\.current_nesting_level = partial\.parent_nesting_level/
                ; proof {
                    let s = i0.partial_inline_boxes_stack@;
                    assert(ifc.partial_inline_boxes_stack@ =~= s.drop_last());
                    rest = ifc.todo();
                    lemma_with_part(s.last().parent_nesting_level, ifc.current_nesting_level, part(s.last(), i0.current_nesting_level, i0.inline_position.v(), false));
                    assert forall|i: int| 0 <= i <= s.drop_last().len() implies (#[trigger] level(ifc.partial_inline_boxes_stack@, ifc.current_nesting_level, i)).remaining_boxes == level(s.drop_last(), s.last().parent_nesting_level, i).remaining_boxes by { }
                    lemma_linked_less(s, i0.current_nesting_level, cb, ifc.current_nesting_level);
                    lemma_end(i0.inline_position, ifc.inline_position, i0.line_boxes, s, i0.current_nesting_level, ifc.partial_inline_boxes_stack@, ifc.current_nesting_level, false, cb);
                    lemma_todo(s.drop_last(), s.last().parent_nesting_level, ifc.partial_inline_boxes_stack@, ifc.current_nesting_level);
                    lemma_run(here, Item::Close, rest, cb);
                    lemma_out_steps(i0.place(), out, arbitrary(), arbitrary(), cb);
                }
//@@ before /ifc\.line_boxes\s*\.finish_line/
                proof { lemma_last(i0.partial_inline_boxes_stack@, i0.current_nesting_level); lemma_run_done(here, cb); }
//@@ before /let block_size = ifc\.line_boxes/
                proof {
                    assert(i0.partial_inline_boxes_stack@ =~= Seq::<Partial>::empty());
                    lemma_line(i0.inline_position, i0.line_boxes, ifc.line_boxes, i0.current_nesting_level, cb);
                }
//@@ end
}
#[verifier::external_body]
fn not_reached<T>() -> (r: T) requires false { unreachable!() }
