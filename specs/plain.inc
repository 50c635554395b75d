// ---------------------------------------------------------------- text in bytes and characters
pub open spec fn utf8_len(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// where the k-th character of a text begins in bytes
pub open spec fn offset(t: Seq<char>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { offset(t, k - 1) + utf8_len(t[k - 1]) } }
#[verifier::external_body]
pub fn slice<'a>(t: &'a str, r: Range<usize>) -> (s: &'a str)
    requires exists|a: int, b: int| 0 <= a <= b <= t@.len() && r.start == #[trigger] offset(t@, a) && r.end == #[trigger] offset(t@, b)
    ensures forall|a: int, b: int| 0 <= a <= b <= t@.len() && r.start == #[trigger] offset(t@, a) && r.end == #[trigger] offset(t@, b) ==> s@ == t@.subrange(a, b)
{ unimplemented!() }
pub open spec fn trimmed(t: Seq<char>, c: char) -> Seq<char>
    decreases t.len()
{ if t.len() > 0 && t.last() == c { trimmed(t.drop_last(), c) } else { t } }
#[verifier::external_body]
pub fn trim_end_matches<'a>(t: &'a str, c: char) -> (s: &'a str) ensures s@ == trimmed(t@, c) { unimplemented!() }
// ---------------------------------------------------------------- xi_unicode: where a text may break (UAX #14), and whether it has to
pub uninterp spec fn breaks(t: Seq<char>) -> Seq<(int, bool)>;
/// breaks are in order, the last one is at the end of the text and a line has to end there (LB3), there is none in the empty text (LB2),
/// and there is one after each line feed (LB5)
pub open spec fn breaks_ok(t: Seq<char>) -> bool {
    let b = breaks(t);
    &&& (b.len() == 0 <==> t.len() == 0)
    &&& b.len() > 0 ==> b[0].0 > 0 && b.last() == ((t.len() as int), true)
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 < (#[trigger] b[j]).0
    &&& forall|k: int| 0 <= k < t.len() && #[trigger] t[k] == '\n' ==> exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == k + 1
}
#[verifier::external_body]
pub struct LineBreakIterator<'a> { s: &'a str }
impl<'a> LineBreakIterator<'a> {
    pub uninterp spec fn text(self) -> Seq<char>;
    pub uninterp spec fn taken(self) -> int;
    #[verifier::external_body]
    pub fn new(s: &'a str) -> (r: Self) ensures r.text() == s@, r.taken() == 0, breaks_ok(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, bool)>)
        ensures
            final(self).text() == old(self).text(),
            old(self).taken() >= breaks(old(self).text()).len() ==> r is None && *final(self) == *old(self),
            0 <= old(self).taken() < breaks(old(self).text()).len() ==> final(self).taken() == old(self).taken() + 1
                && (r matches Some(x) && x.0 == offset(old(self).text(), breaks(old(self).text())[old(self).taken()].0) && x.1 == breaks(old(self).text())[old(self).taken()].1)
    { unimplemented!() }
}
// ---------------------------------------------------------------- the pieces of a text
pub open spec fn count(t: Seq<char>) -> int { breaks(t).len() as int }
/// where the i-th piece begins; the i-th piece ends where the next one begins
pub open spec fn start(t: Seq<char>, i: int) -> int { if i <= 0 { 0 } else { breaks(t)[i - 1].0 } }
pub open spec fn hard(t: Seq<char>, i: int) -> bool { breaks(t)[i].1 }
pub open spec fn piece_text(t: Seq<char>, i: int) -> Seq<char> { trimmed(t.subrange(start(t, i), start(t, i + 1)), '\n') }
pub open spec fn is_piece(s: ShapedSegment, t: Seq<char>, st: Style, i: int) -> bool { s.font == st.font && s.shapes(piece_text(t, i)) }
//@@ item victor/src/text_plain.rs | mod css_units :: struct Mm
//@@ end
//@@ item victor/src/text_plain.rs | mod css_units :: struct In
//@@ end
impl Mm {
//@@ fn victor/src/text_plain.rs | mod css_units :: impl Mm :: per_in
//@@ ret r
//@@ spec
    ensures r == scale::<In, Mm>(254real / 10real)
//@@ end
}
impl CssPx {
//@@ fn victor/src/text_plain.rs | mod css_units :: impl Px :: per_in
//@@ ret r
//@@ spec
    ensures r == scale::<In, CssPx>(96real)
//@@ end
//@@ fn victor/src/text_plain.rs | mod css_units :: impl Px :: per_mm
//@@ ret r
//@@ spec
    ensures r == scale::<Mm, CssPx>((1real / (254real / 10real)) * 96real)
//@@ end
}
//@@ item victor/src/text_plain.rs | struct Style
//@@ end
/// a number of millimeters in pixels
pub open spec fn px(mm: real) -> real { mm * ((1real / (254real / 10real)) * 96real) }
pub open spec fn left(st: Style) -> real { 0real + px(st.page_margin.v()) }
pub open spec fn available(st: Style) -> real { px(st.page_size.width.0@) - (px(st.page_margin.v()) + px(st.page_margin.v())) }
pub open spec fn right(st: Style) -> real { left(st) + available(st) }
/// the margins fit into the page
pub open spec fn fits(st: Style) -> bool {
    px(st.page_size.width.0@) >= px(st.page_margin.v()) + px(st.page_margin.v()) && px(st.page_size.height.0@) >= px(st.page_margin.v()) + px(st.page_margin.v())
}
/// how wide the i-th piece is
pub open spec fn width(t: Seq<char>, st: Style, i: int) -> real { advance_of(*st.font, piece_text(t, i)) * (st.font_size.v() / 1real) }
pub open spec fn total(t: Seq<char>, st: Style, a: int, b: int) -> real
    decreases b - a
{ if b <= a { 0real } else { total(t, st, a, b - 1) + width(t, st, b - 1) } }
/// The closure that `layout` maps the breaks with: the piece that ends at a break.
//@@ fn victor/src/text_plain.rs | layout
//@@ hdr pub fn piece(text: &str, style: &Style, previous_break_position: &mut usize, position_: usize, is_hard_break_: bool) -> (r: Result<(ShapedSegment, bool), FontError>)
//@@ sub /^.*?let mut previous_break_position = 0;.*?\.map\(\s*\|\((\w+), (\w+)\)\| \{(.*?)\},?\s*\)\);.*$/ => fn piece() { let \1 = position_; let \2 = is_hard_break_; \3 }
//@@ sub /\bprevious_break_position\b/ => *previous_break_position
//@@ sub OPT /text\[([\w.]+)\]/ => slice(text, \1)
//@@ sub OPT /(slice\([^()]*\)|\b\w+)\.trim_end_matches\(/ => trim_end_matches(\1, 
//@@ nloops 0
//@@ spec
    requires
        exists|a: int, b: int| 0 <= a <= b <= text@.len() && *old(previous_break_position) == #[trigger] offset(text@, a) && position_ == #[trigger] offset(text@, b),
    ensures
        *final(previous_break_position) == position_,
        forall|a: int, b: int| 0 <= a <= b <= text@.len() && *old(previous_break_position) == #[trigger] offset(text@, a) && position_ == #[trigger] offset(text@, b) ==>
            (r matches Ok(p) ==> p.1 == is_hard_break_ && p.0.font == style.font && p.0.shapes(trimmed(text@.subrange(a, b), '\n'))),
//@@ end
pub type Item = Result<(ShapedSegment, bool), FontError>;
/// std::iter::Map of the breaks with that closure
pub struct Pieces<'a> { pub inner: LineBreakIterator<'a>, pub text: &'a str, pub style: &'a Style, pub previous_break_position: usize }
impl<'a> Pieces<'a> {
    pub open spec fn t(self) -> Seq<char> { self.inner.text() }
    pub open spec fn ok(self) -> bool {
        let k = self.inner.taken();
        &&& self.text@ == self.inner.text() && breaks_ok(self.t()) && 0 <= k <= count(self.t())
        &&& self.previous_break_position == offset(self.t(), start(self.t(), k))
    }
    fn next(&mut self) -> (r: Option<Item>)
        requires old(self).ok()
        ensures
            final(self).ok(), final(self).t() == old(self).t(), final(self).style == old(self).style,
            r is None <==> old(self).inner.taken() == count(old(self).t()),
            r is None ==> final(self).inner.taken() == old(self).inner.taken(),
            r is Some ==> final(self).inner.taken() == old(self).inner.taken() + 1,
            r matches Some(Ok(p)) ==> is_piece(p.0, old(self).t(), *old(self).style, old(self).inner.taken()) && p.1 == hard(old(self).t(), old(self).inner.taken()),
    {
        let ghost k = self.inner.taken();
        match self.inner.next() {
            None => None,
            Some((position, is_hard_break)) => {
                proof {
                    let t = self.t();
                    if k > 0 { assert(breaks(t)[k - 1].0 < breaks(t)[k].0); }
                    if k > 1 { assert(breaks(t)[0].0 < breaks(t)[k - 1].0); }
                    if k > 0 { assert(breaks(t)[0].0 < breaks(t)[k].0); }
                    if k < breaks(t).len() - 1 { assert(breaks(t)[k].0 < breaks(t).last().0); }
                    assert(0 <= start(t, k) <= start(t, k + 1) <= t.len());
                    assert(self.previous_break_position == offset(t, start(t, k)) && position == offset(t, start(t, k + 1)));
                }
                Some(piece(self.text, self.style, &mut self.previous_break_position, position, is_hard_break))
            }
        }
    }
}
//@@ item victor/src/text_plain.rs | struct Rewind
//@@ sub /struct Rewind<I>\s*where\s*I: Iterator,\s*\{/ => pub struct Rewind<'a> {
//@@ sub /inner: I/ => pub inner: Pieces<'a>
//@@ sub /buffer:/ => pub buffer:
//@@ sub /I::Item/ => Item
//@@ end
impl<'a> Rewind<'a> {
    pub open spec fn t(self) -> Seq<char> { self.inner.t() }
    /// how many pieces were taken and not given back
    pub open spec fn at(self) -> int { if self.buffer is Some { self.inner.inner.taken() - 1 } else { self.inner.inner.taken() } }
    pub open spec fn ok(self) -> bool {
        &&& self.inner.ok() && self.at() >= 0
        &&& self.buffer matches Some(x) ==> (x matches Ok(p) && is_piece(p.0, self.t(), *self.inner.style, self.at()) && p.1 == hard(self.t(), self.at()))
    }
//@@ fn victor/src/text_plain.rs | impl<I> Rewind<I> where I: Iterator, :: new
//@@ sub /inner: I/ => inner: Pieces<'a>
//@@ ret r
//@@ spec
    requires inner.ok()
    ensures r.ok(), r.inner == inner, r.buffer is None
//@@ end
//@@ fn victor/src/text_plain.rs | impl<I> Rewind<I> where I: Iterator, :: rewind
//@@ sub /I::Item/ => Item
//@@ spec
    requires
        old(self).ok(), old(self).buffer is None, old(self).at() > 0,
        item matches Ok(p) && is_piece(p.0, old(self).t(), *old(self).inner.style, old(self).at() - 1) && p.1 == hard(old(self).t(), old(self).at() - 1),
    ensures final(self).ok(), final(self).t() == old(self).t(), final(self).inner.style == old(self).inner.style, final(self).at() == old(self).at() - 1
//@@ end
//@@ fn victor/src/text_plain.rs | impl<I> Iterator for Rewind<I> where I: Iterator, :: next
//@@ sub /I::Item/ => Item
//@@ sub OPT /self\.buffer\.take\(\)\.or_else\(\|\| self\.inner\.next\(\)\)/ => match self.buffer.take() { Some(b_) => Some(b_), None => self.inner.next() }
//@@ ret r
//@@ spec
    requires old(self).ok()
    ensures
        final(self).ok(), final(self).t() == old(self).t(), final(self).inner.style == old(self).inner.style, final(self).buffer is None,
        r is None <==> old(self).at() == count(old(self).t()),
        r is None ==> final(self).at() == old(self).at(),
        r is Some ==> final(self).at() == old(self).at() + 1,
        r matches Some(Ok(p)) ==> is_piece(p.0, old(self).t(), *old(self).inner.style, old(self).at()) && p.1 == hard(old(self).t(), old(self).at()),
//@@ end
}
// ---------------------------------------------------------------- lines
/// the pieces a, …, b - 1 on a line at y of a page, with so much more space between them
pub ghost struct Line { pub page: int, pub a: int, pub b: int, pub spacing: real, pub y: real }
/// where the k-th piece of a line begins
pub open spec fn x_of(t: Seq<char>, st: Style, l: Line, k: int) -> real
    decreases k
{ if k <= 0 { left(st) } else { x_of(t, st, l, k - 1) + (width(t, st, l.a + k - 1) + l.spacing) } }
pub open spec fn end_of(t: Seq<char>, st: Style, l: Line) -> real { x_of(t, st, l, l.b - l.a - 1) + width(t, st, l.b - 1) }
pub open spec fn shows(t: Seq<char>, st: Style, l: Line, k: int) -> Shown {
    Shown { page: l.page, glyphs: glyphs_of(*st.font, piece_text(t, l.a + k)), font: *st.font, size: st.font_size.v(), x: x_of(t, st, l, k), y: l.y }
}
pub open spec fn shown_first(t: Seq<char>, st: Style, l: Line, k: int) -> Seq<Shown>
    decreases k
{ if k <= 0 { Seq::empty() } else { shown_first(t, st, l, k - 1).push(shows(t, st, l, k - 1)) } }
pub open spec fn shown_by(t: Seq<char>, st: Style, ls: Seq<Line>) -> Seq<Shown>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { shown_by(t, st, ls.drop_last()) + shown_first(t, st, ls.last(), ls.last().b - ls.last().a) } }
pub open spec fn leading(st: Style) -> real { (1real * st.line_height.0@) * (st.font_size.v() / 1real) }
pub open spec fn line_ok(t: Seq<char>, st: Style, l: Line) -> bool {
    &&& 0 <= l.a < l.b <= count(t)
    // no piece but the last one ends a line
    &&& forall|i: int| l.a <= i < l.b - 1 ==> !#[trigger] hard(t, i)
    // a line is only wider than the space between the margins if it is a single piece
    &&& l.b - l.a > 1 ==> l.spacing >= 0real && end_of(t, st, l) <= right(st)
    // a line ends where it has to, or where the next piece does not fit; only then it is justified, and ends at the margin
    &&& hard(t, l.b - 1) ==> l.spacing == 0real
    &&& !hard(t, l.b - 1) ==> l.b < count(t) && total(t, st, l.a, l.b) + width(t, st, l.b) > available(st)
    &&& !hard(t, l.b - 1) && l.b - l.a > 1 ==> (if st.justify { end_of(t, st, l) == right(st) } else { l.spacing == 0real })
}
pub open spec fn lines_ok(t: Seq<char>, st: Style, ls: Seq<Line>) -> bool {
    &&& forall|j: int| 0 <= j < ls.len() ==> line_ok(t, st, #[trigger] ls[j])
    // every piece once and in order
    &&& ls.len() > 0 ==> ls[0].a == 0
    &&& forall|j: int, k: int| 0 <= j && k == j + 1 && k < ls.len() ==> (#[trigger] ls[j]).b == (#[trigger] ls[k]).a
    // line after line and page after page
    &&& forall|j: int, k: int| 0 <= j && k == j + 1 && k < ls.len() ==> (#[trigger] ls[j]).page <= (#[trigger] ls[k]).page && (ls[j].page == ls[k].page ==> ls[k].y == ls[j].y + leading(st))
}
pub open spec fn upto(ls: Seq<Line>) -> int { if ls.len() == 0 { 0 } else { ls.last().b } }
pub open spec fn glyphs_shown(s: Seq<Shown>) -> Seq<GlyphId>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { glyphs_shown(s.drop_last()) + s.last().glyphs } }
/// the text without its line feeds
pub open spec fn visible(t: Seq<char>) -> Seq<char>
    decreases t.len()
{ if t.len() == 0 { t } else if t.last() == '\n' { visible(t.drop_last()) } else { visible(t.drop_last()).push(t.last()) } }
pub open spec fn laid_out(t: Seq<char>, st: Style, d: Document) -> bool {
    &&& exists|ls: Seq<Line>| lines_ok(t, st, ls) && upto(ls) == count(t) && d.shown() == #[trigger] shown_by(t, st, ls)
    &&& glyphs_shown(d.shown()) == glyphs_of(*st.font, visible(t))
    &&& pages_ok(st, d)
}
pub open spec fn pages_ok(st: Style, d: Document) -> bool {
    &&& forall|i: int| 0 <= i < d.pages().len() ==> #[trigger] d.pages()[i] == (px(st.page_size.width.0@), px(st.page_size.height.0@))
    &&& forall|i: int| 0 <= i < d.shown().len() ==> 0 <= (#[trigger] d.shown()[i]).page < d.pages().len()
}

proof fn lemma_same_start(t: Seq<char>, st: Style, l: Line, m: Line, k: int)
    requires l.a == m.a, l.page == m.page, l.y == m.y, l.spacing == m.spacing
    ensures x_of(t, st, l, k) == x_of(t, st, m, k), shown_first(t, st, l, k) == shown_first(t, st, m, k)
    decreases k
{ if k > 0 { lemma_same_start(t, st, l, m, k - 1); } }
/// k pieces with the space behind each of them
proof fn lemma_x(t: Seq<char>, st: Style, l: Line, k: int)
    requires k >= 0
    ensures x_of(t, st, l, k) == left(st) + total(t, st, l.a, l.a + k) + (k as real) * l.spacing
    decreases k
{
    if k > 0 {
        lemma_x(t, st, l, k - 1);
        let s = l.spacing;
        let j = (k - 1) as real;
        assert((k as real) == j + 1real);
        assert((j + 1real) * s == j * s + s) by (nonlinear_arith);
    } else {
        assert(0real * l.spacing == 0real) by (nonlinear_arith);
    }
}
proof fn lemma_end(t: Seq<char>, st: Style, l: Line)
    requires l.a < l.b
    ensures end_of(t, st, l) == left(st) + total(t, st, l.a, l.b) + ((l.b - l.a - 1) as real) * l.spacing
{ lemma_x(t, st, l, l.b - l.a - 1); }
proof fn lemma_share(extra: real, n: real)
    requires n > 0real
    ensures n * (extra / n) == extra, extra >= 0real ==> extra / n >= 0real
{
    assert(n * (extra / n) == extra) by (nonlinear_arith) requires n > 0real;
    assert(extra >= 0real ==> extra / n >= 0real) by (nonlinear_arith) requires n > 0real;
}
// ---------------------------------------------------------------- every character
proof fn lemma_glyphs_of_append(st: Style, a: Seq<char>, b: Seq<char>)
    ensures glyphs_of(*st.font, a + b) == glyphs_of(*st.font, a) + glyphs_of(*st.font, b)
{ assert(glyphs_of(*st.font, a + b) =~= glyphs_of(*st.font, a) + glyphs_of(*st.font, b)); }
proof fn lemma_visible_append(a: Seq<char>, b: Seq<char>)
    ensures visible(a + b) == visible(a) + visible(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(visible(a) + visible(b) =~= visible(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_visible_append(a, b.drop_last());
        assert(visible(a + b) =~= visible(a) + visible(b));
    }
}
proof fn lemma_visible_all(s: Seq<char>)
    requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '\n'
    ensures visible(s) == s
    decreases s.len()
{ if s.len() > 0 { lemma_visible_all(s.drop_last()); assert(visible(s) =~= s); } }
/// a piece has no line feed but at its end
proof fn lemma_piece(t: Seq<char>, i: int)
    requires breaks_ok(t), 0 <= i < count(t)
    ensures 0 <= start(t, i) < start(t, i + 1) <= t.len(), piece_text(t, i) == visible(t.subrange(start(t, i), start(t, i + 1)))
{
    let b = breaks(t);
    if i > 0 { assert(b[i - 1].0 < b[i].0); if i > 1 { assert(b[0].0 < b[i - 1].0); } }
    if i < b.len() - 1 { assert(b[i].0 < b.last().0); }
    if i > 0 { assert(b[0].0 < b[i].0); }
    let s = t.subrange(start(t, i), start(t, i + 1));
    assert forall|k: int| 0 <= k < s.len() - 1 implies #[trigger] s[k] != '\n' by {
        assert(s[k] == t[start(t, i) + k]);
        if s[k] == '\n' {
            let p = start(t, i) + k;
            let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).0 == p + 1;
            if j < i - 1 { assert(b[j].0 < b[i - 1].0); }
            if j > i { assert(b[i].0 < b[j].0); }
            assert(false);
        }
    }
    assert forall|k: int| 0 <= k < s.drop_last().len() implies #[trigger] s.drop_last()[k] != '\n' by { assert(s.drop_last()[k] == s[k]); }
    lemma_visible_all(s.drop_last());
    if s.last() == '\n' {
        let r = s.drop_last();
        if r.len() > 0 { assert(r.last() == s[r.len() - 1]); }
        assert(trimmed(r, '\n') == r);
    } else { assert(visible(s) =~= s); }
}
proof fn lemma_glyphs_first(t: Seq<char>, st: Style, before: Seq<Shown>, l: Line, k: int)
    requires breaks_ok(t), 0 <= l.a, 0 <= k, l.a + k <= count(t), glyphs_shown(before) == glyphs_of(*st.font, visible(t.take(start(t, l.a))))
    ensures glyphs_shown(before + shown_first(t, st, l, k)) == glyphs_of(*st.font, visible(t.take(start(t, l.a + k))))
    decreases k
{
    if k == 0 { assert(before + shown_first(t, st, l, k) =~= before); }
    else {
        lemma_glyphs_first(t, st, before, l, k - 1);
        let i = l.a + k - 1;
        let s = before + shown_first(t, st, l, k);
        assert(s.drop_last() =~= before + shown_first(t, st, l, k - 1));
        lemma_piece(t, i);
        let p = t.subrange(start(t, i), start(t, i + 1));
        assert(t.take(start(t, i + 1)) =~= t.take(start(t, i)) + p);
        lemma_visible_append(t.take(start(t, i)), p);
        lemma_glyphs_of_append(st, visible(t.take(start(t, i))), visible(p));
    }
}
proof fn lemma_glyphs(t: Seq<char>, st: Style, ls: Seq<Line>)
    requires breaks_ok(t), lines_ok(t, st, ls)
    ensures glyphs_shown(shown_by(t, st, ls)) == glyphs_of(*st.font, visible(t.take(start(t, upto(ls)))))
    decreases ls.len()
{
    if ls.len() == 0 {
        assert(t.take(0) =~= Seq::<char>::empty());
        assert(visible(t.take(0)) =~= Seq::<char>::empty());
        assert(glyphs_of(*st.font, visible(t.take(0))) =~= Seq::<GlyphId>::empty());
    } else {
        let r = ls.drop_last();
        assert(lines_ok(t, st, r));
        lemma_glyphs(t, st, r);
        let l = ls.last();
        assert(line_ok(t, st, ls[ls.len() - 1]));
        if r.len() > 0 { assert(ls[ls.len() - 2].b == ls[ls.len() - 1].a); }
        assert(upto(r) == l.a);
        lemma_glyphs_first(t, st, shown_by(t, st, r), l, l.b - l.a);
    }
}
proof fn lemma_all(t: Seq<char>, st: Style, ls: Seq<Line>)
    requires breaks_ok(t), lines_ok(t, st, ls), upto(ls) == count(t)
    ensures glyphs_shown(shown_by(t, st, ls)) == glyphs_of(*st.font, visible(t))
{
    lemma_glyphs(t, st, ls);
    assert(t.take(start(t, count(t))) =~= t);
}
proof fn lemma_more(t: Seq<char>, st: Style, ls: Seq<Line>, l: Line)
    requires
        lines_ok(t, st, ls), line_ok(t, st, l), l.a == upto(ls),
        ls.len() > 0 ==> ls.last().page <= l.page && (ls.last().page == l.page ==> l.y == ls.last().y + leading(st)),
    ensures
        lines_ok(t, st, ls.push(l)), upto(ls.push(l)) == l.b,
        shown_by(t, st, ls.push(l)) == shown_by(t, st, ls) + shown_first(t, st, l, l.b - l.a),
{
    let m = ls.push(l);
    assert(m.drop_last() =~= ls);
    assert forall|j: int| 0 <= j < m.len() implies line_ok(t, st, #[trigger] m[j]) by { if j < ls.len() { assert(m[j] == ls[j]); } }
    if ls.len() > 0 { assert(ls.last() == ls[ls.len() - 1]); }
}
proof fn lemma_more_pages(st: Style, d: Document, before: Seq<Shown>, t: Seq<char>, l: Line, k: int)
    requires
        k >= 0, d.shown() == before + shown_first(t, st, l, k), 0 <= l.page < d.pages().len(),
        forall|i: int| 0 <= i < d.pages().len() ==> #[trigger] d.pages()[i] == (px(st.page_size.width.0@), px(st.page_size.height.0@)),
        forall|i: int| 0 <= i < before.len() ==> 0 <= (#[trigger] before[i]).page < d.pages().len(),
    ensures pages_ok(st, d)
{
    lemma_first_page(t, st, l, k);
    assert forall|i: int| 0 <= i < d.shown().len() implies 0 <= (#[trigger] d.shown()[i]).page < d.pages().len() by {
        if i < before.len() { assert(d.shown()[i] == before[i]); } else { assert(d.shown()[i] == shown_first(t, st, l, k)[i - before.len()]); }
    }
}
proof fn lemma_first_page(t: Seq<char>, st: Style, l: Line, k: int)
    ensures forall|i: int| 0 <= i < shown_first(t, st, l, k).len() ==> (#[trigger] shown_first(t, st, l, k)[i]).page == l.page
    decreases k
{
    if k > 0 {
        lemma_first_page(t, st, l, k - 1);
        let f = shown_first(t, st, l, k);
        let g = shown_first(t, st, l, k - 1);
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).page == l.page by { if i < g.len() { assert(f[i] == g[i]); } }
    }
}
/// one more page, with nothing on it
proof fn lemma_new_page(st: Style, d: Document, e: Document)
    requires pages_ok(st, d), e.shown() == d.shown(), e.pages() == d.pages().push((px(st.page_size.width.0@), px(st.page_size.height.0@)))
    ensures pages_ok(st, e)
{
    assert forall|i: int| 0 <= i < e.pages().len() implies #[trigger] e.pages()[i] == (px(st.page_size.width.0@), px(st.page_size.height.0@)) by { if i < d.pages().len() { assert(e.pages()[i] == d.pages()[i]); } }
    assert forall|i: int| 0 <= i < e.shown().len() implies 0 <= (#[trigger] e.shown()[i]).page < e.pages().len() by { assert(e.shown()[i] == d.shown()[i]); }
}
/// the line that was made
proof fn lemma_line(t: Seq<char>, st: Style, l: Line, extra: real)
    requires
        0 <= l.a < l.b <= count(t), forall|i: int| l.a <= i < l.b - 1 ==> !#[trigger] hard(t, i),
        extra == available(st) - total(t, st, l.a, l.b),
        l.b - l.a > 1 ==> extra >= 0real,
        hard(t, l.b - 1) ==> l.spacing == 0real,
        !hard(t, l.b - 1) ==> l.b < count(t) && total(t, st, l.a, l.b) + width(t, st, l.b) > available(st),
        !hard(t, l.b - 1) && l.b - l.a > 1 ==> l.spacing == (if st.justify && extra > 0real { extra / ((l.b - l.a - 1) as real) } else { 0real }),
    ensures line_ok(t, st, l)
{
    lemma_end(t, st, l);
    let n = (l.b - l.a - 1) as real;
    if l.b - l.a > 1 { lemma_share(extra, n); }
    assert(n * 0real == 0real) by (nonlinear_arith);
}
//@@ fn victor/src/text_plain.rs | layout
//@@ sub /let mut previous_break_position = 0;/ => 
//@@ sub /Rewind::new\(LineBreakIterator::new\(text\)\.map\(.*?\},?\s*\)\)/ => Rewind::new(Pieces { inner: LineBreakIterator::new(text), text, style, previous_break_position: 0 })
//@@ sub OPT /(\b\w+) \+= ([^;]+);/ => \1.add_assign(\2);
//@@ sub OPT /for segment in &line_segments \{/ => for segment in it: line_segments.iter() {
//@@ sub OPT /\(([^()]*(?:\(\))?[^()]*)\) as f32/ => float(\1)
//@@ sub OPT /let mut line_segments = Vec::new\(\)/ => let mut line_segments: Vec<ShapedSegment> = Vec::new()
//@@ ret r
//@@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover]
//@@ spec
    requires fits(*style)
    ensures r matches Ok(d) ==> laid_out(text@, *style, d)
//@@ start
    hide(lines_ok); hide(line_ok); hide(shown_by); hide(pages_ok); hide(breaks_ok); hide(offset); hide(trimmed); hide(glyphs_shown); hide(visible); hide(end_of); hide(advance_of);
//@@ before /let mut segments = /
    proof { assert(offset(text@, 0) == 0) by { reveal(offset); } }
//@@ before /'pages: loop/
    let ghost t = text@;
    let ghost st = *style;
    let ghost mut ls: Seq<Line> = Seq::empty();
    proof {
        assert(px_per_em.v() == st.font_size.v() / 1real);
        assert(min_x.v() == left(st) && available_width.v() == available(st));
        assert(line_height.v() == leading(st));
        assert(shown_by(t, st, ls) == Seq::<Shown>::empty()) by { reveal(shown_by); }
        assert(lines_ok(t, st, ls)) by { reveal(lines_ok); }
        assert(pages_ok(st, pdf_doc)) by { reveal(pages_ok); }
        // the last piece ends a line
        assert(count(t) > 0 ==> hard(t, count(t) - 1)) by { reveal(breaks_ok); }
    }
//@@ loop 1
    invariant
        segments.ok(), segments.t() == t, segments.inner.style == style, breaks_ok(t),
        segments.at() == upto(ls), line_segments@.len() == 0,
        lines_ok(t, st, ls), pdf_doc.shown() == shown_by(t, st, ls), pages_ok(st, pdf_doc),
        ls.len() > 0 ==> ls.last().page < pdf_doc.pages().len(),
    decreases count(t) - segments.at()
//@@ loop 2
    invariant
        segments.ok(), segments.t() == t, segments.inner.style == style, breaks_ok(t),
        segments.at() == upto(ls), line_segments@.len() == 0,
        *final(pdf_page.doc) == after_borrow(pdf_doc),
        pdf_page.doc.pages().len() > 0, segments.at() >= p0,
        lines_ok(t, st, ls), pdf_page.doc.shown() == shown_by(t, st, ls), pages_ok(st, *pdf_page.doc),
        ls.len() > 0 ==> ls.last().page < pdf_page.doc.pages().len(),
        ls.len() > 0 && ls.last().page == pdf_page.doc.pages().len() - 1 ==> y.v() + baseline_y.v() == ls.last().y + leading(st),
    decreases count(t) - segments.at()
//@@ loopstart 2
    let ghost a = segments.at();
    let ghost pg = pdf_page.doc.pages().len() - 1;
//@@ loop 3
    invariant
        segments.ok(), segments.t() == t, segments.inner.style == style, breaks_ok(t),
        a == upto(ls), segments.at() == a + line_segments@.len(),
        forall|k: int| 0 <= k < line_segments@.len() ==> is_piece(#[trigger] line_segments@[k], t, st, a + k),
        forall|i: int| a <= i < segments.at() ==> !#[trigger] hard(t, i),
        total_width.v() == total(t, st, a, segments.at()),
        line_segments@.len() > 1 ==> total_width.v() <= available(st),
        0 <= a, line_segments@.len() > 0 ==> !hard(t, segments.at() - 1),
    decreases count(t) - segments.at()
//@@ before /let extra = /
    let ghost b = segments.at();
    let ghost n = line_segments@.len() as int;
    proof { assert(a < b && b == a + n); }
//@@ before /let baseline = /
    let ghost l = Line { page: pg, a, b, spacing: word_spacing.v(), y: y.v() + baseline_y.v() };
    let ghost before = pdf_page.doc.shown();
    let ghost pages = pdf_page.doc.pages();
    proof { lemma_line(t, st, l, extra.v()); }
//@@ loop 4
    invariant
        it.seq().len() == n, forall|k: int| 0 <= k < n ==> *(#[trigger] it.seq()[k]) == line_segments@[k],
        pdf_page.doc.shown() == before + shown_first(t, st, l, it.index@ as int), pdf_page.doc.pages() == pages,
        *final(pdf_page.doc) == after_borrow(pdf_doc),
        x.v() == x_of(t, st, l, it.index@ as int),
//@@ before /line_segments\.clear\(\);/
    proof {
        reveal(pages_ok);
        lemma_more(t, st, ls, l);
        lemma_more_pages(st, *pdf_page.doc, before, t, l, n);
        ls = ls.push(l);
    }
//@@ before /let mut y = /
    proof { lemma_new_page(st, doc0, *pdf_page.doc); }
//@@ loopstart 1
    let ghost doc0 = pdf_doc;
    let ghost p0 = segments.at();
//@@ before /Ok\(pdf_doc\)/
    proof { lemma_all(t, st, ls); }
//@@ end
