// ---------------------------------------------------------------- lemmas
proof fn lemma_upto_same(a: Seq<Arc<InlineLevelBox>>, b: Seq<Arc<InlineLevelBox>>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures flat_upto(a, n) == flat_upto(b, n), all_solid(a, n) == all_solid(b, n)
    decreases n
{ if n > 0 { lemma_upto_same(a, b, n - 1); } }
/// one box more
proof fn lemma_all_push(a: Seq<Arc<InlineLevelBox>>, b: Arc<InlineLevelBox>)
    ensures all(a.push(b)) == all(a) + flat(*b), all_solid(a.push(b), a.len() as int + 1) == (all_solid(a, a.len() as int) && solid(*b))
{ lemma_upto_same(a, a.push(b), a.len() as int); }
/// the last box goes on
proof fn lemma_all_update(a: Seq<Arc<InlineLevelBox>>, b: Seq<Arc<InlineLevelBox>>, t: Seq<Tok>)
    requires a.len() > 0, b == a.update(a.len() - 1, b[a.len() - 1]), flat(*b.last()) == flat(*a.last()) + t, all_solid(a, a.len() as int), solid(*b.last())
    ensures all(b) == all(a) + t, all_solid(b, b.len() as int)
{ lemma_upto_same(a, b, a.len() - 1); assert(all(b) =~= all(a) + t); }
/// only the first `k` open boxes matter
proof fn lemma_lines_same(ifc: Seq<Arc<InlineLevelBox>>, a: Seq<InlineBox>, b: Seq<InlineBox>, k: int)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures lines(ifc, a, k) == lines(ifc, b, k)
    decreases k
{ if k > 0 { lemma_lines_same(ifc, a, b, k - 1); } }
/// tokens are added at the innermost place
pub open spec fn innermost(b: BlockContainerBuilder) -> Seq<Arc<InlineLevelBox>> {
    if b.ongoing_inline_boxes_stack@.len() == 0 { b.ifc() } else { b.ongoing_inline_boxes_stack@.last().children@ }
}
pub open spec fn with_innermost(b: BlockContainerBuilder, c: BlockContainerBuilder, bs: Seq<Arc<InlineLevelBox>>) -> bool {
    &&& c.context == b.context && c.block_container_style == b.block_container_style && c.block_level_boxes == b.block_level_boxes && c.anonymous_style == b.anonymous_style
    &&& innermost(c) == bs
    &&& b.ongoing_inline_boxes_stack@.len() == 0 ==> c.ongoing_inline_boxes_stack == b.ongoing_inline_boxes_stack
    &&& b.ongoing_inline_boxes_stack@.len() > 0 ==> c.ongoing_inline_formatting_context == b.ongoing_inline_formatting_context && {
        let n = b.ongoing_inline_boxes_stack@.len() - 1;
        c.ongoing_inline_boxes_stack@ == b.ongoing_inline_boxes_stack@.update(n, InlineBox { children: c.ongoing_inline_boxes_stack@[n].children, ..b.ongoing_inline_boxes_stack@[n] })
    }
}
proof fn lemma_added(b: BlockContainerBuilder, c: BlockContainerBuilder, bs: Seq<Arc<InlineLevelBox>>, t: Seq<Tok>)
    requires b.ok(), with_innermost(b, c, bs), all_solid(bs, bs.len() as int), all(bs) == all(innermost(b)) + t
    ensures c.ok(), c.st() == (St { inl: b.st().inl + t, ..b.st() })
{
    let (s, s2) = (b.ongoing_inline_boxes_stack@, c.ongoing_inline_boxes_stack@);
    let n = s.len() as int;
    if n > 0 {
        lemma_lines_same(b.ifc(), s, s2, n - 1);
        let l = lines(b.ifc(), s, n - 1).push(Tok::Open(s[n - 1].style, s[n - 1].first_fragment));
        assert(l + (all(innermost(b)) + t) =~= (l + all(innermost(b))) + t);
    }
    assert(c.st().open =~= b.st().open);
}
proof fn lemma_last_char(a: Seq<Tok>, b: Seq<Tok>)
    ensures last_char(a + b) == (if last_char(b) is Some { last_char(b) } else { last_char(a) })
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).last() == b.last() && (a + b).drop_last() =~= a + b.drop_last());
        lemma_last_char(a, b.drop_last());
    }
}
proof fn lemma_last_of_chars(s: Seq<char>, style: Style)
    ensures last_char(chars(s, style)) == (if s.len() == 0 { None } else { Some(s.last()) })
{ if s.len() > 0 { assert(chars(s, style).last() == Tok::Char(s.last(), style)); } }
// ---------------------------------------------------------------- text
// strings: positions are those of bytes
pub uninterp spec fn index(s: Seq<char>, i: usize) -> int;
#[verifier::external_body]
fn starts_with_space(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && is_space(s@[0])) { s.starts_with(|c: char| c.is_ascii_whitespace()) }
#[verifier::external_body]
fn without_leading_space(s: &str) -> (r: &str) ensures r@ == after_spaces(s@) { s.trim_start_matches(|c: char| c.is_ascii_whitespace()) }
#[verifier::external_body]
fn position_of_space(s: &str) -> (r: Option<usize>)
    ensures r matches Some(i) ==> index(s@, i) == first_space(s@) && first_space(s@) < s@.len(), r is None ==> first_space(s@) == s@.len()
{ s.bytes().position(|b| b.is_ascii_whitespace()) }
/// for a text that starts with a space
#[verifier::external_body]
fn position_of_other(s: &str) -> (r: Option<usize>)
    ensures r matches Some(i) ==> s@.skip(index(s@, i)) == after_spaces(s@) && 0 <= index(s@, i) < s@.len(), r is None ==> after_spaces(s@).len() == 0
{ s.bytes().position(|b| !b.is_ascii_whitespace()) }
#[verifier::external_body]
fn split_text(s: &str, i: usize) -> (r: (&str, &str))
    requires 0 <= index(s@, i) <= s@.len()
    ensures r.0@ == s@.take(index(s@, i)), r.1@ == s@.skip(index(s@, i))
{ s.split_at(i) }
#[verifier::external_body]
fn text_from(s: &str, i: usize) -> (r: &str) requires 0 <= index(s@, i) <= s@.len() ensures r@ == s@.skip(index(s@, i)) { &s[i..] }
#[verifier::external_body]
fn add_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
fn add_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn ends_with_space(s: &String) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == ' ') { s.ends_with(' ') }
#[verifier::external_body]
fn is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
/// the inner function of handle_text: the text of the last box, if that is a text in this style
#[verifier::external_body]
fn last_text<'a>(inlines: &'a mut Vec<Arc<InlineLevelBox>>, style: &Style) -> (r: Option<&'a mut String>)
    ensures
        r is None ==> final(inlines)@ == old(inlines)@,
        r is Some ==> old(inlines)@.len() > 0 && {
            let i = old(inlines)@.len() - 1;
            &&& *old(inlines)@[i] matches InlineLevelBox::TextRun(run) && run.parent_style == *style && run.text == *r->0
            &&& final(inlines)@ == old(inlines)@.update(i, final(inlines)@[i])
            &&& *final(inlines)@[i] == InlineLevelBox::TextRun(TextRun { parent_style: *style, text: *final(r->0) })
        }
{ unimplemented!() }
/// the text of a new run
fn text_in(o: &mut Option<String>) -> (r: &mut String)
    requires *old(o) is Some
    ensures *r == (*old(o))->0, *final(o) == Some(*final(r))
{ match o { Some(x) => x, None => vstd::pervasive::unreached() } }
proof fn lemma_squeezed_some(s: Seq<char>)
    requires s.len() > 0
    ensures squeezed(s).len() > 0
{ }
// ---------------------------------------------------------------- what precedes a text
/// std::iter::Rev of an iterator over a list of boxes
pub struct Back<'a> { pub v: &'a Vec<Arc<InlineLevelBox>>, pub n: usize }
impl<'a> Back<'a> {
    pub open spec fn ok(self) -> bool { self.n <= self.v@.len() && all_solid(self.v@, self.n as int) }
    fn next_ref(&mut self) -> (r: Option<&'a InlineLevelBox>)
        requires old(self).ok()
        ensures
            final(self).v == old(self).v, final(self).ok(),
            old(self).n == 0 ==> r is None && *final(self) == *old(self),
            old(self).n > 0 ==> (r matches Some(x) && *x == *old(self).v@[old(self).n - 1]) && final(self).n == old(self).n - 1 && solid(*old(self).v@[old(self).n - 1])
    {
        if self.n > 0 { self.n = self.n - 1; Some(&*self.v[self.n]) } else { None }
    }
}
fn back_of<'a>(v: &'a Vec<Arc<InlineLevelBox>>) -> (r: Back<'a>) ensures r.v == v, r.n == v@.len() { Back { v, n: v.len() } }
fn levels_back<'a>(ifc: &'a Vec<Arc<InlineLevelBox>>, stack: &'a Vec<InlineBox>) -> (r: Vec<Back<'a>>)
    ensures
        r@.len() == stack@.len() + 1, r@[0].v == ifc && r@[0].n == ifc@.len(),
        forall|i: int| 0 <= i < stack@.len() ==> (#[trigger] r@[i + 1]).v@ == stack@[i].children@ && r@[i + 1].n == stack@[i].children@.len()
{
    let mut r = Vec::new();
    r.push(back_of(ifc));
    let mut i: usize = 0;
    while i < stack.len()
        invariant
            i <= stack@.len(), r@.len() == i + 1, r@[0].v == ifc && r@[0].n == ifc@.len(),
            forall|k: int| 0 <= k < i ==> (#[trigger] r@[k + 1]).v@ == stack@[k].children@ && r@[k + 1].n == stack@[k].children@.len()
        decreases stack.len() - i
    { r.push(back_of(&stack[i].children)); i = i + 1; }
    r
}
pub open spec fn join(s: Seq<Back>, k: int) -> Seq<Tok>
    decreases k
{ if k <= 0 || k > s.len() { Seq::empty() } else { join(s, k - 1) + flat_upto(s[k - 1].v@, s[k - 1].n as int) } }
proof fn lemma_join_same(a: Seq<Back>, b: Seq<Back>, k: int)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures join(a, k) == join(b, k)
    decreases k
{ if k > 0 { lemma_join_same(a, b, k - 1); } }
proof fn lemma_levels(ifc: Seq<Arc<InlineLevelBox>>, stack: Seq<InlineBox>, s: Seq<Back>, k: int)
    requires
        s.len() == stack.len() + 1, s[0].v@ == ifc && s[0].n == ifc.len(), 0 <= k <= stack.len(),
        forall|i: int| 0 <= i < stack.len() ==> (#[trigger] s[i + 1]).v@ == stack[i].children@ && s[i + 1].n == stack[i].children@.len()
    ensures last_char(lines(ifc, stack, k)) == last_char(join(s, k + 1))
    decreases k
{
    if k == 0 { assert(join(s, 0) + all(ifc) =~= all(ifc)); } else {
        lemma_levels(ifc, stack, s, k - 1);
        assert(s[k - 1 + 1].v@ == stack[k - 1].children@);
        let (l, o, c) = (lines(ifc, stack, k - 1), Tok::Open(stack[k - 1].style, stack[k - 1].first_fragment), all(stack[k - 1].children@));
        assert(l.push(o).drop_last() =~= l);
        lemma_last_char(l.push(o), c);
        lemma_last_char(join(s, k), c);
    }
}
proof fn lemma_into(a: Seq<Tok>, i: &InlineBox)
    ensures last_char(a + flat(InlineLevelBox::InlineBox(*i))) == last_char(a + all(i.children@))
{
    let o = seq![Tok::Open(i.style, i.first_fragment)];
    let c = all(i.children@);
    lemma_last_char(a, (o + c).push(Tok::Close(i.last_fragment)));
    lemma_last_char(a, c);
    lemma_last_char(o, c);
    assert((o + c).push(Tok::Close(i.last_fragment)).drop_last() =~= o + c);
    assert(o.drop_last() =~= Seq::<Tok>::empty());
    assert(last_char(o.drop_last()) is None);
}
/// going back over one box
proof fn lemma_back(j: Seq<Tok>, bs: Seq<Arc<InlineLevelBox>>, n: int)
    requires 0 < n <= bs.len()
    ensures
        match *bs[n - 1] {
            InlineLevelBox::TextRun(r) => r.text@.len() > 0 ==> last_char(j + flat_upto(bs, n)) == Some(r.text@.last()),
            InlineLevelBox::InlineBox(i) => last_char(j + flat_upto(bs, n)) == last_char((j + flat_upto(bs, n - 1)) + all(i.children@)),
            InlineLevelBox::Atomic { .. } => true,
            _ => last_char(j + flat_upto(bs, n)) == last_char(j + flat_upto(bs, n - 1)),
        }
{
    let b = &*bs[n - 1];
    let x = flat_upto(bs, n - 1);
    let y = flat_upto(bs, n).skip(x.len() as int);
    assert(y =~= flat(*b));
    assert(j + flat_upto(bs, n) =~= (j + x) + y);
    lemma_last_char(j + x, y);
    match b {
        InlineLevelBox::TextRun(r) => { if r.text@.len() > 0 { assert(y.last() == Tok::Char(r.text@.last(), r.parent_style)); } }
        InlineLevelBox::InlineBox(i) => { lemma_into(j + x, i); }
        _ => { if y.len() > 0 { assert(y.drop_last() =~= Seq::<Tok>::empty()); assert(last_char(y.drop_last()) is None); } }
    }
}
impl<'a> BlockContainerBuilder<'a> {
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> BlockContainerBuilder<'a> :: handle_leading_whitespace
//@@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@@ sub /!text\.starts_with\(\|c: char\| c\.is_ascii_whitespace\(\)\)/ => !starts_with_space(text)
//@@ sub /text\.trim_start_matches\(\|c: char\| c\.is_ascii_whitespace\(\)\)/ => without_leading_space(text)
//@@ sub /let mut stack: Vec<_> = std::iter::once\((&self\.ongoing_inline_formatting_context\.inline_level_boxes)\)\s*\.chain\(self\.ongoing_inline_boxes_stack\.iter\(\)\.map\(\|b\| &b\.children\)\)\s*\.map\(\|boxes\| boxes\.iter\(\)\.rev\(\)\)\s*\.collect\(\);/ => let mut stack = levels_back(\1, &self.ongoing_inline_boxes_stack);
//@@ sub /b\.children\.iter\(\)\.rev\(\)/ => back_of(&b.children)
//@@ sub /\.next\(\)\.map\(\|b\| &\*\*b\)/ => .next_ref()
//@@ sub /(\w+)\.text\.ends_with\(' '\)/ => ends_with_space(&\1.text)
//@@ sub /let preserved = loop \{/ => let mut preserved = false; loop {
//@@ sub /=> break ([^,;]+),/ => => { preserved = \1; break; }
//@@ sub /break (false|true);/ => preserved = \1; break;
//@@ ret r
//@@ spec
    requires old(self).ok()
    ensures
        *final(self) == *old(self),
        r.0 == (text@.len() > 0 && is_space(text@[0]) && keeps_space(last_char(old(self).st().inl))),
        r.1@ == (if text@.len() > 0 && is_space(text@[0]) { after_spaces(text@) } else { text@ }),
//@@ beforeloop 1
        let ghost before = last_char(self.st().inl);
        proof {
            lemma_levels(self.ifc(), self.ongoing_inline_boxes_stack@, all_, self.ongoing_inline_boxes_stack@.len() as int);
            lemma_join_same(all_, stack@, stack@.len() as int);
            assert forall|i: int| 0 <= i < all_.len() implies (#[trigger] all_[i]).ok() by { if i > 0 { assert(all_[i - 1 + 1].v@ == self.ongoing_inline_boxes_stack@[i - 1].children@); } }
        }
//@@ before /let mut inline_level_boxes = stack/
        let ghost all_ = stack@;
//@@ loop 1
            invariant
                inline_level_boxes.ok(), forall|i: int| 0 <= i < stack@.len() ==> (#[trigger] stack@[i]).ok(),
                last_char(join(stack@, stack@.len() as int) + flat_upto(inline_level_boxes.v@, inline_level_boxes.n as int)) == before,
            ensures preserved == keeps_space(before)
//@@ loopstart 1
            let ghost (s, b) = (stack@, inline_level_boxes);
            let ghost j = join(s, s.len() as int);
            proof {
                lemma_last_char(j, flat_upto(b.v@, b.n as int));
                if b.n > 0 {
                    lemma_back(j, b.v@, b.n as int);
                    assert forall|x: Back| join(#[trigger] s.push(x), s.len() as int + 1) == j + flat_upto(x.v@, x.n as int) by {
                        lemma_join_same(s.push(x), s, s.len() as int);
                    }
                } else {
                    assert(j + Seq::<Tok>::empty() =~= j);
                    if s.len() > 0 { lemma_join_same(s, s.drop_last(), s.len() - 1); }
                }
            }
//@@ end
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> BlockContainerBuilder<'a> :: current_inline_level_boxes
//@@ sub /match self\s*\.ongoing_inline_boxes_stack\s*\.last_mut\(\) \{\s*Some\((\w+)\) => (.*?),\s*None => (.*?),\s*\}/ => let n_ = self.ongoing_inline_boxes_stack.len(); if n_ > 0 { let \1 = &mut self.ongoing_inline_boxes_stack[n_ - 1]; \2 } else { \3 }
//@@ ret r
//@@ spec
    ensures r@ == innermost(*old(self)), with_innermost(*old(self), *final(self), final(r)@)
//@@ end
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> :: handle_text
//@@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@@ sub /fn last_text<'a>\(.*?\n            \}\n/ => 
//@@ sub /input\.is_empty\(\)/ => is_empty(input)
//@@ sub /String::new\(\)/ => no_text()
//@@ sub /new_text_run_contents\.as_mut\(\)\.unwrap\(\)/ => text_in(&mut new_text_run_contents)
//@@ sub /let mut new_text_run_contents;\s*let output;\s*(.*?)output = ([\w.&()]+);(.*?)output = ([^;]+);\s*\}/ => let mut new_text_run_contents: Option<String>; let output: &mut String = \1\2 \3 \4 };
//@@ sub /output\.push\(' '\)/ => add_char(output, ' ')
//@@ sub /output\.push_str\((\w+)\)/ => add_str(output, \1)
//@@ sub /input\.bytes\(\)\.position\(\|b\| b\.is_ascii_whitespace\(\)\)/ => position_of_space(input)
//@@ sub /rest\.bytes\(\)\.position\(\|b\| !b\.is_ascii_whitespace\(\)\)/ => position_of_other(rest)
//@@ sub /input\.split_at\(i\)/ => split_text(input, i)
//@@ sub /&rest\[i\.\.\]/ => text_from(rest, i)
//@@ sub /(?<!mut )\binlines\.push\(/ => inlines.push(
//@@ spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).same(*old(self)), final(self).st() == step(old(self).st(), Event::Text(input@, *parent_style), *old(self).block_container_style)
//@@ start
        let ghost what = added(last_char(old(self).st().inl), input@);
        proof { assert(squeezed(Seq::<char>::empty()) =~= Seq::<char>::empty()) by { lemma_first_space(Seq::<char>::empty()); } assert(old(self).st().inl + chars(Seq::empty(), *parent_style) =~= old(self).st().inl); }
//@@ before /if leading_whitespace \{/
            let ghost t0 = output@;
//@@ before /text \s*\} else \{/
                proof { was_run = true; }
//@@ before /let mut new_text_run_contents/
            let ghost i0 = inlines@;
            let ghost mut was_run = false;
//@@ after /if let Some\(text\) = new_text_run_contents \{.*?\n            \}\n/
            proof {
                let bs = innermost(*self);
                let more = chars(what, *parent_style);
                assert(chars(t0 + what, *parent_style) =~= chars(t0, *parent_style) + more);
                if was_run { assert(*bs.last() matches InlineLevelBox::TextRun(r) && r.text@ == t0 + what && r.parent_style == *parent_style); assert(flat(*bs.last()) == chars(t0 + what, *parent_style)); assert(flat(*i0.last()) == chars(t0, *parent_style)); lemma_all_update(i0, bs, more); } else {
                    assert(t0 + what =~= what);
                    lemma_all_push(i0, bs.last());
                    assert(bs =~= i0.push(bs.last()));
                    assert(t0.len() == 0);
                    assert(*bs.last() matches InlineLevelBox::TextRun(r) && r.text@ == what && r.parent_style == *parent_style);
                }
                lemma_added(*old(self), *self, bs, more);
            }
//@@ afterloop 1
            proof { assert(output@ == t0 + what); assert(final(output)@ == t0 + what); }
//@@ loop 1
                invariant output@ + squeezed(input@) == t0 + what
                ensures output@ =~= t0 + what
//@@ loopstart 1
                let ghost (o0, in0) = (output@, input@);
                proof {
                    lemma_first_space(in0);
                    let i = first_space(in0);
                    let (a, b) = (in0.take(i), squeezed(after_spaces(in0.skip(i))));
                    assert(o0 + (a.push(' ') + b) =~= (o0 + a).push(' ') + b);
                    if after_spaces(in0.skip(i)).len() == 0 { assert(after_spaces(in0.skip(i)) =~= Seq::<char>::empty()); assert((o0 + a).push(' ') + b =~= (o0 + a).push(' ')); }
                }
//@@ loopend 1
                    proof { }
//@@ end
}
// ---------------------------------------------------------------- elements
/// the open boxes end and go on behind a block
proof fn lemma_closes(n: nat)
    ensures closes(0) =~= Seq::<Tok>::empty(), n > 0 ==> closes(n) =~= closes((n - 1) as nat).push(Tok::Close(false)), n > 0 ==> closes(n) =~= seq![Tok::Close(false)] + closes((n - 1) as nat)
{ }
/// what is in the open boxes from `k` on, with their ends
pub open spec fn inner(stack: Seq<InlineBox>, k: int) -> Seq<Tok>
    decreases stack.len() - k
{
    if k < 0 || k >= stack.len() { Seq::empty() } else { (seq![Tok::Open(stack[k].style, stack[k].first_fragment)] + (all(stack[k].children@) + inner(stack, k + 1))).push(Tok::Close(false)) }
}
proof fn lemma_inner(ifc: Seq<Arc<InlineLevelBox>>, stack: Seq<InlineBox>, k: int)
    requires 0 <= k <= stack.len()
    ensures lines(ifc, stack, k) + inner(stack, k) == lines(ifc, stack, stack.len() as int) + closes((stack.len() - k) as nat)
    decreases stack.len() - k
{
    lemma_closes((stack.len() - k) as nat);
    if k < stack.len() {
        lemma_inner(ifc, stack, k + 1);
        let (l, o, c, i) = (lines(ifc, stack, k), Tok::Open(stack[k].style, stack[k].first_fragment), all(stack[k].children@), inner(stack, k + 1));
        assert(lines(ifc, stack, k + 1) =~= l.push(o) + c);
        assert(l + (seq![o] + (c + i)).push(Tok::Close(false)) =~= ((l.push(o) + c) + i).push(Tok::Close(false)));
        let (w, z) = (lines(ifc, stack, stack.len() as int), closes((stack.len() - k - 1) as nat));
        assert((w + z).push(Tok::Close(false)) =~= w + z.push(Tok::Close(false)));
    } else { assert(inner(stack, k) =~= Seq::<Tok>::empty()); assert(closes(0) =~= Seq::<Tok>::empty()); }
}
/// the open boxes behind a block
pub open spec fn again(a: Seq<InlineBox>, b: Seq<InlineBox>, k: int) -> bool {
    &&& a.len() == b.len() && forall|i: int| 0 <= i < k ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| k <= i < a.len() ==> (#[trigger] b[i]).style == a[i].style && !b[i].first_fragment && b[i].children@ == Seq::<Arc<InlineLevelBox>>::empty()
}
proof fn lemma_again(a: Seq<InlineBox>, b: Seq<InlineBox>, k: int)
    requires again(a, b, 0), 0 <= k <= a.len()
    ensures lines(Seq::empty(), b, k) == opens(styles(a)).take(k)
    decreases k
{
    if k > 0 {
        lemma_again(a, b, k - 1);
        assert(all(b[k - 1].children@) =~= Seq::<Tok>::empty());
        assert(opens(styles(a)).take(k) =~= opens(styles(a)).take(k - 1).push(Tok::Open(a[k - 1].style, false)));
        assert(lines(Seq::empty(), b, k) =~= opens(styles(a)).take(k));
    } else { assert(lines(Seq::empty(), b, k) =~= opens(styles(a)).take(k)); }
}
/// there is something in each box
proof fn lemma_some(bs: Seq<Arc<InlineLevelBox>>)
    requires all_solid(bs, bs.len() as int)
    ensures all(bs).len() == 0 <==> bs.len() == 0
{ if bs.len() > 0 { let b = &*bs.last(); assert(solid(*b)); assert(flat(*b).len() > 0) by { match b { InlineLevelBox::TextRun(r) => {} _ => {} } } } }
proof fn lemma_some_lines(b: BlockContainerBuilder)
    requires b.ok()
    ensures b.st().inl.len() == 0 <==> (b.ifc().len() == 0 && b.ongoing_inline_boxes_stack@.len() == 0)
{ lemma_some(b.ifc()); }
/// everything that is opened ends, and text stays in the open boxes
proof fn lemma_open(c: Context, ts: Seq<Tree>, i: int, style: Style, s: St, of: Style)
    ensures run(s, events(c, ts, i, style), of).open == s.open
    decreases ts, ts.len() - i
{
    if 0 <= i < ts.len() {
        lemma_open_of(c, ts[i], style, s, of);
        lemma_run(s, events_of(c, ts[i], style), events(c, ts, i + 1, style), of);
        lemma_open(c, ts, i + 1, style, run(s, events_of(c, ts[i], style), of), of);
    }
}
proof fn lemma_open_of(c: Context, t: Tree, style: Style, s: St, of: Style)
    ensures run(s, events_of(c, t, style), of).open == s.open
    decreases t
{
    match t {
        Tree::Element(id, kids) => {
            let st = child_style(c, id, style);
            match display_of(st) {
                Display::None => {}
                Display::Contents => { lemma_open(c, kids, 0, st, s, of); }
                Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Inline, inside }) => {
                    let es = events(c, kids, 0, st);
                    lemma_inline(s, st, es, of);
                    let s1 = step(s, Event::Start(st), of);
                    lemma_open(c, kids, 0, st, s1, of);
                    assert(s1.open.drop_last() =~= s.open);
                }
                Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Block, inside }) => {
                    lemma_run_one(s, block_event(st, inside, id), of);
                }
            }
        }
        Tree::Text(x) => { lemma_run_one(s, Event::Text(x, style), of); }
        Tree::Other => {}
    }
}
proof fn lemma_inline(s: St, st: Style, es: Seq<Event>, of: Style)
    ensures run(s, (seq![Event::Start(st)] + es).push(Event::End), of) == step(run(step(s, Event::Start(st), of), es, of), Event::End, of)
{
    let a = seq![Event::Start(st)];
    assert((a + es).push(Event::End).drop_last() =~= a + es);
    lemma_run(s, a, es, of);
    lemma_run_one(s, Event::Start(st), of);
}
/// one element, as in `events_of`
pub open spec fn element_events(c: Context, st: Style, d: DisplayGeneratingBox, id: NodeId) -> Seq<Event> {
    match d {
        DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Inline, inside } => (seq![Event::Start(st)] + events(c, kids(*c.document, id), 0, st)).push(Event::End),
        DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Block, inside } => seq![
            block_event(st, inside, id)],
    }
}
pub assume_specification<T>[ std::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
fn take_boxes<T>(x: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(x)@, final(x)@ == Seq::<T>::empty() { std::mem::replace(x, Vec::new()) }
fn take_lines(x: &mut InlineFormattingContext) -> (r: InlineFormattingContext)
    ensures r == *old(x), final(x).inline_level_boxes@ == Seq::<Arc<InlineLevelBox>>::empty()
{ std::mem::replace(x, InlineFormattingContext { inline_level_boxes: Vec::new() }) }
/// Option::get_or_insert_with
fn style_in(o: &mut Option<Style>, parent: &Style) -> (r: Style)
    ensures r == (match *old(o) { Some(x) => x, None => parent.anonymous() }), *final(o) == Some(r)
{
    match o { Some(x) => x.clone(), None => { let s = ComputedValues::anonymous_inheriting_from(Some(parent)); *o = Some(s.clone()); s } }
}
impl Contents {
//@@ fn victor/src/layout/dom_traversal.rs | impl std::convert::TryFrom<Contents> for NonReplacedContents :: try_from
//@@ sub /Result<Self, Self::Error>/ => Result<NonReplacedContents, ReplacedContent>
//@@ sub /fn try_from/ => fn try_into_
//@@ ret r
//@@ spec
    ensures contents matches Contents::OfElement(id) ==> r == Ok::<NonReplacedContents, ReplacedContent>(NonReplacedContents::OfElement(id))
//@@ end
//@@ fn victor/src/layout/dom_traversal.rs | impl std::convert::From<NonReplacedContents> for Contents :: from
//@@ sub /fn from/ => fn from_
//@@ ret r
//@@ spec
    ensures contents matches NonReplacedContents::OfElement(id) ==> r == Contents::OfElement(id)
//@@ end
}
//@@ gsub /contents\.try_into\(\)/ => Contents::try_into_(contents)
//@@ gsub /contents: contents\.into\(\)/ => contents: Contents::from_(contents)
//@@ gsub /unimplemented!\(\)/ => not_reached()
fn not_reached<T>() -> (t: T) requires false { vstd::pervasive::unreached() }
//@@ gsub /handler: &mut impl TraversalHandler<'dom>/ => handler: &mut BlockContainerBuilder<'dom>
impl NonReplacedContents {
//@@ fn victor/src/layout/dom_traversal.rs | impl NonReplacedContents :: traverse
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ sub /traverse_pseudo_element_contents\(inherited_style, items, handler\)/ => not_reached()
//@@ spec
    requires old(handler).ok(), old(handler).context == context, self is OfElement
    ensures
        final(handler).ok(), final(handler).same(*old(handler)),
        final(handler).st() == run(old(handler).st(), events(*context, kids(*context.document, self->OfElement_0), 0, *inherited_style), *old(handler).block_container_style)
//@@ end
}
//@@ fn victor/src/layout/dom_traversal.rs | traverse_children_of
//@@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@@ sub /handler\.handle_text\(contents, / => handler.handle_text(contents.as_str(), 
//@@ sub /traverse_pseudo_element\([^;]*\);/ => 
//@@ spec
    requires old(handler).ok(), old(handler).context == context
    ensures
        final(handler).ok(), final(handler).same(*old(handler)),
        final(handler).st() == run(old(handler).st(), events(*context, kids(*context.document, parent_element), 0, *parent_element_style), *old(handler).block_container_style)
//@@ start
    let ghost ts = kids(*context.document, parent_element);
    let ghost mut i: int = 0;
    let ghost (c, st, of, s0) = (*context, *parent_element_style, *handler.block_container_style, handler.st());
    proof { lemma_kids(*context.document, parent_element); assert(run(s0, events(c, ts, 0, st), of) == run(s0, events(c, ts, 0, st), of)); }
//@@ loop 1
        invariant
            handler.ok(), handler.same(*old(handler)), 0 <= i <= ts.len(), trees(*context.document, next, ts, i),
            run(handler.st(), events(c, ts, i, st), of) == run(s0, events(c, ts, 0, st), of)
//@@ loopstart 1
        let ghost h0 = handler.st();
        proof {
            lemma_run(h0, events_of(c, ts[i], st), events(c, ts, i + 1, st), of);
            assert(tree(*context.document, child, ts[i]));
            match &context.document.at(child).data {
                NodeData::Text { contents } => { lemma_run_one(h0, Event::Text(contents@, st), of); }
                NodeData::Element(_) => { lemma_kids_of(*context.document, child, ts[i]); }
                _ => { }
            }
        }
//@@ loopend 1
        proof { i = i + 1; }
//@@ end
//@@ fn victor/src/layout/dom_traversal.rs | traverse_element
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ sub /context\.unset_boxes_in_subtree\(element_id\)/ => {}
//@@ sub /context\.layout_data_mut\(element_id\)\.self_box = Some\(LayoutBox::DisplayContents\);/ => 
//@@ sub /context\.element_box_slot\(element_id\)/ => BoxSlot::dummy()
//@@ sub /parent_element_style: &ComputedValues/ => parent_element_style: &Style
//@@ spec
    requires old(handler).ok(), old(handler).context == context
    ensures
        final(handler).ok(), final(handler).same(*old(handler)),
        final(handler).st() == run(old(handler).st(), events_of(*context, Tree::Element(element_id, kids(*context.document, element_id)), *parent_element_style), *old(handler).block_container_style)
//@@ end
impl<'a> BlockContainerBuilder<'a> {
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> :: handle_element
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires old(self).ok(), contents is OfElement, !is_inline_block(Display::GeneratingBox(display))
    ensures
        final(self).ok(), final(self).same(*old(self)),
        final(self).st() == run(old(self).st(), element_events(*old(self).context, *style, display, contents->OfElement_0), *old(self).block_container_style)
//@@ start
        proof {
            let (c, of) = (*old(self).context, *old(self).block_container_style);
            let id = contents->OfElement_0;
            match display {
                DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Inline, inside } => { lemma_inline(self.st(), *style, events(c, kids(*c.document, id), 0, *style), of); }
                DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Block, inside } => {
                    lemma_run_one(self.st(), block_event(*style, inside, id), of);
                }
            }
        }
//@@ end
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> BlockContainerBuilder<'a> :: handle_inline_level_element
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires old(self).ok(), contents is OfElement, display_inside == DisplayInside::Flow
    ensures
        final(self).ok(), final(self).same(*old(self)),
        final(self).st() == step(run(step(old(self).st(), Event::Start(*style), *old(self).block_container_style), events(*old(self).context, kids(*old(self).context.document, contents->OfElement_0), 0, *style), *old(self).block_container_style), Event::End, *old(self).block_container_style)
//@@ start
        let ghost mut h2 = *self;
        let ghost (c, of, st, id) = (*self.context, *self.block_container_style, *style, contents->OfElement_0);
        let ghost s0 = self.ongoing_inline_boxes_stack@;
//@@ before /NonReplacedContents::traverse\(/
                    proof {
                        lemma_lines_same(self.ifc(), s0, self.ongoing_inline_boxes_stack@, s0.len() as int);
                        assert(all(Seq::empty()) =~= Seq::<Tok>::empty());
                        assert(self.st().inl =~= old(self).st().inl.push(Tok::Open(st, true)));
                        assert(self.st().open =~= old(self).st().open.push(st));
                        lemma_open(c, kids(*c.document, id), 0, st, self.st(), of);
                    }
//@@ after /NonReplacedContents::traverse\([^;]*;/
                    proof {
                        h2 = *self;
                        assert(h2.st().open.len() == self.ongoing_inline_boxes_stack@.len());
                    }
//@@ before /self\.current_inline_level_boxes\(\)/
        let ghost h3 = *self;
        proof { lemma_lines_same(h3.ifc(), h2.ongoing_inline_boxes_stack@, h3.ongoing_inline_boxes_stack@, h3.ongoing_inline_boxes_stack@.len() as int); }
//@@ tail r_
        proof {
            let bs = innermost(*self);
            let i0 = innermost(h3);
            lemma_all_push(i0, bs.last());
            assert(bs =~= i0.push(bs.last()));
            let top = h2.ongoing_inline_boxes_stack@.last();
            let t = (seq![Tok::Open(top.style, top.first_fragment)] + all(top.children@)).push(Tok::Close(true));
            lemma_added(h3, *self, bs, t);
            let l = h3.st().inl;
            assert(l + t =~= (l.push(Tok::Open(top.style, top.first_fragment)) + all(top.children@)).push(Tok::Close(true)));
            assert(self.st().inl == h2.st().inl.push(Tok::Close(true)));
            assert(self.st().open =~= h2.st().open.drop_last());
        }
//@@ end
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> BlockContainerBuilder<'a> :: handle_block_level_element
//@@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@@ sub /let mut fragmented_inline_boxes =\s*self\s*\.ongoing_inline_boxes_stack\s*\.iter_mut\(\)\s*\.rev\(\)\s*\.map\(\|ongoing\| \{(.*?)\bfragmented\s*\}\);(.*?)if let Some\((\w+)\) = fragmented_inline_boxes\.next\(\) \{(.*?)for mut (\w+) in fragmented_inline_boxes \{/ => let mut at_: usize = self.ongoing_inline_boxes_stack.len();\2 if at_ > 0 { at_ = at_ - 1; let \3 = { let ongoing = &mut self.ongoing_inline_boxes_stack[at_]; \1 fragmented };\4 while at_ > 0 { at_ = at_ - 1; let mut \5 = { let ongoing = &mut self.ongoing_inline_boxes_stack[at_]; \1 fragmented };
//@@ sub /take\(&mut ongoing\.children\)/ => take_boxes(&mut ongoing.children)
//@@ spec
    requires old(self).ok(), contents is OfElement
    ensures
        final(self).ok(), final(self).same(*old(self)),
        final(self).st() == step(old(self).st(), Event::Block(style, display_inside, contents->OfElement_0), *old(self).block_container_style)
//@@ loop 1
            invariant
                self.same(*old(self)), at_ < s0.len(), again(s0, self.ongoing_inline_boxes_stack@, at_ as int),
                self.ongoing_inline_formatting_context == old(self).ongoing_inline_formatting_context, self.anonymous_style == old(self).anonymous_style, self.block_level_boxes == old(self).block_level_boxes,
                flat(fragmented_inline) == inner(s0, at_ as int), solid(fragmented_inline)
            decreases at_
//@@ start
        let ghost s0 = self.ongoing_inline_boxes_stack@;
        let ghost n = s0.len() as int;
        let ghost (i0, what) = (self.ifc(), Event::Block(style, display_inside, contents->OfElement_0));
        proof { lemma_some_lines(*self); lemma_inner(i0, s0, 0); lemma_closes(0); assert(self.st().inl + closes(0) =~= self.st().inl); }
//@@ beforeloop 1
            proof { let k = s0[n - 1].children@; assert(inner(s0, n) =~= Seq::<Tok>::empty()); assert(k.len() >= 0); assert(all(k) + inner(s0, n) =~= all(k)); assert(all_solid(k, k.len() as int)); }
//@@ loopstart 1
                let ghost f0 = fragmented_inline;
//@@ loopend 1
                proof {
                    let k = s0[at_ as int].children@;
                    let b = (fragmented_inline->InlineBox_0).children@;
                    lemma_all_push(k, b.last());
                    assert(all_solid(k, k.len() as int));
                    assert(b =~= k.push(b.last()));
                }
//@@ before /self\.end_ongoing_inline_formatting_context\(\)/
        let ghost h1 = *self;
        proof {
            if n > 0 { lemma_all_push(i0, h1.ifc().last()); assert(h1.ifc() =~= i0.push(h1.ifc().last())); }
            assert(h1.ok());
        }
//@@ tail r_
        proof {
            lemma_again(s0, self.ongoing_inline_boxes_stack@, n);
            let to = step(old(self).st(), what, *old(self).block_container_style);
            assert(opens(styles(s0)).take(n) =~= opens(styles(s0)));
            assert(self.st().open =~= to.open);
            assert(self.st().inl == to.inl);
            assert(self.st().blocks =~= to.blocks);
        }
//@@ end
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> BlockContainerBuilder<'a> :: handle_absolutely_positioned_element
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires old(self).ok(), contents is OfElement
    ensures
        final(self).ok(), final(self).same(*old(self)),
        final(self).st() == step(old(self).st(), Event::Abs(style, display_inside, contents->OfElement_0), *old(self).block_container_style)
//@@ start
        let ghost (i0, b0) = (innermost(*self), self.block_level_boxes@);
        proof { lemma_some_lines(*self); }
//@@ tail r_
        proof {
            if old(self).st().inl.len() == 0 { assert(self.st().blocks =~= step(old(self).st(), Event::Abs(style, display_inside, contents->OfElement_0), *old(self).block_container_style).blocks); } else {
                let bs = innermost(*self);
                lemma_all_push(i0, bs.last());
                assert(bs =~= i0.push(bs.last()));
                lemma_added(*old(self), *self, bs, seq![Tok::Abs(style)]);
                assert(old(self).st().inl + seq![Tok::Abs(style)] =~= old(self).st().inl.push(Tok::Abs(style)));
            }
        }
//@@ end
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> BlockContainerBuilder<'a> :: handle_float_element
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires old(self).ok(), contents is OfElement
    ensures
        final(self).ok(), final(self).same(*old(self)),
        final(self).st() == step(old(self).st(), Event::Float(style, display_inside, contents->OfElement_0), *old(self).block_container_style)
//@@ start
        let ghost (i0, b0) = (innermost(*self), self.block_level_boxes@);
        proof { lemma_some_lines(*self); }
//@@ tail r_
        proof {
            if old(self).st().inl.len() == 0 { assert(self.st().blocks =~= step(old(self).st(), Event::Float(style, display_inside, contents->OfElement_0), *old(self).block_container_style).blocks); } else {
                let bs = innermost(*self);
                lemma_all_push(i0, bs.last());
                assert(bs =~= i0.push(bs.last()));
                lemma_added(*old(self), *self, bs, seq![Tok::Float(style)]);
                assert(old(self).st().inl + seq![Tok::Float(style)] =~= old(self).st().inl.push(Tok::Float(style)));
            }
        }
//@@ end
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> BlockContainerBuilder<'a> :: end_ongoing_inline_formatting_context
//@@ sub /let anonymous_style = self\.anonymous_style\.get_or_insert_with\(\|\| \{\s*ComputedValues::anonymous_inheriting_from\(Some\((\w+)\)\)\s*\}\);/ => let anonymous_style = style_in(&mut self.anonymous_style, \1);
//@@ sub /take\(/ => take_lines(
//@@ spec
    requires old(self).ok()
    ensures
        final(self).ok(), final(self).same(*old(self)), final(self).ongoing_inline_boxes_stack == old(self).ongoing_inline_boxes_stack,
        final(self).ifc() == Seq::<Arc<InlineLevelBox>>::empty(),
        items_of(final(self).block_level_boxes@) == (if old(self).ifc().len() == 0 { items_of(old(self).block_level_boxes@) } else { items_of(old(self).block_level_boxes@).push(Item::Anonymous(old(self).block_container_style.anonymous(), all(old(self).ifc()))) })
//@@ tail r_
        proof { assert(items_of(self.block_level_boxes@) =~= items_of(old(self).block_level_boxes@).push(Item::Anonymous(old(self).block_container_style.anonymous(), all(old(self).ifc())))); }
//@@ end
//@@ fn victor/src/layout/flow/construct.rs | impl<'a> BlockContainerBuilder<'a> :: has_ongoing_inline_formatting_context
//@@ ret r
//@@ spec
    requires self.ok()
    ensures r == (self.ifc().len() > 0 || self.ongoing_inline_boxes_stack@.len() > 0)
//@@ end
}
// ---------------------------------------------------------------- boxes of whole elements
pub open spec fn nothing() -> St { St { blocks: Seq::empty(), inl: Seq::empty(), open: Seq::empty() } }
/// what the contents of an element are
pub open spec fn contents_of(c: Context, style: Style, id: NodeId) -> St { run(nothing(), events(c, kids(*c.document, id), 0, style), style) }
/// these are the boxes for it, down to the leaves
pub open spec fn built(c: Context, style: Style, id: NodeId, b: BlockContainer) -> bool
    decreases b
{
    let s = contents_of(c, style, id);
    match b {
        BlockContainer::InlineFormattingContext(i) => s.blocks.len() == 0 && s.inl.len() > 0 && all(i.inline_level_boxes@) == s.inl,
        BlockContainer::BlockLevelBoxes(bs) => (s.blocks.len() > 0 || s.inl.len() == 0) && bs@.len() == ended(s, style).len() && all_made(c, ended(s, style), bs@, bs@.len() as int),
    }
}
pub open spec fn all_made(c: Context, items: Seq<Item>, bs: Seq<Arc<BlockLevelBox>>, n: int) -> bool
    decreases bs, n
{ n <= 0 || n > bs.len() || (all_made(c, items, bs, n - 1) && made(c, items[n - 1], *bs[n - 1])) }
pub open spec fn made(c: Context, item: Item, b: BlockLevelBox) -> bool
    decreases b
{
    match b {
        BlockLevelBox::SameFormattingContextBlock { style, contents } => match item {
            Item::Anonymous(st, toks) => st == style && (contents matches BlockContainer::InlineFormattingContext(i) && all(i.inline_level_boxes@) == toks),
            Item::Block(st, inside, id) => st == style && inside == DisplayInside::Flow && built(c, st, id, contents),
            _ => false,
        },
        BlockLevelBox::Independent { style, contents } => item matches Item::Block(st, inside, id) && st == style && inside != DisplayInside::Flow && independent(c, st, id, contents),
        BlockLevelBox::OutOfFlowAbsolutelyPositionedBox(a) => item matches Item::Abs(st, inside, id) && st == a.style && independent(c, st, id, a.contents),
        BlockLevelBox::OutOfFlowFloatBox(f) => item matches Item::Float(st, inside, id) && st == f.style && independent(c, st, id, f.contents),
    }
}
pub open spec fn independent(c: Context, style: Style, id: NodeId, b: IndependentFormattingContext) -> bool
    decreases b
{ match b { IndependentFormattingContext::Flow(f) => built(c, style, id, f.contents), IndependentFormattingContext::Replaced(_) => false } }
proof fn lemma_made_push(c: Context, items: Seq<Item>, a: Seq<Arc<BlockLevelBox>>, b: Arc<BlockLevelBox>, n: int)
    requires n <= a.len()
    ensures all_made(c, items, a.push(b), n) == all_made(c, items, a, n)
    decreases n
{ if n > 0 { lemma_made_push(c, items, a, b, n - 1); } }
impl IndependentFormattingContext {
//@@ fn victor/src/layout/mod.rs | impl IndependentFormattingContext :: construct
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ ret r
//@@ spec
    requires contents is OfElement, finite(*context.document)
    ensures independent(*context, *style, contents->OfElement_0, r)
//@@ end
}
//@@ gsub /contains_floats == ContainsFloats::Yes/ => is_yes(&contains_floats)
fn is_yes(c: &ContainsFloats) -> (r: bool) ensures r == (*c is Yes) { match c { ContainsFloats::Yes => true, ContainsFloats::No => false } }
impl BlockFormattingContext {
//@@ fn victor/src/layout/flow/construct.rs | impl BlockFormattingContext :: construct
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ ret r
//@@ spec
    requires contents is OfElement, finite(*context.document)
    ensures built(*context, *style, contents->OfElement_0, r.contents)
//@@ end
}
impl ContainsFloats {
//@@ fn victor/src/layout/flow/construct.rs | impl std::ops::BitOrAssign for ContainsFloats :: bitor_assign
//@@ sub /other == ContainsFloats::Yes/ => is_yes(&other)
//@@ spec
    ensures (*final(self) is Yes) == (*old(self) is Yes || other is Yes)
//@@ end
}
fn panic_unless(b: bool) requires b { }
impl BlockContainer {
//@@ fn victor/src/layout/flow/construct.rs | impl BlockContainer :: construct
//@@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@@ sub /(block_level_boxes|ongoing_inline_boxes_stack): Default::default\(\)/ => \1: Vec::new()
//@@ sub /ongoing_inline_formatting_context: Default::default\(\)/ => ongoing_inline_formatting_context: InlineFormattingContext { inline_level_boxes: Vec::new() }
//@@ sub /anonymous_style: Default::default\(\)/ => anonymous_style: None
//@@ sub /contains_floats: Default::default\(\)/ => contains_floats: ContainsFloats::No
//@@ sub /debug_assert!\(([^;]*)\);/ => panic_unless(\1);
//@@ sub /\*contains_floats \|= (\w+);/ => contains_floats.bitor_assign(\1);
//@@ sub /let container = BlockContainer::BlockLevelBoxes\(\s*builder\s*\.block_level_boxes\s*\.into_par_iter\(\)\s*\.mapfold_reduce_into\(\s*&mut \w+,\s*\|\w+, \((\w+), (\w+)\)\| \{(.*?)\b(\w+)\s*\},\s*\|\w+, \w+\|[^,]*,\s*\)\s*\.collect\(\),\s*\);/ => let mut boxes_: Vec<Arc<BlockLevelBox>> = Vec::new(); let mut todo_ = builder.block_level_boxes; while todo_.len() > 0 { let (\1, \2) = todo_.remove(0); \3 boxes_.push(\4); } let container = BlockContainer::BlockLevelBoxes(boxes_);
//@@ ret r
//@@ spec
    requires contents is OfElement, finite(*context.document)
    ensures built(*context, *block_container_style, contents->OfElement_0, r.0)
//@@ start
        let ghost (c, st, id) = (*context, *block_container_style, contents->OfElement_0);
        let ghost es = events(c, kids(*c.document, id), 0, st);
        proof { lemma_open(c, kids(*c.document, id), 0, st, nothing(), st); }
//@@ before /contents\.traverse\(/
        proof {
            assert(builder.st().blocks =~= nothing().blocks && builder.st().inl =~= nothing().inl && builder.st().open =~= nothing().open);
            assert(builder.ok());
        }
//@@ after /contents\.traverse\([^;]*;/
        let ghost b1 = builder;
        proof { assert(b1.st() == contents_of(c, st, id)); assert(b1.st().open.len() == b1.ongoing_inline_boxes_stack@.len()); lemma_some_lines(b1); lemma_closes(0); assert(b1.st().inl + closes(0) =~= b1.st().inl); }
//@@ beforeloop 1
        let ghost (all_, items) = (todo_@, items_of(todo_@));
        proof { assert(items =~= ended(b1.st(), st)); assert(all_.skip(0) =~= all_); }
//@@ loop 1
            invariant
                boxes_@.len() <= all_.len(), todo_@ == all_.skip(boxes_@.len() as int), all_made(c, items, boxes_@, boxes_@.len() as int),
                forall|i: int| 0 <= i < all_.len() ==> item_ok((#[trigger] all_[i]).0)
            decreases todo_@.len()
//@@ loopstart 1
            let ghost (t0, n0) = (todo_@, boxes_@);
            proof { assert(t0[0] == all_[n0.len() as int]); assert(t0.remove(0) =~= all_.skip(n0.len() as int + 1)); }
//@@ loopend 1
            proof { lemma_made_push(c, items, n0, boxes_@.last(), n0.len() as int); assert(boxes_@ =~= n0.push(boxes_@.last())); }
//@@ end
}
impl IntermediateBlockLevelBox {
//@@ fn victor/src/layout/flow/construct.rs | impl IntermediateBlockLevelBox :: finish
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ ret r
//@@ spec
    requires item_ok(self), finite(*context.document)
    ensures made(*context, item_of(self), *r.0)
//@@ end
}
impl IntermediateBlockContainer {
//@@ fn victor/src/layout/flow/construct.rs | impl IntermediateBlockContainer :: finish
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ ret r
//@@ spec
    requires self matches IntermediateBlockContainer::Deferred { contents } ==> contents is OfElement, finite(*context.document)
    ensures
        self matches IntermediateBlockContainer::InlineFormattingContext(i) ==> r.0 == BlockContainer::InlineFormattingContext(i),
        self matches IntermediateBlockContainer::Deferred { contents } ==> built(*context, *style, contents->OfElement_0, r.0),
//@@ end
}
/// the box of the root element
pub open spec fn root_made(c: Context, style: Style, id: NodeId, bs: Seq<Arc<BlockLevelBox>>) -> bool {
    if display_of(style) is None { bs.len() == 0 } else {
        bs.len() == 1 && match *bs[0] {
            BlockLevelBox::OutOfFlowAbsolutelyPositionedBox(a) => style.abspos() && a.style == style && independent(c, style, id, a.contents),
            BlockLevelBox::OutOfFlowFloatBox(f) => !style.abspos() && style.floating() && f.style == style && independent(c, style, id, f.contents),
            BlockLevelBox::Independent { style: st, contents } => !style.abspos() && !style.floating() && st == style && independent(c, style, id, contents),
            _ => false,
        }
    }
}
#[verifier::external_body]
fn never<T>(r: ReplacedContent) -> (t: T) ensures false { unimplemented!() }
//@@ fn victor/src/layout/flow/root.rs | construct_for_root_element
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ sub /dom::NodeId/ => NodeId
//@@ sub /match replaced \{\}/ => never(replaced)
//@@ sub /let _box = / => let _box: BlockLevelBox = 
//@@ ret r
//@@ spec
    requires finite(*context.document)
    ensures root_made(*context, style, root_element, r.1@)
//@@ end

// ---------------------------------------------------------------- what that means for texts
/// what is not white space
pub open spec fn words(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if is_space(s[0]) { words(s.skip(1)) } else { seq![s[0]] + words(s.skip(1)) } }
proof fn lemma_words(a: Seq<char>, b: Seq<char>)
    ensures words(a + b) == words(a) + words(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(words(a) + words(b) =~= words(b)); } else {
        lemma_words(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(words(a + b) =~= words(a) + words(b));
    }
}
proof fn lemma_words_after(s: Seq<char>)
    ensures words(after_spaces(s)) == words(s), after_spaces(s).len() > 0 ==> !is_space(after_spaces(s)[0])
    decreases s.len()
{ if s.len() > 0 && is_space(s[0]) { lemma_words_after(s.skip(1)); } }
proof fn lemma_words_space()
    ensures words(seq![' ']) == Seq::<char>::empty()
{ reveal_with_fuel(words, 2); assert(seq![' '].skip(1) =~= Seq::<char>::empty()); }
proof fn lemma_words_squeezed(s: Seq<char>)
    ensures words(squeezed(s)) == words(s)
    decreases s.len()
{
    lemma_first_space(s);
    let i = first_space(s);
    if i < s.len() {
        let (a, r) = (s.take(i), s.skip(i));
        lemma_after_spaces(r);
        lemma_words_after(r);
        lemma_words_squeezed(after_spaces(r));
        lemma_words(a.push(' '), squeezed(after_spaces(r)));
        assert(a.push(' ') =~= a + seq![' ']);
        lemma_words(a, seq![' ']);
        lemma_words_space();
        assert(words(a) + Seq::<char>::empty() =~= words(a));
        assert(a + r =~= s);
        lemma_words(a, r);
    }
}
/// no character that is shown is lost, repeated or moved
proof fn text_is_kept(before: Option<char>, s: Seq<char>)
    ensures words(added(before, s)) == words(s)
{
    lemma_words_squeezed(s);
    lemma_words_squeezed(after_spaces(s));
    lemma_words_after(s);
    lemma_words_space();
    lemma_words(seq![' '], squeezed(after_spaces(s)));
    lemma_words(Seq::empty(), squeezed(after_spaces(s)));
    assert(Seq::<char>::empty() + words(s) =~= words(s));
    assert(words(Seq::<char>::empty()) =~= Seq::<char>::empty());
}
/// the white space in a text is single spaces
pub open spec fn single_spaces(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() && is_space(#[trigger] s[i]) ==> s[i] == ' ' && (i > 0 ==> !is_space(s[i - 1]))
}
proof fn lemma_single_squeezed(s: Seq<char>)
    ensures single_spaces(squeezed(s)), s.len() > 0 && !is_space(s[0]) ==> squeezed(s).len() > 0 && squeezed(s)[0] == s[0]
    decreases s.len()
{
    lemma_first_space(s);
    let i = first_space(s);
    if i < s.len() {
        let (a, r) = (s.take(i), s.skip(i));
        lemma_after_spaces(r);
        lemma_words_after(r);
        let t = after_spaces(r);
        lemma_single_squeezed(t);
        let q = squeezed(t);
        let w = a.push(' ') + q;
        assert forall|k: int| 0 <= k < w.len() && is_space(#[trigger] w[k]) implies w[k] == ' ' && (k > 0 ==> !is_space(w[k - 1])) by {
            if k < i { assert(w[k] == s[k]); } else if k == i { if k > 0 { assert(w[k - 1] == s[k - 1]); } } else {
                assert(w[k] == q[k - i - 1]);
                if k == i + 1 { assert(t.len() > 0 && q[0] == t[0]) by { if t.len() == 0 { assert(t =~= Seq::<char>::empty()); assert(q =~= Seq::<char>::empty()) by { lemma_first_space(t); } } } } else { assert(w[k - 1] == q[k - i - 2]); }
            }
        }
    }
}
/// sequences of white space are one space, also over texts, and there is none at the start of a block
proof fn white_space_collapses(before: Option<char>, s: Seq<char>)
    ensures
        single_spaces(added(before, s)),
        added(before, s).len() > 0 && is_space(added(before, s)[0]) ==> (before matches Some(c) && c != ' '),
{
    let t = after_spaces(s);
    lemma_words_after(s);
    lemma_single_squeezed(s);
    lemma_single_squeezed(t);
    let q = squeezed(t);
    if t.len() == 0 { assert(t =~= Seq::<char>::empty()); lemma_first_space(t); assert(q =~= Seq::<char>::empty()); }
    if s.len() > 0 && is_space(s[0]) {
        let w = added(before, s);
        if keeps_space(before) {
            assert forall|k: int| 0 <= k < w.len() && is_space(#[trigger] w[k]) implies w[k] == ' ' && (k > 0 ==> !is_space(w[k - 1])) by {
                if k > 0 { assert(w[k] == q[k - 1]); if k > 1 { assert(w[k - 1] == q[k - 2]); } }
            }
        } else { assert(w =~= q); }
    } else if s.len() == 0 { assert(s =~= Seq::<char>::empty()); lemma_first_space(s); }
}
