// Contracts for the construction of boxes (victor/src/layout/dom_traversal.rs, victor/src/layout/flow/construct.rs)
#![allow(unused, nonstandard_style)]
use vstd::prelude::*;
use std::sync::Arc;

verus! {
// ---------------------------------------------------------------- types
//@@ gsub /pub\((?:super|in [^)]*)\)/ => pub
//@@ item victor/src/style/values/box_.rs | enum Display
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayGeneratingBox
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayOutside
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/style/values/box_.rs | enum DisplayInside
//@@ attr #[derive(Clone, Copy)]
//@@ end
#[verifier::external_body]
pub struct ComputedValues { x: u8 }
pub type Style = Arc<ComputedValues>;
impl ComputedValues {
    pub uninterp spec fn display(self) -> Display;
    pub uninterp spec fn abspos(self) -> bool;
    pub uninterp spec fn floating(self) -> bool;
    // the fields of the style: box_.display, box_.position, box_.float
    #[verifier::external_body]
    fn display_(&self) -> (r: Display) ensures r == self.display() { unimplemented!() }
    #[verifier::external_body]
    fn is_absolutely_positioned_(&self) -> (r: bool) ensures r == self.abspos() { unimplemented!() }
    #[verifier::external_body]
    fn is_floating_(&self) -> (r: bool) ensures r == self.floating() { unimplemented!() }
    pub uninterp spec fn anonymous(self) -> Style;
    #[verifier::external_body]
    fn anonymous_inheriting_from(parent: Option<&Style>) -> (r: Style) ensures parent matches Some(p) ==> r == p.anonymous() { unimplemented!() }
}
//@@ gsub /style\.box_\.display/ => style.display_()
//@@ gsub /style\.box_\.position\.is_absolutely_positioned\(\)/ => style.is_absolutely_positioned_()
//@@ gsub /style\.box_\.float\.is_floating\(\)/ => style.is_floating_()
// an enum without variants: there are no values of it
//@@ item victor/src/layout/replaced.rs | enum ReplacedContent
//@@ sub /^(.*?)enum (\w+) \{\s*\}$/ => #[verifier::external_body] \1struct \2 { x: u8 }
//@@ end
impl ReplacedContent {
    // always none
    #[verifier::external_body]
    fn for_element(element: NodeId, context: &Context) -> (r: Option<ReplacedContent>) ensures r is None { unimplemented!() }
}
// where the box of an element is remembered: not part of what is proved
#[verifier::external_body]
pub struct BoxSlot<'dom> { x: &'dom u8 }
impl<'dom> BoxSlot<'dom> {
    #[verifier::external_body]
    pub fn set(self, b: LayoutBox) { unimplemented!() }
    #[verifier::external_body]
    pub fn dummy() -> Self { unimplemented!() }
}
//@@ item victor/src/layout/element_data.rs | enum LayoutBox
//@@ end
//@@ item victor/src/layout/mod.rs | enum IndependentFormattingContext
//@@ sub /\benum/ => pub enum
//@@ end
//@@ item victor/src/layout/flow/mod.rs | struct BlockFormattingContext
//@@ end
//@@ item victor/src/layout/flow/mod.rs | enum BlockContainer
//@@ end
//@@ item victor/src/layout/flow/mod.rs | enum BlockLevelBox
//@@ end
//@@ item victor/src/layout/flow/float.rs | struct FloatBox
//@@ end
//@@ item victor/src/layout/positioned.rs | struct AbsolutelyPositionedBox
//@@ end
//@@ item victor/src/layout/flow/inline.rs | struct InlineFormattingContext
//@@ end
//@@ item victor/src/layout/flow/inline.rs | enum InlineLevelBox
//@@ end
//@@ item victor/src/layout/flow/inline.rs | struct InlineBox
//@@ end
//@@ item victor/src/layout/flow/inline.rs | struct TextRun
//@@ end
//@@ item victor/src/layout/dom_traversal.rs | enum Contents
//@@ end
//@@ item victor/src/layout/dom_traversal.rs | enum NonReplacedContents
//@@ end
//@@ item victor/src/layout/dom_traversal.rs | enum PseudoElementContentItem
//@@ end
//@@ item victor/src/layout/dom_traversal.rs | enum WhichPseudoElement
//@@ end
//@@ item victor/src/layout/flow/construct.rs | enum IntermediateBlockLevelBox
//@@ sub /\benum/ => pub enum
//@@ end
//@@ item victor/src/layout/flow/construct.rs | enum IntermediateBlockContainer
//@@ sub /\benum/ => pub enum
//@@ end
//@@ item victor/src/layout/flow/construct.rs | struct BlockContainerBuilder
//@@ sub /\bstruct/ => pub struct
//@@ sub /(\n    )(\w+):/ => \1pub \2:
//@@ end
//@@ item victor/src/layout/flow/construct.rs | enum ContainsFloats
//@@ end
// ---------------------------------------------------------------- the document
//@@ item victor/src/layout/dom_traversal.rs | struct Context
//@@ end
#[verifier::external_body]
pub struct StyleSet { x: u8 }
#[derive(Clone, Copy)]
pub struct NodeId(pub usize);
#[verifier::external_body]
pub struct ElementData { x: u8 }
//@@ item victor/src/dom/mod.rs | enum NodeData
//@@ end
//@@ item victor/src/dom/mod.rs | struct Node
//@@ end
#[verifier::external_body]
pub struct Document { x: u8 }
impl Document {
    pub uninterp spec fn at(self, id: NodeId) -> Node;
    // Index<NodeId>
    #[verifier::external_body]
    fn node(&self, id: NodeId) -> (r: &Node) ensures *r == self.at(id) { unimplemented!() }
}
//@@ gsub /\bdocument\[(\w+)\]/ => document.node(\1)
pub uninterp spec fn style_of(styles: StyleSet, doc: Document, e: NodeId, parent: Option<ComputedValues>) -> Style;
/// the cascade (V12 to V15).  There is no way to say `inline-block`.
#[verifier::external_body]
fn style_for_element(styles: &StyleSet, doc: &Document, e: NodeId, parent: Option<&ComputedValues>) -> (r: Style)
    ensures r == style_of(*styles, *doc, e, match parent { Some(p) => Some(*p), None => None }), !is_inline_block(r.display())
{ unimplemented!() }
pub open spec fn is_inline_block(d: Display) -> bool { d == Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Inline, inside: DisplayInside::FlowRoot }) }
/// What is below a node
pub enum Tree { Text(Seq<char>), Element(NodeId, Seq<Tree>), Other }
/// `ts` from `i` on is what there is from this sibling on
pub open spec fn trees(doc: Document, next: Option<NodeId>, ts: Seq<Tree>, i: int) -> bool
    decreases ts, ts.len() - i
{
    0 <= i <= ts.len() && match next {
        None => i == ts.len(),
        Some(n) => i < ts.len() && tree(doc, n, ts[i]) && trees(doc, doc.at(n).next_sibling, ts, i + 1),
    }
}
pub open spec fn tree(doc: Document, n: NodeId, t: Tree) -> bool
    decreases t
{
    match doc.at(n).data {
        NodeData::Text { contents } => t == Tree::Text(contents@),
        NodeData::Element(_) => t matches Tree::Element(id, kids) && id == n && trees(doc, doc.at(n).first_child, kids, 0),
        _ => t is Other,
    }
}
/// the document is made of finite trees (V01)
pub open spec fn finite(doc: Document) -> bool { forall|n: NodeId| exists|ts: Seq<Tree>| trees(doc, #[trigger] doc.at(n).first_child, ts, 0) }
pub open spec fn kids(doc: Document, n: NodeId) -> Seq<Tree> { choose|ts: Seq<Tree>| trees(doc, doc.at(n).first_child, ts, 0) }
proof fn lemma_kids(doc: Document, n: NodeId)
    requires finite(doc)
    ensures trees(doc, doc.at(n).first_child, kids(doc, n), 0)
{ let a = doc.at(n).first_child; assert(exists|ts: Seq<Tree>| trees(doc, a, ts, 0)); }
/// there is only one
proof fn lemma_one(doc: Document, next: Option<NodeId>, a: Seq<Tree>, i: int, b: Seq<Tree>, j: int)
    requires trees(doc, next, a, i), trees(doc, next, b, j)
    ensures a.len() - i == b.len() - j, forall|k: int| 0 <= k < a.len() - i ==> a[i + k] == #[trigger] b[j + k]
    decreases a, a.len() - i
{
    if next is Some {
        let n = next->0;
        lemma_one(doc, doc.at(n).next_sibling, a, i + 1, b, j + 1);
        lemma_one_tree(doc, n, a[i], b[j]);
        assert forall|k: int| 0 <= k < a.len() - i implies a[i + k] == #[trigger] b[j + k] by { if k > 0 { assert(b[j + k] == b[j + 1 + (k - 1)]); } }
    }
}
proof fn lemma_one_tree(doc: Document, n: NodeId, a: Tree, b: Tree)
    requires tree(doc, n, a), tree(doc, n, b)
    ensures a == b
    decreases a
{
    if let NodeData::Element(_) = doc.at(n).data {
        let (x, y) = (a->Element_1, b->Element_1);
        lemma_one(doc, doc.at(n).first_child, x, 0, y, 0);
        assert forall|k: int| 0 <= k < x.len() implies x[k] == #[trigger] y[k] by { assert(y[0 + k] == x[0 + k]); }
        assert(x =~= y);
    }
}
proof fn lemma_kids_of(doc: Document, n: NodeId, t: Tree)
    requires finite(doc), tree(doc, n, t), doc.at(n).data is Element
    ensures t == Tree::Element(n, kids(doc, n))
{ lemma_kids(doc, n); lemma_one_tree(doc, n, t, Tree::Element(n, kids(doc, n))); }

// ---------------------------------------------------------------- the model: what there is to do, in document order
pub enum Event { Text(Seq<char>, Style), Start(Style), End, Block(Style, DisplayInside, NodeId), Abs(Style, DisplayInside, NodeId), Float(Style, DisplayInside, NodeId) }
pub open spec fn child_style(c: Context, id: NodeId, style: Style) -> Style { style_of(*c.author_styles, *c.document, id, Some(*style)) }
pub open spec fn display_of(s: Style) -> Display { s.display() }
/// floats and positioned elements are blocks
pub open spec fn block_event(st: Style, inside: DisplayInside, id: NodeId) -> Event { if st.abspos() { Event::Abs(st, inside, id) } else if st.floating() { Event::Float(st, inside, id) } else { Event::Block(st, inside, id) } }
pub open spec fn events(c: Context, ts: Seq<Tree>, i: int, style: Style) -> Seq<Event>
    decreases ts, ts.len() - i
{
    if i < 0 || i >= ts.len() { Seq::empty() } else { events_of(c, ts[i], style) + events(c, ts, i + 1, style) }
}
pub open spec fn events_of(c: Context, t: Tree, style: Style) -> Seq<Event>
    decreases t
{
    match t {
        Tree::Text(s) => seq![Event::Text(s, style)],
        Tree::Other => Seq::empty(),
        Tree::Element(id, kids) => {
            let st = child_style(c, id, style);
            match display_of(st) {
                // nothing of it is shown
                Display::None => Seq::empty(),
                // only its contents are
                Display::Contents => events(c, kids, 0, st),
                Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Inline, inside }) => (seq![Event::Start(st)] + events(c, kids, 0, st)).push(Event::End),
                Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside: DisplayOutside::Block, inside }) => seq![block_event(st, inside, id)],
            }
        }
    }
}
/// What is on the lines of a block
pub enum Tok { Char(char, Style), Open(Style, bool), Close(bool), Abs(Style), Float(Style), Replaced }
/// The boxes of a block
pub enum Item { Anonymous(Style, Seq<Tok>), Block(Style, DisplayInside, NodeId), Abs(Style, DisplayInside, NodeId), Float(Style, DisplayInside, NodeId) }
/// Half of the boxes of a block: those that are finished, what is on the lines since then, and the inline boxes that are open
pub struct St { pub blocks: Seq<Item>, pub inl: Seq<Tok>, pub open: Seq<Style> }
pub open spec fn is_space(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0C' || c == '\r' }
/// the last character on the lines
pub open spec fn last_char(t: Seq<Tok>) -> Option<char>
    decreases t.len()
{
    if t.len() == 0 { None } else if let Tok::Char(c, _) = t.last() { Some(c) } else { last_char(t.drop_last()) }
}
pub open spec fn first_space(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 || is_space(s[0]) { 0 } else { 1 + first_space(s.skip(1)) } }
pub open spec fn after_spaces(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_space(s[0]) { after_spaces(s.skip(1)) } else { s } }
/// each sequence of spaces is one space
pub open spec fn squeezed(s: Seq<char>) -> Seq<char>
    decreases s.len()
    via squeezed_ends
{
    let i = first_space(s);
    if i < s.len() { s.take(i).push(' ') + squeezed(after_spaces(s.skip(i))) } else { s }
}
#[via_fn] proof fn squeezed_ends(s: Seq<char>) { lemma_first_space(s); let i = first_space(s); if i < s.len() { lemma_after_spaces(s.skip(i)); } }
pub proof fn lemma_first_space(s: Seq<char>)
    ensures 0 <= first_space(s) <= s.len(), first_space(s) < s.len() ==> is_space(s[first_space(s)]), forall|i: int| 0 <= i < first_space(s) ==> !is_space(#[trigger] s[i])
    decreases s.len()
{
    if s.len() > 0 && !is_space(s[0]) {
        lemma_first_space(s.skip(1));
        let f = first_space(s.skip(1));
        if f < s.skip(1).len() { assert(s[f + 1] == s.skip(1)[f]); }
        assert forall|i: int| 0 <= i < first_space(s) implies !is_space(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
pub proof fn lemma_after_spaces(s: Seq<char>)
    ensures after_spaces(s).len() <= s.len(), s.len() > 0 && is_space(s[0]) ==> after_spaces(s).len() < s.len()
    decreases s.len()
{ if s.len() > 0 && is_space(s[0]) { lemma_after_spaces(s.skip(1)); } }
/// what a text adds to the lines: white space at its start is left out at the start of the block and behind a space
pub open spec fn added(before: Option<char>, s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && is_space(s[0]) { (if keeps_space(before) { seq![' '] } else { Seq::empty() }) + squeezed(after_spaces(s)) } else { squeezed(s) }
}
pub open spec fn keeps_space(before: Option<char>) -> bool { before matches Some(c) && c != ' ' }
pub open spec fn chars(s: Seq<char>, style: Style) -> Seq<Tok> { s.map_values(|c: char| Tok::Char(c, style)) }
/// the ends of boxes that go on behind a block
pub open spec fn closes(n: nat) -> Seq<Tok> { Seq::new(n, |i: int| Tok::Close(false)) }
pub open spec fn opens(styles: Seq<Style>) -> Seq<Tok> { styles.map_values(|s: Style| Tok::Open(s, false)) }
pub open spec fn ended(s: St, style: Style) -> Seq<Item> { if s.inl.len() == 0 { s.blocks } else { s.blocks.push(Item::Anonymous(style.anonymous(), s.inl + closes(s.open.len()))) } }
pub open spec fn step(s: St, e: Event, style: Style) -> St {
    match e {
        Event::Text(t, of) => St { inl: s.inl + chars(added(last_char(s.inl), t), of), ..s },
        Event::Start(of) => St { inl: s.inl.push(Tok::Open(of, true)), open: s.open.push(of), ..s },
        Event::End => St { inl: s.inl.push(Tok::Close(true)), open: s.open.drop_last(), ..s },
        Event::Block(of, inside, id) => St { blocks: ended(s, style).push(Item::Block(of, inside, id)), inl: opens(s.open), open: s.open },
        Event::Abs(of, inside, id) => if s.inl.len() == 0 { St { blocks: s.blocks.push(Item::Abs(of, inside, id)), ..s } } else { St { inl: s.inl.push(Tok::Abs(of)), ..s } },
        Event::Float(of, inside, id) => if s.inl.len() == 0 { St { blocks: s.blocks.push(Item::Float(of, inside, id)), ..s } } else { St { inl: s.inl.push(Tok::Float(of)), ..s } },
    }
}
pub open spec fn run(s: St, es: Seq<Event>, style: Style) -> St
    decreases es.len()
{ if es.len() == 0 { s } else { step(run(s, es.drop_last(), style), es.last(), style) } }
proof fn lemma_run(s: St, a: Seq<Event>, b: Seq<Event>, style: Style)
    ensures run(s, a + b, style) == run(run(s, a, style), b, style)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_run(s, a, b.drop_last(), style); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
proof fn lemma_run_one(s: St, e: Event, style: Style)
    ensures run(s, seq![e], style) == step(s, e, style)
{ assert(seq![e].drop_last() =~= Seq::<Event>::empty()); assert(run(s, seq![e].drop_last(), style) == s); }

// ---------------------------------------------------------------- boxes as what is on the lines
pub open spec fn flat(b: InlineLevelBox) -> Seq<Tok>
    decreases b
{
    match b {
        InlineLevelBox::InlineBox(i) => (seq![Tok::Open(i.style, i.first_fragment)] + flat_upto(i.children@, i.children@.len() as int)).push(Tok::Close(i.last_fragment)),
        InlineLevelBox::TextRun(r) => chars(r.text@, r.parent_style),
        InlineLevelBox::OutOfFlowAbsolutelyPositionedBox(a) => seq![Tok::Abs(a.style)],
        InlineLevelBox::OutOfFlowFloatBox(f) => seq![Tok::Float(f.style)],
        InlineLevelBox::Atomic { .. } => seq![Tok::Replaced],
    }
}
pub open spec fn flat_upto(bs: Seq<Arc<InlineLevelBox>>, n: int) -> Seq<Tok>
    decreases bs, n
{
    if n <= 0 || n > bs.len() { Seq::empty() } else { flat_upto(bs, n - 1) + flat(*bs[n - 1]) }
}
pub open spec fn all(bs: Seq<Arc<InlineLevelBox>>) -> Seq<Tok> { flat_upto(bs, bs.len() as int) }
/// no text is empty, and there are no replaced elements
pub open spec fn solid(b: InlineLevelBox) -> bool
    decreases b
{
    match b {
        InlineLevelBox::InlineBox(i) => all_solid(i.children@, i.children@.len() as int),
        InlineLevelBox::TextRun(r) => r.text@.len() > 0,
        InlineLevelBox::Atomic { .. } => false,
        _ => true,
    }
}
pub open spec fn all_solid(bs: Seq<Arc<InlineLevelBox>>, n: int) -> bool
    decreases bs, n
{
    n <= 0 || n > bs.len() || (all_solid(bs, n - 1) && solid(*bs[n - 1]))
}
/// the lines so far: the inline formatting context, and `k` open boxes
pub open spec fn lines(ifc: Seq<Arc<InlineLevelBox>>, stack: Seq<InlineBox>, k: int) -> Seq<Tok>
    decreases k
{
    if k <= 0 || k > stack.len() { all(ifc) } else { lines(ifc, stack, k - 1).push(Tok::Open(stack[k - 1].style, stack[k - 1].first_fragment)) + all(stack[k - 1].children@) }
}
pub open spec fn id_of(c: Contents) -> NodeId { c->OfElement_0 }
pub open spec fn item_of(b: IntermediateBlockLevelBox) -> Item {
    match b {
        IntermediateBlockLevelBox::SameFormattingContextBlock { style, contents: IntermediateBlockContainer::InlineFormattingContext(ifc) } => Item::Anonymous(style, all(ifc.inline_level_boxes@)),
        IntermediateBlockLevelBox::SameFormattingContextBlock { style, contents: IntermediateBlockContainer::Deferred { contents } } => Item::Block(style, DisplayInside::Flow, contents->OfElement_0),
        IntermediateBlockLevelBox::Independent { style, display_inside, contents } => Item::Block(style, display_inside, id_of(contents)),
        IntermediateBlockLevelBox::OutOfFlowAbsolutelyPositionedBox { style, display_inside, contents } => Item::Abs(style, display_inside, id_of(contents)),
        IntermediateBlockLevelBox::OutOfFlowFloatBox { style, display_inside, contents } => Item::Float(style, display_inside, id_of(contents)),
    }
}
/// they are of elements, and blocks in the same formatting context are not replaced
pub open spec fn item_ok(b: IntermediateBlockLevelBox) -> bool {
    match b {
        IntermediateBlockLevelBox::SameFormattingContextBlock { style, contents: IntermediateBlockContainer::InlineFormattingContext(ifc) } => true,
        IntermediateBlockLevelBox::SameFormattingContextBlock { style, contents: IntermediateBlockContainer::Deferred { contents } } => contents is OfElement,
        IntermediateBlockLevelBox::Independent { style, display_inside, contents } => contents is OfElement && display_inside != DisplayInside::Flow,
        IntermediateBlockLevelBox::OutOfFlowAbsolutelyPositionedBox { style, display_inside, contents } => contents is OfElement,
        IntermediateBlockLevelBox::OutOfFlowFloatBox { style, display_inside, contents } => contents is OfElement,
    }
}
pub open spec fn items_of(bs: Seq<(IntermediateBlockLevelBox, BoxSlot)>) -> Seq<Item> { bs.map_values(|b: (IntermediateBlockLevelBox, BoxSlot)| item_of(b.0)) }
pub open spec fn styles(stack: Seq<InlineBox>) -> Seq<Style> { stack.map_values(|b: InlineBox| b.style) }
pub open spec fn stack_ok(stack: Seq<InlineBox>) -> bool { forall|i: int| 0 <= i < stack.len() ==> all_solid((#[trigger] stack[i]).children@, stack[i].children@.len() as int) }
impl<'a> BlockContainerBuilder<'a> {
    pub open spec fn ifc(self) -> Seq<Arc<InlineLevelBox>> { self.ongoing_inline_formatting_context.inline_level_boxes@ }
    pub open spec fn st(self) -> St {
        St { blocks: items_of(self.block_level_boxes@), inl: lines(self.ifc(), self.ongoing_inline_boxes_stack@, self.ongoing_inline_boxes_stack@.len() as int), open: styles(self.ongoing_inline_boxes_stack@) }
    }
    pub open spec fn ok(self) -> bool {
        &&& finite(*self.context.document)
        &&& all_solid(self.ifc(), self.ifc().len() as int)
        &&& stack_ok(self.ongoing_inline_boxes_stack@)
        &&& self.anonymous_style matches Some(a) ==> a == self.block_container_style.anonymous()
        &&& forall|i: int| 0 <= i < self.block_level_boxes@.len() ==> item_ok((#[trigger] self.block_level_boxes@[i]).0)
    }
    pub open spec fn same(self, o: Self) -> bool { self.context == o.context && self.block_container_style == o.block_container_style }
}
//@@ include boxes_build.inc
} // verus!
fn main() {}
