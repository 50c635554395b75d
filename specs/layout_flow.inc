
// ---------------------------------------------------------------- layout/flow/mod.rs: block widths and heights
//@@ item victor/src/layout/flow/mod.rs | enum BlockLevelKind
//@@ sub /\benum/ => pub enum
//@@ attr #[derive(Structural, PartialEq, Eq)]
//@@ end
pub open spec fn html() -> (WritingMode, Direction) { (WritingMode::HorizontalTb, Direction::Ltr) }
pub mod extend {
use super::*;
/// what was appended to a list
pub open spec fn added<T>(was: Seq<T>, now: Seq<T>) -> Seq<T> { now.skip(was.len() as int) }
pub open spec fn extends<T>(was: Seq<T>, now: Seq<T>) -> bool { was.len() <= now.len() && now.take(was.len() as int) == was }
pub broadcast proof fn added_sum<T>(was: Seq<T>, o: Seq<T>) ensures #![trigger was + o] extends(was, was + o), added(was, was + o) == o { assert((was + o).take(was.len() as int) =~= was); assert((was + o).skip(was.len() as int) =~= o); }
pub broadcast proof fn added_nothing<T>(was: Seq<T>) ensures #![trigger added(was, was)] #![trigger extends(was, was)] added(was, was) == Seq::<T>::empty(), extends(was, was) { assert(was.skip(was.len() as int) =~= Seq::empty()); assert(was.take(was.len() as int) =~= was); }
pub broadcast proof fn added_one<T>(was: Seq<T>, x: T) ensures #![trigger was.push(x)] added(was, was.push(x)) == seq![x], extends(was, was.push(x)) { assert(was.push(x).skip(was.len() as int) =~= seq![x]); assert(was.push(x).take(was.len() as int) =~= was); }
pub broadcast proof fn added_all<T>(o: Seq<T>) ensures #[trigger] added(Seq::<T>::empty(), o) == o { assert(o.skip(0) =~= o); }
pub broadcast group added_facts { added_sum, added_nothing, added_one, added_all }
}
use extend::*;
broadcast use extend::added_facts;
pub open spec fn ranks(o: Seq<AbsolutelyPositionedFragment>, rank: usize) -> bool { forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).tree_rank == rank }
impl InlineFormattingContext {
    pub uninterp spec fn gives(self, cb: ContainingBlock, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment>) -> bool;
    #[verifier::external_body]
    pub fn layout<'a>(&'a self, containing_block: &ContainingBlock, tree_rank: usize, absolutely_positioned_fragments: &mut Vec<AbsolutelyPositionedFragment<'a>>) -> (r: FlowChildren)
        requires containing_block.mode == html()
        ensures extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank), self.gives(*containing_block, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@))
    { unimplemented!() }
}
/// what a block container gives for its contents.  The recursion over the box tree is cut here: `BlockContainer::layout`
/// is assumed to give something that is in this relation, and `layout_of_container` is the proof of what it is.
impl BlockContainer {
    pub uninterp spec fn gives(self, cb: ContainingBlock, collapsible: bool, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment>) -> bool;
//@@ fn victor/src/layout/flow/mod.rs | impl BlockContainer :: layout
//@@ attr #[verifier::external_body]
//@@ ret r
//@@ spec
        requires containing_block.mode == html()
        ensures extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank), self.gives(*containing_block, collapsible_with_parent_start_margin.0, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@))
//@@ end
//@@ fn victor/src/layout/flow/mod.rs | impl BlockContainer :: layout
//@@ sub /\blayout</ => layout_of_container<
//@@ ret r
//@@ spec
        requires containing_block.mode == html()
        ensures
            self matches BlockContainer::BlockLevelBoxes(v) ==> extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@) && ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank) && stacked(*containing_block, v@, collapsible_with_parent_start_margin.0, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@)),
            self matches BlockContainer::InlineFormattingContext(x) ==> extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@) && ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank) && x.gives(*containing_block, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@)),
//@@ end
}
impl BlockFormattingContext {
    /// margins do not leave an independent formatting context: the last one is part of its height
    pub open spec fn gives(self, cb: ContainingBlock, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment>) -> bool {
        exists|d: FlowChildren| {
            &&& #[trigger] self.contents.gives(cb, false, d, o)
            &&& c.fragments == d.fragments && c.block_size.v() == d.block_size.v() + width(d.collapsible_margins_in_children.end.m())
            &&& !c.collapsible_margins_in_children.collapsed_through && c.collapsible_margins_in_children.start == d.collapsible_margins_in_children.start
            &&& c.collapsible_margins_in_children.end.m() == no_margins()
        }
    }
//@@ fn victor/src/layout/flow/mod.rs | impl BlockFormattingContext :: layout
//@@ ret r
//@@ spec
        requires containing_block.mode == html()
        ensures extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank), self.gives(*containing_block, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@))
//@@ after /CollapsibleWithParentStartMargin\(false\),\s*\);/
        let ghost d0 = flow_children;
        let ghost o0 = added(old(absolutely_positioned_fragments)@, absolutely_positioned_fragments@);
//@@ after /CollapsedMargin::zero\(\);/
        proof { assert(self.contents.gives(*containing_block, false, d0, o0)); assert(self.gives(*containing_block, flow_children, o0)); }
//@@ end
}
impl IndependentFormattingContext {
    pub open spec fn gives(self, inline_size: Length, block_size: LengthOrAuto, mode: (WritingMode, Direction), c: FlowChildren, o: Seq<AbsolutelyPositionedFragment>) -> bool {
        self matches IndependentFormattingContext::Flow(f) && f.gives(ContainingBlock { inline_size, block_size, mode }, c, o)
    }
//@@ fn victor/src/layout/mod.rs | impl IndependentFormattingContext :: as_replaced
//@@ sub /NonReplacedIFC>/ => NonReplacedIFC<'_>>
//@@ ret r
//@@ spec
        ensures self matches IndependentFormattingContext::Flow(f) ==> r matches Err(NonReplacedIFC::Flow(g)) && *g == f, self is Replaced ==> r is Ok
//@@ end
//@@ fn victor/src/layout/mod.rs | impl IndependentFormattingContext :: layout
//@@ ret r
//@@ spec
        requires containing_block.mode == html()
        ensures extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank), self.gives(containing_block.inline_size, containing_block.block_size, containing_block.mode, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@))
//@@ end
}
impl<'a> NonReplacedIFC<'a> {
    pub open spec fn gives(self, cb: ContainingBlock, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment>) -> bool { self matches NonReplacedIFC::Flow(f) && f.gives(cb, c, o) }
//@@ fn victor/src/layout/mod.rs | impl<'a> NonReplacedIFC<'a> :: layout
//@@ sub OPT /fn layout\(/ => fn layout(
//@@ ret r
//@@ spec
        requires containing_block.mode == html()
        ensures extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank), self.gives(*containing_block, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@))
//@@ end
}
/// The contents of a block: a function of the containing block they get, that may leave boxes out of flow behind
pub trait LayoutContents<'a>: Sized {
    spec fn gives(self, cb: ContainingBlock, collapsible: bool, c: FlowChildren, out_of_flow: Seq<AbsolutelyPositionedFragment<'a>>) -> bool;
    spec fn rank(self) -> usize;
    fn run(self, cb: &ContainingBlock, out: &mut Vec<AbsolutelyPositionedFragment<'a>>, collapsible: CollapsibleWithParentStartMargin) -> (r: FlowChildren)
        requires cb.mode == (WritingMode::HorizontalTb, Direction::Ltr)
        ensures extends(old(out)@, final(out)@), ranks(added(old(out)@, final(out)@), self.rank()), self.gives(*cb, collapsible.0, r, added(old(out)@, final(out)@));
}
/// CSS 2, 10.3.3: margins and width of a block in normal flow
pub struct Width { pub ms: real, pub size: real, pub me: real }
pub open spec fn css_block_width(cbis: real, pb: real, ms: LengthOrAuto, width: LengthOrAuto, me: LengthOrAuto, o: Width) -> bool {
    // the equation always holds in the end
    &&& o.ms + pb + o.size + o.me == cbis
    &&& match width {
        // an automatic width takes what is left, and automatic margins are zero
        LengthOrAuto::Auto => o.ms == ms.or(0real) && o.me == me.or(0real),
        LengthOrAuto::Length(w) => {
            let too_wide = ms.or(0real) + pb + w.v() + me.or(0real) > cbis;
            &&& o.size == w.v()
            &&& match (ms, me) {
                // centred, or at the start if there is no room
                (LengthOrAuto::Auto, LengthOrAuto::Auto) => if too_wide { o.ms == 0real } else { o.ms == o.me },
                (LengthOrAuto::Auto, LengthOrAuto::Length(e)) => if too_wide { o.ms == 0real } else { o.me == e.v() },
                // the end margin is automatic, or ignored if over-constrained
                (LengthOrAuto::Length(s), _) => o.ms == s.v(),
            }
        },
    }
}
/// CSS 2, 10.5: percentages of an unknown height are automatic
pub open spec fn css_height(height: LengthOrPercentageOrAuto, cbbs: LengthOrAuto) -> LengthOrAuto {
    match height {
        LengthOrPercentageOrAuto::Length(l) => LengthOrAuto::Length(l),
        LengthOrPercentageOrAuto::Percentage(p) => match cbbs { LengthOrAuto::Length(h) => LengthOrAuto::Length(len(p.of(h.v()))), LengthOrAuto::Auto => LengthOrAuto::Auto },
        LengthOrPercentageOrAuto::Auto => LengthOrAuto::Auto,
    }
}
pub open spec fn block_padding_start(st: ComputedValues, w: real) -> real { st.paddings().block_start.at(w) + st.borders().block_start.at(w) }
pub open spec fn block_padding_end(st: ComputedValues, w: real) -> real { st.paddings().block_end.at(w) + st.borders().block_end.at(w) }
/// CSS 2, 8.3.1: the margins of a block adjoin those of its children through edges without border and padding,
/// of the same formatting context, at the end only if the height is automatic
pub open spec fn start_adjoins(kind: BlockLevelKind, st: ComputedValues, w: real) -> bool { kind is SameFormattingContextBlock && block_padding_start(st, w) == 0real }
pub open spec fn end_adjoins(kind: BlockLevelKind, st: ComputedValues, w: real, height: LengthOrAuto) -> bool { kind is SameFormattingContextBlock && block_padding_end(st, w) == 0real && height is Auto }
/// the margins of a block as its siblings see them, with margins `cm` left over by its contents
pub open spec fn css_margins(kind: BlockLevelKind, st: ComputedValues, w: real, height: LengthOrAuto, cm: CollapsedBlockMargins, r: CollapsedBlockMargins) -> bool {
    let (own_start, own_end) = (one_margin(st.margins().block_start.at(w).or(0real)), one_margin(st.margins().block_end.at(w).or(0real)));
    let (s, e) = (start_adjoins(kind, st, w), end_adjoins(kind, st, w, height));
    // empty contents at an open start: their margins all adjoin the start margin
    let (first, last) = if s && cm.collapsed_through { (join(cm.start.m(), cm.end.m()), no_margins()) } else { (cm.start.m(), cm.end.m()) };
    &&& r.start.m() == if s { join(own_start, first) } else { own_start }
    &&& r.end.m() == if e { join(own_end, last) } else { own_end }
    // a box without contents, paddings, borders and height has adjoining margins itself (8.3.1)
    &&& r.collapsed_through == (s && block_padding_end(st, w) == 0real && height.or(0real) == 0real && cm.collapsed_through)
}
/// CSS 2, 10.6.3: an automatic height is that of the contents, and their last margin if that does not adjoin the end margin
pub open spec fn css_auto_height(kind: BlockLevelKind, st: ComputedValues, w: real, height: LengthOrAuto, c: FlowChildren) -> real {
    let cm = c.collapsible_margins_in_children;
    let last = if start_adjoins(kind, st, w) && cm.collapsed_through { no_margins() } else { cm.end.m() };
    c.block_size.v() + if end_adjoins(kind, st, w, height) { 0real } else { width(last) }
}
/// The box of a block with these contents c and boxes o out of flow in them
pub open spec fn block_box<'a>(cb: ContainingBlock, st: Arc<ComputedValues>, kind: BlockLevelKind, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment<'a>>, b: BoxFragment) -> bool {
    let w = cb.inline_size.v();
    let height = css_height(st.sizes().block, cb.block_size);
    let by = css_relative(*st, w, cb.block_size.or(0real));
    &&& b.style == st
    &&& given_sides(st.paddings(), w, b.padding) && given_sides(st.borders(), w, b.border)
    &&& css_block_width(w, (b.padding.inline_start.v() + b.border.inline_start.v()) + (b.padding.inline_end.v() + b.border.inline_end.v()), st.margins().inline_start.at(w), st.sizes().inline.at(w), st.margins().inline_end.at(w),
            Width { ms: b.margin.inline_start.v(), size: b.content_rect.size.inline.v(), me: b.margin.inline_end.v() })
    &&& b.content_rect.start_corner.inline.v() == b.margin.inline_start.v() + b.border.inline_start.v() + b.padding.inline_start.v() + by.0
    // its parent adds the margins and the place
    &&& b.content_rect.start_corner.block.v() == b.border.block_start.v() + b.padding.block_start.v() + by.1
    &&& css_margins(kind, *st, w, height, c.collapsible_margins_in_children, b.block_margins_collapsed_with_children)
    &&& b.content_rect.size.block.v() == height.or(css_auto_height(kind, *st, w, height, c))
    // a relatively positioned box is the containing block of boxes out of flow
    &&& (st.box_.position is Relative && o.len() > 0 ==> b.children@.len() == c.fragments@.len() + 1 && b.children@.drop_last() == c.fragments@ && positioned_in(o, b.content_rect.size, b.padding, b.children@.last()))
    &&& (!(st.box_.position is Relative && o.len() > 0) ==> b.children@ == c.fragments@)
}
pub open spec fn child_block(cb: ContainingBlock, st: ComputedValues, b: BoxFragment) -> ContainingBlock {
    ContainingBlock { inline_size: b.content_rect.size.inline, block_size: css_height(st.sizes().block, cb.block_size), mode: (WritingMode::HorizontalTb, Direction::Ltr) }
}
//@@ fn victor/src/layout/flow/mod.rs | layout_in_flow_non_replaced_block_level
//@@ attr #[verifier::spinoff_prover]
//@@ sub /impl FnOnce\(.*?\) -> FlowChildren/ => impl LayoutContents<'a>
//@@ sub /\blayout_contents\(/ => layout_contents.run(
//@@ sub OPT /assert_eq!\(\s*([\w.]+),\s*([\w.]+),\s*"[^"]*"\s*\)/ => panic_unless(same_mode(\1, \2))
//@@ sub OPT /crate::geom::Length::/ => self::Length::
//@@ sub OPT /\((\w+), ([\w.]+), (\w+)\)\s*==\s*\(\s*([\w:]+),\s*([\w:()]+),\s*([\w:]+),?\s*\)/ => (\1 == \4 && \2 == \5 && \3 == \6)
//@@ sub /inline_size\.auto_is\(\|\| (cbis[^)]*\)[^)]*\))\)/ => inline_size.auto_is(|| -> (x: Length) ensures x.v() == cbis.v() - (pb.inline_start.v() + pb.inline_end.v()) - (margin.inline_start.v() + margin.inline_end.v()) { \1 })
//@@ sub /\.map\(\|cbbs\| cbbs \* p\)/ => .map(|cbbs: Length| -> (x: Length) ensures x == len(p.of(cbbs.v())) { cbbs * p })
//@@ ret r
//@@ spec
    requires containing_block.mode == (WritingMode::HorizontalTb, Direction::Ltr)
    ensures
        exists|c: FlowChildren, o: Seq<AbsolutelyPositionedFragment<'a>>| {
            &&& #[trigger] layout_contents.gives(child_block(*containing_block, **style, r), start_adjoins(block_level_kind, **style, containing_block.inline_size.v()), c, o)
            &&& block_box(*containing_block, *style, block_level_kind, c, o, r)
            &&& ranks(o, layout_contents.rank())
            &&& final(absolutely_positioned_fragments)@ == if style.box_.position is Relative { old(absolutely_positioned_fragments)@ } else { old(absolutely_positioned_fragments)@ + o }
        }
//@@ after /this_start_margin_can_collapse_with_children,\s*\);/
    let ghost c0 = flow_children;
    let ghost relative = style.box_.position is Relative;
    let ghost o0 = if relative { added(Seq::empty(), nested_abspos@) } else { added(old(absolutely_positioned_fragments)@, absolutely_positioned_fragments@) };
    proof {
        assert(layout_contents.gives(containing_block_for_children, this_start_margin_can_collapse_with_children.0, c0, o0));
        assert(if relative { nested_abspos@ =~= o0 } else { absolutely_positioned_fragments@ =~= old(absolutely_positioned_fragments)@ + o0 });
    }
//@@ before /BoxFragment \{(?=\s*style: style\.clone\(\))/
    proof {
        let w = containing_block.inline_size.v();
        let b = BoxFragment { style: *style, children: flow_children.fragments, content_rect, padding, border, margin, block_margins_collapsed_with_children };
        assert(containing_block_for_children == child_block(*containing_block, **style, b));
        assert(given_sides(style.paddings(), w, padding) && given_sides(style.borders(), w, border));
        assert(css_block_width(w, (padding.inline_start.v() + border.inline_start.v()) + (padding.inline_end.v() + border.inline_end.v()), style.margins().inline_start.at(w), style.sizes().inline.at(w), style.margins().inline_end.at(w),
            Width { ms: margin.inline_start.v(), size: content_rect.size.inline.v(), me: margin.inline_end.v() }));
        assert(css_margins(block_level_kind, **style, w, css_height(style.sizes().block, containing_block.block_size), c0.collapsible_margins_in_children, block_margins_collapsed_with_children));
        assert(block_box(*containing_block, *style, block_level_kind, c0, o0, b));
    }
//@@ end

// ---------------------------------------------------------------- layout/flow/mod.rs: stacking
/// The fragment of a box of a block container, before it is placed
pub open spec fn box_gives<'a>(x: BlockLevelBox, cb: ContainingBlock, f: Fragment, o: Seq<AbsolutelyPositionedFragment<'a>>) -> bool {
    match x {
        BlockLevelBox::SameFormattingContextBlock { style, contents } => f matches Fragment::Box(b) && exists|c: FlowChildren, n: Seq<AbsolutelyPositionedFragment<'a>>|
            contents.gives(child_block(cb, *style, b), start_adjoins(BlockLevelKind::SameFormattingContextBlock, *style, cb.inline_size.v()), c, n)
                && #[trigger] block_box(cb, style, BlockLevelKind::SameFormattingContextBlock, c, n, b) && o == (if style.box_.position is Relative { Seq::empty() } else { n }),
        BlockLevelBox::Independent { style, contents } => f matches Fragment::Box(b) && exists|c: FlowChildren, n: Seq<AbsolutelyPositionedFragment<'a>>|
            contents.gives(b.content_rect.size.inline, css_height(style.sizes().block, cb.block_size), html(), c, n)
                && #[trigger] block_box(cb, style, BlockLevelKind::EstablishesAnIndependentFormattingContext, c, n, b) && o == (if style.box_.position is Relative { Seq::empty() } else { n }),
        BlockLevelBox::OutOfFlowAbsolutelyPositionedBox(a) => nothing(f) && o.len() == 1 && *o[0].absolutely_positioned_box == a
            && o[0].inline_size == a.style.sizes().inline && o[0].block_size == a.style.sizes().block
            && o[0].inline_start == offsets_of(len(0real), a.style.offsets().inline_start, a.style.offsets().inline_end)
            && o[0].block_start == offsets_of(len(0real), a.style.offsets().block_start, a.style.offsets().block_end),
        BlockLevelBox::OutOfFlowFloatBox(_) => nothing(f) && o.len() == 0,
    }
}
pub open spec fn nothing(f: Fragment) -> bool { f matches Fragment::Anonymous(a) && a.children@.len() == 0 && corner(f) == (0real, 0real) && a.rect.size.block == len(0real) && a.rect.size.inline == len(0real) }
/// The fragments of the first boxes of a container, and the boxes out of flow that each of them left behind
pub open spec fn laid<'a>(cb: ContainingBlock, boxes: Seq<Arc<BlockLevelBox>>, pre: Seq<Fragment>, outs: Seq<Seq<AbsolutelyPositionedFragment<'a>>>) -> bool {
    &&& pre.len() == outs.len() && pre.len() <= boxes.len()
    &&& forall|i: int| 0 <= i < pre.len() ==> laid_one(*boxes[i], cb, #[trigger] pre[i], outs[i], i as usize)
}
pub open spec fn laid_one<'a>(x: BlockLevelBox, cb: ContainingBlock, f: Fragment, o: Seq<AbsolutelyPositionedFragment<'a>>, rank: usize) -> bool {
    box_gives(x, cb, f, o) && ranks(o, rank) && placeable(f)
}
pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
pub open spec fn first_stack(collapsible: bool) -> Stack { Stack { first: collapsible, of_parent: no_margins(), open: no_margins(), top: 0real } }
/// the fragments `pre` are placed one after the other, and become `post`
pub open spec fn stacking(st: Seq<Stack>, pre: Seq<Fragment>, post: Seq<Fragment>, collapsible: bool) -> bool {
    &&& post.len() <= pre.len() && st.len() == post.len() + 1
    &&& st[0] == first_stack(collapsible)
    &&& forall|i: int| 0 <= i < post.len() ==> place(st[i], pre[i], st[i + 1], #[trigger] post[i])
}
pub open spec fn places_seen<'a>(raw: Seq<AbsolutelyPositionedFragment<'a>>, o: Seq<AbsolutelyPositionedFragment<'a>>, post: Seq<Fragment>) -> bool {
    raw.len() == o.len() && forall|i: int| 0 <= i < raw.len() ==> seen_from_parent(raw[i], #[trigger] o[i], post, o[i].tree_rank)
}
pub open spec fn stacked_as<'a>(cb: ContainingBlock, boxes: Seq<Arc<BlockLevelBox>>, collapsible: bool, post: Seq<Fragment>, o: Seq<AbsolutelyPositionedFragment<'a>>,
    pre: Seq<Fragment>, st: Seq<Stack>, outs: Seq<Seq<AbsolutelyPositionedFragment<'a>>>) -> bool {
    &&& pre.len() == boxes.len() && post.len() == boxes.len()
    &&& laid(cb, boxes, pre, outs)
    &&& stacking(st, pre, post, collapsible)
    &&& places_seen(flat(outs), o, post)
}
/// The boxes of a block container, laid out one below the other
pub open spec fn stacked<'a>(cb: ContainingBlock, boxes: Seq<Arc<BlockLevelBox>>, collapsible: bool, r: FlowChildren, o: Seq<AbsolutelyPositionedFragment<'a>>) -> bool {
    exists|pre: Seq<Fragment>, st: Seq<Stack>, outs: Seq<Seq<AbsolutelyPositionedFragment<'a>>>| {
        &&& #[trigger] stacked_as(cb, boxes, collapsible, r.fragments@, o, pre, st, outs)
        &&& r.block_size.v() == st.last().top
        &&& r.collapsible_margins_in_children.collapsed_through == st.last().first
        &&& r.collapsible_margins_in_children.start.m() == st.last().of_parent
        &&& r.collapsible_margins_in_children.end.m() == st.last().open
    }
}
pub proof fn ranks_of_flat<'a>(cb: ContainingBlock, boxes: Seq<Arc<BlockLevelBox>>, pre: Seq<Fragment>, outs: Seq<Seq<AbsolutelyPositionedFragment<'a>>>)
    requires laid(cb, boxes, pre, outs), boxes.len() <= usize::MAX
    ensures forall|k: int| 0 <= k < flat(outs).len() ==> (#[trigger] flat(outs)[k]).tree_rank < outs.len()
    decreases outs.len()
{
    if outs.len() > 0 {
        let n = outs.len() - 1;
        assert(laid(cb, boxes, pre.drop_last(), outs.drop_last())) by {
            assert forall|i: int| 0 <= i < n implies laid_one(*boxes[i], cb, #[trigger] pre.drop_last()[i], outs.drop_last()[i], i as usize) by { assert(laid_one(*boxes[i], cb, pre[i], outs[i], i as usize)); }
        }
        ranks_of_flat(cb, boxes, pre.drop_last(), outs.drop_last());
        assert(laid_one(*boxes[n], cb, pre[n], outs[n], n as usize));
        assert forall|k: int| 0 <= k < flat(outs).len() implies (#[trigger] flat(outs)[k]).tree_rank < outs.len() by {
            let a = flat(outs.drop_last());
            if k < a.len() { assert(flat(outs)[k] == a[k]); } else { assert(flat(outs)[k] == outs.last()[k - a.len()]); }
        }
    }
}
/// `&mut v[k..]`
#[verifier::external_body]
pub fn rest_mut<T>(v: &mut Vec<T>, k: usize) -> (r: &mut [T])
    requires k <= old(v)@.len()
    ensures r@ == old(v)@.subrange(k as int, old(v)@.len() as int), final(v)@ == old(v)@.subrange(0, k as int) + final(r)@
{ &mut v[k..] }
pub open spec fn children_seen<'a>(cb: ContainingBlock, boxes: Seq<Arc<BlockLevelBox>>, pre: Seq<Fragment>, outs: Seq<Seq<AbsolutelyPositionedFragment<'a>>>,
    was: Seq<AbsolutelyPositionedFragment<'a>>, now: Seq<AbsolutelyPositionedFragment<'a>>) -> bool {
    laid(cb, boxes, pre, outs) && now == was + flat(outs)
}
/// one more box
pub proof fn grow<'a>(cb: ContainingBlock, boxes: Seq<Arc<BlockLevelBox>>, pre: Seq<Fragment>, outs: Seq<Seq<AbsolutelyPositionedFragment<'a>>>, was: Seq<AbsolutelyPositionedFragment<'a>>,
    f: Fragment, o: Seq<AbsolutelyPositionedFragment<'a>>, now: Seq<AbsolutelyPositionedFragment<'a>>)
    requires laid(cb, boxes, pre, outs), pre.len() < boxes.len(), laid_one(*boxes[pre.len() as int], cb, f, o, pre.len() as usize), now == was + flat(outs) + o
    ensures children_seen(cb, boxes, pre.push(f), outs.push(o), was, now)
{
    let (p, q) = (pre.push(f), outs.push(o));
    assert forall|i: int| 0 <= i < p.len() implies laid_one(*boxes[i], cb, #[trigger] p[i], q[i], i as usize) by { if i < pre.len() { assert(laid_one(*boxes[i], cb, pre[i], outs[i], i as usize)); } }
    assert(q.drop_last() =~= outs);
    assert(now =~= was + flat(q));
}
pub proof fn grow_stack(st: Seq<Stack>, pre: Seq<Fragment>, post: Seq<Fragment>, collapsible: bool, t: Stack)
    requires post.len() > 0, post.len() <= pre.len(), stacking(st, pre, post.drop_last(), collapsible) || stacking(st, pre.drop_last(), post.drop_last(), collapsible), place(st.last(), pre[post.len() - 1], t, post.last())
    ensures stacking(st.push(t), pre, post, collapsible)
{
    let u = st.push(t);
    assert forall|i: int| 0 <= i < post.len() implies place(u[i], pre[i], u[i + 1], #[trigger] post[i]) by { if i < post.len() - 1 { assert(post.drop_last()[i] == post[i]); } }
}
//@@ fn victor/src/layout/flow/mod.rs | layout_block_level_children
//@@ attr #[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause]
//@@ hoist place_block_level_fragment
//@@ hoist struct PlacementState
//@@ sub /fragments = child_boxes\s*\.iter\(\)\s*\.enumerate\(\)\s*\.map\(\|\(tree_rank, box_\)\| \{(.*?)\bfragment\s*\}\)\s*\.collect\(\)/ => fragments = Vec::new(); let mut rank_: usize = 0; while rank_ < child_boxes.len() { let box_ = &child_boxes[rank_]; let tree_rank = rank_; \1 fragments.push(fragment); rank_ = rank_ + 1; }
//@@ sub /fragments = child_boxes\s*\.par_iter\(\)\s*\.enumerate\(\)\s*\.mapfold_reduce_into\(\s*(\w+),\s*\|(\w+), \(tree_rank, box_\)\| \{(.*?)\},\s*\|\w+, mut \w+\| \{[^}]*\},\s*\)\s*\.collect\(\);/ => fragments = Vec::new(); let mut rank_: usize = 0; while rank_ < child_boxes.len() { let box_ = &child_boxes[rank_]; let tree_rank = rank_; let fragment = { let \2 = &mut *\1; \3 }; fragments.push(fragment); rank_ = rank_ + 1; }
//@@ sub /for fragment in &mut fragments \{/ => let mut at_: usize = 0; while at_ < fragments.len() { let fragment = &mut fragments[at_]; at_ = at_ + 1;
//@@ sub /Some\(float_context\),/ => Some(&mut *float_context),
//@@ sub /&mut absolutely_positioned_fragments\[abspos_so_far\.\.\]/ => rest_mut(absolutely_positioned_fragments, abspos_so_far)
//@@ sub /&mut fragments,\s*tree_rank/ => &fragments, tree_rank
//@@ ret r
//@@ spec
    requires containing_block.mode == html()
    ensures extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank), stacked(*containing_block, child_boxes@, collapsible_with_parent_start_margin.0, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@))
//@@ after /let mut fragments: Vec<_>;/
    let ghost boxes = child_boxes@;
    let ghost cb = *containing_block;
    let ghost collapsible = collapsible_with_parent_start_margin.0;
    let ghost was = absolutely_positioned_fragments@;
    let ghost mut pre = Seq::<Fragment>::empty();
    let ghost mut st = seq![placement_state.stack()];
    let ghost mut outs = Seq::<Seq<AbsolutelyPositionedFragment<'a>>>::empty();
    proof { assert(was + flat(outs) =~= was); }
//@@ loop 1
    invariant
        containing_block.mode == html(), cb == *containing_block, boxes == child_boxes@, rank_ <= boxes.len(), pre.len() == rank_, fragments@.len() == rank_,
        children_seen(cb, boxes, pre, outs, was, absolutely_positioned_fragments@),
        stacking(st, pre, fragments@, collapsible), st.last() == placement_state.stack(), fresh(st.last()),
    decreases boxes.len() - rank_
//@@ before /place_block_level_fragment\(&mut fragment/
    let ghost f0 = fragment;
    let ghost before = was + flat(outs);
    let ghost o0 = added(before, absolutely_positioned_fragments@);
        proof { assert(absolutely_positioned_fragments@ =~= before + o0); }
//@@ loopend 1
    proof {
        grow(cb, boxes, pre, outs, was, f0, o0, absolutely_positioned_fragments@);
        pre = pre.push(f0); outs = outs.push(o0);
        grow_stack(st, pre, fragments@, collapsible, placement_state.stack());
        st = st.push(placement_state.stack());
    }
//@@ loop 2
    invariant
        containing_block.mode == html(), cb == *containing_block, boxes == child_boxes@, rank_ <= boxes.len(), pre == fragments@, pre.len() == rank_,
        children_seen(cb, boxes, pre, outs, was, absolutely_positioned_fragments@),
    decreases boxes.len() - rank_
//@@ loopend 2
    proof {
        let f0 = fragments@.last();
        let before = was + flat(outs);
        let o0 = added(before, absolutely_positioned_fragments@);
        assert(absolutely_positioned_fragments@ =~= before + o0);
        grow(cb, boxes, pre, outs, was, f0, o0, absolutely_positioned_fragments@);
        pre = pre.push(f0); outs = outs.push(o0);
    }
//@@ loop 3
    invariant
        at_ <= fragments@.len(), fragments@.len() == boxes.len(), pre.len() == boxes.len(),
        laid(cb, boxes, pre, outs),
        forall|i: int| at_ <= i < pre.len() ==> #[trigger] fragments@[i] == pre[i],
        stacking(st, pre, fragments@.take(at_ as int), collapsible), st.last() == placement_state.stack(), fresh(st.last()),
    decreases fragments@.len() - at_
//@@ loopstart 3
    let ghost done = fragments@.take(at_ as int);
    proof { assert(laid_one(*boxes[at_ as int], cb, pre[at_ as int], outs[at_ as int], at_)); }
//@@ loopend 3
    proof {
        assert(fragments@.take(at_ as int) =~= done.push(fragments@[at_ - 1]));
        grow_stack(st, pre, fragments@.take(at_ as int), collapsible, placement_state.stack());
        st = st.push(placement_state.stack());
    }
//@@ before /adjust_static_positions\(/
    proof {
        assert(fragments@.take(fragments@.len() as int) =~= fragments@);
        assert(stacking(st, pre, fragments@, collapsible));
        ranks_of_flat(cb, boxes, pre, outs);
        assert(absolutely_positioned_fragments@.subrange(abspos_so_far as int, absolutely_positioned_fragments@.len() as int) =~= flat(outs));
        assert forall|k: int| 0 <= k < flat(outs).len() implies ranked(#[trigger] flat(outs)[k], fragments@) by {
            let t = flat(outs)[k].tree_rank as int;
            assert(place(st[t], pre[t], st[t + 1], fragments@[t]));
        }
    }
//@@ tail r_
    let ghost o = absolutely_positioned_fragments@.subrange(was.len() as int, absolutely_positioned_fragments@.len() as int);
    proof {
        assert(absolutely_positioned_fragments@ =~= was + o);
        assert(places_seen(flat(outs), o, r_.fragments@));
        assert(stacked_as(cb, boxes, collapsible, r_.fragments@, o, pre, st, outs));
        assert(stacked(cb, boxes, collapsible, r_, o));
    }
//@@ end

/// the two closures of BlockLevelBox::layout, with the variables they capture
pub struct InFlow<'a, 'b> { pub contents: &'a BlockContainer, pub tree_rank: usize, pub float_context: Option<&'b mut FloatContext> }
impl<'a, 'b> LayoutContents<'a> for InFlow<'a, 'b> {
    open spec fn gives(self, cb: ContainingBlock, collapsible: bool, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment<'a>>) -> bool { self.contents.gives(cb, collapsible, c, o) }
    open spec fn rank(self) -> usize { self.tree_rank }
//@@ item victor/src/layout/flow/mod.rs | impl BlockLevelBox :: layout
//@@ sub /^.*?\|(\w+), (\w+), (\w+)\| \{\n(.*?)\n {20}\},.*$/ => #[verifier::exec_allows_no_decreases_clause] fn run(self, \1: &ContainingBlock, \2: &mut Vec<AbsolutelyPositionedFragment<'a>>, \3: CollapsibleWithParentStartMargin) -> (r: FlowChildren) { let InFlow { contents, tree_rank, float_context } = self; \4 }
//@@ end
}
pub struct InFlowIndependent<'a> { pub contents: NonReplacedIFC<'a>, pub tree_rank: usize }
impl<'a> LayoutContents<'a> for InFlowIndependent<'a> {
    open spec fn gives(self, cb: ContainingBlock, collapsible: bool, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment<'a>>) -> bool { self.contents.gives(cb, c, o) }
    open spec fn rank(self) -> usize { self.tree_rank }
//@@ item victor/src/layout/flow/mod.rs | impl BlockLevelBox :: layout
//@@ sub /^.*\|(\w+), (\w+), _\| \{\n(.*?)\n {20}\},.*$/ => #[verifier::exec_allows_no_decreases_clause] fn run(self, \1: &ContainingBlock, \2: &mut Vec<AbsolutelyPositionedFragment<'a>>, _c: CollapsibleWithParentStartMargin) -> (r: FlowChildren) { let InFlowIndependent { contents, tree_rank } = self; \3 }
//@@ end
}

impl BlockLevelBox {
//@@ fn victor/src/layout/flow/mod.rs | impl BlockLevelBox :: layout
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ sub /\|containing_block, nested_abspos, collapsible_with_parent_start_margin\| \{.*?\n {20}\},/ => InFlow { contents, tree_rank, float_context },
//@@ sub /\|containing_block, nested_abspos, _\| \{.*?\n {20}\},/ => InFlowIndependent { contents, tree_rank },
//@@ ret r
//@@ spec
    requires containing_block.mode == html()
    ensures placeable(r), extends(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), ranks(added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@), tree_rank), box_gives(*self, *containing_block, r, added(old(absolutely_positioned_fragments)@, final(absolutely_positioned_fragments)@))
//@@ end
}
// ---------------------------------------------------------------- what the stacking means
pub open spec fn is_box(f: Fragment) -> bool { f is Box }
pub open spec fn solid(f: Fragment) -> bool { f matches Fragment::Box(b) && !b.placed().through }
/// the margins of the boxes i..j, that all adjoin
pub open spec fn adjoining(pre: Seq<Fragment>, i: int, j: int) -> Margins decreases j - i {
    if i >= j { no_margins() } else { match pre[j - 1] { Fragment::Box(b) => join(adjoining(pre, i, j - 1), join(b.placed().above, b.placed().below)), _ => adjoining(pre, i, j - 1) } }
}
/// how far a box was moved down from the top of its container
pub open spec fn down(pre: Fragment, post: Fragment) -> real { corner(post).1 - corner(pre).1 }
pub open spec fn sane(m: Margins) -> bool { m.pos >= 0real && m.neg <= 0real }
pub open spec fn sane_boxes(pre: Seq<Fragment>) -> bool { forall|k: int| 0 <= k < pre.len() ==> (#[trigger] pre[k] matches Fragment::Box(b) ==> sane(b.placed().above) && sane(b.placed().below)) }
pub proof fn open_margins(st: Seq<Stack>, pre: Seq<Fragment>, post: Seq<Fragment>, collapsible: bool, i: int, j: int)
    requires
        stacking(st, pre, post, collapsible), pre.len() == post.len(), 0 <= i < j <= pre.len(), sane_boxes(pre),
        solid(pre[i]), forall|k: int| i < k < j ==> !solid(#[trigger] pre[k]),
    ensures
        !st[j].first, st[j].top == st[i].top + width(if st[i].first { st[i].open } else { join(st[i].open, pre[i]->Box_0.placed().above) }) + pre[i]->Box_0.placed().height,
        st[j].open == join(pre[i]->Box_0.placed().below, adjoining(pre, i + 1, j)), st[j].of_parent == st[i + 1].of_parent,
    decreases j
{
    assert(place(st[j - 1], pre[j - 1], st[j], post[j - 1]));
    if j > i + 1 {
        open_margins(st, pre, post, collapsible, i, j - 1);
        assert(!solid(pre[j - 1]));
    }
}
/// Two boxes with nothing but empty boxes between them: the distance of their border edges is one collapsed margin, that
/// of the bottom margin of the upper box, the margins of the empty boxes and the top margin of the lower box.
pub proof fn distance_of_boxes(st: Seq<Stack>, pre: Seq<Fragment>, post: Seq<Fragment>, collapsible: bool, i: int, j: int)
    requires
        stacking(st, pre, post, collapsible), pre.len() == post.len(), 0 <= i < j < pre.len(), sane_boxes(pre),
        solid(pre[i]), solid(pre[j]), forall|k: int| i < k < j ==> !solid(#[trigger] pre[k]),
    ensures
        down(pre[j], post[j]) - (down(pre[i], post[i]) + pre[i]->Box_0.placed().height)
            == width(join(join(pre[i]->Box_0.placed().below, adjoining(pre, i + 1, j)), pre[j]->Box_0.placed().above)),
{
    open_margins(st, pre, post, collapsible, i, j);
    assert(place(st[i], pre[i], st[i + 1], post[i]));
    assert(place(st[j], pre[j], st[j + 1], post[j]));
}
/// Everything before the first box that is not empty
pub proof fn leading_margins(st: Seq<Stack>, pre: Seq<Fragment>, post: Seq<Fragment>, collapsible: bool, j: int)
    requires
        stacking(st, pre, post, collapsible), pre.len() == post.len(), 0 <= j <= pre.len(), sane_boxes(pre),
        forall|k: int| 0 <= k < j ==> !solid(#[trigger] pre[k]),
    ensures
        st[j].top == 0real, st[j].first == collapsible,
        collapsible ==> st[j].of_parent == adjoining(pre, 0, j) && st[j].open == no_margins(),
        !collapsible ==> st[j].open == adjoining(pre, 0, j) && st[j].of_parent == no_margins(),
    decreases j
{
    if j > 0 {
        assert(place(st[j - 1], pre[j - 1], st[j], post[j - 1]));
        leading_margins(st, pre, post, collapsible, j - 1);
        assert(!solid(pre[j - 1]));
    }
}
/// The first box that is not empty: at the top of its container, its top margin joins that of the parent, or one collapsed
/// margin below the top if the parent keeps them apart
pub proof fn first_box(st: Seq<Stack>, pre: Seq<Fragment>, post: Seq<Fragment>, collapsible: bool, j: int)
    requires
        stacking(st, pre, post, collapsible), pre.len() == post.len(), 0 <= j < pre.len(), sane_boxes(pre), solid(pre[j]),
        forall|k: int| 0 <= k < j ==> !solid(#[trigger] pre[k]),
    ensures
        down(pre[j], post[j]) == if collapsible { 0real } else { width(join(adjoining(pre, 0, j), pre[j]->Box_0.placed().above)) },
        st[j + 1].of_parent == if collapsible { join(adjoining(pre, 0, j), pre[j]->Box_0.placed().above) } else { no_margins() },
{
    leading_margins(st, pre, post, collapsible, j);
    assert(place(st[j], pre[j], st[j + 1], post[j]));
}
/// The height of the contents ends with the last box that is not empty; the margins behind it are left to the parent
pub proof fn end_of_boxes(st: Seq<Stack>, pre: Seq<Fragment>, post: Seq<Fragment>, collapsible: bool, i: int)
    requires
        stacking(st, pre, post, collapsible), pre.len() == post.len(), 0 <= i < pre.len(), sane_boxes(pre),
        solid(pre[i]), forall|k: int| i < k < pre.len() ==> !solid(#[trigger] pre[k]),
    ensures
        st.last().top == down(pre[i], post[i]) + pre[i]->Box_0.placed().height,
        st.last().open == join(pre[i]->Box_0.placed().below, adjoining(pre, i + 1, pre.len() as int)), !st.last().first,
{
    open_margins(st, pre, post, collapsible, i, pre.len() as int);
    assert(place(st[i], pre[i], st[i + 1], post[i]));
}
