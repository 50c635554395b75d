
//@@ gsub /auto_is\(\|\| ([\w.]+)\)/ => auto_is(|| -> (x: Length) ensures x == \1 { \1 })
//@@ gsub /&padding \+ &border/ => <&Sides<Length> as Add<&Sides<Length>>>::add(&padding, &border)
//@@ gsub /\*?([\w.]+)\s*\+=\s*([^;]+);/ => \1.add_assign(\2);
// ---------------------------------------------------------------- layout/fragments.rs
// an enum without variants: there are no values of it
//@@ item victor/src/layout/replaced.rs | enum ReplacedContent
//@@ sub /^(.*?)enum (\w+) \{\s*\}$/ => #[verifier::external_body] \1struct \2 { x: u8 }
//@@ end
#[verifier::external_body]
pub fn never<T>(r: &ReplacedContent) -> (t: T) ensures false { unimplemented!() }
//@@ gsub /match \*replaced \{\}/ => never(replaced)
//@@ item victor/src/layout/mod.rs | enum IndependentFormattingContext
//@@ sub /\benum/ => pub enum
//@@ end
//@@ item victor/src/layout/mod.rs | enum NonReplacedIFC
//@@ sub /\benum/ => pub enum
//@@ end
//@@ item victor/src/layout/flow/mod.rs | struct BlockFormattingContext
//@@ end
//@@ item victor/src/layout/flow/mod.rs | enum BlockContainer
//@@ end
//@@ item victor/src/layout/flow/mod.rs | enum BlockLevelBox
//@@ end
//@@ item victor/src/layout/flow/float.rs | struct FloatBox
//@@ end
//@@ item victor/src/layout/flow/float.rs | struct FloatContext
//@@ end
impl FloatContext {
//@@ fn victor/src/layout/flow/float.rs | impl FloatContext :: new
//@@ end
}
//@@ item victor/src/layout/fragments.rs | enum Fragment
//@@ end
//@@ item victor/src/layout/fragments.rs | struct BoxFragment
//@@ end
//@@ item victor/src/layout/fragments.rs | struct CollapsedBlockMargins
//@@ end
//@@ item victor/src/layout/fragments.rs | struct CollapsedMargin
//@@ attr #[derive(Clone, Copy)]
//@@ sub /max_positive/ => pub max_positive
//@@ sub /min_negative/ => pub min_negative
//@@ end
//@@ item victor/src/layout/fragments.rs | struct AnonymousFragment
//@@ end
//@@ item victor/src/layout/fragments.rs | struct TextFragment
//@@ end
//@@ item victor/src/layout/mod.rs | struct ContainingBlock
//@@ sub /(inline_size|block_size|mode):/ => pub \1:
//@@ sub /\bstruct/ => pub struct
//@@ end
//@@ item victor/src/layout/mod.rs | struct DefiniteContainingBlock
//@@ sub /(size|mode):/ => pub \1:
//@@ sub /\bstruct/ => pub struct
//@@ end

/// A set of adjoining margins: the largest positive one (or 0) and the most negative one (or 0), CSS 2 8.3.1
pub struct Margins { pub pos: real, pub neg: real }
pub open spec fn no_margins() -> Margins { Margins { pos: 0real, neg: 0real } }
pub open spec fn one_margin(m: real) -> Margins { Margins { pos: rmax(m, 0real), neg: rmin(m, 0real) } }
pub open spec fn join(a: Margins, b: Margins) -> Margins { Margins { pos: rmax(a.pos, b.pos), neg: rmin(a.neg, b.neg) } }
/// the width of the collapsed margin
pub open spec fn width(m: Margins) -> real { m.pos + m.neg }
impl CollapsedMargin {
    pub open spec fn m(self) -> Margins { Margins { pos: self.max_positive.v(), neg: self.min_negative.v() } }
}
impl CollapsedMargin {
//@@ fn victor/src/layout/fragments.rs | impl CollapsedMargin :: zero
//@@ ret r
//@@ spec
    ensures r.m() == no_margins()
//@@ end
//@@ fn victor/src/layout/fragments.rs | impl CollapsedMargin :: new
//@@ ret r
//@@ spec
    ensures r.m() == one_margin(margin.v())
//@@ end
//@@ fn victor/src/layout/fragments.rs | impl CollapsedMargin :: adjoin
//@@ ret r
//@@ spec
    ensures r.m() == join(self.m(), other.m())
//@@ end
//@@ fn victor/src/layout/fragments.rs | impl CollapsedMargin :: adjoin_assign
//@@ spec
    ensures final(self).m() == join(old(self).m(), other.m())
//@@ end
//@@ fn victor/src/layout/fragments.rs | impl CollapsedMargin :: solve
//@@ ret r
//@@ spec
    ensures r == len(width(self.m()))
//@@ end
}
impl CollapsedBlockMargins {
//@@ fn victor/src/layout/fragments.rs | impl CollapsedBlockMargins :: from_margin
//@@ ret r
//@@ spec
    ensures !r.collapsed_through, r.start.m() == one_margin(margin.block_start.v()), r.end.m() == one_margin(margin.block_end.v())
//@@ end
//@@ fn victor/src/layout/fragments.rs | impl CollapsedBlockMargins :: zero
//@@ ret r
//@@ spec
    ensures !r.collapsed_through, r.start.m() == no_margins(), r.end.m() == no_margins()
//@@ end
}
impl AnonymousFragment {
//@@ fn victor/src/layout/fragments.rs | impl AnonymousFragment :: no_op
//@@ ret r
//@@ spec
    ensures r.children@.len() == 0, r.rect.size.inline == len(0real), r.rect.size.block == len(0real), r.rect.start_corner.inline == len(0real), r.rect.start_corner.block == len(0real), r.mode == mode
//@@ end
}
impl BoxFragment {
    pub open spec fn around(self, r: Rect<Length>) -> bool {
        &&& r.start_corner.inline.v() == self.content_rect.start_corner.inline.v() - self.padding.inline_start.v() - self.border.inline_start.v()
        &&& r.start_corner.block.v() == self.content_rect.start_corner.block.v() - self.padding.block_start.v() - self.border.block_start.v()
        &&& r.size.inline.v() == self.content_rect.size.inline.v() + self.padding.inline_start.v() + self.padding.inline_end.v() + self.border.inline_start.v() + self.border.inline_end.v()
        &&& r.size.block.v() == self.content_rect.size.block.v() + self.padding.block_start.v() + self.padding.block_end.v() + self.border.block_start.v() + self.border.block_end.v()
    }
//@@ fn victor/src/layout/fragments.rs | impl BoxFragment :: border_rect
//@@ ret r
//@@ spec
    ensures self.around(r)
//@@ end
}

// ---------------------------------------------------------------- layout/mod.rs: relative positioning (CSS 2, 9.4.3)
/// how far a relatively positioned box is moved: start if that is not auto, else back from the end
pub open spec fn moved(start: LengthOrAuto, end: LengthOrAuto) -> real {
    match start { LengthOrAuto::Length(s) => s.v(), LengthOrAuto::Auto => -end.or(0real) }
}
pub open spec fn css_relative(style: ComputedValues, width: real, height: real) -> (real, real) {
    if style.box_.position is Relative {
        let o = style.offsets();
        (moved(o.inline_start.at(width), o.inline_end.at(width)), moved(o.block_start.at(height), o.block_end.at(height)))
    } else { (0real, 0real) }
}
//@@ fn victor/src/layout/mod.rs | relative_adjustement :: adjust
//@@ ret r
//@@ spec
    ensures r == len(moved(start, end))
//@@ end
//@@ fn victor/src/layout/mod.rs | relative_adjustement
//@@ hoist adjust
//@@ sub /\|v\| v\.percentage_relative_to\(inline_size\)/ => |v: &LengthOrPercentageOrAuto| -> (r: LengthOrAuto) ensures r == v.at(inline_size.v()) { v.percentage_relative_to(inline_size) }
//@@ sub /\|v\| v\.percentage_relative_to\(block_size\)/ => |v: &LengthOrPercentageOrAuto| -> (r: LengthOrAuto) ensures r == v.at(block_size.v()) { v.percentage_relative_to(block_size) }
//@@ ret r
//@@ spec
    ensures r.inline == len(css_relative(*style, inline_size.v(), block_size.or(0real)).0), r.block == len(css_relative(*style, inline_size.v(), block_size.or(0real)).1)
//@@ end

// ---------------------------------------------------------------- layout/flow/mod.rs
//@@ item victor/src/layout/flow/mod.rs | struct FlowChildren
//@@ end
//@@ item victor/src/layout/flow/mod.rs | struct CollapsibleWithParentStartMargin
//@@ sub /\(bool\)/ => (pub bool)
//@@ sub /\bstruct/ => pub struct
//@@ attr #[derive(Clone, Copy)]
//@@ end
//@@ item victor/src/layout/flow/mod.rs | layout_block_level_children :: struct PlacementState
//@@ sub /(\w+):/ => pub \1:
//@@ sub /\bstruct/ => pub struct
//@@ end
#[verifier::external_body]
pub fn panic_unless(b: bool) requires b {}

/// Where the content of a box goes in the block direction, from the state in front of it (CSS 2, 8.3.1 and 10.6.3):
/// `top`: the bottom border edge of the last box that was not empty; `open`: the margins that adjoin there;
/// `first`: nothing but empty boxes so far, and the margins `of_parent` adjoin the top margin of the parent.
pub struct Stack { pub first: bool, pub of_parent: Margins, pub open: Margins, pub top: real }
/// A box as its siblings see it: margins above and below, the height of its border box, and whether they adjoin through it
pub struct Placed { pub above: Margins, pub below: Margins, pub height: real, pub through: bool }
impl PlacementState {
    pub open spec fn stack(self) -> Stack {
        Stack { first: self.next_in_flow_margin_collapses_with_parent_start_margin, of_parent: self.start_margin.m(), open: self.current_margin.m(), top: self.current_block_direction_position.v() }
    }
}
impl BoxFragment {
    pub open spec fn placed(self) -> Placed {
        Placed {
            above: self.block_margins_collapsed_with_children.start.m(), below: self.block_margins_collapsed_with_children.end.m(),
            height: self.padding.block_start.v() + self.padding.block_end.v() + (self.border.block_start.v() + self.border.block_end.v()) + self.content_rect.size.block.v(),
            through: self.block_margins_collapsed_with_children.collapsed_through,
        }
    }
    /// nothing but the block position differs
    pub open spec fn moved_to(self, o: BoxFragment, by: real) -> bool {
        &&& o.content_rect.start_corner.block == len(self.content_rect.start_corner.block.v() + by)
        &&& o.content_rect.start_corner.inline == self.content_rect.start_corner.inline && o.content_rect.size == self.content_rect.size
        &&& o.style == self.style && o.children == self.children && o.padding == self.padding && o.border == self.border && o.margin == self.margin
        &&& o.block_margins_collapsed_with_children == self.block_margins_collapsed_with_children
    }
}
/// the state behind a box, and how far the box is from the top of its containing block
pub open spec fn stack_on(s: Stack, b: Placed) -> (Stack, real) {
    if s.first {
        // adjoins the top margin of the parent: no distance in between
        let of_parent = join(s.of_parent, b.above);
        if b.through { (Stack { of_parent: join(of_parent, b.below), ..s }, 0real) }
        else { (Stack { first: false, of_parent, open: b.below, top: s.top + width(s.open) + b.height }, width(s.open) + s.top) }
    } else {
        let open = join(s.open, b.above);
        if b.through { (Stack { open: join(open, b.below), ..s }, width(open) + s.top) }
        else { (Stack { open: b.below, top: s.top + width(open) + b.height, ..s }, width(open) + s.top) }
    }
}
pub open spec fn fresh(s: Stack) -> bool { s.first ==> s.open == no_margins() && s.top == 0real }
pub open spec fn placeable(f: Fragment) -> bool {
    match f { Fragment::Box(_) => true, Fragment::Anonymous(a) => a.children@.len() == 0 && a.rect.size.block == len(0real), Fragment::Text(_) => false }
}
/// what placing a fragment does: boxes are stacked, and the places of boxes out of flow are where the next line would be
pub open spec fn place(s: Stack, a: Fragment, t: Stack, b: Fragment) -> bool {
    match a {
        Fragment::Box(x) => {
            let (s2, y) = stack_on(s, x.placed());
            &&& t == s2
            &&& (b matches Fragment::Box(z) && x.moved_to(z, y))
        }
        Fragment::Anonymous(x) => {
            &&& t == s
            &&& (b matches Fragment::Anonymous(z) && z.rect.start_corner.block == len(x.rect.start_corner.block.v() + s.top) && z.rect.start_corner.inline == x.rect.start_corner.inline && z.rect.size == x.rect.size && z.children == x.children && z.mode == x.mode)
        }
        Fragment::Text(_) => false,
    }
}
//@@ fn victor/src/layout/flow/mod.rs | layout_block_level_children :: place_block_level_fragment
//@@ sub OPT /assert_eq!\((.*?), (Length::zero\(\))\)/ => panic_unless(\1 == \2)
//@@ sub OPT /assert!\((.*?)\);/ => panic_unless(\1);
//@@ spec
    requires fresh(old(placement_state).stack()), placeable(*old(fragment))
    ensures place(old(placement_state).stack(), *old(fragment), final(placement_state).stack(), *final(fragment)), fresh(final(placement_state).stack())
//@@ end

// ---------------------------------------------------------------- layout/positioned.rs (CSS 2, 10.3.7 and 10.6.4)
//@@ item victor/src/layout/positioned.rs | struct AbsolutelyPositionedBox
//@@ end
//@@ item victor/src/layout/positioned.rs | struct AbsolutelyPositionedFragment
//@@ sub /(absolutely_positioned_box|inline_size|block_size):/ => pub \1:
//@@ end
//@@ item victor/src/layout/positioned.rs | enum AbsoluteBoxOffsets
//@@ attr #[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)] #[allow(inconsistent_fields)]
//@@ end
/// which of the offsets are given; the static position counts when both are auto
pub open spec fn offsets_of(static_start: Length, start: LengthOrPercentageOrAuto, end: LengthOrPercentageOrAuto) -> AbsoluteBoxOffsets<LengthOrPercentage> {
    if start is Auto && end is Auto { AbsoluteBoxOffsets::StaticStart { start: static_start } }
    else if start is Auto { AbsoluteBoxOffsets::End { end: lp_of(end) } }
    else if end is Auto { AbsoluteBoxOffsets::Start { start: lp_of(start) } }
    else { AbsoluteBoxOffsets::Both { start: lp_of(start), end: lp_of(end) } }
}
impl AbsolutelyPositionedBox {
//@@ fn victor/src/layout/positioned.rs | impl AbsolutelyPositionedBox :: layout :: absolute_box_offsets
//@@ ret r
//@@ spec
    ensures r == offsets_of(initial_static_start, start, end)
//@@ end
//@@ fn victor/src/layout/positioned.rs | impl AbsolutelyPositionedBox :: layout
//@@ hoist absolute_box_offsets
//@@ sub /-> AbsolutelyPositionedFragment \{/ => -> AbsolutelyPositionedFragment<'a> {
//@@ sub /\babsolute_box_offsets\(/ => Self::absolute_box_offsets(
//@@ ret r
//@@ spec
    ensures
        r.absolutely_positioned_box == self, r.tree_rank == tree_rank,
        r.inline_size == self.style.sizes().inline, r.block_size == self.style.sizes().block,
        r.inline_start == offsets_of(initial_start_corner.inline, self.style.offsets().inline_start, self.style.offsets().inline_end),
        r.block_start == offsets_of(initial_start_corner.block, self.style.offsets().block_start, self.style.offsets().block_end),
//@@ end
}

