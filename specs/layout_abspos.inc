/// One axis of an absolutely positioned box, solved: where its content starts, its size and its margins
pub struct Solved { pub start: real, pub size: real, pub ms: real, pub me: real }
/// CSS 2, 10.3.7 (inline) and 10.6.4 (block): `cs` the size of the containing block, `pbs`, `pbe` padding and border at either end,
/// `auto_size` the size of a box of automatic size with at least one automatic offset
pub open spec fn css_abspos(inline: bool, cs: real, pbs: real, pbe: real, ms: LengthOrAuto, me: LengthOrAuto, offsets: AbsoluteBoxOffsets<LengthOrPercentage>, size: LengthOrAuto, auto_size: real, o: Solved) -> bool {
    // the offsets that the solution has: the distance of the margin edges from those of the containing block
    let start_offset = o.start - pbs - o.ms;
    let end_offset = cs - (o.start + o.size + pbe + o.me);
    let auto_margins_are_zero = o.ms == ms.or(0real) && o.me == me.or(0real);
    match offsets {
        AbsoluteBoxOffsets::StaticStart { start } => start_offset == start.v() && auto_margins_are_zero && o.size == size.or(auto_size),
        AbsoluteBoxOffsets::Start { start } => start_offset == start.at(cs) && auto_margins_are_zero && o.size == size.or(auto_size),
        AbsoluteBoxOffsets::End { end } => end_offset == end.at(cs) && auto_margins_are_zero && o.size == size.or(auto_size),
        AbsoluteBoxOffsets::Both { start, end } => start_offset == start.at(cs) && match size {
            LengthOrAuto::Auto => end_offset == end.at(cs) && auto_margins_are_zero,
            LengthOrAuto::Length(w) => o.size == w.v() && match (ms, me) {
                (LengthOrAuto::Auto, LengthOrAuto::Auto) => end_offset == end.at(cs) && if inline && o.ms + o.me < 0real { o.ms == 0real } else { o.ms == o.me },
                (LengthOrAuto::Auto, LengthOrAuto::Length(e)) => end_offset == end.at(cs) && o.me == e.v(),
                (LengthOrAuto::Length(s), LengthOrAuto::Auto) => end_offset == end.at(cs) && o.ms == s.v(),
                // over-constrained: the end offset is ignored
                (LengthOrAuto::Length(s), LengthOrAuto::Length(e)) => o.ms == s.v() && o.me == e.v(),
            },
        },
    }
}
//@@ item victor/src/layout/positioned.rs | impl<'a> AbsolutelyPositionedFragment<'a> :: layout :: enum Anchor
//@@ sub /\benum/ => pub enum
//@@ end
impl Anchor {
    /// where the content starts
    pub open spec fn place(self, cs: real, pbs: real, pbe: real, size: real, ms: real, me: real) -> real {
        match self { Anchor::Start(s) => s.v() + pbs + ms, Anchor::End(e) => cs - e.v() - pbe - me - size }
    }
}
pub open spec fn anchored(a: Anchor, o: AbsoluteBoxOffsets<LengthOrPercentage>, cs: real) -> bool {
    match o {
        AbsoluteBoxOffsets::StaticStart { start } => a == Anchor::Start(start),
        AbsoluteBoxOffsets::End { end } => a == Anchor::End(len(end.at(cs))),
        AbsoluteBoxOffsets::Start { start } | AbsoluteBoxOffsets::Both { start, end: _ } => a == Anchor::Start(len(start.at(cs))),
    }
}
/// what solve_axis gives is a solution, whatever the automatic size turns out to be
pub open spec fn solves(inline: bool, cs: Length, pbs: real, pbe: real, ms: LengthOrAuto, me: LengthOrAuto, offsets: AbsoluteBoxOffsets<LengthOrPercentage>, size: LengthOrPercentageOrAuto, r: (Anchor, LengthOrAuto, Length, Length), auto_size: real) -> bool {
    css_abspos(inline, cs.v(), pbs, pbe, ms, me, offsets, size.at(cs.v()), auto_size,
        Solved { start: r.0.place(cs.v(), pbs, pbe, r.1.or(auto_size), r.2.v(), r.3.v()), size: r.1.or(auto_size), ms: r.2.v(), me: r.3.v() })
}
impl<'a> AbsolutelyPositionedFragment<'a> {
//@@ fn victor/src/layout/positioned.rs | impl<'a> AbsolutelyPositionedFragment<'a> :: layout :: solve_axis
//@@ ret r
//@@ spec
    requires forall|m: Length| solve_margins.requires((m,))
    ensures
        box_offsets is Both ==> r.1 is Length, !(box_offsets is Both) ==> r.1 == size.at(containing_size.v()), anchored(r.0, box_offsets, containing_size.v()),
        forall|inline: bool, pbs: real, pbe: real, auto_size: real| pbs + pbe == padding_border_sum.v()
            && (forall|m: Length, x: (Length, Length)| #[trigger] solve_margins.ensures((m,), x) ==> x.0.v() + x.1.v() == m.v() && if inline && m.v() < 0real { x.0.v() == 0real } else { x.0.v() == x.1.v() })
            ==> #[trigger] solves(inline, containing_size, pbs, pbe, computed_margin_start, computed_margin_end, box_offsets, size, r, auto_size)
//@@ end
    pub open spec fn style(self) -> ComputedValues { *self.absolutely_positioned_box.style }
    /// The box of this fragment in a containing block
    pub open spec fn laid_out(self, cb: DefiniteContainingBlock, r: Fragment) -> bool {
        r matches Fragment::Box(b) && self.inline_solved(cb, b)
            && exists|c: FlowChildren, o: Seq<AbsolutelyPositionedFragment>, height: LengthOrAuto|
                #[trigger] self.absolutely_positioned_box.contents.gives(b.content_rect.size.inline, height, (WritingMode::HorizontalTb, Direction::Ltr), c, o) && self.block_solved(cb, b, c, o, height)
    }
    pub open spec fn inline_solved(self, cb: DefiniteContainingBlock, b: BoxFragment) -> bool {
        let (w, st) = (cb.size.inline.v(), self.style());
        &&& b.style == self.absolutely_positioned_box.style
        // paddings, borders and margins in percent refer to the width
        &&& given_sides(st.paddings(), w, b.padding) && given_sides(st.borders(), w, b.border)
        &&& css_abspos(true, w, b.padding.inline_start.v() + b.border.inline_start.v(), b.padding.inline_end.v() + b.border.inline_end.v(),
                st.margins().inline_start.at(w), st.margins().inline_end.at(w), self.inline_start, self.inline_size.at(w), available(w, self.inline_start, b),
                Solved { start: b.content_rect.start_corner.inline.v(), size: b.content_rect.size.inline.v(), ms: b.margin.inline_start.v(), me: b.margin.inline_end.v() })
    }
    /// with contents c, and boxes o out of flow in them
    pub open spec fn block_solved(self, cb: DefiniteContainingBlock, b: BoxFragment, c: FlowChildren, o: Seq<AbsolutelyPositionedFragment>, height: LengthOrAuto) -> bool {
        let (w, h, st) = (cb.size.inline.v(), cb.size.block.v(), self.style());
        &&& height.or(b.content_rect.size.block.v()) == b.content_rect.size.block.v()
        &&& css_abspos(false, h, b.padding.block_start.v() + b.border.block_start.v(), b.padding.block_end.v() + b.border.block_end.v(),
                st.margins().block_start.at(w), st.margins().block_end.at(w), self.block_start, self.block_size.at(h), c.block_size.v(),
                Solved { start: b.content_rect.start_corner.block.v(), size: b.content_rect.size.block.v(), ms: b.margin.block_start.v(), me: b.margin.block_end.v() })
        // the contents, and the boxes out of flow that have this box as their containing block
        &&& o.len() == 0 ==> b.children@ == c.fragments@
        &&& o.len() > 0 ==> b.children@.len() == c.fragments@.len() + 1 && b.children@.drop_last() == c.fragments@ && padding_box(o.len(), b.content_rect.size, b.padding, b.children@.last())
    }
//@@ fn victor/src/layout/positioned.rs | impl<'a> AbsolutelyPositionedFragment<'a> :: in_positioned_containing_block
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ sub /for abspos_fragment in &mut \*absolute \{/ => let mut i_ = 0; while i_ < absolute.len() { let abspos_fragment = &mut absolute[i_]; i_ = i_ + 1;
//@@ sub /absolute\s*\.par_iter\(\)\s*\.map\(\|a\| a\.layout\(&containing_block\)\)\s*\.collect\(\)/ => Self::layout_all(absolute, &containing_block)
//@@ spec
    requires mode == (WritingMode::HorizontalTb, Direction::Ltr)
    ensures
        old(absolute)@.len() == 0 ==> final(fragments)@ == old(fragments)@,
        old(absolute)@.len() > 0 ==> final(fragments)@.len() == old(fragments)@.len() + 1 && final(fragments)@.drop_last() == old(fragments)@
            && positioned_in(old(absolute)@, *content_rect_size, *padding, final(fragments)@.last())
//@@ loop 1
    invariant
        i_ <= absolute@.len(), absolute@.len() == old(absolute)@.len(),
        forall|i: int| 0 <= i < i_ ==> shifted(old(absolute)@[i], #[trigger] absolute@[i], padding.inline_start.v(), padding.block_start.v()),
        forall|i: int| i_ <= i < absolute@.len() ==> #[trigger] absolute@[i] == old(absolute)@[i],
    decreases absolute@.len() - i_
//@@ afterloop 1
    let ghost now = absolute@;
//@@ after OPT /mode,\s*\}\)\)/
    ; proof {
        assert(fragments@.drop_last() =~= old(fragments)@);
        let a = fragments@.last()->Anonymous_0;
        assert forall|i: int| 0 <= i < absolute@.len() implies one_positioned(old(absolute)@[i], *padding, DefiniteContainingBlock { size: a.rect.size, mode: a.mode }, #[trigger] a.children@[i]) by {
            assert(shifted(old(absolute)@[i], now[i], padding.inline_start.v(), padding.block_start.v()));
        }
    }
//@@ end
    /// par_iter().map(…).collect() gives the results in order
    #[verifier::exec_allows_no_decreases_clause]
    fn layout_all(absolute: &mut [Self], containing_block: &DefiniteContainingBlock) -> (r: Vec<Fragment>)
        requires containing_block.mode == (WritingMode::HorizontalTb, Direction::Ltr)
        ensures r@.len() == old(absolute)@.len(), final(absolute)@ == old(absolute)@, forall|i: int| 0 <= i < r@.len() ==> old(absolute)@[i].laid_out(*containing_block, #[trigger] r@[i])
    {
        let mut r = Vec::new();
        let mut i = 0;
        while i < absolute.len()
            invariant i <= absolute@.len(), absolute@ == old(absolute)@, r@.len() == i, containing_block.mode == (WritingMode::HorizontalTb, Direction::Ltr), forall|k: int| 0 <= k < i ==> absolute@[k].laid_out(*containing_block, #[trigger] r@[k])
            decreases absolute@.len() - i
        { r.push(absolute[i].layout(containing_block)); i = i + 1; }
        r
    }
//@@ fn victor/src/layout/positioned.rs | impl<'a> AbsolutelyPositionedFragment<'a> :: layout
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ hoist solve_axis
//@@ hoist enum Anchor
//@@ sub /\bsolve_axis\(/ => Self::solve_axis(
//@@ sub /inline_size\.auto_is\(\|\| \{/ => inline_size.auto_is(|| -> (x: Length) ensures x.v() == cbis.v() - (match inline_anchor { Anchor::Start(s) => s.v(), Anchor::End(e) => e.v() }) - (pb.inline_start.v() + pb.inline_end.v()) - (margin.inline_start.v() + margin.inline_end.v()) {
//@@ sub /(margins\.px) >= ([^\s{]+)/ => \1.at_least(\2)
//@@ sub /\|margins\| \{(.*?)\},(?=\s*self\.inline_start)/ => |margins: Length| -> (x: (Length, Length)) ensures x.0.v() + x.1.v() == margins.v() && if margins.v() < 0real { x.0.v() == 0real } else { x.0.v() == x.1.v() } {\1},
//@@ sub /\|margins\| (\(.*?\)),(?=\s*self\.block_start)/ => |margins: Length| -> (x: (Length, Length)) ensures x.0.v() + x.1.v() == margins.v() && x.0.v() == x.1.v() { \1 },
//@@ sub /assert_eq!\(\s*([\w.]+),\s*([\w.]+),\s*"[^"]*"\s*\)/ => panic_unless(same_mode(\1, \2))
//@@ ret r
//@@ spec
    requires containing_block.mode == (WritingMode::HorizontalTb, Direction::Ltr)
    ensures self.laid_out(*containing_block, r)
//@@ after /&mut absolutely_positioned_fragments,\s*\);/
    let ghost c0 = flow_children;
    let ghost o0 = absolutely_positioned_fragments@;
    let ghost height0 = block_size;
//@@ before /Fragment::Box\(BoxFragment \{/
    proof {
        let b = BoxFragment { style: *style, children: flow_children.fragments, content_rect, padding, border, margin, block_margins_collapsed_with_children: arbitrary() };
        assert(self.absolutely_positioned_box.contents.gives(inline_size, height0, (WritingMode::HorizontalTb, Direction::Ltr), c0, o0));
        assert(solves(false, cbbs, pb.block_start.v(), pb.block_end.v(), computed_margin.block_start, computed_margin.block_end, self.block_start, self.block_size, (block_anchor, height0, margin_block_start, margin_block_end), c0.block_size.v()));
        assert(solves(true, cbis, pb.inline_start.v(), pb.inline_end.v(), computed_margin.inline_start, computed_margin.inline_end, self.inline_start, self.inline_size, (inline_anchor, inline_size0, margin_inline_start, margin_inline_end), inline_size.v()));
        assert(inline_size0 is Auto ==> available(cbis.v(), self.inline_start, b) == inline_size.v());
        assert(self.inline_solved(*containing_block, b));
        assert(self.block_solved(*containing_block, b, c0, o0, height0));
    }
//@@ before /let inline_size = inline_size\.auto_is/
    let ghost inline_size0 = inline_size;
//@@ end
}
pub open spec fn given_sides(s: Sides<LengthOrPercentage>, w: real, r: Sides<Length>) -> bool {
    r.inline_start.v() == s.inline_start.at(w) && r.inline_end.v() == s.inline_end.at(w) && r.block_start.v() == s.block_start.at(w) && r.block_end.v() == s.block_end.at(w)
}
/// the width that is left for a box of automatic width (CSS: shrink-to-fit, which this never exceeds)
pub open spec fn available(w: real, offsets: AbsoluteBoxOffsets<LengthOrPercentage>, b: BoxFragment) -> real {
    let offset = match offsets { AbsoluteBoxOffsets::StaticStart { start } => start.v(), AbsoluteBoxOffsets::Start { start } => start.at(w), AbsoluteBoxOffsets::End { end } => end.at(w), AbsoluteBoxOffsets::Both { start, end } => 0real };
    w - offset - (b.padding.inline_start.v() + b.border.inline_start.v() + (b.padding.inline_end.v() + b.border.inline_end.v())) - (b.margin.inline_start.v() + b.margin.inline_end.v())
}
/// static positions are moved along, nothing else changes
pub open spec fn shifted(a: AbsolutelyPositionedFragment, b: AbsolutelyPositionedFragment, dx: real, dy: real) -> bool {
    &&& b.absolutely_positioned_box == a.absolutely_positioned_box && b.tree_rank == a.tree_rank && b.inline_size == a.inline_size && b.block_size == a.block_size
    &&& b.inline_start == shifted_offset(a.inline_start, dx) && b.block_start == shifted_offset(a.block_start, dy)
}
pub open spec fn shifted_offset(o: AbsoluteBoxOffsets<LengthOrPercentage>, d: real) -> AbsoluteBoxOffsets<LengthOrPercentage> {
    match o { AbsoluteBoxOffsets::StaticStart { start } => AbsoluteBoxOffsets::StaticStart { start: len(start.v() + d) }, _ => o }
}
pub open spec fn one_positioned(a: AbsolutelyPositionedFragment, padding: Sides<Length>, cb: DefiniteContainingBlock, r: Fragment) -> bool {
    exists|s: AbsolutelyPositionedFragment| #[trigger] shifted(a, s, padding.inline_start.v(), padding.block_start.v()) && s.laid_out(cb, r)
}
/// The boxes out of flow of a positioned box: their containing block is its padding box
pub open spec fn positioned_in(absolute: Seq<AbsolutelyPositionedFragment>, content: Vec2<Length>, padding: Sides<Length>, r: Fragment) -> bool {
    padding_box(absolute.len(), content, padding, r) && (r matches Fragment::Anonymous(a)
        && forall|i: int| 0 <= i < absolute.len() ==> one_positioned(absolute[i], padding, DefiniteContainingBlock { size: a.rect.size, mode: a.mode }, #[trigger] a.children@[i]))
}
/// n boxes in the padding box of a box with this content
pub open spec fn padding_box(n: nat, content: Vec2<Length>, padding: Sides<Length>, r: Fragment) -> bool {
    r matches Fragment::Anonymous(a) && {
        &&& a.rect.start_corner.inline.v() == -padding.inline_start.v() && a.rect.start_corner.block.v() == -padding.block_start.v()
        &&& a.rect.size.inline.v() == content.inline.v() + (padding.inline_start.v() + padding.inline_end.v()) && a.rect.size.block.v() == content.block.v() + (padding.block_start.v() + padding.block_end.v())
        &&& a.mode == (WritingMode::HorizontalTb, Direction::Ltr)
        &&& a.children@.len() == n
    }
}
pub fn same_mode(a: (WritingMode, Direction), b: (WritingMode, Direction)) -> (r: bool) ensures r == (a == b) { a.0 == b.0 && a.1 == b.1 }
/// where a fragment is in its container
pub open spec fn corner(f: Fragment) -> (real, real) {
    match f {
        Fragment::Box(b) => (b.content_rect.start_corner.inline.v(), b.content_rect.start_corner.block.v()),
        Fragment::Anonymous(a) => (a.rect.start_corner.inline.v(), a.rect.start_corner.block.v()),
        Fragment::Text(t) => (0real, 0real),
    }
}
/// static positions in a child become static positions in its parent
pub open spec fn seen_from_parent(a: AbsolutelyPositionedFragment, b: AbsolutelyPositionedFragment, children: Seq<Fragment>, rank: usize) -> bool {
    &&& b.absolutely_positioned_box == a.absolutely_positioned_box && b.tree_rank == rank && b.inline_size == a.inline_size && b.block_size == a.block_size
    &&& b.inline_start == shifted_offset(a.inline_start, corner(children[a.tree_rank as int]).0)
    &&& b.block_start == shifted_offset(a.block_start, corner(children[a.tree_rank as int]).1)
}
pub open spec fn ranked(a: AbsolutelyPositionedFragment, children: Seq<Fragment>) -> bool { a.tree_rank < children.len() && !(children[a.tree_rank as int] is Text) }
//@@ fn victor/src/layout/positioned.rs | adjust_static_positions
//@@ sub /for abspos_fragment in absolutely_positioned_fragments \{/ => let mut i_ = 0; while i_ < absolutely_positioned_fragments.len() { let abspos_fragment = &mut absolutely_positioned_fragments[i_]; i_ = i_ + 1;
//@@ sub /child_fragments: &mut \[Fragment\]/ => child_fragments: &[Fragment]
//@@ spec
    requires forall|i: int| 0 <= i < old(absolutely_positioned_fragments)@.len() ==> ranked(#[trigger] old(absolutely_positioned_fragments)@[i], child_fragments@)
    ensures
        final(absolutely_positioned_fragments)@.len() == old(absolutely_positioned_fragments)@.len(),
        forall|i: int| 0 <= i < old(absolutely_positioned_fragments)@.len() ==> seen_from_parent(old(absolutely_positioned_fragments)@[i], #[trigger] final(absolutely_positioned_fragments)@[i], child_fragments@, tree_rank_in_parent),
//@@ loop 1
    invariant
        i_ <= absolutely_positioned_fragments@.len(), absolutely_positioned_fragments@.len() == old(absolutely_positioned_fragments)@.len(),
        forall|i: int| 0 <= i < old(absolutely_positioned_fragments)@.len() ==> ranked(#[trigger] old(absolutely_positioned_fragments)@[i], child_fragments@),
        forall|i: int| 0 <= i < i_ ==> seen_from_parent(old(absolutely_positioned_fragments)@[i], #[trigger] absolutely_positioned_fragments@[i], child_fragments@, tree_rank_in_parent),
        forall|i: int| i_ <= i < absolutely_positioned_fragments@.len() ==> #[trigger] absolutely_positioned_fragments@[i] == old(absolutely_positioned_fragments)@[i],
    decreases absolutely_positioned_fragments@.len() - i_
//@@ end
