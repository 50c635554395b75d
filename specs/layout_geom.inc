
// ---------------------------------------------------------------- geom.rs
//@@ item victor/src/style/values/writing_modes.rs | enum Direction
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
//@@ item victor/src/style/values/writing_modes.rs | enum WritingMode
//@@ attr #[derive(Structural, Clone, Copy, PartialEq, Eq)]
//@@ end
pub mod physical {
//@@ item victor/src/geom.rs | mod physical :: struct Vec2
//@@ end
//@@ item victor/src/geom.rs | mod physical :: struct Rect
//@@ end
//@@ item victor/src/geom.rs | mod physical :: struct Sides
//@@ end
}
pub mod flow_relative {
//@@ item victor/src/geom.rs | mod flow_relative :: struct Vec2
//@@ end
//@@ item victor/src/geom.rs | mod flow_relative :: struct Rect
//@@ end
//@@ item victor/src/geom.rs | mod flow_relative :: struct Sides
//@@ end
}
// derived: field by field
impl<T: Clone> Clone for flow_relative::Vec2<T> {
    fn clone(&self) -> (r: Self) ensures call_ensures(T::clone, (&self.inline,), r.inline), call_ensures(T::clone, (&self.block,), r.block)
    { flow_relative::Vec2 { inline: self.inline.clone(), block: self.block.clone() } }
}
impl<T: Clone> Clone for physical::Vec2<T> {
    fn clone(&self) -> (r: Self) ensures call_ensures(T::clone, (&self.x,), r.x), call_ensures(T::clone, (&self.y,), r.y)
    { physical::Vec2 { x: self.x.clone(), y: self.y.clone() } }
}
/// what clone gives for a value
pub open spec fn cloned<T: Clone>(a: T, b: T) -> bool { call_ensures(T::clone, (&a,), b) }

/// The mapping of CSS Writing Modes 4, section 6.4: which physical side is the start of the block axis …
pub enum Side { Top, Right, Bottom, Left }
pub open spec fn opposite(s: Side) -> Side { match s { Side::Top => Side::Bottom, Side::Bottom => Side::Top, Side::Left => Side::Right, Side::Right => Side::Left } }
pub open spec fn css_block_start(m: WritingMode) -> Side {
    match m {
        WritingMode::HorizontalTb => Side::Top,
        WritingMode::VerticalRl | WritingMode::SidewaysRl => Side::Right,
        WritingMode::VerticalLr | WritingMode::SidewaysLr => Side::Left,
    }
}
/// … and of the inline axis: text runs downwards in vertical lines, upwards in sideways-lr, from the left in horizontal ones
pub open spec fn css_inline_start(m: WritingMode, d: Direction) -> Side {
    let ltr = match m { WritingMode::HorizontalTb => Side::Left, WritingMode::SidewaysLr => Side::Bottom, _ => Side::Top };
    if d is Ltr { ltr } else { opposite(ltr) }
}
/// a mode of horizontal lines
pub open spec fn horizontal(m: WritingMode) -> bool { m is HorizontalTb }
impl<T> physical::Sides<T> {
    pub open spec fn at(self, s: Side) -> T { match s { Side::Top => self.top, Side::Right => self.right, Side::Bottom => self.bottom, Side::Left => self.left } }
}
/// The same sides, once by their logical and once by their physical names
pub open spec fn same_sides<T: Clone>(p: physical::Sides<T>, l: flow_relative::Sides<T>, mode: (WritingMode, Direction)) -> bool {
    &&& cloned(p.at(css_block_start(mode.0)), l.block_start)
    &&& cloned(p.at(opposite(css_block_start(mode.0))), l.block_end)
    &&& cloned(p.at(css_inline_start(mode.0, mode.1)), l.inline_start)
    &&& cloned(p.at(opposite(css_inline_start(mode.0, mode.1))), l.inline_end)
}
/// The same size: the inline axis is the one of the lines
pub open spec fn same_size<T: Clone>(p: physical::Vec2<T>, l: flow_relative::Vec2<T>, mode: (WritingMode, Direction)) -> bool {
    if horizontal(mode.0) { cloned(p.x, l.inline) && cloned(p.y, l.block) } else { cloned(p.y, l.inline) && cloned(p.x, l.block) }
}

impl<'a, 'b, T: Add<Output = T> + Copy> AddSpecImpl<&'b physical::Vec2<T>> for &'a physical::Vec2<T> {
    open spec fn obeys_add_spec() -> bool { T::obeys_add_spec() }
    open spec fn add_req(self, o: &'b physical::Vec2<T>) -> bool { self.x.add_req(o.x) && self.y.add_req(o.y) }
    open spec fn add_spec(self, o: &'b physical::Vec2<T>) -> physical::Vec2<T> { physical::Vec2 { x: self.x.add_spec(o.x), y: self.y.add_spec(o.y) } }
}
impl<T> Add<&'_ physical::Vec2<T>> for &'_ physical::Vec2<T> where T: Add<Output = T> + Copy {
    type Output = physical::Vec2<T>;
//@@ fn victor/src/geom.rs | impl<T> Add<&'_ physical::Vec2<T>> for &'_ physical::Vec2<T> where T: Add<Output = T> + Copy, :: add
//@@ ret r
//@@ spec
//@@ end
}
impl<'a, 'b, T: Add<Output = T> + Copy> AddSpecImpl<&'b flow_relative::Vec2<T>> for &'a flow_relative::Vec2<T> {
    open spec fn obeys_add_spec() -> bool { T::obeys_add_spec() }
    open spec fn add_req(self, o: &'b flow_relative::Vec2<T>) -> bool { self.inline.add_req(o.inline) && self.block.add_req(o.block) }
    open spec fn add_spec(self, o: &'b flow_relative::Vec2<T>) -> flow_relative::Vec2<T> { flow_relative::Vec2 { inline: self.inline.add_spec(o.inline), block: self.block.add_spec(o.block) } }
}
impl<T> Add<&'_ flow_relative::Vec2<T>> for &'_ flow_relative::Vec2<T> where T: Add<Output = T> + Copy {
    type Output = flow_relative::Vec2<T>;
//@@ fn victor/src/geom.rs | impl<T> Add<&'_ flow_relative::Vec2<T>> for &'_ flow_relative::Vec2<T> where T: Add<Output = T> + Copy, :: add
//@@ ret r
//@@ spec
//@@ end
}
impl<'a, 'b, T: Add<Output = T> + Copy> AddSpecImpl<&'b flow_relative::Sides<T>> for &'a flow_relative::Sides<T> {
    open spec fn obeys_add_spec() -> bool { T::obeys_add_spec() }
    open spec fn add_req(self, o: &'b flow_relative::Sides<T>) -> bool { self.inline_start.add_req(o.inline_start) && self.inline_end.add_req(o.inline_end) && self.block_start.add_req(o.block_start) && self.block_end.add_req(o.block_end) }
    open spec fn add_spec(self, o: &'b flow_relative::Sides<T>) -> flow_relative::Sides<T> {
        flow_relative::Sides { inline_start: self.inline_start.add_spec(o.inline_start), inline_end: self.inline_end.add_spec(o.inline_end), block_start: self.block_start.add_spec(o.block_start), block_end: self.block_end.add_spec(o.block_end) }
    }
}
impl<T> Add<&'_ flow_relative::Sides<T>> for &'_ flow_relative::Sides<T> where T: Add<Output = T> + Copy {
    type Output = flow_relative::Sides<T>;
//@@ fn victor/src/geom.rs | impl<T> Add<&'_ flow_relative::Sides<T>> for &'_ flow_relative::Sides<T> where T: Add<Output = T> + Copy, :: add
//@@ ret r
//@@ spec
//@@ end
}
impl flow_relative::Vec2<Length> {
// generic in /repo, used for lengths only
//@@ fn victor/src/geom.rs | impl<T> AddAssign<&'_ flow_relative::Vec2<T>> for flow_relative::Vec2<T> where T: AddAssign<T> + Copy, :: add_assign
//@@ sub /Vec2<T>/ => Vec2<Length>
//@@ sub /(self\.\w+) \+= (other\.\w+)/ => \1.add_assign(\2)
//@@ spec
    ensures
        final(self).inline == len(old(self).inline.v() + other.inline.v()), final(self).block == len(old(self).block.v() + other.block.v())
//@@ end
//@@ fn victor/src/geom.rs | impl flow_relative::Vec2<Length> :: zero
//@@ ret r
//@@ spec
    ensures r.inline == len(0real), r.block == len(0real)
//@@ end
}
impl flow_relative::Sides<Length> {
//@@ fn victor/src/geom.rs | impl flow_relative::Sides<Length> :: zero
//@@ ret r
//@@ spec
    ensures r == (flow_relative::Sides { inline_start: len(0real), inline_end: len(0real), block_start: len(0real), block_end: len(0real) })
//@@ end
}
impl flow_relative::Rect<Length> {
//@@ fn victor/src/geom.rs | impl flow_relative::Rect<Length> :: zero
//@@ ret r
//@@ spec
    ensures r.start_corner.inline == len(0real), r.start_corner.block == len(0real), r.size.inline == len(0real), r.size.block == len(0real)
//@@ end
}
impl<T: Clone> physical::Vec2<T> {
//@@ fn victor/src/geom.rs | impl<T: Clone> physical::Vec2<T> :: size_to_flow_relative
//@@ ret r
//@@ spec
    ensures same_size(*self, r, mode)
//@@ end
}
impl<T: Clone> flow_relative::Vec2<T> {
//@@ fn victor/src/geom.rs | impl<T: Clone> flow_relative::Vec2<T> :: size_to_physical
//@@ ret r
//@@ spec
    ensures horizontal(mode.0) ==> cloned(self.inline, r.x) && cloned(self.block, r.y), !horizontal(mode.0) ==> cloned(self.inline, r.y) && cloned(self.block, r.x)
//@@ end
}
impl<T: Clone> physical::Sides<T> {
//@@ fn victor/src/geom.rs | impl<T: Clone> physical::Sides<T> :: to_flow_relative
//@@ ret r
//@@ spec
    ensures same_sides(*self, r, mode)
//@@ end
}
impl<T> flow_relative::Sides<T> {
//@@ fn victor/src/geom.rs | impl<T> flow_relative::Sides<T> :: map
//@@ ret r
//@@ spec
    requires f.requires((&self.inline_start,)), f.requires((&self.inline_end,)), f.requires((&self.block_start,)), f.requires((&self.block_end,))
    ensures f.ensures((&self.inline_start,), r.inline_start), f.ensures((&self.inline_end,), r.inline_end), f.ensures((&self.block_start,), r.block_start), f.ensures((&self.block_end,), r.block_end)
//@@ end
//@@ fn victor/src/geom.rs | impl<T> flow_relative::Sides<T> :: map_inline_and_block_axes
//@@ ret r
//@@ spec
    requires inline_f.requires((&self.inline_start,)), inline_f.requires((&self.inline_end,)), block_f.requires((&self.block_start,)), block_f.requires((&self.block_end,))
    ensures inline_f.ensures((&self.inline_start,), r.inline_start), inline_f.ensures((&self.inline_end,), r.inline_end), block_f.ensures((&self.block_start,), r.block_start), block_f.ensures((&self.block_end,), r.block_end)
//@@ end
//@@ fn victor/src/geom.rs | impl<T> flow_relative::Sides<T> :: inline_sum
//@@ ret r
//@@ spec
    requires self.inline_start.add_req(self.inline_end)
    ensures T::obeys_add_spec() ==> r == self.inline_start.add_spec(self.inline_end)
//@@ end
//@@ fn victor/src/geom.rs | impl<T> flow_relative::Sides<T> :: block_sum
//@@ ret r
//@@ spec
    requires self.block_start.add_req(self.block_end)
    ensures T::obeys_add_spec() ==> r == self.block_start.add_spec(self.block_end)
//@@ end
//@@ fn victor/src/geom.rs | impl<T> flow_relative::Sides<T> :: start_corner
//@@ ret r
//@@ spec
    ensures cloned(self.inline_start, r.inline), cloned(self.block_start, r.block)
//@@ end
}
impl flow_relative::Sides<LengthOrPercentage> {
//@@ fn victor/src/geom.rs | impl flow_relative::Sides<LengthOrPercentage> :: percentages_relative_to
//@@ sub /\|s\| s\.percentage_relative_to\(basis\)/ => |s: &LengthOrPercentage| -> (r: Length) ensures r == len(s.at(basis.v())) { s.percentage_relative_to(basis) }
//@@ ret r
//@@ spec
    ensures r == (flow_relative::Sides { inline_start: len(self.inline_start.at(basis.v())), inline_end: len(self.inline_end.at(basis.v())), block_start: len(self.block_start.at(basis.v())), block_end: len(self.block_end.at(basis.v())) })
//@@ end
}
impl flow_relative::Sides<LengthOrPercentageOrAuto> {
//@@ fn victor/src/geom.rs | impl flow_relative::Sides<LengthOrPercentageOrAuto> :: percentages_relative_to
//@@ sub /\|s\| s\.percentage_relative_to\(basis\)/ => |s: &LengthOrPercentageOrAuto| -> (r: LengthOrAuto) ensures r == s.at(basis.v()) { s.percentage_relative_to(basis) }
//@@ ret r
//@@ spec
    ensures r == (flow_relative::Sides { inline_start: self.inline_start.at(basis.v()), inline_end: self.inline_end.at(basis.v()), block_start: self.block_start.at(basis.v()), block_end: self.block_end.at(basis.v()) })
//@@ end
}
impl flow_relative::Sides<LengthOrAuto> {
//@@ fn victor/src/geom.rs | impl flow_relative::Sides<LengthOrAuto> :: auto_is
//@@ sub /\|s\| s\.auto_is\(&f\)/ => |s: &LengthOrAuto| -> (r: Length) requires f.requires(()) ensures *s matches LengthOrAuto::Length(l) ==> r == l, *s is Auto ==> f.ensures((), r) { s.auto_is(&f) }
//@@ ret r
//@@ spec
    requires f.requires(())
    ensures
        self.inline_start matches LengthOrAuto::Length(l) ==> r.inline_start == l, self.inline_start is Auto ==> f.ensures((), r.inline_start),
        self.inline_end matches LengthOrAuto::Length(l) ==> r.inline_end == l, self.inline_end is Auto ==> f.ensures((), r.inline_end),
        self.block_start matches LengthOrAuto::Length(l) ==> r.block_start == l, self.block_start is Auto ==> f.ensures((), r.block_start),
        self.block_end matches LengthOrAuto::Length(l) ==> r.block_end == l, self.block_end is Auto ==> f.ensures((), r.block_end)
//@@ end
}
impl<T> flow_relative::Rect<T> {
//@@ fn victor/src/geom.rs | impl<T> flow_relative::Rect<T> :: inflate
//@@ sub /T: Sub<Output = T> \+ Copy/ => T: Sub<Output = T>
//@@ ret r
//@@ spec
    requires T::obeys_add_spec(), T::obeys_sub_spec(), forall|a: T, b: T| a.add_req(b), forall|a: T, b: T| a.sub_req(b)
    ensures
        r.start_corner.inline == self.start_corner.inline.sub_spec(sides.inline_start), r.start_corner.block == self.start_corner.block.sub_spec(sides.block_start),
        r.size.inline == self.size.inline.add_spec(sides.inline_start.add_spec(sides.inline_end)), r.size.block == self.size.block.add_spec(sides.block_start.add_spec(sides.block_end)),
//@@ end
//@@ fn victor/src/geom.rs | impl<T> flow_relative::Rect<T> :: to_physical
//@@ ret r
//@@ spec
    // the only writing mode that boxes are painted in
    requires mode == (WritingMode::HorizontalTb, Direction::Ltr)
    ensures
        cloned(self.start_corner.inline, r.top_left.x), cloned(self.start_corner.block, r.top_left.y),
        cloned(self.size.inline, r.size.x), cloned(self.size.block, r.size.y),
//@@ end
}
impl<T> physical::Rect<T> {
//@@ fn victor/src/geom.rs | impl<T> physical::Rect<T> :: translate
//@@ sub OPT /&self\.top_left \+ by/ => <&physical::Vec2<T> as Add<&physical::Vec2<T>>>::add(&self.top_left, by)
//@@ ret r
//@@ spec
    requires self.top_left.x.add_req(by.x), self.top_left.y.add_req(by.y)
    ensures
        T::obeys_add_spec() ==> r.top_left.x == self.top_left.x.add_spec(by.x) && r.top_left.y == self.top_left.y.add_spec(by.y),
        cloned(self.size.x, r.size.x), cloned(self.size.y, r.size.y)
//@@ end
}

// ---------------------------------------------------------------- there and back again
/// Sizes: converting to logical and back gives the same size, in each mode.
fn size_round_trip<T: Copy>(p: physical::Vec2<T>, mode: (WritingMode, Direction)) -> (r: physical::Vec2<T>)
    requires forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b
    ensures r == p
{ let l = p.size_to_flow_relative(mode); l.size_to_physical(mode) }
fn size_round_trip_back<T: Copy>(l: flow_relative::Vec2<T>, mode: (WritingMode, Direction)) -> (r: flow_relative::Vec2<T>)
    requires forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b
    ensures r == l
{ let p = l.size_to_physical(mode); p.size_to_flow_relative(mode) }
/// Sides: no side is lost, each has exactly one logical name, and opposite sides stay opposite.
proof fn lemma_sides_exact(m: WritingMode, d: Direction)
    ensures ({
        let bs = css_block_start(m); let is = css_inline_start(m, d);
        bs != is && bs != opposite(is) && opposite(bs) != is && opposite(bs) != opposite(is) && bs != opposite(bs) && is != opposite(is)
    })
{}
/// so the physical sides are determined by the logical ones
proof fn lemma_sides_determined<T: Clone>(p: physical::Sides<T>, q: physical::Sides<T>, l: flow_relative::Sides<T>, mode: (WritingMode, Direction))
    requires same_sides(p, l, mode), same_sides(q, l, mode), forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b
    ensures p == q
{ lemma_sides_exact(mode.0, mode.1); }
/// A size and the sides around it use the same axes: what is added to the inline size lies on its two inline sides.
proof fn lemma_axes_agree(m: WritingMode, d: Direction)
    ensures
        horizontal(m) <==> (css_inline_start(m, d) is Left || css_inline_start(m, d) is Right),
        horizontal(m) <==> (css_block_start(m) is Top || css_block_start(m) is Bottom),
{}
/// Inflating moves the start corner and the end corner by the sides.
fn inflate_corners(r: flow_relative::Rect<Length>, s: &flow_relative::Sides<Length>) -> (o: flow_relative::Rect<Length>)
    ensures
        o.start_corner.inline.v() == r.start_corner.inline.v() - s.inline_start.v(),
        o.start_corner.inline.v() + o.size.inline.v() == r.start_corner.inline.v() + r.size.inline.v() + s.inline_end.v(),
        o.start_corner.block.v() == r.start_corner.block.v() - s.block_start.v(),
        o.start_corner.block.v() + o.size.block.v() == r.start_corner.block.v() + r.size.block.v() + s.block_end.v(),
{ r.inflate(s) }
/// Converting a rectangle of an ordinary document gives the same place and size.
fn rect_same_place(r: flow_relative::Rect<Length>, c: &physical::Rect<Length>) -> (o: physical::Rect<Length>)
    ensures o.top_left.x == r.start_corner.inline, o.top_left.y == r.start_corner.block, o.size.x == r.size.inline, o.size.y == r.size.block
{ r.to_physical((WritingMode::HorizontalTb, Direction::Ltr), c) }
