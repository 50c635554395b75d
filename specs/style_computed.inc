
// ---------------------------------------------------------------- adjustments after the cascade
impl LineWidth {
//@@ fn victor/src/style/values/border.rs | impl LineWidth :: fixup
//@@ spec
    ensures *final(self) == (if style is None { LineWidth(LengthOrPercentage::Length(len(0real))) } else { *old(self) })
//@@ end
}
pub open spec fn blockified(d: Display) -> Display {
    match d { Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside, inside }) => display(DisplayOutside::Block, inside), _ => d }
}
/// a border without a style has no width
pub open spec fn width_with(style: LineStyle, w: LineWidth) -> LineWidth {
    if style is None { LineWidth(LengthOrPercentage::Length(len(0real))) } else { w }
}
/// CSS 2.1 9.7
pub open spec fn display_of(b: style_structs::box_) -> Display {
    if b.position is Absolute || !(b.float is None) { blockified(b.display) } else { b.display }
}
/// the value of a property after the adjustments that depend on several properties
pub open spec fn adjusted(c: ComputedValues, id: LonghandId) -> Val {
    match id {
        LonghandId::border_top_width => Val::Width(width_with(c.border.border_top_style, c.border.border_top_width)),
        LonghandId::border_left_width => Val::Width(width_with(c.border.border_left_style, c.border.border_left_width)),
        LonghandId::border_bottom_width => Val::Width(width_with(c.border.border_bottom_style, c.border.border_bottom_width)),
        LonghandId::border_right_width => Val::Width(width_with(c.border.border_right_style, c.border.border_right_width)),
        LonghandId::display => Val::Disp(display_of(*c.box_)),
        _ => get(c, id),
    }
}
impl Display {
//@@ fn victor/src/style/values/box_.rs | impl Display :: blockify
//@@ ret r
//@@ spec
    ensures r == blockified(*self)
//@@ end
//@@ fn victor/src/style/values/box_.rs | impl Display :: fixup
//@@ spec
    ensures
        final(style).specified_display == old(style).box_.display,
        forall|id: LonghandId| #[trigger] get(*final(style), id) == (if id is display { Val::Disp(display_of(*old(style).box_)) } else { get(*old(style), id) })
//@@ end
}
impl ComputedValues {
//@@ fn victor/src/style/properties/mod.rs | impl ComputedValues :: post_cascade_fixups
//@@ attr #[verifier::spinoff_prover]
//@@ spec
    ensures
        final(self).specified_display == old(self).box_.display,
        forall|id: LonghandId| #[trigger] get(*final(self), id) == adjusted(*old(self), id)
//@@ end
}

// ---------------------------------------------------------------- ComputedValues::new
/// the style that has the initial value of every property
pub uninterp spec fn initial_style() -> ComputedValues;
pub open spec fn all_initial(c: ComputedValues) -> bool { forall|id: LonghandId| #[trigger] get(c, id) == initial(id) }
//@@ fn @expanded | mod style :: mod properties :: mod definitions :: impl ComputedValues :: new :: impl ::lazy_static::__Deref for INITIAL_VALUES :: deref :: __static_ref_initialize
//@@ attr #[verifier::spinoff_prover]
//@@ ret r
//@@ spec
    ensures all_initial(r)
//@@ end
/// a lazy static has the value of its initializer
#[verifier::external_body]
pub fn initial_values() -> (r: &'static ComputedValues)
    ensures *r == initial_style(), all_initial(initial_style())
{ unimplemented!() }

/// The computed style c (before the adjustments) for the declarations ds in the order of the cascade:
/// the winning declaration of each property, or else the inherited or the initial value.
pub open spec fn cascaded(parent: Option<ComputedValues>, ds: Seq<LonghandDeclaration>, c: ComputedValues) -> bool {
    let inh = match parent { Some(p) => p, None => initial_style() };
    forall|id: LonghandId| #[trigger] get(c, id) == (match winner(ds, id) {
        Some(d) => declared(d, c.font.font_size.0, inh),
        None => if is_inherited(id) { get(inh, id) } else { initial(id) },
    })
}
/// the computed style of an element whose parent has the style parent
pub open spec fn computed_style(parent: Option<ComputedValues>, ds: Seq<LonghandDeclaration>, r: ComputedValues) -> bool {
    exists|c: ComputedValues| cascaded(parent, ds, c) && #[trigger] adjusts(c, r)
}
pub open spec fn adjusts(c: ComputedValues, r: ComputedValues) -> bool {
    r.specified_display == c.box_.display && forall|id: LonghandId| #[trigger] get(r, id) == adjusted(c, id)
}
pub open spec fn matching_order(m: Option<&MatchingDeclarations>) -> Seq<LonghandDeclaration> {
    match m { Some(m) => m.order(), None => seq![] }
}
pub open spec fn deref_opt(p: Option<&ComputedValues>) -> Option<ComputedValues> { match p { Some(p) => Some(*p), None => None } }
proof fn lemma_two_phases(a: ComputedValues, inh: ComputedValues, ds: Seq<LonghandDeclaration>, b: ComputedValues, c: ComputedValues)
    requires after(true, a, inh, ds, b), after(false, b, inh, ds, c)
    ensures forall|id: LonghandId| #[trigger] get(c, id) == (match winner(ds, id) { Some(d) => declared(d, c.font.font_size.0, inh), None => get(a, id) })
{
    lemma_size(false, b, inh, ds, c);
    assert forall|id: LonghandId| #[trigger] get(c, id) == (match winner(ds, id) { Some(d) => declared(d, c.font.font_size.0, inh), None => get(a, id) }) by {
        assert(get(b, id) == get(b, id));
        lemma_winner_id(ds, id);
        if winner(ds, id) is Some && comes_first(id) { lemma_first_phase(winner(ds, id)->0, a.font.font_size.0, c.font.font_size.0, inh); }
    }
}
impl ComputedValues {
//@@ fn @expanded | mod style :: mod properties :: mod definitions :: impl ComputedValues :: new
//@@ attr #[verifier::spinoff_prover]
//@@ hoist struct INITIAL_VALUES
//@@ hoist static INITIAL_VALUES
//@@ hoist impl ::lazy_static::__Deref for INITIAL_VALUES
//@@ hoist impl ::lazy_static::LazyStatic for INITIAL_VALUES
//@@ sub OPT /&\*INITIAL_VALUES\b/ => initial_values()
//@@ sub OPT /\bINITIAL_VALUES\b/ => initial_values()
//@@ ret r
//@@ spec
    requires
        matching matches Some(m) ==> m.wf(),
    ensures
        computed_style(deref_opt(inherited), matching_order(matching), *r),
//@@ after /let mut computed\s*=\s*ComputedValues \{.*?\};/
    let ghost a = computed;
    proof { assert forall|id: LonghandId| #[trigger] get(a, id) == (if is_inherited(id) { get(*inherited, id) } else { initial(id) }) by { assert(get(initial_style(), id) == initial(id)); } }
//@@ before /matching\.cascade\(&mut CascadeContext/
    let ghost b = computed;
//@@ after /matching\.cascade\(&mut CascadeContext \{.*?\}\);/
    proof { lemma_two_phases(a, *inherited, matching.order(), b, computed); }
//@@ before /computed\.post_cascade_fixups\(\)/
    let ghost c = computed;
//@@ after /computed\.post_cascade_fixups\(\);/
    proof { assert(adjusts(c, computed)); }
//@@ end
}
