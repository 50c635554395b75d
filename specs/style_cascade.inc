
// ---------------------------------------------------------------- the effect of declarations
/// b is a after the declaration d, in the phase (first or not) that concerns it
pub open spec fn applied(first: bool, a: ComputedValues, inh: ComputedValues, d: LonghandDeclaration, b: ComputedValues) -> bool {
    b.specified_display == a.specified_display
    && forall|id: LonghandId| #[trigger] get(b, id) == (if id == id_of(d) && comes_first(id) == first { declared(d, a.font.font_size.0, inh) } else { get(a, id) })
}
pub open spec fn keyword_applied(a: ComputedValues, inh: ComputedValues, of: LonghandId, k: CssWideKeyword, b: ComputedValues) -> bool {
    b.specified_display == a.specified_display
    && forall|id: LonghandId| #[trigger] get(b, id) == (if id == of { declared(LonghandDeclaration::CssWide(id, k), a.font.font_size.0, inh) } else { get(a, id) })
}
/// the declaration of a property that wins: the last one
pub open spec fn winner(ds: Seq<LonghandDeclaration>, id: LonghandId) -> Option<LonghandDeclaration>
    decreases ds.len()
{
    if ds.len() == 0 { None } else if id_of(ds.last()) == id { Some(ds.last()) } else { winner(ds.drop_last(), id) }
}
/// b is a after the declarations ds, in one phase
pub open spec fn after(first: bool, a: ComputedValues, inh: ComputedValues, ds: Seq<LonghandDeclaration>, b: ComputedValues) -> bool {
    b.specified_display == a.specified_display
    && forall|id: LonghandId| #[trigger] get(b, id) == (match winner(ds, id) {
        Some(d) => if comes_first(id) == first { declared(d, a.font.font_size.0, inh) } else { get(a, id) },
        None => get(a, id),
    })
}
proof fn lemma_winner_id(ds: Seq<LonghandDeclaration>, id: LonghandId)
    ensures winner(ds, id) matches Some(d) ==> id_of(d) == id
    decreases ds.len()
{
    if ds.len() != 0 { lemma_winner_id(ds.drop_last(), id); }
}
/// the position of the winner: no later declaration is about the same property
pub open spec fn winner_at(ds: Seq<LonghandDeclaration>, id: LonghandId) -> int
    decreases ds.len()
{
    if ds.len() == 0 { -1 } else if id_of(ds.last()) == id { ds.len() - 1 } else { winner_at(ds.drop_last(), id) }
}
proof fn lemma_winner_is_last(ds: Seq<LonghandDeclaration>, id: LonghandId)
    ensures
        -1 <= winner_at(ds, id) < ds.len(),
        winner_at(ds, id) >= 0 ==> winner(ds, id) == Some(ds[winner_at(ds, id)]) && id_of(ds[winner_at(ds, id)]) == id,
        winner_at(ds, id) == -1 ==> winner(ds, id) is None,
        forall|j: int| winner_at(ds, id) < j < ds.len() ==> id_of(#[trigger] ds[j]) != id,
    decreases ds.len()
{
    hide(id_of);
    if ds.len() != 0 {
        let p = ds.drop_last();
        lemma_winner_is_last(p, id);
        assert forall|j: int| winner_at(ds, id) < j < ds.len() implies id_of(#[trigger] ds[j]) != id by { if j < p.len() { assert(ds[j] == p[j]); } }
    }
}
/// declarations of the other phase do not take part in a phase
proof fn lemma_size(first: bool, a: ComputedValues, inh: ComputedValues, ds: Seq<LonghandDeclaration>, b: ComputedValues)
    requires after(first, a, inh, ds, b), !first
    ensures b.font.font_size == a.font.font_size
{
    assert(get(b, LonghandId::font_size) == get(a, LonghandId::font_size));
}
/// the font size itself does not depend on the font size of the element
proof fn lemma_first_phase(d: LonghandDeclaration, f: Length, g: Length, inh: ComputedValues)
    requires comes_first(id_of(d))
    ensures declared(d, f, inh) == declared(d, g, inh)
{
}
proof fn lemma_after_step(first: bool, a: ComputedValues, inh: ComputedValues, ds: Seq<LonghandDeclaration>, b: ComputedValues, d: LonghandDeclaration, c: ComputedValues)
    requires after(first, a, inh, ds, b), applied(first, b, inh, d, c)
    ensures after(first, a, inh, ds.push(d), c)
{
    let e = ds.push(d);
    assert(e.drop_last() =~= ds);
    if !first { lemma_size(first, a, inh, ds, b); }
    assert forall|id: LonghandId| #[trigger] get(c, id) == (match winner(e, id) {
        Some(d) => if comes_first(id) == first { declared(d, a.font.font_size.0, inh) } else { get(a, id) },
        None => get(a, id),
    }) by {
        if id_of(d) == id && first && comes_first(id) { lemma_first_phase(d, a.font.font_size.0, b.font.font_size.0, inh); }
        assert(get(b, id) == get(b, id));
    }
}
proof fn lemma_winner_concat(x: Seq<LonghandDeclaration>, y: Seq<LonghandDeclaration>, id: LonghandId)
    ensures winner(x + y, id) == (if winner(y, id) is Some { winner(y, id) } else { winner(x, id) })
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        assert((x + y).last() == y.last());
        lemma_winner_concat(x, y.drop_last(), id);
    }
}
proof fn lemma_after_concat(first: bool, a: ComputedValues, inh: ComputedValues, x: Seq<LonghandDeclaration>, b: ComputedValues, y: Seq<LonghandDeclaration>, c: ComputedValues)
    requires after(first, a, inh, x, b), after(first, b, inh, y, c)
    ensures after(first, a, inh, x + y, c)
{
    if !first { lemma_size(first, a, inh, x, b); }
    assert forall|id: LonghandId| #[trigger] get(c, id) == (match winner(x + y, id) {
        Some(d) => if comes_first(id) == first { declared(d, a.font.font_size.0, inh) } else { get(a, id) },
        None => get(a, id),
    }) by {
        lemma_winner_concat(x, y, id);
        assert(get(b, id) == get(b, id));
        lemma_winner_id(y, id);
        if winner(y, id) is Some && first && comes_first(id) { lemma_first_phase(winner(y, id)->0, a.font.font_size.0, b.font.font_size.0, inh); }
    }
}
proof fn lemma_after_none(first: bool, a: ComputedValues, inh: ComputedValues, ds: Seq<LonghandDeclaration>)
    requires forall|k: int| 0 <= k < ds.len() ==> comes_first(id_of(#[trigger] ds[k])) != first
    ensures after(first, a, inh, ds, a)
{
    assert forall|id: LonghandId| (#[trigger] winner(ds, id)) is Some implies comes_first(id) != first by { lemma_winner_is_last(ds, id); }
}

impl LonghandId {
//@@ fn @expanded | mod style :: mod properties :: mod definitions :: impl LonghandId :: is_early
//@@ ret r
//@@ spec
    ensures r == comes_first(self)
//@@ end
//@@ gsub /\s*macro_rules! \w+ \{[^{}]*(?:\{[^{}]*\}[^{}]*)*\}\s*;?/ =>
//@@ gsub /\buse CssWideKeyword;/ =>
//@@ fn @expanded | mod style :: mod properties :: mod definitions :: impl LonghandId :: cascade_css_wide_keyword_into
//@@ jumptable mod style :: mod properties :: mod definitions :: enum LonghandId
    ensures
        keyword_applied(*old(computed), *inherited, $self, keyword, *final(computed))
//@@ attr #[verifier::spinoff_prover]
//@@ spec
    ensures
        keyword_applied(*old(computed), *inherited, *self, keyword, *final(computed))
//@@ end
}
impl LonghandDeclaration {
//@@ fn @expanded | mod style :: mod properties :: mod definitions :: impl LonghandDeclaration :: if_early_cascade_into
//@@ jumptable mod style :: mod properties :: mod definitions :: enum LonghandDeclaration
    ensures
        applied(true, old(context).this.cv(), *old(context).inherited, $self, final(context).this.cv()),
        final(context).inherited == old(context).inherited,
        *final(final(context).this.0) == *final(old(context).this.0),
//@@ attr #[verifier::spinoff_prover]
//@@ spec
    ensures
        applied(true, old(context).this.cv(), *old(context).inherited, *self, final(context).this.cv()),
        final(context).inherited == old(context).inherited,
        *final(final(context).this.0) == *final(old(context).this.0),
//@@ end
//@@ fn @expanded | mod style :: mod properties :: mod definitions :: impl LonghandDeclaration :: if_late_cascade_into
//@@ jumptable mod style :: mod properties :: mod definitions :: enum LonghandDeclaration
    ensures
        applied(false, old(context).this.cv(), *old(context).inherited, $self, final(context).this.cv()),
        final(context).inherited == old(context).inherited,
        *final(final(context).this.0) == *final(old(context).this.0),
//@@ attr #[verifier::spinoff_prover]
//@@ spec
    ensures
        applied(false, old(context).this.cv(), *old(context).inherited, *self, final(context).this.cv()),
        final(context).inherited == old(context).inherited,
        *final(final(context).this.0) == *final(old(context).this.0),
//@@ end
}

// ---------------------------------------------------------------- phases
/// A phase of the cascade: cv is the style being computed, target is what it is in the end (when the borrow ends)
pub trait Phase {
    spec fn cv(&self) -> ComputedValues;
    spec fn inh(&self) -> ComputedValues;
    spec fn first(&self) -> bool;
    #[verifier::prophetic]
    spec fn target(&self) -> ComputedValues;
    fn select(&self, p: PerPhase<bool>) -> (r: bool)
        ensures r == (if self.first() { p.early } else { p.late });
    fn cascade(&mut self, declaration: &LonghandDeclaration)
        ensures
            applied(old(self).first(), old(self).cv(), old(self).inh(), *declaration, final(self).cv()),
            final(self).inh() == old(self).inh(), final(self).first() == old(self).first(), final(self).target() == old(self).target();
}
impl Phase for EarlyCascadeContext<'_> {
    open spec fn cv(&self) -> ComputedValues { self.this.cv() }
    open spec fn inh(&self) -> ComputedValues { *self.inherited }
    open spec fn first(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn target(&self) -> ComputedValues { *final(self.this.0) }
//@@ fn victor/src/style/properties/mod.rs | impl Phase for EarlyCascadeContext<'_> :: select
//@@ ret r
//@@ end
//@@ fn victor/src/style/properties/mod.rs | impl Phase for EarlyCascadeContext<'_> :: cascade
//@@ end
}
impl Phase for CascadeContext<'_> {
    open spec fn cv(&self) -> ComputedValues { self.this.cv() }
    open spec fn inh(&self) -> ComputedValues { *self.inherited }
    open spec fn first(&self) -> bool { false }
    #[verifier::prophetic]
    open spec fn target(&self) -> ComputedValues { *final(self.this.0) }
//@@ fn victor/src/style/properties/mod.rs | impl Phase for CascadeContext<'_> :: select
//@@ ret r
//@@ end
//@@ fn victor/src/style/properties/mod.rs | impl Phase for CascadeContext<'_> :: cascade
//@@ end
}

// ---------------------------------------------------------------- declaration_block.rs
/// smallbitvec::SmallBitVec: a sequence of bits
#[verifier::external_body]
pub struct SmallBitVec { x: Vec<bool> }
impl View for SmallBitVec { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl SmallBitVec {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// the k-th bit
    #[verifier::external_body]
    pub fn bit(&self, k: usize) -> (r: bool) requires k < self@.len() ensures r == self@[k as int] { unimplemented!() }
}
//@@ gsub /\bsmallbitvec::SmallBitVec\b/ => SmallBitVec
//@@ item victor/src/style/declaration_block.rs | struct DeclarationBlock
//@@ sub /(\n\s*)(\w+):/ => \1pub \2:
//@@ end
/// the declarations of one importance, in order
pub open spec fn of_importance(ds: Seq<LonghandDeclaration>, bits: Seq<bool>, important: bool) -> Seq<LonghandDeclaration>
    decreases ds.len()
{
    if ds.len() == 0 { seq![] }
    else {
        let r = of_importance(ds.drop_last(), bits, important);
        if bits[ds.len() - 1] == important { r.push(ds.last()) } else { r }
    }
}
pub open spec fn covers(any: PerPhase<bool>, d: LonghandDeclaration) -> bool { if comes_first(id_of(d)) { any.early } else { any.late } }
impl DeclarationBlock {
    pub open spec fn any(self, important: bool) -> PerPhase<bool> { if important { self.any_important } else { self.any_normal } }
    /// every declaration has an importance, and the flags cover all declarations
    pub open spec fn wf(self) -> bool {
        self.important@.len() == self.declarations@.len()
        && forall|k: int| #![trigger self.declarations@[k]] 0 <= k < self.declarations@.len() ==> covers(self.any(self.important@[k]), self.declarations@[k])
    }
    /// the declarations of one importance, in order
    pub open spec fn decls(self, important: bool) -> Seq<LonghandDeclaration> { of_importance(self.declarations@, self.important@, important) }
}
/// where a declaration of an importance comes from
proof fn lemma_of_importance(ds: Seq<LonghandDeclaration>, bits: Seq<bool>, important: bool, j: int) -> (k: int)
    requires 0 <= j < of_importance(ds, bits, important).len(), bits.len() >= ds.len()
    ensures 0 <= k < ds.len(), bits[k] == important, ds[k] == of_importance(ds, bits, important)[j]
    decreases ds.len()
{
    let p = ds.drop_last();
    let r = of_importance(p, bits, important);
    if j < r.len() { lemma_of_importance(p, bits, important, j) } else { ds.len() - 1 }
}
impl DeclarationBlock {
//@@ fn victor/src/style/declaration_block.rs | impl DeclarationBlock :: cascade
//@@ attr #[verifier::spinoff_prover]
//@@ sub OPT /self\.declarations\s*\.iter\(\)\s*\.zip\(&self\.important\)\s*\.for_each\(\s*move \|\(declaration, declaration_important\)\| \{(.*)\},?\s*\)(?=\s*\}\s*\}\s*$)/ => { let mut i: usize = 0; while i < self.declarations.len() && i < self.important.len() { let declaration = &self.declarations[i]; let declaration_important = self.important.bit(i); i = i + 1; \1 } }
//@@ sub OPT /for \(declaration, declaration_important\) in self\.declarations\.iter\(\)\.zip\(&self\.important\) \{/ => let mut i: usize = 0; while i < self.declarations.len() && i < self.important.len() { let declaration = &self.declarations[i]; let declaration_important = self.important.bit(i); i = i + 1;
//@@ spec
    requires
        self.wf(),
        any == self.any(important),
    ensures
        after(old(phase).first(), old(phase).cv(), old(phase).inh(), self.decls(important), final(phase).cv()),
        final(phase).inh() == old(phase).inh(), final(phase).first() == old(phase).first(), final(phase).target() == old(phase).target(),
//@@ start
    let ghost first = phase.first();
    let ghost a = phase.cv();
    let ghost inh = phase.inh();
    proof {
        if (first && !any.early) || (!first && !any.late) {
            assert forall|j: int| 0 <= j < self.decls(important).len() implies comes_first(id_of(#[trigger] self.decls(important)[j])) != first by {
                let k = lemma_of_importance(self.declarations@, self.important@, important, j);
                assert(covers(self.any(self.important@[k]), self.declarations@[k]));
            }
            lemma_after_none(first, a, inh, self.decls(important));
        }
        assert(self.declarations@.take(self.declarations@.len() as int) =~= self.declarations@);
    }
//@@ loop 1
    invariant
        self.wf(),
        i <= self.declarations@.len(),
        self.declarations@.take(self.declarations@.len() as int) == self.declarations@,
        after(first, a, inh, of_importance(self.declarations@.take(i as int), self.important@, important), phase.cv()),
        phase.inh() == inh, phase.first() == first, phase.target() == old(phase).target(),
    decreases self.declarations@.len() - i
//@@ loopstart 1
    let ghost before = phase.cv();
    let ghost seen = of_importance(self.declarations@.take(i as int), self.important@, important);
    proof { assert(self.declarations@.take(i + 1).drop_last() =~= self.declarations@.take(i as int)); }
//@@ loopend 1
    proof {
        if self.important@[i - 1] == important {
            lemma_after_step(first, a, inh, seen, before, self.declarations@[i - 1], phase.cv());
        }
    }
//@@ end
//@@ fn victor/src/style/declaration_block.rs | impl DeclarationBlock :: cascade_normal
//@@ spec
    requires self.wf(),
    ensures
        after(old(phase).first(), old(phase).cv(), old(phase).inh(), self.decls(false), final(phase).cv()),
        final(phase).inh() == old(phase).inh(), final(phase).first() == old(phase).first(), final(phase).target() == old(phase).target(),
//@@ end
//@@ fn victor/src/style/declaration_block.rs | impl DeclarationBlock :: cascade_important
//@@ spec
    requires self.wf(),
    ensures
        after(old(phase).first(), old(phase).cv(), old(phase).inh(), self.decls(true), final(phase).cv()),
        final(phase).inh() == old(phase).inh(), final(phase).first() == old(phase).first(), final(phase).target() == old(phase).target(),
//@@ end
}

// ---------------------------------------------------------------- cascade.rs: origins and importance
/// the declarations of one importance of some blocks, in order
pub open spec fn of_blocks(bs: Seq<&DeclarationBlock>, important: bool) -> Seq<LonghandDeclaration>
    decreases bs.len()
{
    if bs.len() == 0 { seq![] } else { of_blocks(bs.drop_last(), important) + bs.last().decls(important) }
}
//@@ gsub /\bSmallVec<\[(.*?); \d+\]>/ => Vec<\1>
//@@ gsub /\bSmallVec::new\(\)/ => Vec::new()
//@@ item victor/src/style/cascade.rs | struct MatchingDeclarations
//@@ sub /(\n\s*)(\w+):/ => \1pub \2:
//@@ end
impl MatchingDeclarations<'_> {
    pub open spec fn wf(self) -> bool {
        (forall|k: int| 0 <= k < self.ua@.len() ==> #[trigger] self.ua@[k].wf()) && (forall|k: int| 0 <= k < self.author@.len() ==> #[trigger] self.author@[k].wf())
    }
    /// all the declarations in the order of the cascade: the last one wins.
    /// https://drafts.csswg.org/css-cascade-4/#cascade-origin
    pub open spec fn order(self) -> Seq<LonghandDeclaration> {
        of_blocks(self.ua@, false) + of_blocks(self.author@, false) + of_blocks(self.author@, true) + of_blocks(self.ua@, true)
    }
//@@ fn victor/src/style/cascade.rs | impl MatchingDeclarations<'_> :: cascade
//@@ attr #[verifier::spinoff_prover]
//@@ sub OPT /self\.(\w+)\.iter\(\)\.for_each\(\|b\| b\.(\w+)\(p\)\);/ => { let mut i: usize = 0; while i < self.\1.len() { let b = self.\1[i]; i = i + 1; b.\2(p); } }
//@@ sub OPT /for b in (?:self\.(\w+)\.iter\(\)|&self\.(\w+)) \{/ => let mut i: usize = 0; while i < self.\1\2.len() { let b = self.\1\2[i]; i = i + 1;
//@@ nloops 4
//@@ spec
    requires
        self.wf(),
    ensures
        after(old(p).first(), old(p).cv(), old(p).inh(), self.order(), final(p).cv()),
        final(p).inh() == old(p).inh(), final(p).first() == old(p).first(), final(p).target() == old(p).target(),
//@@ start
    let ghost first = p.first();
    let ghost a = p.cv();
    let ghost inh = p.inh();
    let ghost mut s: Seq<LonghandDeclaration> = seq![];
    let ghost mut t: Seq<LonghandDeclaration> = seq![];
    let ghost mut s1: Seq<LonghandDeclaration> = seq![];
    let ghost mut s2: Seq<LonghandDeclaration> = seq![];
    let ghost mut s3: Seq<LonghandDeclaration> = seq![];
    proof {
        assert(self.ua@.take(self.ua@.len() as int) =~= self.ua@);
        assert(self.author@.take(self.author@.len() as int) =~= self.author@);
        lemma_after_none(first, a, inh, s);
    }
//@@ loop 1
    invariant
        self.wf(), i <= self.ua@.len(), self.ua@.take(self.ua@.len() as int) == self.ua@,
        s == of_blocks(self.ua@.take(i as int), false),
        after(first, a, inh, s, p.cv()), p.inh() == inh, p.first() == first, p.target() == old(p).target(),
    decreases self.ua@.len() - i
//@@ loopstart 1
    let ghost c = p.cv();
    proof { assert(self.ua@.take(i + 1).drop_last() =~= self.ua@.take(i as int)); }
//@@ loopend 1
    proof { lemma_after_concat(first, a, inh, s, c, self.ua@[i - 1].decls(false), p.cv()); s = s + self.ua@[i - 1].decls(false); }
//@@ afterloop 1
    proof { s1 = s; t = seq![]; assert(s1 + t =~= s1); }
//@@ loop 2
    invariant
        self.wf(), i <= self.author@.len(), self.author@.take(self.author@.len() as int) == self.author@,
        s1 == of_blocks(self.ua@, false), t == of_blocks(self.author@.take(i as int), false), s == s1 + t,
        after(first, a, inh, s, p.cv()), p.inh() == inh, p.first() == first, p.target() == old(p).target(),
    decreases self.author@.len() - i
//@@ loopstart 2
    let ghost c = p.cv();
    proof { assert(self.author@.take(i + 1).drop_last() =~= self.author@.take(i as int)); }
//@@ loopend 2
    proof {
        let d = self.author@[i - 1].decls(false);
        lemma_after_concat(first, a, inh, s, c, d, p.cv());
        assert(s + d =~= s1 + (t + d));
        t = t + d; s = s + d;
    }
//@@ afterloop 2
    proof { s2 = s; t = seq![]; assert(s2 + t =~= s2); }
//@@ loop 3
    invariant
        self.wf(), i <= self.author@.len(), self.author@.take(self.author@.len() as int) == self.author@,
        s2 == of_blocks(self.ua@, false) + of_blocks(self.author@, false), t == of_blocks(self.author@.take(i as int), true), s == s2 + t,
        after(first, a, inh, s, p.cv()), p.inh() == inh, p.first() == first, p.target() == old(p).target(),
    decreases self.author@.len() - i
//@@ loopstart 3
    let ghost c = p.cv();
    proof { assert(self.author@.take(i + 1).drop_last() =~= self.author@.take(i as int)); }
//@@ loopend 3
    proof {
        let d = self.author@[i - 1].decls(true);
        lemma_after_concat(first, a, inh, s, c, d, p.cv());
        assert(s + d =~= s2 + (t + d));
        t = t + d; s = s + d;
    }
//@@ afterloop 3
    proof { s3 = s; t = seq![]; assert(s3 + t =~= s3); }
//@@ loop 4
    invariant
        self.wf(), i <= self.ua@.len(), self.ua@.take(self.ua@.len() as int) == self.ua@,
        s3 == of_blocks(self.ua@, false) + of_blocks(self.author@, false) + of_blocks(self.author@, true), t == of_blocks(self.ua@.take(i as int), true), s == s3 + t,
        after(first, a, inh, s, p.cv()), p.inh() == inh, p.first() == first, p.target() == old(p).target(),
    decreases self.ua@.len() - i
//@@ loopstart 4
    let ghost c = p.cv();
    proof { assert(self.ua@.take(i + 1).drop_last() =~= self.ua@.take(i as int)); }
//@@ loopend 4
    proof {
        let d = self.ua@[i - 1].decls(true);
        lemma_after_concat(first, a, inh, s, c, d, p.cv());
        assert(s + d =~= s3 + (t + d));
        t = t + d; s = s + d;
    }
//@@ end
}
