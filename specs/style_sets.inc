
// ---------------------------------------------------------------- style sets (cascade.rs)
//@@ gsub /\bdom::(?=Document|NodeId)/ =>
// Documents, selectors and the CSS syntax are opaque here: V14 and V13 are about them.
#[verifier::external_body]
pub struct Document { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NodeId { x: usize }
pub enum Namespace { Html, Svg, MathMl, Other(u64) }
pub enum LocalName { Style, Other(u64) }
pub struct QualName { pub ns: Namespace, pub local: LocalName }
pub struct ElementData { pub name: QualName, pub attrs: Attrs }
#[verifier::external_body]
pub struct Attrs { x: u8 }
impl Document {
    pub uninterp spec fn element_of(self, n: NodeId) -> ElementData;
    /// document[node].as_element().unwrap(): styles are only computed for elements
    #[verifier::external_body]
    pub fn element(&self, n: NodeId) -> (r: &ElementData) ensures *r == self.element_of(n) { unimplemented!() }
}
impl ElementData {
    pub uninterp spec fn attr(self, name: LocalName) -> Option<&'static str>;
    /// see unit dom_walk for the function itself
    #[verifier::external_body]
    pub fn get_attr(&self, name: &LocalName) -> (r: Option<&str>) ensures r == self.attr(*name) { unimplemented!() }
}
#[verifier::external_body]
pub struct Selector { x: u8 }
impl Selector {
    pub uninterp spec fn specificity_of(self) -> u32;
    #[verifier::external_body]
    pub fn specificity(&self) -> (r: u32) ensures r == self.specificity_of() { unimplemented!() }
}
pub struct SelectorList(pub Vec<Selector>);
pub uninterp spec fn selects(s: Selector, d: Document, n: NodeId) -> bool;
pub mod selectors {
    use super::*;
    #[verifier::external_body]
    pub fn matches(selector: &Selector, document: &Document, element: NodeId) -> (r: bool) ensures r == selects(*selector, *document, element) { unimplemented!() }
}
/// the block that the text of a style attribute stands for
pub uninterp spec fn block_of(text: &str) -> DeclarationBlock;
#[verifier::external_body]
pub fn parse_block(text: &str) -> (r: DeclarationBlock) ensures r == block_of(text), r.wf() { unimplemented!() }
//@@ item victor/src/style/rules.rs | enum CssRule
//@@ end
pub struct RuleError;
/// the rules of a style sheet, in order; rules that are not valid are errors
pub uninterp spec fn rules_of(css: &str) -> Seq<Result<CssRule, RuleError>>;
#[verifier::external_body]
pub fn parse_rules(css: &str) -> (r: Vec<Result<CssRule, RuleError>>)
    ensures r@ == rules_of(css), forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> (r@[k] matches Ok(CssRule::StyleRule { selectors, block }) ==> block.wf())
{ unimplemented!() }

//@@ item victor/src/style/cascade.rs | struct StyleSetBuilder
//@@ sub /\((?:pub )?StyleSet\)/ => (pub StyleSet)
//@@ end
//@@ item victor/src/style/cascade.rs | struct StyleSet
//@@ sub /(?:pub )?rules:/ => pub rules:
//@@ end
pub type Rule = (Selector, Arc<DeclarationBlock>);
/// one rule for each selector of a list, in order
pub open spec fn per_selector(ss: Seq<Selector>, b: Arc<DeclarationBlock>) -> Seq<Rule> { Seq::new(ss.len(), |k: int| (ss[k], b)) }
pub open spec fn rules_from(rs: Seq<Result<CssRule, RuleError>>) -> Seq<Rule>
    decreases rs.len()
{
    if rs.len() == 0 { seq![] }
    else { (match rs[0] { Ok(CssRule::StyleRule { selectors, block }) => per_selector(selectors.0@, block), Err(_) => seq![] }) + rules_from(rs.skip(1)) }
}
impl StyleSet {
    pub open spec fn wf(self) -> bool { forall|k: int| 0 <= k < self.rules@.len() ==> (#[trigger] self.rules@[k]).1.wf() }
}
pub open spec fn permutation(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j])
}
/// t has the elements of s by increasing key, and elements of the same key in the order of s
pub open spec fn stably_sorted<T>(s: Seq<T>, t: Seq<T>, key: spec_fn(T) -> int) -> bool {
    t.len() == s.len() && exists|p: Seq<int>| #[trigger] permutation(p, s.len() as int)
        && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < t.len() ==> key(#[trigger] t[i]) < key(#[trigger] t[j]) || (key(t[i]) == key(t[j]) && p[i] < p[j]))
}
/// [T]::sort_by_key is a stable sort
#[verifier::external_body]
pub fn sort_by_key<T, F: Fn(&T) -> u32>(v: &mut Vec<T>, f: F, key: Ghost<spec_fn(T) -> int>)
    requires forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, k: u32| #[trigger] f.ensures((&x,), k) ==> k as int == key@(x)
    ensures stably_sorted(old(v)@, final(v)@, key@)
{ unimplemented!() }
pub open spec fn by_specificity() -> spec_fn(Rule) -> int { |r: Rule| r.0.specificity_of() as int }

impl StyleSetBuilder {
//@@ fn victor/src/style/cascade.rs | impl StyleSetBuilder :: new
//@@ ret r
//@@ spec
    ensures r.0.rules@.len() == 0, r.0.wf()
//@@ end
//@@ fn victor/src/style/cascade.rs | impl StyleSetBuilder :: add_stylesheet
//@@ sub /let mut input = ParserInput::new\(css\);\s*let mut parser = Parser::new\(&mut input\);/ => let mut results = parse_rules(css);
//@@ sub /for result in\s*RuleListParser::new_for_stylesheet\(&mut parser, RulesParser\)\s*\{/ => while results.len() > 0 { let result = results.remove(0);
//@@ sub /for selector in selectors\.0 \{/ => let mut list = selectors.0; while list.len() > 0 { let selector = list.remove(0);
//@@ spec
    requires old(self).0.wf()
    ensures final(self).0.wf(), final(self).0.rules@ == old(self).0.rules@ + rules_from(rules_of(css))
//@@ start
    let ghost s = self.0.rules@;
//@@ loop 1
    invariant
        self.0.wf(), s == old(self).0.rules@,
        forall|k: int| #![trigger results@[k]] 0 <= k < results@.len() ==> (results@[k] matches Ok(CssRule::StyleRule { selectors, block }) ==> block.wf()),
        self.0.rules@ + rules_from(results@) == s + rules_from(rules_of(css)),
    decreases results@.len()
//@@ loopstart 1
    let ghost r0 = results@;
    let ghost t = self.0.rules@;
    proof { assert(r0[0] == r0[0]); }
//@@ after /let result = results\.remove\(0\);/
    proof { assert(results@ =~= r0.skip(1)); assert(result == r0[0]); assert forall|k: int| #![trigger results@[k]] 0 <= k < results@.len() implies (results@[k] matches Ok(CssRule::StyleRule { selectors, block }) ==> block.wf()) by { assert(results@[k] == r0[k + 1]); } }
//@@ loopend 1
    proof {
        let part = match r0[0] { Ok(CssRule::StyleRule { selectors, block }) => per_selector(selectors.0@, block), Err(_) => seq![] };
        assert(self.0.rules@ =~= t + part);
        assert(t + part + rules_from(results@) =~= t + (part + rules_from(results@)));
    }
//@@ loop 2
    invariant
        self.0.wf(), block.wf(), n0 == selectors.0@.len(), list@ =~= selectors.0@.skip(n0 - list@.len()), list@.len() <= n0,
        self.0.rules@ =~= t + per_selector(selectors.0@.take(n0 - list@.len()), block),
    decreases list@.len()
//@@ beforeloop 2
    let ghost n0 = selectors.0@.len();
//@@ end
//@@ fn victor/src/style/cascade.rs | impl StyleSetBuilder :: finish
//@@ sub /pub fn finish\(mut self\) -> StyleSet \{/ => pub fn finish(self) -> StyleSet { let mut this = self;
//@@ sub /self\s*\.0\s*\.rules\s*\.sort_by_key\(\|&\(ref selector, _\)\| (.*?)\);/ => sort_by_key(&mut this.0.rules, |r: &Rule| -> (k: u32) ensures k == r.0.specificity_of() { let selector = &r.0; \1 }, Ghost(by_specificity()));
//@@ sub /self\.0(?=\s*\}\s*$)/ => this.0
//@@ ret r
//@@ spec
    requires self.0.wf()
    ensures stably_sorted(self.0.rules@, r.rules@, by_specificity()), r.wf()
//@@ tail res
    proof {
        let s = self.0.rules@;
        let p = choose|p: Seq<int>| #[trigger] permutation(p, s.len() as int) && (forall|i: int| 0 <= i < res.rules@.len() ==> #[trigger] res.rules@[i] == s[p[i]]);
        assert forall|k: int| 0 <= k < res.rules@.len() implies (#[trigger] res.rules@[k]).1.wf() by { assert(s[p[k]].1.wf()); }
    }
//@@ end
}
/// the blocks of the rules that select an element, in order
pub open spec fn matching_blocks<'a>(rs: Seq<Rule>, d: Document, n: NodeId) -> Seq<&'a DeclarationBlock>
    decreases rs.len()
{
    if rs.len() == 0 { seq![] }
    else if selects(rs.last().0, d, n) { matching_blocks(rs.drop_last(), d, n).push(&*rs.last().1) }
    else { matching_blocks(rs.drop_last(), d, n) }
}
pub open spec fn all_wf(bs: Seq<&DeclarationBlock>) -> bool { forall|k: int| 0 <= k < bs.len() ==> #[trigger] bs[k].wf() }
impl StyleSet {
//@@ fn victor/src/style/cascade.rs | impl StyleSet :: push_matching
//@@ sub /&mut SmallVec<impl smallvec::Array<Item = &'a DeclarationBlock>>/ => &mut Vec<&'a DeclarationBlock>
//@@ sub /for &\(ref selector, ref block\) in &self\.rules \{/ => let mut i: usize = 0; while i < self.rules.len() { let selector = &self.rules[i].0; let block = &self.rules[i].1; i = i + 1;
//@@ spec
    requires self.wf(), all_wf(old(into)@)
    ensures final(into)@ == old(into)@ + matching_blocks(self.rules@, *document, node), all_wf(final(into)@)
//@@ start
    proof { assert(self.rules@.take(self.rules@.len() as int) =~= self.rules@); }
//@@ loop 1
    invariant
        self.wf(), all_wf(into@), i <= self.rules@.len(), self.rules@.take(self.rules@.len() as int) == self.rules@,
        into@ =~= old(into)@ + matching_blocks(self.rules@.take(i as int), *document, node),
    decreases self.rules@.len() - i
//@@ loopstart 1
    proof { assert(self.rules@.take(i + 1).drop_last() =~= self.rules@.take(i as int)); assert(self.rules@[i as int].1.wf()); }
//@@ end
}
/// the text of the user agent style sheet
#[verifier::external_body]
pub fn ua_css() -> (r: &'static str) ensures r == ua_text() { unimplemented!() }
pub uninterp spec fn ua_text() -> &'static str;
pub uninterp spec fn ua_set() -> StyleSet;
pub open spec fn is_set_of(r: StyleSet, css: &str) -> bool { r.wf() && stably_sorted(rules_from(rules_of(css)), r.rules@, by_specificity()) }
//@@ fn @expanded | mod style :: mod cascade :: impl ::lazy_static::__Deref for USER_AGENT_STYLESHEET :: deref :: __static_ref_initialize
//@@ sub /fn __static_ref_initialize/ => fn user_agent_initialize
//@@ sub /add_stylesheet\("(?:\\.|[^"\\])*"\)/ => add_stylesheet(ua_css())
//@@ ret r
//@@ spec
    ensures is_set_of(r, ua_text())
//@@ before /builder\.finish\(\)/
    proof { assert(Seq::<Rule>::empty() + rules_from(rules_of(ua_text())) =~= rules_from(rules_of(ua_text()))); assert(builder.0.rules@ =~= rules_from(rules_of(ua_text()))); }
//@@ end
/// a lazy static has the value of its initializer
#[verifier::external_body]
pub fn user_agent_stylesheet() -> (r: &'static StyleSet)
    ensures *r == ua_set(), is_set_of(ua_set(), ua_text())
{ unimplemented!() }
/// style attributes exist in these namespaces
pub open spec fn has_style_attribute(e: ElementData) -> bool { (e.name.ns is Html || e.name.ns is Svg || e.name.ns is MathMl) && e.attr(LocalName::Style) is Some }
/// the author's blocks that apply to an element: a style attribute comes after all of the rules
pub open spec fn author_blocks<'a>(rs: Seq<Rule>, d: Document, n: NodeId) -> Seq<&'a DeclarationBlock> {
    let e = d.element_of(n);
    if has_style_attribute(e) { matching_blocks(rs, d, n).push(&block_of(e.attr(LocalName::Style)->0)) } else { matching_blocks(rs, d, n) }
}
/// all of the declarations that apply to an element in the order of the cascade
pub open spec fn style_order(author: Seq<Rule>, d: Document, n: NodeId) -> Seq<LonghandDeclaration> {
    let ua = matching_blocks(ua_set().rules@, d, n);
    let au = author_blocks(author, d, n);
    of_blocks(ua, false) + of_blocks(au, false) + of_blocks(au, true) + of_blocks(ua, true)
}
//@@ gsub /\bns!\(html\)/ => Namespace::Html
//@@ gsub /\bns!\(svg\)/ => Namespace::Svg
//@@ gsub /\bns!\(mathml\)/ => Namespace::MathMl
//@@ gsub /\blocal_name!\("style"\)/ => LocalName::Style
//@@ gsub /\bdom::(?=Document|NodeId)/ =>
//@@ gsub /document\[node\]\.as_element\(\)\.unwrap\(\)/ => document.element(node)
//@@ fn victor/src/style/cascade.rs | style_for_element
//@@ sub /USER_AGENT_STYLESHEET\./ => user_agent_stylesheet().
//@@ sub /let mut input = ParserInput::new\(style_attr\);\s*let mut parser = Parser::new\(&mut input\);/ =>
//@@ sub /DeclarationBlock::parse\(&mut parser\)/ => parse_block(style_attr)
//@@ ret r
//@@ spec
    requires author.wf()
    ensures computed_style(deref_opt(parent_style), style_order(author.rules@, *document, node), *r)
//@@ before /ComputedValues::new\(parent_style/
    proof {
        assert(matching.ua@ =~= matching_blocks(ua_set().rules@, *document, node));
        assert(matching.author@ =~= author_blocks(author.rules@, *document, node));
    }
//@@ end
