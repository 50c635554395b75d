// Contracts for what selectors look at in a document (victor/src/style/selectors.rs).
#![allow(unused, nonstandard_style)]
#![feature(const_destruct)]
use vstd::prelude::*;
use std::num::NonZeroUsize;

verus! {

// ---- stand-ins for the types of dependencies
pub struct LayoutData;
/// interned strings: equal exactly if they are the same atom
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum Namespace { none, html, svg, mathml, Other(u64) }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum LocalName { id, class, style, a, area, link, href, Other(u64) }
pub struct QualName { pub ns: Namespace, pub local: LocalName }
pub struct Attribute { pub name: QualName, pub value: String }
//@@ gsub /local_name!\("(\w+)"\)/ => LocalName::\1
//@@ gsub /ns!\((\w+)\)/ => Namespace::\1
//@@ gsub /ns!\(\)/ => Namespace::none
//@@ gsub /\.as_bytes\(\)/ => .bytes_()

//@@ include dom_forest.inc
//@@ include dom_index.inc

// ---- strings
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait Bytes { fn bytes_(&self) -> &[u8]; }
pub trait HasChars { spec fn chars_(&self) -> Seq<char>; }
pub struct Bytestr<'a>(pub &'a [u8]);
#[verifier::external_body]
pub fn bytes_of<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == utf8(s@) { s.as_bytes() }
pub trait AsBytes { spec fn text(&self) -> Seq<char>; fn bytes_(&self) -> (r: &[u8]) ensures r@ == utf8(self.text()); }
impl AsBytes for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn bytes_(&self) -> (r: &[u8]) { bytes_of(self) }
}
impl AsBytes for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn bytes_(&self) -> (r: &[u8]) { bytes_of(self.as_str()) }
}
pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn lowered(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| lower(b)) }
pub enum CaseSensitivity { CaseSensitive, AsciiCaseInsensitive }
impl CaseSensitivity {
    pub open spec fn same(self, a: Seq<u8>, b: Seq<u8>) -> bool {
        match self { CaseSensitivity::CaseSensitive => a == b, CaseSensitivity::AsciiCaseInsensitive => lowered(a) == lowered(b) }
    }
    /// selectors::attr::CaseSensitivity::eq
    #[verifier::external_body]
    pub fn eq(&self, a: &[u8], b: &[u8]) -> (r: bool) ensures r == self.same(a@, b@) { unimplemented!() }
}
/// white space of HTML: space, tab, line feed, form feed, carriage return
pub open spec fn is_space(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r' }
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool) ensures r == is_space(*c);
pub open spec fn space() -> spec_fn(char) -> bool { |c: char| is_space(c) }
/// the pieces of a text between the characters that satisfy p
pub open spec fn pieces(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] }
    else {
        let before = pieces(s.drop_last(), p);
        if p(s.last()) { before.push(Seq::empty()) } else { before.drop_last().push(before.last().push(s.last())) }
    }
}
/// str::split with a predicate on characters
#[verifier::external_body]
pub fn split<'a, F: Fn(char) -> bool>(s: &'a str, f: F, p: Ghost<spec_fn(char) -> bool>) -> (r: Vec<&'a str>)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == (p@)(c)
    ensures r@.len() == pieces(s@, p@).len(), forall|i: int| #![trigger r@[i]] #![trigger pieces(s@, p@)[i]] 0 <= i < r@.len() ==> r@[i]@ == pieces(s@, p@)[i]
{ s.split(f).collect() }
/// Iterator::any and Iterator::find for the items of a vector
fn any_in<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],))
    ensures
        r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true),
        !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
            forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        decreases v.len() - i
    {
        if f(&v[i]) { return true; }
        i += 1;
    }
    false
}
fn find_in<'a, T, F: Fn(&T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Option<&'a T>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],))
    ensures
        r is Some ==> exists|i: int| 0 <= i < v@.len() && *r->0 == v@[i] && f.ensures((&#[trigger] v@[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
            forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        decreases v.len() - i
    {
        if f(&v[i]) { return Some(&v[i]); }
        i += 1;
    }
    None
}

// ---- attributes
/// the value of the first attribute of a name without namespace
pub open spec fn value_of(attrs: Seq<Attribute>, name: LocalName) -> Option<Seq<char>>
    decreases attrs.len()
{
    if attrs.len() == 0 { None }
    else if attrs[0].name.ns == Namespace::none && attrs[0].name.local == name { Some(attrs[0].value@) }
    else { value_of(attrs.skip(1), name) }
}
proof fn lemma_value_of(attrs: Seq<Attribute>, name: LocalName)
    ensures
        value_of(attrs, name) is None ==> forall|i: int| 0 <= i < attrs.len() ==> !((#[trigger] attrs[i]).name.ns == Namespace::none && attrs[i].name.local == name),
        forall|i: int| 0 <= i < attrs.len() && #[trigger] named(attrs[i], name) && (forall|j: int| 0 <= j < i ==> !named(#[trigger] attrs[j], name)) ==> value_of(attrs, name) == Some(attrs[i].value@),
        (forall|i: int| 0 <= i < attrs.len() ==> !named(#[trigger] attrs[i], name)) ==> value_of(attrs, name) is None,
    decreases attrs.len()
{
    if attrs.len() > 0 {
        let t = attrs.skip(1);
        lemma_value_of(t, name);
        assert(named(attrs[0], name) <==> attrs[0].name.ns == Namespace::none && attrs[0].name.local == name);
        if !named(attrs[0], name) {
            assert forall|i: int| 0 <= i < attrs.len() && value_of(attrs, name) is None implies !((#[trigger] attrs[i]).name.ns == Namespace::none && attrs[i].name.local == name) by { if i > 0 { assert(t[i - 1] == attrs[i]); } }
            assert forall|i: int| 0 <= i < attrs.len() && #[trigger] named(attrs[i], name) && (forall|j: int| 0 <= j < i ==> !named(#[trigger] attrs[j], name)) implies value_of(attrs, name) == Some(attrs[i].value@) by {
                assert(t[i - 1] == attrs[i]);
                assert forall|j: int| 0 <= j < i - 1 implies !named(#[trigger] t[j], name) by { assert(t[j] == attrs[j + 1]); }
            }
            if forall|i: int| 0 <= i < attrs.len() ==> !named(#[trigger] attrs[i], name) {
                assert forall|i: int| 0 <= i < t.len() implies !named(#[trigger] t[i], name) by { assert(t[i] == attrs[i + 1]); }
            }
        }
    }
}
pub open spec fn named(a: Attribute, name: LocalName) -> bool { a.name.ns == Namespace::none && a.name.local == name }

impl ElementData {
//@@ fn victor/src/dom/mod.rs | impl ElementData :: get_attr
//@@ ret r
//@@ sub /self\s*\.attrs\s*\.iter\(\)\s*\.find\(\|attr\| (.*?)\)\s*\.map\(\|attr\| &\*(.*?)\)/ => proof { lemma_value_of(self.attrs@, *name); } match find_in(&self.attrs, |attr: &Attribute| -> (b: bool) ensures b == named(*attr, *name) { \1 }) { Some(attr) => Some(\2.as_str()), None => None }
//@@ spec
    ensures
        r is Some <==> value_of(self.attrs@, *name) is Some,
        r is Some ==> r->0@ == value_of(self.attrs@, *name)->0,
//@@ end
}
impl Node {
//@@ fn victor/src/dom/mod.rs | impl Node :: in_html_document
//@@ ret r
//@@ spec
    ensures r
//@@ end
//@@ fn victor/src/dom/mod.rs | impl Node :: as_element
//@@ ret r
//@@ spec
    ensures (r matches Some(e) && self.data == NodeData::Element(*e)) || (r is None && !(self.data is Element))
//@@ end
//@@ fn victor/src/dom/mod.rs | impl Node :: as_text
//@@ ret r
//@@ spec
    ensures match r { Some(t) => self.data == (NodeData::Text { contents: *t }), None => !(self.data is Text) }
//@@ end
}

// ---- what selectors have to see
pub open spec fn is_elem(nodes: Seq<Node>, n: int) -> bool { nodes[n].data is Element }
pub open spec fn elem(nodes: Seq<Node>, n: int) -> ElementData { nodes[n].data->Element_0 }
/// the elements among the children of a node
pub open spec fn elements(nodes: Seq<Node>, k: Seq<int>) -> Seq<int> { k.filter(|n: int| is_elem(nodes, n)) }
/// the first element in k from i on, or before i; 0 if there is none
pub open spec fn elem_from(nodes: Seq<Node>, k: Seq<int>, i: int) -> int
    decreases k.len() - i
{ if i < 0 || i >= k.len() { 0 } else if is_elem(nodes, k[i]) { k[i] } else { elem_from(nodes, k, i + 1) } }
pub open spec fn elem_upto(nodes: Seq<Node>, k: Seq<int>, i: int) -> int
    decreases i + 1
{ if i < 0 || i >= k.len() { 0 } else if is_elem(nodes, k[i]) { k[i] } else { elem_upto(nodes, k, i - 1) } }
pub open spec fn parent_elem(nodes: Seq<Node>, f: Forest, n: int) -> int { if f.par[n] != 0 && is_elem(nodes, f.par[n]) { f.par[n] } else { 0 } }
pub open spec fn next_elem(nodes: Seq<Node>, f: Forest, n: int) -> int { if f.par[n] == 0 { 0 } else { elem_from(nodes, f.kids[f.par[n]], f.pos[n] + 1) } }
pub open spec fn prev_elem(nodes: Seq<Node>, f: Forest, n: int) -> int { if f.par[n] == 0 { 0 } else { elem_upto(nodes, f.kids[f.par[n]], f.pos[n] - 1) } }
/// nothing but comments, processing instructions and empty texts
pub open spec fn blank(nodes: Seq<Node>, n: int) -> bool {
    !(nodes[n].data is Element) && !(nodes[n].data is Text && nodes[n].data->contents@.len() > 0)
}
pub open spec fn has_no_content(nodes: Seq<Node>, f: Forest, n: int) -> bool { forall|i: int| 0 <= i < f.kids[n].len() ==> blank(nodes, #[trigger] f.kids[n][i]) }

/// next_elem and prev_elem are the neighbours in the list of the element children
proof fn lemma_neighbours(nodes: Seq<Node>, k: Seq<int>, i: int)
    requires 0 <= i < k.len(), is_elem(nodes, k[i])
    ensures ({
        let e = elements(nodes, k);
        let p = elements(nodes, k.take(i)).len() as int;
        &&& 0 <= p < e.len() && e[p] == k[i]
        &&& elem_from(nodes, k, i + 1) == (if p + 1 < e.len() { e[p + 1] } else { 0 })
        &&& elem_upto(nodes, k, i - 1) == (if p > 0 { e[p - 1] } else { 0 })
    })
{
    let q = |n: int| is_elem(nodes, n);
    let a = k.take(i);
    let b = k.skip(i + 1);
    assert(k =~= a + (seq![k[i]] + b));
    Seq::filter_distributes_over_add(a, seq![k[i]] + b, q);
    Seq::filter_distributes_over_add(seq![k[i]], b, q);
    reveal_with_fuel(Seq::filter, 3);
    assert(seq![k[i]].drop_last() =~= Seq::<int>::empty());
    assert(seq![k[i]].filter(q) =~= seq![k[i]]);
    lemma_from(nodes, k, i + 1);
    lemma_upto(nodes, k, i - 1);
    assert(k.take(i - 1 + 1) =~= a);
    assert(elements(nodes, k) =~= elements(nodes, a) + (seq![k[i]] + elements(nodes, b)));
}
proof fn lemma_from(nodes: Seq<Node>, k: Seq<int>, i: int)
    requires 0 <= i <= k.len()
    ensures ({ let e = elements(nodes, k.skip(i)); elem_from(nodes, k, i) == (if e.len() > 0 { e[0] } else { 0 }) })
    decreases k.len() - i
{
    let q = |n: int| is_elem(nodes, n);
    reveal_with_fuel(Seq::filter, 3);
    if i < k.len() {
        assert(k.skip(i) =~= seq![k[i]] + k.skip(i + 1));
        Seq::filter_distributes_over_add(seq![k[i]], k.skip(i + 1), q);
        assert(seq![k[i]].drop_last() =~= Seq::<int>::empty());
        lemma_from(nodes, k, i + 1);
        if is_elem(nodes, k[i]) { assert(seq![k[i]].filter(q) =~= seq![k[i]]); } else { assert(seq![k[i]].filter(q) =~= Seq::<int>::empty()); }
        let e = elements(nodes, k.skip(i));
        assert(e =~= seq![k[i]].filter(q) + elements(nodes, k.skip(i + 1)));
    } else { assert(k.skip(i) =~= Seq::<int>::empty()); }
}
proof fn lemma_upto(nodes: Seq<Node>, k: Seq<int>, i: int)
    requires -1 <= i < k.len()
    ensures ({ let e = elements(nodes, k.take(i + 1)); elem_upto(nodes, k, i) == (if e.len() > 0 { e.last() } else { 0 }) })
    decreases i + 1
{
    let q = |n: int| is_elem(nodes, n);
    reveal_with_fuel(Seq::filter, 3);
    if i >= 0 {
        let t = k.take(i + 1);
        assert(t.drop_last() =~= k.take(i));
        assert(t.last() == k[i]);
        lemma_upto(nodes, k, i - 1);
        assert(k.take(i - 1 + 1) =~= k.take(i));
    } else { assert(k.take(0) =~= Seq::<int>::empty()); }
}

// ---- the functions that the selectors crate calls
//@@ item victor/src/style/selectors.rs | struct NodeRef
//@@ attr #[derive(Copy, Clone)]
//@@ sub /struct NodeRef/ => pub struct NodeRef
//@@ sub /document: &'a Document/ => pub document: &'a Document
//@@ sub /node: NodeId/ => pub node: NodeId
//@@ end
pub open spec fn at(r: Option<NodeRef>, d: Document, n: int) -> bool {
    match r { None => n == 0, Some(x) => n != 0 && x.node.ix() == n && *x.document == d }
}
impl<'a> NodeRef<'a> {
    pub open spec fn n(self) -> int { self.node.ix() }
    pub open spec fn nodes(self) -> Seq<Node> { self.document.nodes@ }
    /// selectors are only matched against elements of the document
    pub open spec fn ok(self) -> bool { 0 < self.n() < self.nodes().len() && is_elem(self.nodes(), self.n()) && exists|f: Forest| forest(self.nodes(), f) }
    pub open spec fn elem(self) -> ElementData { elem(self.nodes(), self.n()) }
//@@ fn victor/src/style/selectors.rs | impl<'a> NodeRef<'a> :: node
//@@ ret r
//@@ spec
    requires self.n() < self.nodes().len()
    ensures *r == self.nodes()[self.n()]
//@@ end
}
/// which neighbour a step goes to
pub open spec fn steps<F: Fn(&Node) -> Option<NodeId>>(next: F, forward: bool) -> bool {
    &&& forall|n: Node| #[trigger] next.requires((&n,))
    &&& forall|n: Node, o: Option<NodeId>| #[trigger] next.ensures((&n,), o) ==> o == (if forward { n.next_sibling } else { n.previous_sibling })
}
pub open spec fn scan(nodes: Seq<Node>, f: Forest, first: int, forward: bool) -> int {
    if first == 0 { 0 }
    else if f.par[first] == 0 { if is_elem(nodes, first) { first } else { 0 } }
    else if forward { elem_from(nodes, f.kids[f.par[first]], f.pos[first]) } else { elem_upto(nodes, f.kids[f.par[first]], f.pos[first]) }
}
pub proof fn lemma_scan(nodes: Seq<Node>, f: Forest, n: int, forward: bool)
    requires forest(nodes, f), 0 < n < nodes.len()
    ensures
        is_elem(nodes, n) ==> scan(nodes, f, n, forward) == n,
        ({
            let m = ln(if forward { nodes[n].next_sibling } else { nodes[n].previous_sibling });
            &&& 0 <= m < nodes.len()
            &&& !is_elem(nodes, n) ==> scan(nodes, f, n, forward) == scan(nodes, f, m, forward)
            &&& m != 0 ==> f.par[n] != 0 && f.par[m] == f.par[n] && f.pos[m] == f.pos[n] + (if forward { 1int } else { -1 })
        }),
{
    assert(node_ok(nodes, f, n));
    let p = f.par[n];
    if p != 0 {
        assert(kid_ok(nodes, f, p, f.pos[n]));
        if f.pos[n] + 1 < f.kids[p].len() { assert(kid_ok(nodes, f, p, f.pos[n] + 1)); assert(node_ok(nodes, f, f.kids[p][f.pos[n] + 1])); }
        if f.pos[n] > 0 { assert(kid_ok(nodes, f, p, f.pos[n] - 1)); assert(node_ok(nodes, f, f.kids[p][f.pos[n] - 1])); }
        let k = f.kids[p];
        let i = f.pos[n];
        assert(k[i] == n);
        assert(elem_from(nodes, k, i) == if is_elem(nodes, n) { n } else { elem_from(nodes, k, i + 1) });
        assert(elem_upto(nodes, k, i) == if is_elem(nodes, n) { n } else { elem_upto(nodes, k, i - 1) });
        if forward {
            let m = ln(nodes[n].next_sibling);
            if i + 1 < k.len() { assert(m == k[i + 1]); assert(f.pos[m] == i + 1 && f.par[m] == p); assert(m != 0); } else { assert(m == 0); assert(elem_from(nodes, k, i + 1) == 0); }
        } else {
            let m = ln(nodes[n].previous_sibling);
            if i > 0 { assert(m == k[i - 1]); assert(f.pos[m] == i - 1 && f.par[m] == p); assert(m != 0); } else { assert(m == 0); assert(elem_upto(nodes, k, i - 1) == 0); }
        }
    }
}
pub proof fn lemma_next_is_scan(nodes: Seq<Node>, f: Forest, n: int)
    requires forest(nodes, f), 0 < n < nodes.len()
    ensures
        next_elem(nodes, f, n) == scan(nodes, f, ln(nodes[n].next_sibling), true),
        prev_elem(nodes, f, n) == scan(nodes, f, ln(nodes[n].previous_sibling), false),
{
    assert(node_ok(nodes, f, n));
    let p = f.par[n];
    if p != 0 {
        let k = f.kids[p];
        let i = f.pos[n];
        assert(kid_ok(nodes, f, p, i));
        if i + 1 < k.len() { assert(kid_ok(nodes, f, p, i + 1)); assert(k[i + 1] != 0); } else { assert(elem_from(nodes, k, i + 1) == 0); }
        if i > 0 { assert(kid_ok(nodes, f, p, i - 1)); assert(k[i - 1] != 0); } else { assert(elem_upto(nodes, k, i - 1) == 0); }
    }
}
pub open spec fn to_go(nodes: Seq<Node>, f: Forest, n: int, forward: bool) -> int {
    if f.par[n] == 0 { 0 } else if forward { f.kids[f.par[n]].len() - f.pos[n] } else { f.pos[n] + 1 }
}
//@@ fn victor/src/style/selectors.rs | find_element
//@@ ret r
//@@ sub /let mut node = first\?;/ => let mut node = match first { Some(n) => n, None => { return None; } };
//@@ sub /node = (next\(.*?\))\?/ => node = match \1 { Some(n) => n, None => { return None; } };
//@@ spec
    requires
        exists|f: Forest| forest(document.nodes@, f),
        first is Some ==> in_arena(document.nodes@, first->0),
        steps(next, true) || steps(next, false),
    ensures
        forall|f: Forest, forward: bool| #[trigger] forest(document.nodes@, f) && #[trigger] steps(next, forward) ==> at(r, *document, scan(document.nodes@, f, ln(first), forward)),
//@@ start
    let ghost nodes = document.nodes@;
    let ghost f0 = choose|f: Forest| forest(nodes, f);
    let ghost fw = steps(next, true);
//@@ loop 1
        invariant
            nodes == document.nodes@,
            forest(nodes, f0),
            steps(next, fw),
            0 < node.ix() < nodes.len(),
            forall|f: Forest, forward: bool| #[trigger] forest(nodes, f) && #[trigger] steps(next, forward) ==> scan(nodes, f, ln(first), forward) == scan(nodes, f, node.ix(), forward),
        decreases to_go(nodes, f0, node.ix(), fw)
//@@ loopstart 1
        let ghost n0 = node.ix();
        proof {
            assert forall|f: Forest, forward: bool| #[trigger] forest(nodes, f) && #[trigger] steps(next, forward) implies (is_elem(nodes, n0) ==> scan(nodes, f, n0, forward) == n0) && scan(nodes, f, ln(first), forward) == scan(nodes, f, n0, forward) by { lemma_scan(nodes, f, n0, forward); }
            lemma_scan(nodes, f0, n0, fw);
            assert(node_ok(nodes, f0, n0));
            assert forall|f: Forest, forward: bool| #[trigger] forest(nodes, f) && #[trigger] steps(next, forward) && !is_elem(nodes, n0) implies
                scan(nodes, f, n0, forward) == scan(nodes, f, ln(if forward { nodes[n0].next_sibling } else { nodes[n0].previous_sibling }), forward) by { lemma_scan(nodes, f, n0, forward); }
        }
//@@ end
impl<'a> NodeRef<'a> {
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: parent_element
//@@ ret r
//@@ sub /let parent = (self\.node\(\)\.\w+)\?;/ => let parent = match \1 { Some(n) => n, None => { return None; } };
//@@ sub /(self\.document\[\w+\]\.as_element\(\))\?;/ => match \1 { Some(_) => {}, None => { return None; } }
//@@ spec
    requires self.ok()
    ensures forall|f: Forest| #[trigger] forest(self.nodes(), f) ==> at(r, *self.document, parent_elem(self.nodes(), f, self.n()))
//@@ start
    proof {
        assert forall|f: Forest| #[trigger] forest(self.nodes(), f) implies node_ok(self.nodes(), f, self.n()) by {}
        let f0 = choose|f: Forest| forest(self.nodes(), f);
        assert(node_ok(self.nodes(), f0, self.n()));
    }
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: next_sibling_element
//@@ ret r
//@@ sub /find_element\((.*?),\s*\|(\w+)\|\s*\{?\s*(\w+\.\w+)\s*\}?\s*\)\s*\}$/ => let next = |\2: &Node| -> (o: Option<NodeId>) ensures o == \3 { \3 }; proof { if steps(next, true) {} } find_element(\1, next) }
//@@ spec
    requires self.ok()
    ensures forall|f: Forest| #[trigger] forest(self.nodes(), f) ==> at(r, *self.document, next_elem(self.nodes(), f, self.n()))
//@@ start
    proof {
        assert forall|f: Forest| #[trigger] forest(self.nodes(), f) implies next_elem(self.nodes(), f, self.n()) == scan(self.nodes(), f, ln(self.nodes()[self.n()].next_sibling), true) && 0 <= ln(self.nodes()[self.n()].next_sibling) < self.nodes().len() by {
            lemma_next_is_scan(self.nodes(), f, self.n());
            lemma_scan(self.nodes(), f, self.n(), true);
            assert(node_ok(self.nodes(), f, self.n()));
            if f.par[self.n()] != 0 { assert(kid_ok(self.nodes(), f, f.par[self.n()], f.pos[self.n()])); }
        }
    }
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: prev_sibling_element
//@@ ret r
//@@ sub /find_element\((.*?),\s*\|(\w+)\|\s*\{?\s*(\w+\.\w+)\s*\}?\s*\)\s*\}$/ => let next = |\2: &Node| -> (o: Option<NodeId>) ensures o == \3 { \3 }; proof { if steps(next, false) {} } find_element(\1, next) }
//@@ spec
    requires self.ok()
    ensures forall|f: Forest| #[trigger] forest(self.nodes(), f) ==> at(r, *self.document, prev_elem(self.nodes(), f, self.n()))
//@@ start
    proof {
        assert forall|f: Forest| #[trigger] forest(self.nodes(), f) implies prev_elem(self.nodes(), f, self.n()) == scan(self.nodes(), f, ln(self.nodes()[self.n()].previous_sibling), false) && 0 <= ln(self.nodes()[self.n()].previous_sibling) < self.nodes().len() by {
            lemma_next_is_scan(self.nodes(), f, self.n());
            lemma_scan(self.nodes(), f, self.n(), false);
            assert(node_ok(self.nodes(), f, self.n()));
            if f.par[self.n()] != 0 { assert(kid_ok(self.nodes(), f, f.par[self.n()], f.pos[self.n()])); }
        }
    }
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: is_html_element_in_html_document
//@@ ret r
//@@ spec
    requires self.ok()
    ensures r == (self.elem().name.ns == Namespace::html)
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: local_name
//@@ ret r
//@@ spec
    requires self.ok()
    ensures *r == self.elem().name.local
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: namespace
//@@ ret r
//@@ spec
    requires self.ok()
    ensures *r == self.elem().name.ns
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: is_html_slot_element
//@@ ret r
//@@ spec
    ensures !r
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: parent_node_is_shadow_root
//@@ ret r
//@@ spec
    ensures !r
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: containing_shadow_host
//@@ ret r
//@@ spec
    ensures r is None
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: attr_matches
//@@ ret r
//@@ sub /self\.node\(\)\.as_element\(\)\.unwrap\(\)\.attrs\.iter\(\)\.any\(\|attr\| \{/ => any_in(&self.node().as_element().unwrap().attrs, |attr: &Attribute| -> (b: bool) ensures b == attr_selected(*attr, *ns, *local_name, *operation) {
//@@ spec
    requires self.ok()
    ensures r == exists|i: int| 0 <= i < self.elem().attrs@.len() && attr_selected(#[trigger] self.elem().attrs@[i], *ns, *local_name, *operation)
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: is_link
//@@ ret r
//@@ spec
    requires self.ok()
    ensures r == (self.elem().name.ns == Namespace::html && (self.elem().name.local == LocalName::a || self.elem().name.local == LocalName::area || self.elem().name.local == LocalName::link) && value_of(self.elem().attrs@, LocalName::href) is Some)
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: has_id
//@@ ret r
//@@ sub /(self\s*\.node\(\)\s*\.as_element\(\)\s*\.unwrap\(\)\s*\.get_attr\(.*?\))\s*\.map_or\((\w+), \|attr\| \{(.*?)\}\)/ => match \1 { None => \2, Some(attr) => {\3} }
//@@ spec
    requires self.ok()
    ensures r == (value_of(self.elem().attrs@, LocalName::id) matches Some(v) && case_sensitivity.same(utf8(id@), utf8(v)))
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: has_class
//@@ ret r
//@@ sub /(self\s*\.node\(\)\s*\.as_element\(\)\s*\.unwrap\(\)\s*\.get_attr\(.*?\))\s*\.map_or\((\w+), \|attr\| \{\s*attr\.split\(\|c: char\| (.*?)\)\s*\.any\(\|c\| (.*?)\)\s*\}\)/ => match \1 { None => \2, Some(attr) => any_in(&split(attr, |c: char| -> (b: bool) ensures b == is_space(c) { \3 }, Ghost(space())), |c_: &&str| -> (b: bool) ensures b == case_sensitivity.same(utf8(class@), utf8(c_@)) { let c: &str = *c_; \4 }) }
//@@ spec
    requires self.ok()
    ensures r == (value_of(self.elem().attrs@, LocalName::class) matches Some(v) && exists|i: int| 0 <= i < words(v).len() && case_sensitivity.same(utf8(class@), utf8(#[trigger] words(v)[i])))
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: is_empty
//@@ ret r
//@@ spec
    requires self.ok()
    ensures forall|f: Forest| #[trigger] forest(self.nodes(), f) ==> r == has_no_content(self.nodes(), f, self.n())
//@@ start
    proof {
        assert forall|f: Forest| #[trigger] forest(self.nodes(), f) implies node_ok(self.nodes(), f, self.n()) && (f.kids[self.n()].len() > 0 ==> kid_ok(self.nodes(), f, self.n(), 0)) by {}
    }
    let ghost f0 = choose|f: Forest| forest(self.nodes(), f);
//@@ loop 1
        invariant
            forest(self.nodes(), f0),
            0 < node.ix() < self.nodes().len(),
            0 < self.n(),
            forall|f: Forest| #[trigger] forest(self.nodes(), f) ==> f.par[node.ix()] == self.n() && node_ok(self.nodes(), f, self.n()) && forall|i: int| 0 <= i < f.pos[node.ix()] ==> blank(self.nodes(), #[trigger] f.kids[self.n()][i]),
        decreases f0.kids[self.n()].len() - f0.pos[node.ix()]
//@@ loopstart 1
        let ghost m = node.ix();
        proof {
            assert forall|f: Forest| #[trigger] forest(self.nodes(), f) implies node_ok(self.nodes(), f, m) && kid_ok(self.nodes(), f, self.n(), f.pos[m])
                && (f.pos[m] + 1 < f.kids[self.n()].len() ==> kid_ok(self.nodes(), f, self.n(), f.pos[m] + 1)) by {
                assert(node_ok(self.nodes(), f, m));
                assert(f.par[m] == self.n());
                assert(0 <= f.pos[m] < f.kids[self.n()].len());
                assert(kid_ok(self.nodes(), f, self.n(), f.pos[m]));
                if f.pos[m] + 1 < f.kids[self.n()].len() { assert(kid_ok(self.nodes(), f, self.n(), f.pos[m] + 1)); }
            }
            assert(node_ok(self.nodes(), f0, m));
        }
//@@ end
//@@ fn victor/src/style/selectors.rs | impl<'a> selectors::Element for NodeRef<'a> :: is_root
//@@ ret r
//@@ spec
    requires self.ok()
    ensures forall|f: Forest| #[trigger] forest(self.nodes(), f) ==> r == (parent_elem(self.nodes(), f, self.n()) == 0)
//@@ end
}
// ---- the entry point
pub struct SelectorImpl_;
#[verifier::external_body]
pub struct Selector { x: u8 }
pub enum MatchingMode { Normal, ForStatelessPseudoElement }
pub enum QuirksMode { NoQuirks, LimitedQuirks, Quirks }
pub struct BloomFilter;
pub struct NthIndexCache;
pub struct AncestorHashes;
pub struct ElementSelectorFlags;
pub struct MatchingContext { pub mode: MatchingMode, pub quirks: QuirksMode }
impl MatchingContext {
    #[verifier::external_body]
    pub fn new(mode: MatchingMode, bloom: Option<&BloomFilter>, nth: Option<&mut NthIndexCache>, quirks: QuirksMode) -> (r: Self)
        requires bloom is None, nth is None
        ensures r.mode == mode, r.quirks == quirks
    { unimplemented!() }
}
/// the selector selects the element by the Selectors specification, when the functions above describe the element
pub uninterp spec fn selected(s: Selector, nodes: Seq<Node>, n: int) -> bool;
#[verifier::external_body]
pub fn matches_selector<F: Fn(&NodeRef<'_>, ElementSelectorFlags)>(s: &Selector, offset: usize, hashes: Option<&AncestorHashes>, e: &NodeRef<'_>, c: &mut MatchingContext, f: &F) -> (r: bool)
    requires e.ok(), offset == 0, hashes is None, old(c).mode is Normal, old(c).quirks is NoQuirks
    ensures r == selected(*s, e.nodes(), e.n())
{ unimplemented!() }
//@@ fn victor/src/style/selectors.rs | matches
//@@ sub /&mut \|_, _\| / => &|e_: &NodeRef<'_>, f_: ElementSelectorFlags| 
//@@ ret r
//@@ spec
    requires (NodeRef { document, node: element }).ok()
    ensures r == selected(*selector, document.nodes@, element.ix())
//@@ end
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { pieces(s, space()) }
pub enum NamespaceConstraint<T> { Any, Specific(T) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AttrSelectorOperation<T> { x: T }
/// what the operators =, ~=, |=, ^=, $=, *= and the flag i say about a value
pub uninterp spec fn op_holds(op: AttrSelectorOperation<&String>, value: Seq<char>) -> bool;
impl<'b> AttrSelectorOperation<&'b String> {
    #[verifier::external_body]
    pub fn eval_str(&self, value: &String) -> (r: bool) ensures r == op_holds(*self, value@) { unimplemented!() }
}
pub open spec fn attr_selected(a: Attribute, ns: NamespaceConstraint<&Namespace>, name: LocalName, op: AttrSelectorOperation<&String>) -> bool {
    &&& a.name.local == name
    &&& (ns matches NamespaceConstraint::Specific(n) ==> a.name.ns == *n)
    &&& op_holds(op, a.value@)
}
} // verus!
fn main() {}
