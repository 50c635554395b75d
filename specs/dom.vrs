// Contracts for the node arena of a document (victor/src/dom).
// Everything between `//@@` directives and `//@@ end` is extracted from /repo.
#![allow(unused)]
use vstd::prelude::*;
use std::num::NonZeroUsize;

verus! {

//@@ include dom_standins.inc
//@@ include dom_forest.inc
// ---- what each operation does to the forest
pub open spec fn detached(f: Forest, c: int) -> Forest {
    let p = f.par[c];
    if p == 0 { f } else { Forest {
        kids: f.kids.update(p, f.kids[p].remove(f.pos[c])),
        par: f.par.update(c, 0),
        pos: Seq::new(f.pos.len(), |x: int| if f.par[x] == p && f.pos[x] > f.pos[c] { f.pos[x] - 1 } else { f.pos[x] }),
        rank: f.rank,
    } }
}
/// c, which has no parent, inserted as the i-th child of p (everything below c moves along with it)
pub open spec fn inserted(f: Forest, c: int, p: int, i: int) -> Forest {
    Forest {
        kids: f.kids.update(p, f.kids[p].insert(i, c)),
        par: f.par.update(c, p),
        pos: Seq::new(f.pos.len(), |x: int| if x == c { i } else if f.par[x] == p && f.pos[x] >= i { f.pos[x] + 1 } else { f.pos[x] }),
        rank: Seq::new(f.rank.len(), |x: int| if under(f, x, c) { f.rank[x] + f.rank[p] + 1 } else { f.rank[x] }),
    }
}
pub open spec fn appended(f: Forest, c: int, p: int) -> Forest {
    let g = detached(f, c);
    inserted(g, c, p, g.kids[p].len() as int)
}
pub open spec fn inserted_before(f: Forest, c: int, s: int) -> Forest {
    let g = detached(f, c);
    inserted(g, c, f.par[s], g.pos[s])
}
pub open spec fn with_node(f: Forest) -> Forest {
    Forest { kids: f.kids.push(Seq::empty()), par: f.par.push(0), pos: f.pos.push(0), rank: f.rank.push(0) }
}

proof fn lemma_under_detached(a: Seq<Node>, f: Forest, x: int, r: int)
    requires forest(a, f), 0 <= x < a.len(), 0 < r < a.len(),
    ensures under(f, x, r) == under(detached(f, r), x, r)
    decreases f.rank[x]
{
    assert(node_ok(a, f, x));
    if x != r && f.par[x] != 0 {
        assert(node_ok(a, f, f.par[x]));
        lemma_under_detached(a, f, f.par[x], r);
    }
}

/// The links changed as by detaching c: the forest is the one with c detached.
pub open spec fn links_detached(a: Seq<Node>, b: Seq<Node>, c: int) -> bool {
    let p = ln(a[c].parent);
    let pr = ln(a[c].previous_sibling);
    let nx = ln(a[c].next_sibling);
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> {
        &&& ln((#[trigger] b[i]).parent) == (if i == c { 0 } else { ln(a[i].parent) })
        &&& ln(b[i].previous_sibling) == (if i == c { 0 } else if i == nx && nx != 0 { pr } else { ln(a[i].previous_sibling) })
        &&& ln(b[i].next_sibling) == (if i == c { 0 } else if i == pr && pr != 0 { nx } else { ln(a[i].next_sibling) })
        &&& ln(b[i].first_child) == (if i == p && p != 0 && pr == 0 { nx } else { ln(a[i].first_child) })
        &&& ln(b[i].last_child) == (if i == p && p != 0 && nx == 0 { pr } else { ln(a[i].last_child) })
    }
}
proof fn lemma_detached(a: Seq<Node>, b: Seq<Node>, f: Forest, c: int)
    requires forest(a, f), 0 < c < a.len(), links_detached(a, b, c),
    ensures forest(b, detached(f, c)),
{
    let g = detached(f, c);
    let p = f.par[c];
    assert(node_ok(a, f, c));
    assert(node_ok(a, f, 0)); assert(node_ok(a, f, 1));
    if p == 0 {
        assert forall|x: int| 0 <= x < b.len() implies #[trigger] node_ok(b, g, x) by { assert(node_ok(a, f, x)); }
        assert forall|q: int, i: int| 0 <= q < b.len() && 0 <= i < g.kids[q].len() implies #[trigger] kid_ok(b, g, q, i) by {
            assert(kid_ok(a, f, q, i));
        }
    } else {
        let k = f.kids[p];
        let at = f.pos[c];
        assert(kid_ok(a, f, p, at));
        if at > 0 { assert(kid_ok(a, f, p, at - 1)); }
        if at < k.len() - 1 { assert(kid_ok(a, f, p, at + 1)); }
        assert forall|x: int| 0 <= x < b.len() implies #[trigger] node_ok(b, g, x) by {
            assert(node_ok(a, f, x));
            if x != c && f.par[x] == p {
                assert(kid_ok(a, f, p, f.pos[x]));
            }
        }
        assert forall|q: int, i: int| 0 <= q < b.len() && 0 <= i < g.kids[q].len() implies #[trigger] kid_ok(b, g, q, i) by {
            if q == p {
                let j = if i < at { i } else { i + 1 };
                assert(g.kids[q][i] == k[j]);
                assert(kid_ok(a, f, p, j));
                if j > 0 { assert(kid_ok(a, f, p, j - 1)); }
                if j < k.len() - 1 { assert(kid_ok(a, f, p, j + 1)); }
            } else {
                assert(kid_ok(a, f, q, i));
                let x = f.kids[q][i];
                if i > 0 { assert(kid_ok(a, f, q, i - 1)); }
                if i < f.kids[q].len() - 1 { assert(kid_ok(a, f, q, i + 1)); }
            }
        }
    }
}

/// The links changed as by inserting c before its new sibling s (0: at the end) below p.
pub open spec fn links_inserted(a: Seq<Node>, b: Seq<Node>, c: int, p: int, s: int) -> bool {
    let pr = if s == 0 { ln(a[p].last_child) } else { ln(a[s].previous_sibling) };
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> {
        &&& ln((#[trigger] b[i]).parent) == (if i == c { p } else { ln(a[i].parent) })
        &&& ln(b[i].previous_sibling) == (if i == c { pr } else if i == s && s != 0 { c } else { ln(a[i].previous_sibling) })
        &&& ln(b[i].next_sibling) == (if i == c { s } else if i == pr && pr != 0 { c } else { ln(a[i].next_sibling) })
        &&& ln(b[i].first_child) == (if i == p && pr == 0 { c } else { ln(a[i].first_child) })
        &&& ln(b[i].last_child) == (if i == p && s == 0 { c } else { ln(a[i].last_child) })
    }
}
proof fn lemma_inserted(a: Seq<Node>, b: Seq<Node>, f: Forest, c: int, p: int, s: int)
    requires
        forest(a, f), 1 < c < a.len(), 0 < p < a.len(), 0 <= s < a.len(),
        ln(a[c].parent) == 0, !under(f, p, c),
        s != 0 ==> ln(a[s].parent) == p && s != c,
        links_inserted(a, b, c, p, s),
    ensures
        forest(b, inserted(f, c, p, if s == 0 { f.kids[p].len() as int } else { f.pos[s] })),
{
    let at = if s == 0 { f.kids[p].len() as int } else { f.pos[s] };
    let g = inserted(f, c, p, at);
    let k = f.kids[p];
    assert(node_ok(a, f, c)); assert(node_ok(a, f, p)); assert(node_ok(a, f, 0)); assert(node_ok(a, f, 1)); assert(node_ok(a, f, s));
    if s != 0 { assert(kid_ok(a, f, p, at)); }
    if at > 0 { assert(kid_ok(a, f, p, at - 1)); }
    assert(f.kids[c].len() >= 0);
    assert forall|x: int| 0 <= x < b.len() implies #[trigger] node_ok(b, g, x) by {
        assert(node_ok(a, f, x));
        let q = f.par[x];
        if x != c && q != 0 {
            assert(node_ok(a, f, q));
            assert(kid_ok(a, f, q, f.pos[x]));
            // ranks: a parent is under c exactly when its child is
            assert(under(f, x, c) == under(f, q, c));
        }
        if x == c { assert(under(f, c, c)); }
        if x == p {
            assert(g.kids[p] =~= k.insert(at, c));
            if k.len() > 0 { assert(kid_ok(a, f, p, 0)); assert(kid_ok(a, f, p, k.len() - 1)); }
        }
    }
    assert forall|q: int, i: int| 0 <= q < b.len() && 0 <= i < g.kids[q].len() implies #[trigger] kid_ok(b, g, q, i) by {
        if q == p {
            if i == at {
                assert(g.kids[q][i] == c);
            } else {
                let j = if i < at { i } else { i - 1 };
                assert(g.kids[q][i] == k[j]);
                assert(kid_ok(a, f, p, j));
                if j > 0 { assert(kid_ok(a, f, p, j - 1)); }
                if j < k.len() - 1 { assert(kid_ok(a, f, p, j + 1)); }
                assert(k[j] != c);
            }
        } else {
            assert(kid_ok(a, f, q, i));
            assert(node_ok(a, f, f.kids[q][i]));
        }
    }
}

/// the text t is added at the end of the text node `at`; nothing else changes
pub open spec fn text_added(a: Seq<Node>, b: Seq<Node>, at: int, t: Seq<char>) -> bool {
    &&& 0 <= at < a.len() && a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() && i != at ==> (#[trigger] b[i]) == a[i]
    &&& same_links(a[at], b[at])
    &&& a[at].data is Text && b[at].data is Text
    &&& b[at].data->contents@ == a[at].data->contents@ + t
}
pub open spec fn same_links(m: Node, n: Node) -> bool {
    &&& m.parent == n.parent && m.previous_sibling == n.previous_sibling && m.next_sibling == n.next_sibling
    &&& m.first_child == n.first_child && m.last_child == n.last_child
}
pub open spec fn isolated(n: Node) -> bool {
    ln(n.parent) == 0 && ln(n.previous_sibling) == 0 && ln(n.next_sibling) == 0
        && ln(n.first_child) == 0 && ln(n.last_child) == 0
}
/// a new text node
pub open spec fn text_node(n: Node, t: Seq<char>) -> bool {
    isolated(n) && n.data is Text && n.data->contents@ == t
}
/// an arena that is a forest, with the document node as one of its roots
pub open spec fn wf(nodes: Seq<Node>) -> bool { exists|f: Forest| forest(nodes, f) }

proof fn lemma_same_links(a: Seq<Node>, b: Seq<Node>, f: Forest)
    requires forest(a, f), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> same_links(a[i], #[trigger] b[i]),
    ensures forest(b, f),
{
    assert forall|x: int| 0 <= x < b.len() implies #[trigger] node_ok(b, f, x) by { assert(node_ok(a, f, x)); assert(same_links(a[x], b[x])); }
    assert forall|q: int, i: int| 0 <= q < b.len() && 0 <= i < f.kids[q].len() implies #[trigger] kid_ok(b, f, q, i) by {
        assert(kid_ok(a, f, q, i)); assert(same_links(a[f.kids[q][i]], b[f.kids[q][i]]));
    }
}

// ---- stand-ins for html5ever types
pub struct StrTendril { pub s: String }
impl StrTendril {
    pub open spec fn view(&self) -> Seq<char> { self.s@ }
    /// `Into<String> for StrTendril`
    #[verifier::external_body]
    pub fn into(self) -> (r: String) ensures r@ == self@ { self.s }
}
/// `String::push_str` with a dereferenced StrTendril
#[verifier::external_body]
pub fn push_tendril(c: &mut String, t: &StrTendril) ensures final(c)@ == old(c)@ + t@ { c.push_str(&t.s) }
pub enum NodeOrText<H> { AppendNode(H), AppendText(StrTendril) }
pub enum QuirksMode { Quirks, LimitedQuirks, NoQuirks }

// ---- debug_assert is checked, not dropped
fn vassert(b: bool) requires b {}
fn vassert_eq(a: Option<NodeId>, b: Option<NodeId>) requires ln(a) == ln(b) {}

//@@ include dom_index.inc

impl Document {
//@@ fn victor/src/dom/mod.rs | impl Document :: detach
//@@ spec
    requires in_arena(old(self).nodes@, node), node.ix() > 1, exists|f: Forest| forest(old(self).nodes@, f),
    ensures
        final(self).style_elements == old(self).style_elements,
        same_data(old(self).nodes@, final(self).nodes@),
        ln(final(self).nodes@[node.ix()].parent) == 0,
        links_detached(old(self).nodes@, final(self).nodes@, node.ix()),
        forall|f: Forest| forest(old(self).nodes@, f) ==>
            #[trigger] forest(final(self).nodes@, detached(f, node.ix())),
//@@ start
    let ghost a = self.nodes@;
    let ghost f0 = choose|f: Forest| forest(self.nodes@, f);
    proof {
        assert(node_ok(a, f0, node.ix()));
        let p = ln(a[node.ix()].parent);
        if p != 0 {
            assert(node_ok(a, f0, p));
            let k = f0.kids[p];
            let at = f0.pos[node.ix()];
            assert(kid_ok(a, f0, p, at));
            if at > 0 { assert(kid_ok(a, f0, p, at - 1)); }
            if at < k.len() - 1 { assert(kid_ok(a, f0, p, at + 1)); }
        }
    }
//@@ after /self\[parent\]\.first_child = next_sibling;\s*\}/
    proof {
        assert forall|f: Forest| forest(a, f) implies #[trigger] forest(self.nodes@, detached(f, node.ix())) by {
            lemma_detached(a, self.nodes@, f, node.ix());
        }
    }
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: push_node
//@@ ret r
//@@ spec
    requires
        ln(node.parent) == 0, ln(node.previous_sibling) == 0, ln(node.next_sibling) == 0,
        ln(node.first_child) == 0, ln(node.last_child) == 0,
        exists|f: Forest| forest(old(self).nodes@, f),
    ensures
        r.ix() == old(self).nodes.len(),
        final(self).nodes@ == old(self).nodes@.push(node),
        final(self).style_elements == old(self).style_elements,
        forall|f: Forest| forest(old(self).nodes@, f) ==> #[trigger] forest(final(self).nodes@, with_node(f)),
//@@ before /NodeId\(std::num/
    proof {
        let a = old(self).nodes@;
        assert forall|f: Forest| forest(a, f) implies #[trigger] forest(self.nodes@, with_node(f)) by {
            let g = with_node(f);
            let b = self.nodes@;
            assert forall|x: int| 0 <= x < b.len() implies #[trigger] node_ok(b, g, x) by {
                if x < a.len() { assert(node_ok(a, f, x)); assert(b[x] == a[x]); }
            }
            assert forall|q: int, i: int| 0 <= q < b.len() && 0 <= i < g.kids[q].len() implies #[trigger] kid_ok(b, g, q, i) by {
                if q < a.len() { assert(kid_ok(a, f, q, i)); assert(b[g.kids[q][i]] == a[f.kids[q][i]]); }
            }
            assert(node_ok(b, g, 0)); assert(node_ok(b, g, 1));
        }
    }
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: append
//@@ spec
    requires
        in_arena(old(self).nodes@, parent), in_arena(old(self).nodes@, new_child), new_child.ix() > 1,
        exists|f: Forest| forest(old(self).nodes@, f),
        forall|f: Forest| #[trigger] forest(old(self).nodes@, f) ==> !under(f, parent.ix(), new_child.ix()),
    ensures
        final(self).style_elements == old(self).style_elements,
        same_data(old(self).nodes@, final(self).nodes@),
        forall|f: Forest| forest(old(self).nodes@, f) ==>
            #[trigger] forest(final(self).nodes@, appended(f, new_child.ix(), parent.ix())),
        forall|x: int| 0 <= x < old(self).nodes@.len() && x != new_child.ix() ==>
            ln((#[trigger] final(self).nodes@[x]).parent) == ln(old(self).nodes@[x].parent),
        ln(final(self).nodes@[new_child.ix()].parent) == parent.ix(),
//@@ sub /debug_assert!/ => vassert
//@@ start
    let ghost a = self.nodes@;
    let ghost f0 = choose|f: Forest| forest(self.nodes@, f);
//@@ after /self\.detach\(new_child\);/
    let ghost b = self.nodes@;
    let ghost g0 = detached(f0, new_child.ix());
    proof {
        assert(forest(b, g0));
        assert(node_ok(b, g0, parent.ix())); assert(node_ok(b, g0, new_child.ix()));
        assert(under(f0, new_child.ix(), new_child.ix()));
        let k = g0.kids[parent.ix()];
        if k.len() > 0 { assert(kid_ok(b, g0, parent.ix(), k.len() - 1)); assert(kid_ok(b, g0, parent.ix(), 0)); }
    }
//@@ after /self\[parent\]\.last_child = Some\(new_child\);/
    proof {
        let c = new_child.ix(); let p = parent.ix();
        assert(links_inserted(b, self.nodes@, c, p, 0));
        assert forall|f: Forest| forest(a, f) implies #[trigger] forest(self.nodes@, appended(f, c, p)) by {
            let g = detached(f, c);
            assert(forest(b, g));
            lemma_under_detached(a, f, p, c);
            lemma_inserted(b, self.nodes@, g, c, p, 0);
        }
    }
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: insert_before
//@@ spec
    requires
        in_arena(old(self).nodes@, sibling), in_arena(old(self).nodes@, new_sibling), new_sibling.ix() > 1,
        sibling.ix() != new_sibling.ix(),
        ln(old(self).nodes@[sibling.ix()].parent) != 0,
        exists|f: Forest| forest(old(self).nodes@, f),
        forall|f: Forest| #[trigger] forest(old(self).nodes@, f) ==> !under(f, sibling.ix(), new_sibling.ix()),
    ensures
        final(self).style_elements == old(self).style_elements,
        same_data(old(self).nodes@, final(self).nodes@),
        forall|f: Forest| forest(old(self).nodes@, f) ==>
            #[trigger] forest(final(self).nodes@, inserted_before(f, new_sibling.ix(), sibling.ix())),
        forall|x: int| 0 <= x < old(self).nodes@.len() && x != new_sibling.ix() ==>
            ln((#[trigger] final(self).nodes@[x]).parent) == ln(old(self).nodes@[x].parent),
        ln(final(self).nodes@[new_sibling.ix()].parent) == ln(old(self).nodes@[sibling.ix()].parent),
//@@ sub /debug_assert_eq!\(([^;]*?),\s*Some\(sibling\)\);/ => vassert_eq(\1, Some(sibling));
//@@ start
    let ghost a = self.nodes@;
    let ghost f0 = choose|f: Forest| forest(self.nodes@, f);
//@@ after /self\.detach\(new_sibling\);/
    let ghost b = self.nodes@;
    let ghost g0 = detached(f0, new_sibling.ix());
    let ghost p = f0.par[sibling.ix()];
    proof {
        assert(forest(b, g0));
        assert(node_ok(a, f0, sibling.ix())); assert(node_ok(a, f0, new_sibling.ix()));
        assert(node_ok(b, g0, p)); assert(node_ok(b, g0, new_sibling.ix())); assert(node_ok(b, g0, sibling.ix()));
        let k = g0.kids[p];
        let at = g0.pos[sibling.ix()];
        assert(kid_ok(b, g0, p, at));
        if at > 0 { assert(kid_ok(b, g0, p, at - 1)); }
    }
//@@ after /self\[sibling\]\.previous_sibling = Some\(new_sibling\);/
    proof {
        let c = new_sibling.ix(); let s = sibling.ix();
        assert(links_inserted(b, self.nodes@, c, p, s));
        assert forall|f: Forest| forest(a, f) implies #[trigger] forest(self.nodes@, inserted_before(f, c, s)) by {
            let g = detached(f, c);
            assert(forest(b, g));
            assert(node_ok(a, f, s));
            assert(node_ok(a, f, p));
            assert(!under(f, p, c));
            lemma_under_detached(a, f, p, c);
            lemma_inserted(b, self.nodes@, g, c, p, s);
        }
    }
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: document_node_id
//@@ ret r
//@@ spec
    ensures r.ix() == 1
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: new
//@@ ret r
//@@ spec
    ensures wf(r.nodes@), r.nodes.len() == 2, r.style_elements@.len() == 0,
//@@ before /Document \{\s*nodes/
    let ghost n2 = seq![dummy, document_node];
    proof {
        let f = Forest { kids: seq![Seq::empty(), Seq::empty()], par: seq![0, 0], pos: seq![0, 0], rank: seq![0, 0] };
        assert(node_ok(n2, f, 0)); assert(node_ok(n2, f, 1));
        assert(forest(n2, f));
    }
//@@ sub /vec!\[dummy, document_node\]/ => vec_of_2(dummy, document_node)
//@@ end
}

/// `vec![a, b]`
fn vec_of_2(a: Node, b: Node) -> (r: Vec<Node>) ensures r@ == seq![a, b] {
    let mut v = Vec::new();
    v.push(a);
    v.push(b);
    v
}

impl Node {
//@@ fn victor/src/dom/mod.rs | impl Node :: new
//@@ ret r
//@@ spec
    ensures isolated(r), r.data == data
//@@ end
}

//@@ item victor/src/dom/html.rs | struct Sink
//@@ sub /document: Document/ => pub document: Document
//@@ sub /quirks_mode: QuirksMode/ => pub quirks_mode: QuirksMode
//@@ end

impl Sink {
//@@ fn victor/src/dom/html.rs | impl Sink :: new_node
//@@ ret r
//@@ spec
    requires wf(old(self).document.nodes@)
    ensures
        r.ix() == old(self).document.nodes.len(),
        final(self).document.nodes.len() == old(self).document.nodes.len() + 1,
        final(self).document.nodes@ =~= old(self).document.nodes@.push(final(self).document.nodes@.last()),
        isolated(final(self).document.nodes@.last()), final(self).document.nodes@.last().data == data,
        final(self).document.style_elements == old(self).document.style_elements,
        forall|f: Forest| forest(old(self).document.nodes@, f) ==> #[trigger] forest(final(self).document.nodes@, with_node(f)),
//@@ end

//@@ fn victor/src/dom/html.rs | impl Sink :: append_common
//@@ sub /contents\.push_str\(&text\)/ => push_tendril(contents, &text)
//@@ before OPT /self\.new_node\(NodeData::Text/
    proof { assert(self.document.nodes@ =~= old(self).document.nodes@); }
//@@ spec
    requires
        wf(old(self).document.nodes@),
        forall|d: &mut Document| same_doc(*d, old(self).document) ==> #[trigger] previous.requires((d,)),
        forall|d: &mut Document, r: Option<NodeId>| same_doc(*d, old(self).document) && #[trigger] previous.ensures((d,), r)
            ==> same_doc(*final(d), *d) && (r is Some ==> in_arena(d.nodes@, r->0)),
        child is AppendNode ==> forall|d: &mut Document| same_doc(*d, old(self).document) ==> #[trigger] append.requires((d, child->AppendNode_0)),
        child is AppendText ==> forall|d: &mut Document, n: NodeId| pushed_text(old(self).document, *d, n, child->AppendText_0@) ==> #[trigger] append.requires((d, n)),
    ensures
        match child {
            NodeOrText::AppendNode(n) => exists|d: &mut Document| #![trigger append.ensures((d, n), ())] same_doc(*d, old(self).document) && *final(d) == final(self).document && append.ensures((d, n), ()),
            NodeOrText::AppendText(t) => exists|d: &mut Document, r: Option<NodeId>| #![trigger previous.ensures((d,), r)] same_doc(*d, old(self).document) && previous.ensures((d,), r) && (
                if r is Some && old(self).document.nodes@[(r->0).ix()].data is Text {
                    text_added(old(self).document.nodes@, final(self).document.nodes@, (r->0).ix(), t@)
                        && final(self).document.style_elements == old(self).document.style_elements
                } else {
                    exists|e: &mut Document, n: NodeId| #![trigger append.ensures((e, n), ())] pushed_text(old(self).document, *e, n, t@)
                        && *final(e) == final(self).document && append.ensures((e, n), ())
                }),
        },
//@@ end
}


/// what `append` and its relatives need: the nodes exist, and the child is not an ancestor of its new parent
pub open spec fn can_append(nodes: Seq<Node>, parent: NodeId, c: NodeId) -> bool {
    &&& wf(nodes) && in_arena(nodes, parent) && in_arena(nodes, c) && c.ix() > 1
    &&& forall|f: Forest| #[trigger] forest(nodes, f) ==> !under(f, parent.ix(), c.ix())
}
pub open spec fn can_insert_before(nodes: Seq<Node>, s: NodeId, c: NodeId) -> bool {
    &&& wf(nodes) && in_arena(nodes, s) && in_arena(nodes, c) && c.ix() > 1 && s.ix() != c.ix()
    &&& ln(nodes[s.ix()].parent) != 0
    &&& forall|f: Forest| #[trigger] forest(nodes, f) ==> !under(f, s.ix(), c.ix())
}
pub open spec fn did_append(a: Document, b: Document, parent: int, c: NodeId) -> bool {
    &&& same_data(a.nodes@, b.nodes@) && a.style_elements == b.style_elements
    &&& forall|f: Forest| forest(a.nodes@, f) ==> #[trigger] forest(b.nodes@, appended(f, c.ix(), parent))
}
pub open spec fn did_insert_before(a: Document, b: Document, s: NodeId, c: NodeId) -> bool {
    &&& same_data(a.nodes@, b.nodes@) && a.style_elements == b.style_elements
    &&& forall|f: Forest| forest(a.nodes@, f) ==> #[trigger] forest(b.nodes@, inserted_before(f, c.ix(), s.ix()))
}
/// The text t is put at the end of the text node `at` if there is one (0: none), otherwise into a new node.
pub open spec fn merges(a: Document, b: Document, at: int, t: Seq<char>) -> bool {
    at != 0 && 0 <= at < a.nodes.len() && a.nodes@[at].data is Text
        && text_added(a.nodes@, b.nodes@, at, t) && a.style_elements == b.style_elements
}
proof fn lemma_new_not_above(a: Seq<Node>, b: Seq<Node>, x: int)
    requires wf(a), a.len() + 1 == b.len(), 0 <= x < a.len(),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i], isolated(b[a.len() as int]),
    ensures forall|g: Forest| #[trigger] forest(b, g) ==> !under(g, x, a.len() as int),
{
    assert forall|g: Forest| #[trigger] forest(b, g) implies !under(g, x, a.len() as int) by {
        lemma_leaf_not_above(b, g, x, a.len() as int);
    }
}
proof fn lemma_leaf_not_above(b: Seq<Node>, g: Forest, x: int, c: int)
    requires forest(b, g), 0 <= x < b.len(), 0 < c < b.len(), x != c, ln(b[c].first_child) == 0
    ensures !under(g, x, c)
    decreases g.rank[x]
{
    assert(node_ok(b, g, x));
    assert(node_ok(b, g, c));
    if g.par[x] != 0 {
        assert(node_ok(b, g, g.par[x]));
        assert(kid_ok(b, g, g.par[x], g.pos[x]));
        if g.kids[c].len() > 0 { assert(kid_ok(b, g, c, 0)); }
        assert(g.par[x] != c);
        lemma_leaf_not_above(b, g, g.par[x], c);
    }
}

impl Sink {
//@@ fn victor/src/dom/html.rs | impl TreeSink for Sink :: append
//@@ sub /&parent: &NodeId/ => parent_: &NodeId
//@@ sub /\|document\|\s*([^,|]*?),\s*\|/ => |document: &mut Document| -> (r: Option<NodeId>) requires in_arena(document.nodes@, parent) ensures same_doc(*final(document), *old(document)), ln(r) == ln(old(document).nodes@[parent.ix()].last_child) { \1 }, |
//@@ sub /\|document, new_node\|\s*([^,|]*\([^()]*\)),/ => |document: &mut Document, new_node: NodeId| requires can_append(document.nodes@, parent, new_node) ensures did_append(*old(document), *final(document), parent.ix(), new_node) { \1 },
//@@ spec
    requires
        wf(old(self).document.nodes@), in_arena(old(self).document.nodes@, *parent_),
        child is AppendNode ==> can_append(old(self).document.nodes@, *parent_, child->AppendNode_0),
    ensures
        child is AppendNode ==> did_append(old(self).document, final(self).document, parent_.ix(), child->AppendNode_0),
        child is AppendText ==> ({
            let a = old(self).document; let b = final(self).document; let t = child->AppendText_0@;
            let at = ln(a.nodes@[parent_.ix()].last_child);
            if at != 0 && a.nodes@[at].data is Text { merges(a, b, at, t) } else {
                exists|d: Document, n: NodeId| #![trigger pushed_text(a, d, n, t)] pushed_text(a, d, n, t) && did_append(d, b, parent_.ix(), n)
            }
        }),
        wf(final(self).document.nodes@),
//@@ start
    let parent = *parent_;
    proof {
        let a = self.document;
        let f0 = choose|f: Forest| forest(a.nodes@, f);
        assert(node_ok(a.nodes@, f0, parent.ix()));
        let k = f0.kids[parent.ix()];
        if k.len() > 0 { assert(kid_ok(a.nodes@, f0, parent.ix(), k.len() - 1)); }
        assert forall|d: &mut Document, n: NodeId| child is AppendText && pushed_text(a, *d, n, child->AppendText_0@)
            implies #[trigger] can_append(d.nodes@, parent, n) by {
            assert forall|i: int| 0 <= i < a.nodes.len() implies #[trigger] d.nodes@[i] == a.nodes@[i] by {}
            lemma_new_not_above(a.nodes@, d.nodes@, parent.ix());
            assert(forest(d.nodes@, with_node(f0)));
        }
        assert forall|b: Document| did_append(a, b, parent.ix(), child->AppendNode_0) && child is AppendNode implies #[trigger] wf(b.nodes@) by {
            assert(forest(b.nodes@, appended(f0, child->AppendNode_0.ix(), parent.ix())));
        }
        assert forall|d: Document, b: Document, n: NodeId| #[trigger] pushed_text(a, d, n, child->AppendText_0@) && #[trigger] did_append(d, b, parent.ix(), n) implies #[trigger] wf(b.nodes@) by {
            assert(forest(d.nodes@, with_node(f0)));
            assert(forest(b.nodes@, appended(with_node(f0), n.ix(), parent.ix())));
        }
        assert forall|b: Document, at: int, t: Seq<char>| #[trigger] text_added(a.nodes@, b.nodes@, at, t) implies wf(b.nodes@) by {
            lemma_same_links(a.nodes@, b.nodes@, f0);
        }
    }
//@@ end

//@@ fn victor/src/dom/html.rs | impl TreeSink for Sink :: append_before_sibling
//@@ sub /&sibling: &NodeId/ => sibling_: &NodeId
//@@ sub /\|document\|\s*([^,|]*?),\s*\|/ => |document: &mut Document| -> (r: Option<NodeId>) requires in_arena(document.nodes@, sibling) ensures same_doc(*final(document), *old(document)), ln(r) == ln(old(document).nodes@[sibling.ix()].previous_sibling) { \1 }, |
//@@ sub /\|document, new_node\|\s*([^,|]*\([^()]*\)),/ => |document: &mut Document, new_node: NodeId| requires can_insert_before(document.nodes@, sibling, new_node) ensures did_insert_before(*old(document), *final(document), sibling, new_node) { \1 },
//@@ spec
    requires
        wf(old(self).document.nodes@), in_arena(old(self).document.nodes@, *sibling_),
        ln(old(self).document.nodes@[sibling_.ix()].parent) != 0,
        child is AppendNode ==> can_insert_before(old(self).document.nodes@, *sibling_, child->AppendNode_0),
    ensures
        child is AppendNode ==> did_insert_before(old(self).document, final(self).document, *sibling_, child->AppendNode_0),
        child is AppendText ==> ({
            let a = old(self).document; let b = final(self).document; let t = child->AppendText_0@;
            let at = ln(a.nodes@[sibling_.ix()].previous_sibling);
            if at != 0 && a.nodes@[at].data is Text { merges(a, b, at, t) } else {
                exists|d: Document, n: NodeId| #![trigger pushed_text(a, d, n, t)] pushed_text(a, d, n, t) && did_insert_before(d, b, *sibling_, n)
            }
        }),
        wf(final(self).document.nodes@),
//@@ start
    let sibling = *sibling_;
    proof {
        let a = self.document;
        let f0 = choose|f: Forest| forest(a.nodes@, f);
        let s = sibling.ix();
        assert(node_ok(a.nodes@, f0, s));
        let p = f0.par[s];
        let at = f0.pos[s];
        assert(kid_ok(a.nodes@, f0, p, at));
        if at > 0 { assert(kid_ok(a.nodes@, f0, p, at - 1)); }
        assert forall|d: &mut Document, n: NodeId| child is AppendText && pushed_text(a, *d, n, child->AppendText_0@)
            implies #[trigger] can_insert_before(d.nodes@, sibling, n) by {
            assert forall|i: int| 0 <= i < a.nodes.len() implies #[trigger] d.nodes@[i] == a.nodes@[i] by {}
            lemma_new_not_above(a.nodes@, d.nodes@, s);
            assert(forest(d.nodes@, with_node(f0)));
        }
        assert forall|b: Document| did_insert_before(a, b, sibling, child->AppendNode_0) && child is AppendNode implies #[trigger] wf(b.nodes@) by {
            assert(forest(b.nodes@, inserted_before(f0, child->AppendNode_0.ix(), s)));
        }
        assert forall|d: Document, b: Document, n: NodeId| #[trigger] pushed_text(a, d, n, child->AppendText_0@) && #[trigger] did_insert_before(d, b, sibling, n) implies #[trigger] wf(b.nodes@) by {
            assert(forest(d.nodes@, with_node(f0)));
            assert(forest(b.nodes@, inserted_before(with_node(f0), n.ix(), s)));
        }
        assert forall|b: Document, at: int, t: Seq<char>| #[trigger] text_added(a.nodes@, b.nodes@, at, t) implies wf(b.nodes@) by {
            lemma_same_links(a.nodes@, b.nodes@, f0);
        }
    }
//@@ end

//@@ fn victor/src/dom/html.rs | impl TreeSink for Sink :: append_based_on_parent_node
//@@ spec
    requires
        wf(old(self).document.nodes@), in_arena(old(self).document.nodes@, *element), in_arena(old(self).document.nodes@, *prev_element),
        child is AppendNode && ln(old(self).document.nodes@[element.ix()].parent) != 0 ==>
            can_insert_before(old(self).document.nodes@, *element, child->AppendNode_0),
        child is AppendNode && ln(old(self).document.nodes@[element.ix()].parent) == 0 ==>
            can_append(old(self).document.nodes@, *prev_element, child->AppendNode_0),
    ensures
        wf(final(self).document.nodes@),
        child is AppendNode ==> if ln(old(self).document.nodes@[element.ix()].parent) != 0 {
            did_insert_before(old(self).document, final(self).document, *element, child->AppendNode_0)
        } else {
            did_append(old(self).document, final(self).document, prev_element.ix(), child->AppendNode_0)
        },
        child is AppendText ==> ({
            let a = old(self).document; let b = final(self).document; let t = child->AppendText_0@;
            let before = ln(a.nodes@[element.ix()].parent) != 0;
            let at = if before { ln(a.nodes@[element.ix()].previous_sibling) } else { ln(a.nodes@[prev_element.ix()].last_child) };
            if at != 0 && a.nodes@[at].data is Text { merges(a, b, at, t) } else {
                exists|d: Document, n: NodeId| #![trigger pushed_text(a, d, n, t)] pushed_text(a, d, n, t) &&
                    if before { did_insert_before(d, b, *element, n) } else { did_append(d, b, prev_element.ix(), n) }
            }
        }),
//@@ end

//@@ fn victor/src/dom/html.rs | impl TreeSink for Sink :: append_doctype_to_document
//@@ spec
    requires wf(old(self).document.nodes@),
    ensures
        wf(final(self).document.nodes@),
        exists|d: Document, n: NodeId| #![trigger did_append(d, final(self).document, 1, n)] n.ix() == old(self).document.nodes.len()
            && d.nodes@ =~= old(self).document.nodes@.push(d.nodes@.last()) && isolated(d.nodes@.last()) && d.nodes@.last().data is Doctype
            && did_append(d, final(self).document, 1, n),
//@@ start
    let ghost f0 = choose|f: Forest| forest(self.document.nodes@, f);
//@@ before /self\.document\s*\.append\(/
    let ghost d0 = self.document;
    proof {
        assert(forest(self.document.nodes@, with_node(f0)));
        lemma_new_not_above(old(self).document.nodes@, self.document.nodes@, 1);
        let d = self.document;
        assert forall|b: Document| #[trigger] did_append(d, b, 1, node) implies wf(b.nodes@) by {
            assert(forest(b.nodes@, appended(with_node(f0), node.ix(), 1)));
        }
    }
//@@ after /self\.document\s*\.append\([^;]*$/
    ;
    proof { assert(did_append(d0, self.document, 1, node)); }
//@@ end

//@@ fn victor/src/dom/html.rs | impl TreeSink for Sink :: remove_from_parent
//@@ sub /&target: &NodeId/ => target_: &NodeId
//@@ spec
    requires wf(old(self).document.nodes@), in_arena(old(self).document.nodes@, *target_), target_.ix() > 1,
    ensures
        wf(final(self).document.nodes@),
        same_data(old(self).document.nodes@, final(self).document.nodes@),
        forall|f: Forest| forest(old(self).document.nodes@, f) ==> #[trigger] forest(final(self).document.nodes@, detached(f, target_.ix())),
//@@ start
    let target = *target_;
    let ghost f0 = choose|f: Forest| forest(self.document.nodes@, f);
    proof {
        assert forall|b: Seq<Node>| #[trigger] forest(b, detached(f0, target.ix())) implies wf(b) by {}
    }
//@@ after /self\.document\s*\.detach\([^;]*$/
    ;
    proof { assert(forest(self.document.nodes@, detached(f0, target.ix()))); }
//@@ end

//@@ fn victor/src/dom/html.rs | impl TreeSink for Sink :: reparent_children
//@@ sub /&node: &NodeId/ => node_: &NodeId
//@@ sub /&new_parent: &NodeId/ => new_parent_: &NodeId
//@@ sub /debug_assert_eq!\(([^;]*?),\s*Some\(node\)\);/ => vassert_eq(\1, Some(node));
//@@ spec
    requires
        wf(old(self).document.nodes@), in_arena(old(self).document.nodes@, *node_), in_arena(old(self).document.nodes@, *new_parent_),
        forall|f: Forest| #[trigger] forest(old(self).document.nodes@, f) ==> !under(f, new_parent_.ix(), node_.ix()),
    ensures
        wf(final(self).document.nodes@),
        same_data(old(self).document.nodes@, final(self).document.nodes@),
        exists|f: Forest, g: Forest| #![trigger forest(old(self).document.nodes@, f), forest(final(self).document.nodes@, g)]
            forest(old(self).document.nodes@, f) && forest(final(self).document.nodes@, g)
            && g.kids =~= f.kids.update(node_.ix(), Seq::empty()).update(new_parent_.ix(), f.kids[new_parent_.ix()] + f.kids[node_.ix()]),
//@@ start
    let node = *node_;
    let new_parent = *new_parent_;
    let ghost n = node.ix();
    let ghost q = new_parent.ix();
    let ghost a = self.document.nodes@;
    let ghost f0 = choose|f: Forest| forest(self.document.nodes@, f);
    let ghost mut cur = f0;
    let ghost mut done: int = 0;
    proof { assert(node_ok(a, f0, n)); assert(under(f0, n, n)); if f0.kids[n].len() > 0 { assert(kid_ok(a, f0, n, 0)); }
        assert forall|i: int| 0 <= i < f0.kids[n].len() implies #[trigger] f0.kids[n][i] > 0 by { assert(kid_ok(a, f0, n, i)); }
        assert(f0.kids[n].skip(0) =~= f0.kids[n]); assert(f0.kids[q] + f0.kids[n].take(0) =~= f0.kids[q]); }
//@@ loop 1
    invariant
        forest(a, f0), forest(self.document.nodes@, cur), a == old(self).document.nodes@, a.len() == self.document.nodes.len(),
        same_data(a, self.document.nodes@), node == *node_, new_parent == *new_parent_,
        0 < n < a.len(), 0 < q < a.len(), n != q, n == node.ix(), q == new_parent.ix(),
        !under(cur, q, n),
        0 <= done <= f0.kids[n].len(),
        forall|i: int| 0 <= i < f0.kids[n].len() ==> #[trigger] f0.kids[n][i] > 0,
        cur.kids =~= f0.kids.update(n, f0.kids[n].skip(done)).update(q, f0.kids[q] + f0.kids[n].take(done)),
        ln(next_child) == (if done < f0.kids[n].len() { f0.kids[n][done] } else { 0 }),
    ensures done == f0.kids[n].len(),
    decreases f0.kids[n].len() - done,
//@@ loopstart 1
    let ghost b = self.document.nodes@;
    let ghost c = child.ix();
    proof {
        assert(cur.kids[n] =~= f0.kids[n].skip(done));
        assert(cur.kids[n][0] == c);
        assert(kid_ok(b, cur, n, 0));
        if cur.kids[n].len() > 1 { assert(cur.kids[n][1] == f0.kids[n][done + 1]); }
        assert(node_ok(b, cur, c));
        assert forall|f: Forest| #[trigger] forest(b, f) implies !under(f, q, c) by {
            lemma_same_under(b, f, b, cur, q, n, 0);
            assert(node_ok(b, f, c));
            lemma_under_parent(b, f, q, c);
        }
    }
//@@ loopend 1
    proof {
        let nxt = appended(cur, c, q);
        assert(forest(self.document.nodes@, nxt));
        lemma_same_under(b, cur, self.document.nodes@, nxt, q, n, c);
        assert(nxt.kids =~= f0.kids.update(n, f0.kids[n].skip(done + 1)).update(q, f0.kids[q] + f0.kids[n].take(done + 1))) by {
            assert(cur.kids[n] =~= f0.kids[n].skip(done));
            assert(cur.kids[n].remove(0) =~= f0.kids[n].skip(done + 1));
            assert(cur.kids[q] =~= f0.kids[q] + f0.kids[n].take(done));
            assert(f0.kids[n].take(done + 1) =~= f0.kids[n].take(done).push(c));
            assert(cur.kids[q].insert(cur.kids[q].len() as int, c) =~= f0.kids[q] + f0.kids[n].take(done + 1));
        }
        cur = nxt;
        done = done + 1;
    }
//@@ afterloop 1
    proof {
        assert(cur.kids =~= f0.kids.update(n, Seq::empty()).update(q, f0.kids[q] + f0.kids[n])) by {
            assert(f0.kids[n].skip(done) =~= Seq::empty());
            assert(f0.kids[n].take(done) =~= f0.kids[n]);
        }
    }
//@@ end
}


/// being below a node only depends on the parents
proof fn lemma_same_under(a: Seq<Node>, f: Forest, b: Seq<Node>, g: Forest, x: int, r: int, c: int)
    requires
        forest(a, f), forest(b, g), a.len() == b.len(), 0 < x < a.len(),
        forall|i: int| 0 <= i < a.len() && i != c ==> ln((#[trigger] b[i]).parent) == ln(a[i].parent),
        c == 0 || !under(f, x, c),
    ensures under(f, x, r) == under(g, x, r)
    decreases f.rank[x]
{
    assert(node_ok(a, f, x));
    assert(node_ok(b, g, x));
    assert(x != c);
    assert(b[x].parent == b[x].parent);
    assert(f.par[x] == g.par[x]);
    if x != r && f.par[x] != 0 {
        assert(node_ok(a, f, f.par[x]));
        assert(node_ok(b, g, f.par[x]));
        lemma_same_under(a, f, b, g, f.par[x], r, c);
    }
}
/// what is below a node is below its parent
proof fn lemma_under_parent(a: Seq<Node>, f: Forest, x: int, c: int)
    requires forest(a, f), 0 < x < a.len(), 0 < c < a.len(), f.par[c] != 0, !under(f, x, f.par[c])
    ensures !under(f, x, c)
    decreases f.rank[x]
{
    assert(node_ok(a, f, x));
    assert(node_ok(a, f, c));
    if x == c { assert(node_ok(a, f, f.par[c])); assert(under(f, f.par[c], f.par[c])); }
    else if f.par[x] != 0 {
        assert(node_ok(a, f, f.par[x]));
        lemma_under_parent(a, f, f.par[x], c);
    }
}

pub open spec fn same_doc(a: Document, b: Document) -> bool { a.nodes@ =~= b.nodes@ && a.style_elements == b.style_elements }
pub open spec fn pushed_text(a: Document, b: Document, n: NodeId, t: Seq<char>) -> bool {
    &&& n.ix() == a.nodes.len() && b.nodes.len() == a.nodes.len() + 1
    &&& b.nodes@ =~= a.nodes@.push(b.nodes@.last()) && text_node(b.nodes@.last(), t)
    &&& b.style_elements == a.style_elements
    &&& forall|f: Forest| forest(a.nodes@, f) ==> #[trigger] forest(b.nodes@, with_node(f))
}

} // verus!
fn main() {}
