// Contracts for walking over a document (victor/src/dom/mod.rs).
#![allow(unused)]
#![feature(const_destruct)]
use vstd::prelude::*;
use std::num::NonZeroUsize;

verus! {

//@@ include dom_standins.inc
//@@ include dom_forest.inc

pub open spec fn wf(nodes: Seq<Node>) -> bool { exists|f: Forest| forest(nodes, f) }

// ---- std::iter::successors, Iterator::next and Iterator::find_map, as in the standard library
pub struct Successors<F> { pub next: Option<NodeId>, pub succ: F }
pub open spec fn nth_or_none(c: Seq<NodeId>, i: int) -> Option<NodeId> { if 0 <= i < c.len() { Some(c[i]) } else { None } }
pub open spec fn step_ok<F: Fn(&NodeId) -> Option<NodeId>>(step: F, c: Seq<NodeId>, i: int) -> bool { step.ensures((&c[i],), nth_or_none(c, i + 1)) }
/// c is what the first steps from `first` give, in order
pub open spec fn is_prefix<F: Fn(&NodeId) -> Option<NodeId>>(first: Option<NodeId>, step: F, c: Seq<NodeId>) -> bool {
    &&& c.len() > 0 ==> first == Some(c[0])
    &&& forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] step_ok(step, c, i)
}
/// c is everything that successors(first, step) yields, and it is finite
pub open spec fn is_chain<F: Fn(&NodeId) -> Option<NodeId>>(first: Option<NodeId>, step: F, c: Seq<NodeId>) -> bool {
    &&& first is None <==> c.len() == 0
    &&& first is Some ==> c[0] == first->0
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] step_ok(step, c, i)
}
/// every node that is reached satisfies inv, may be given to step, and is followed by one of a smaller measure
pub open spec fn ends<F: Fn(&NodeId) -> Option<NodeId>>(first: Option<NodeId>, step: F, inv: spec_fn(NodeId) -> bool, m: spec_fn(NodeId) -> int) -> bool {
    &&& first is Some ==> inv(first->0)
    &&& forall|n: NodeId| #![trigger inv(n)] #![trigger step.requires((&n,))] inv(n) ==> step.requires((&n,)) && m(n) >= 0
    &&& forall|n: NodeId, o: Option<NodeId>| #[trigger] step.ensures((&n,), o) && inv(n) && o is Some ==> inv(o->0) && 0 <= m(o->0) < m(n)
}
fn successors<F: Fn(&NodeId) -> Option<NodeId>>(first: Option<NodeId>, succ: F) -> (r: Successors<F>)
    ensures r.next == first, r.succ == succ
{ Successors { next: first, succ } }
impl<F: Fn(&NodeId) -> Option<NodeId>> Successors<F> {
    fn next(&mut self) -> (r: Option<NodeId>)
        requires old(self).next is Some ==> old(self).succ.requires((&old(self).next->0,))
        ensures
            r == old(self).next,
            final(self).succ == old(self).succ,
            r is Some ==> old(self).succ.ensures((&r->0,), final(self).next),
            r is None ==> final(self).next is None,
    {
        match self.next.take() {
            None => None,
            Some(item) => { self.next = (self.succ)(&item); Some(item) }
        }
    }
    fn find_map<B, G: Fn(NodeId) -> Option<B>>(self, g: G) -> (r: Option<B>)
        requires
            exists|inv: spec_fn(NodeId) -> bool, m: spec_fn(NodeId) -> int| ends(self.next, self.succ, inv, m) && forall|n: NodeId| #[trigger] inv(n) ==> g.requires((n,)),
        ensures
            r is Some ==> exists|c: Seq<NodeId>| is_prefix(self.next, self.succ, c) && found_at(g, c, r),
            r is None ==> exists|c: Seq<NodeId>| is_chain(self.next, self.succ, c) && #[trigger] none_of(g, c, c.len() as int),
    {
        let ghost (inv, m) = choose|inv: spec_fn(NodeId) -> bool, m: spec_fn(NodeId) -> int| ends(self.next, self.succ, inv, m) && forall|n: NodeId| #[trigger] inv(n) ==> g.requires((n,));
        let ghost first = self.next;
        let ghost succ = self.succ;
        let mut it = self;
        let ghost mut c: Seq<NodeId> = Seq::empty();
        loop
            invariant
                it.succ == succ, first == self.next, succ == self.succ,
                ends(first, succ, inv, m),
                forall|n: NodeId| #[trigger] inv(n) ==> g.requires((n,)),
                none_of(g, c, c.len() as int),
                c.len() == 0 ==> it.next == first,
                c.len() > 0 ==> first == Some(c[0]) && succ.ensures((&c.last(),), it.next),
                forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] step_ok(succ, c, i),
                it.next is Some ==> inv(it.next->0),
            decreases (if it.next is Some { m(it.next->0) + 1 } else { 0int })
        {
            let ghost before = c;
            let n = match it.next() {
                None => {
                    proof {
                        assert forall|i: int| 0 <= i < c.len() implies #[trigger] step_ok(succ, c, i) by {}
                        assert(is_chain(first, succ, c));
                    }
                    return None;
                }
                Some(n) => n,
            };
            proof {
                c = c.push(n);
                assert forall|i: int| 0 <= i < c.len() - 1 implies #[trigger] step_ok(succ, c, i) by {
                    assert(c[i] == before[i]);
                    if i < before.len() - 1 { assert(step_ok(succ, before, i)); assert(nth_or_none(c, i + 1) == nth_or_none(before, i + 1)); }
                }
                assert(inv(n));
            }
            match g(n) {
                Some(b) => {
                    proof { assert(is_prefix(first, succ, c)); assert(found_at(g, c, Some(b))) by { assert forall|j: int| 0 <= j < c.len() - 1 implies g.ensures((#[trigger] c[j],), None) by { assert(c[j] == before[j]); } } }
                    return Some(b);
                }
                None => {
                    assert(none_of(g, c, c.len() as int)) by {
                        assert forall|j: int| 0 <= j < c.len() implies g.ensures((#[trigger] c[j],), None) by { if j < before.len() { assert(c[j] == before[j]); } }
                    }
                }
            }
        }
    }
}
pub open spec fn none_of<B, G: Fn(NodeId) -> Option<B>>(g: G, c: Seq<NodeId>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> g.ensures((#[trigger] c[j],), None)
}
pub open spec fn found_at<B, G: Fn(NodeId) -> Option<B>>(g: G, c: Seq<NodeId>, r: Option<B>) -> bool {
    c.len() > 0 && none_of(g, c, c.len() - 1) && g.ensures((c.last(),), r)
}

pub assume_specification<T, F: FnOnce() -> Option<T> + std::marker::Destruct> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    where T: std::marker::Destruct
    requires o is None ==> f.requires(())
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);

// ---- what the walks have to be
/// the nearest following sibling of x or of an ancestor of x (0: none)
pub open spec fn climb(f: Forest, x: int) -> int
    decreases (if 0 <= x < f.rank.len() { f.rank[x] } else { 0int })
{
    let p = f.par[x];
    if !(0 <= x < f.rank.len()) || p == 0 { 0 }
    else if f.pos[x] + 1 < f.kids[p].len() { f.kids[p][f.pos[x] + 1] }
    else if 0 <= p < f.rank.len() && 0 <= f.rank[p] < f.rank[x] { climb(f, p) }
    else { 0 }
}
/// next in document order
pub open spec fn nxt(f: Forest, x: int) -> int {
    if f.kids[x].len() > 0 { f.kids[x][0] } else { climb(f, x) }
}
/// an upper bound of all ranks
pub open spec fn bound(f: Forest) -> int { choose|b: int| #[trigger] bounded(f, b) }
pub open spec fn bounded(f: Forest, b: int) -> bool { upto(f, b, f.rank.len() as int) }
pub open spec fn upto(f: Forest, b: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] f.rank[i] <= b }
proof fn lemma_upto(f: Forest, n: int) -> (b: int)
    requires 0 <= n <= f.rank.len()
    ensures upto(f, b, n)
    decreases n
{
    if n > 0 {
        let b = lemma_upto(f, n - 1);
        if f.rank[n - 1] > b { f.rank[n - 1] } else { b }
    } else { 0 }
}
proof fn lemma_bound(f: Forest)
    ensures bounded(f, bound(f))
{
    let b = lemma_upto(f, f.rank.len() as int);
    assert(bounded(f, b));
}
/// document order: a node, then the subtrees of its children in order
pub open spec fn pre(f: Forest, x: int) -> Seq<int>
    decreases bound(f) - f.rank[x], f.kids[x].len() + 1, 0int
{ seq![x] + pre_kids(f, x, 0) }
/// the subtrees of the children of x from the i-th on
pub open spec fn pre_kids(f: Forest, x: int, i: int) -> Seq<int>
    decreases bound(f) - f.rank[x], (if i < f.kids[x].len() { f.kids[x].len() - i } else { 0 }), 0int
{
    if 0 <= i < f.kids[x].len() {
        let c = f.kids[x][i];
        (if f.rank[x] < f.rank[c] <= bound(f) { pre(f, c) } else { Seq::empty() }) + pre_kids(f, x, i + 1)
    } else { Seq::empty() }
}

/// every step of the walk goes to the next item of document order
proof fn lemma_pre(nodes: Seq<Node>, f: Forest, x: int)
    requires forest(nodes, f), 0 < x < nodes.len()
    ensures
        pre(f, x).len() > 0, pre(f, x)[0] == x,
        forall|i: int| 0 <= i < pre(f, x).len() - 1 ==> nxt(f, #[trigger] pre(f, x)[i]) == pre(f, x)[i + 1],
        nxt(f, pre(f, x).last()) == climb(f, x),
        forall|i: int| 0 <= i < pre(f, x).len() ==> 0 < #[trigger] pre(f, x)[i] < nodes.len(),
    decreases bound(f) - f.rank[x], f.kids[x].len() + 1, 0int
{
    lemma_bound(f);
    assert(f.rank[x] <= bound(f));
    lemma_pre_kids(nodes, f, x, 0);
    let s = pre_kids(f, x, 0);
    let t = pre(f, x);
    assert(t =~= seq![x] + s);
    assert forall|i: int| 0 <= i < t.len() - 1 implies nxt(f, #[trigger] t[i]) == t[i + 1] by {
        if i > 0 { assert(t[i] == s[i - 1]); assert(t[i + 1] == s[i]); } else { assert(t[1] == s[0]); }
    }
    assert forall|i: int| 0 <= i < t.len() implies 0 < #[trigger] t[i] < nodes.len() by {
        if i > 0 { assert(t[i] == s[i - 1]); }
    }
    if s.len() > 0 { assert(t.last() == s.last()); }
}
proof fn lemma_pre_kids(nodes: Seq<Node>, f: Forest, x: int, i: int)
    requires forest(nodes, f), 0 < x < nodes.len(), 0 <= i <= f.kids[x].len(), bounded(f, bound(f))
    ensures
        pre_kids(f, x, i).len() > 0 <==> i < f.kids[x].len(),
        i < f.kids[x].len() ==> pre_kids(f, x, i)[0] == f.kids[x][i],
        forall|j: int| 0 <= j < pre_kids(f, x, i).len() - 1 ==> nxt(f, #[trigger] pre_kids(f, x, i)[j]) == pre_kids(f, x, i)[j + 1],
        i < f.kids[x].len() ==> nxt(f, pre_kids(f, x, i).last()) == climb(f, x),
        forall|j: int| 0 <= j < pre_kids(f, x, i).len() ==> 0 < #[trigger] pre_kids(f, x, i)[j] < nodes.len(),
    decreases bound(f) - f.rank[x], f.kids[x].len() - i, 0int
{
    assert(f.rank[x] <= bound(f));
    assert(node_ok(nodes, f, x));
    if i < f.kids[x].len() {
        let c = f.kids[x][i];
        assert(kid_ok(nodes, f, x, i));
        assert(node_ok(nodes, f, c));
        assert(f.rank[c] <= bound(f));
        lemma_pre(nodes, f, c);
        lemma_pre_kids(nodes, f, x, i + 1);
        let a = pre(f, c);
        let b = pre_kids(f, x, i + 1);
        let t = pre_kids(f, x, i);
        assert(t =~= a + b);
        assert forall|j: int| 0 <= j < t.len() - 1 implies nxt(f, #[trigger] t[j]) == t[j + 1] by {
            if j < a.len() - 1 { assert(t[j] == a[j]); assert(t[j + 1] == a[j + 1]); }
            else if j == a.len() - 1 { assert(t[j] == a.last()); assert(t[j + 1] == b[0]); }
            else { assert(t[j] == b[j - a.len()]); assert(t[j + 1] == b[j + 1 - a.len()]); }
        }
        assert forall|j: int| 0 <= j < t.len() implies 0 < #[trigger] t[j] < nodes.len() by {
            if j < a.len() { assert(t[j] == a[j]); } else { assert(t[j] == b[j - a.len()]); }
        }
        if b.len() > 0 { assert(t.last() == b.last()); } else { assert(t.last() == a.last()); assert(f.pos[c] == i && f.par[c] == x); assert(climb(f, c) == climb(f, x)); }
    }
}

/// document order has exactly the nodes of the subtree, each once
proof fn lemma_pre_exact(nodes: Seq<Node>, f: Forest, x: int)
    requires forest(nodes, f), 0 < x < nodes.len()
    ensures
        pre(f, x).no_duplicates(),
        forall|y: int| 0 < y < nodes.len() ==> (#[trigger] pre(f, x).contains(y) <==> under(f, y, x)),
    decreases bound(f) - f.rank[x], f.kids[x].len() + 1, 0int
{
    lemma_bound(f);
    assert(f.rank[x] <= bound(f));
    assert(node_ok(nodes, f, x));
    lemma_pre(nodes, f, x);
    lemma_pre_kids(nodes, f, x, 0);
    lemma_pre_kids_exact(nodes, f, x, 0);
    let s = pre_kids(f, x, 0);
    let t = pre(f, x);
    assert(t =~= seq![x] + s);
    assert(!s.contains(x)) by {
        if s.contains(x) {
            let k = choose|k: int| 0 <= k < f.kids[x].len() && under(f, x, #[trigger] f.kids[x][k]);
            assert(kid_ok(nodes, f, x, k));
            assert(node_ok(nodes, f, f.kids[x][k]));
            lemma_under_rank(nodes, f, x, f.kids[x][k]);
        }
    }
    assert(t.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by {
            assert(t[j] == s[j - 1]);
            if i > 0 { assert(t[i] == s[i - 1]); } else { assert(s.contains(s[j - 1])); }
        }
    }
    assert forall|y: int| 0 < y < nodes.len() implies (#[trigger] t.contains(y) <==> under(f, y, x)) by {
        assert(node_ok(nodes, f, y));
        if t.contains(y) && y != x {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == y;
            assert(s[i - 1] == y);
            assert(s.contains(y));
            let k = choose|k: int| 0 <= k < f.kids[x].len() && under(f, y, #[trigger] f.kids[x][k]);
            assert(kid_ok(nodes, f, x, k));
            lemma_under_up(nodes, f, y, f.kids[x][k]);
        }
        if under(f, y, x) && y != x {
            lemma_under_kid(nodes, f, y, x);
            let k = choose|k: int| 0 <= k < f.kids[x].len() && under(f, y, #[trigger] f.kids[x][k]);
            assert(s.contains(y));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
            assert(t[i + 1] == y);
        }
        if y == x { assert(t[0] == x); }
    }
}
proof fn lemma_pre_kids_exact(nodes: Seq<Node>, f: Forest, x: int, i: int)
    requires forest(nodes, f), 0 < x < nodes.len(), 0 <= i <= f.kids[x].len(), bounded(f, bound(f))
    ensures
        pre_kids(f, x, i).no_duplicates(),
        forall|y: int| 0 < y < nodes.len() ==> (#[trigger] pre_kids(f, x, i).contains(y) <==> exists|k: int| i <= k < f.kids[x].len() && under(f, y, #[trigger] f.kids[x][k])),
    decreases bound(f) - f.rank[x], f.kids[x].len() - i, 0int
{
    assert(f.rank[x] <= bound(f));
    assert(node_ok(nodes, f, x));
    if i < f.kids[x].len() {
        let c = f.kids[x][i];
        assert(kid_ok(nodes, f, x, i));
        assert(node_ok(nodes, f, c));
        assert(f.rank[c] <= bound(f));
        lemma_pre(nodes, f, c);
        lemma_pre_exact(nodes, f, c);
        lemma_pre_kids(nodes, f, x, i + 1);
        lemma_pre_kids_exact(nodes, f, x, i + 1);
        let a = pre(f, c);
        let b = pre_kids(f, x, i + 1);
        let t = pre_kids(f, x, i);
        assert(t =~= a + b);
        assert forall|y: int| 0 < y < nodes.len() implies !(#[trigger] a.contains(y) && b.contains(y)) by {
            if a.contains(y) && b.contains(y) {
                let k = choose|k: int| i + 1 <= k < f.kids[x].len() && under(f, y, #[trigger] f.kids[x][k]);
                assert(kid_ok(nodes, f, x, k));
                lemma_under_two(nodes, f, y, c, f.kids[x][k]);
            }
        }
        assert(t.no_duplicates()) by {
            assert forall|p: int, q: int| 0 <= p < q < t.len() implies t[p] != t[q] by {
                if q < a.len() { assert(t[p] == a[p] && t[q] == a[q]); }
                else if p >= a.len() { assert(t[p] == b[p - a.len()] && t[q] == b[q - a.len()]); }
                else { assert(t[p] == a[p] && t[q] == b[q - a.len()]); assert(a.contains(a[p])); assert(b.contains(b[q - a.len()])); }
            }
        }
        assert forall|y: int| 0 < y < nodes.len() implies (#[trigger] t.contains(y) <==> exists|k: int| i <= k < f.kids[x].len() && under(f, y, #[trigger] f.kids[x][k])) by {
            if t.contains(y) {
                let p = choose|p: int| 0 <= p < t.len() && t[p] == y;
                if p < a.len() { assert(a.contains(y)); assert(under(f, y, f.kids[x][i])); }
                else { assert(b[p - a.len()] == y); assert(b.contains(y)); }
            }
            if exists|k: int| i <= k < f.kids[x].len() && under(f, y, #[trigger] f.kids[x][k]) {
                let k = choose|k: int| i <= k < f.kids[x].len() && under(f, y, #[trigger] f.kids[x][k]);
                if k == i {
                    assert(a.contains(y));
                    let p = choose|p: int| 0 <= p < a.len() && a[p] == y;
                    assert(t[p] == y);
                } else {
                    assert(b.contains(y));
                    let p = choose|p: int| 0 <= p < b.len() && b[p] == y;
                    assert(t[p + a.len()] == y);
                }
            }
        }
    }
}
proof fn lemma_under_rank(nodes: Seq<Node>, f: Forest, x: int, r: int)
    requires forest(nodes, f), 0 < x < nodes.len(), 0 < r < nodes.len(), under(f, x, r)
    ensures f.rank[r] <= f.rank[x]
    decreases f.rank[x]
{
    assert(node_ok(nodes, f, x));
    if x != r { assert(node_ok(nodes, f, f.par[x])); lemma_under_rank(nodes, f, f.par[x], r); }
}
/// below a child means below its parent
proof fn lemma_under_up(nodes: Seq<Node>, f: Forest, x: int, c: int)
    requires forest(nodes, f), 0 < x < nodes.len(), 0 < c < nodes.len(), under(f, x, c), f.par[c] != 0
    ensures under(f, x, f.par[c])
    decreases f.rank[x]
{
    assert(node_ok(nodes, f, x));
    assert(node_ok(nodes, f, c));
    if x != c { assert(node_ok(nodes, f, f.par[x])); lemma_under_up(nodes, f, f.par[x], c); }
    else { assert(under(f, f.par[c], f.par[c])); assert(node_ok(nodes, f, f.par[c])); }
}
/// strictly below x means below one of its children
proof fn lemma_under_kid(nodes: Seq<Node>, f: Forest, y: int, x: int)
    requires forest(nodes, f), 0 < y < nodes.len(), 0 < x < nodes.len(), under(f, y, x), y != x
    ensures exists|k: int| 0 <= k < f.kids[x].len() && under(f, y, #[trigger] f.kids[x][k])
    decreases f.rank[y]
{
    assert(node_ok(nodes, f, y));
    let p = f.par[y];
    assert(node_ok(nodes, f, p));
    if p == x {
        assert(under(f, y, y));
        assert(under(f, y, f.kids[x][f.pos[y]]));
    } else {
        lemma_under_kid(nodes, f, p, x);
        let k = choose|k: int| 0 <= k < f.kids[x].len() && under(f, p, #[trigger] f.kids[x][k]);
        assert(kid_ok(nodes, f, x, k));
        assert(under(f, y, #[trigger] f.kids[x][k]));
    }
}
/// no node is below two siblings
proof fn lemma_under_two(nodes: Seq<Node>, f: Forest, y: int, a: int, b: int)
    requires forest(nodes, f), 0 < y < nodes.len(), 0 < a < nodes.len(), 0 < b < nodes.len(), f.par[a] != 0, f.par[a] == f.par[b],
        under(f, y, a), under(f, y, b)
    ensures a == b
    decreases f.rank[y]
{
    assert(node_ok(nodes, f, y)); assert(node_ok(nodes, f, a)); assert(node_ok(nodes, f, b));
    if y == a && a != b { assert(node_ok(nodes, f, f.par[a])); lemma_under_rank(nodes, f, f.par[a], b); }
    else if y == b && a != b { assert(node_ok(nodes, f, f.par[b])); lemma_under_rank(nodes, f, f.par[b], a); }
    else if a != b { assert(node_ok(nodes, f, f.par[y])); lemma_under_two(nodes, f, f.par[y], a, b); }
}

// ---- chains of nodes
/// node identifiers of a sequence of indexes
pub open spec fn ids_of(c: Seq<NodeId>, s: Seq<int>) -> bool {
    c.len() == s.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).ix() == s[i]
}
/// x and its ancestors, nearest first
pub open spec fn up(f: Forest, x: int) -> Seq<int>
    decreases (if 0 <= x < f.rank.len() { f.rank[x] } else { 0int })
{
    if 0 <= x < f.rank.len() && f.par[x] != 0 && 0 <= f.par[x] < f.rank.len() && 0 <= f.rank[f.par[x]] < f.rank[x] {
        seq![x] + up(f, f.par[x])
    } else { seq![x] }
}
proof fn lemma_nonzero(a: NodeId)
    ensures a.ix() > 0
{ }
/// c is a chain of parent links from its first node up
pub open spec fn parent_chain(nodes: Seq<Node>, c: Seq<NodeId>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> in_arena(nodes, #[trigger] c[i]) && nodes[c[i].ix()].parent == nth_or_none(c, i + 1)
}
pub open spec fn sibling_chain(nodes: Seq<Node>, c: Seq<NodeId>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> in_arena(nodes, #[trigger] c[i]) && nodes[c[i].ix()].next_sibling == nth_or_none(c, i + 1)
}
/// there is only one chain
proof fn lemma_parent_chain_unique(nodes: Seq<Node>, f: Forest, c: Seq<NodeId>)
    requires forest(nodes, f), c.len() > 0, parent_chain(nodes, c)
    ensures ids_of(c, up(f, c[0].ix()))
    decreases f.rank[c[0].ix()]
{
    let x = c[0].ix();
    assert(in_arena(nodes, c[0]) && nodes[x].parent == nth_or_none(c, 1));
    assert(node_ok(nodes, f, x));
    match nodes[x].parent {
        None => { assert(up(f, x) =~= seq![x]); assert(c.len() == 1); }
        Some(p) => {
            let d = c.subrange(1, c.len() as int);
            assert(c[1] == p);
            assert(in_arena(nodes, c[1]));
            assert(node_ok(nodes, f, p.ix()));
            assert forall|i: int| 0 <= i < d.len() implies in_arena(nodes, #[trigger] d[i]) && nodes[d[i].ix()].parent == nth_or_none(d, i + 1) by {
                assert(d[i] == c[i + 1]); assert(nth_or_none(d, i + 1) == nth_or_none(c, i + 2));
            }
            assert(d[0] == p);
            lemma_parent_chain_unique(nodes, f, d);
            let u = up(f, x);
            assert(u =~= seq![x] + up(f, p.ix()));
            assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).ix() == u[i] by { if i > 0 { assert(c[i] == d[i - 1]); assert(u[i] == up(f, p.ix())[i - 1]); } }
        }
    }
}
/// the first following sibling on the way up
proof fn lemma_climb(nodes: Seq<Node>, f: Forest, c: Seq<NodeId>, k: int)
    requires forest(nodes, f), 0 <= k < c.len(),
        forall|i: int| 0 <= i < c.len() ==> in_arena(nodes, #[trigger] c[i]),
        forall|i: int| 0 <= i < k ==> nodes[(#[trigger] c[i]).ix()].parent == nth_or_none(c, i + 1),
        forall|j: int| 0 <= j < k ==> nodes[(#[trigger] c[j]).ix()].next_sibling is None,
    ensures
        nodes[c[k].ix()].next_sibling is Some ==> climb(f, c[0].ix()) == ln(nodes[c[k].ix()].next_sibling),
        nodes[c[k].ix()].next_sibling is None && nodes[c[k].ix()].parent is None ==> climb(f, c[0].ix()) == 0,
        climb(f, c[0].ix()) == climb(f, c[k].ix()),
    decreases k
{
    let y = c[k].ix();
    assert(in_arena(nodes, c[k]));
    assert(node_ok(nodes, f, y));
    if f.par[y] != 0 { assert(kid_ok(nodes, f, f.par[y], f.pos[y])); assert(node_ok(nodes, f, f.par[y])); }
    if k > 0 {
        lemma_climb(nodes, f, c, k - 1);
        let z = c[k - 1].ix();
        assert(in_arena(nodes, c[k - 1]) && nodes[z].parent == nth_or_none(c, k));
        assert(node_ok(nodes, f, z));
        assert(f.par[z] == y);
        assert(kid_ok(nodes, f, y, f.pos[z]));
        assert(nodes[z].next_sibling is None);
        assert(f.pos[z] == f.kids[y].len() - 1) by { if f.pos[z] + 1 < f.kids[y].len() { assert(kid_ok(nodes, f, y, f.pos[z] + 1)); } }
        assert(climb(f, z) == climb(f, y));
    }
}
/// a chain of siblings that starts at the i-th child of p has the children of p from there on
proof fn lemma_sibling_chain(nodes: Seq<Node>, f: Forest, p: int, i: int, c: Seq<NodeId>)
    requires forest(nodes, f), 0 < p < nodes.len(), 0 <= i < f.kids[p].len(), c.len() > 0, c[0].ix() == f.kids[p][i], sibling_chain(nodes, c)
    ensures ids_of(c, f.kids[p].subrange(i, f.kids[p].len() as int))
    decreases f.kids[p].len() - i
{
    assert(kid_ok(nodes, f, p, i));
    assert(in_arena(nodes, c[0]) && nodes[c[0].ix()].next_sibling == nth_or_none(c, 1));
    let s = f.kids[p].subrange(i, f.kids[p].len() as int);
    if i + 1 < f.kids[p].len() {
        let d = c.subrange(1, c.len() as int);
        assert forall|j: int| 0 <= j < d.len() implies in_arena(nodes, #[trigger] d[j]) && nodes[d[j].ix()].next_sibling == nth_or_none(d, j + 1) by {
            assert(d[j] == c[j + 1]); assert(nth_or_none(d, j + 1) == nth_or_none(c, j + 2));
        }
        assert(kid_ok(nodes, f, p, i + 1));
        assert(d[0] == c[1]);
        lemma_sibling_chain(nodes, f, p, i + 1, d);
        assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).ix() == s[j] by {
            if j > 0 { assert(c[j] == d[j - 1]); assert(s[j] == f.kids[p].subrange(i + 1, f.kids[p].len() as int)[j - 1]); }
        }
    } else { assert(c.len() == 1); }
}

pub open spec fn inside(nodes: Seq<Node>) -> spec_fn(NodeId) -> bool { |n: NodeId| in_arena(nodes, n) }
pub open spec fn by_rank(f: Forest) -> spec_fn(NodeId) -> int { |n: NodeId| f.rank[n.ix()] }
pub open spec fn by_pos(f: Forest) -> spec_fn(NodeId) -> int { |n: NodeId| if f.par[n.ix()] == 0 { 0 } else { f.kids[f.par[n.ix()]].len() - f.pos[n.ix()] } }
/// x and its following siblings
pub open spec fn sibs(f: Forest, x: int) -> Seq<int> { f.kids[f.par[x]].subrange(f.pos[x], f.kids[f.par[x]].len() as int) }
/// a walk by parent links
pub open spec fn climbs<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, r: Successors<F>) -> bool {
    &&& r.next is Some ==> in_arena(nodes, r.next->0)
    &&& forall|n: NodeId| #![trigger r.succ.requires((&n,))] in_arena(nodes, n) ==> r.succ.requires((&n,))
    &&& forall|n: NodeId, o: Option<NodeId>| #[trigger] r.succ.ensures((&n,), o) && in_arena(nodes, n) ==> o == nodes[n.ix()].parent
}
/// a walk by links to the next sibling
pub open spec fn follows<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, r: Successors<F>) -> bool {
    &&& r.next is Some ==> in_arena(nodes, r.next->0)
    &&& forall|n: NodeId| #![trigger r.succ.requires((&n,))] in_arena(nodes, n) ==> r.succ.requires((&n,))
    &&& forall|n: NodeId, o: Option<NodeId>| #[trigger] r.succ.ensures((&n,), o) && in_arena(nodes, n) ==> o == nodes[n.ix()].next_sibling
}
proof fn lemma_climbs_ends<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, r: Successors<F>)
    requires forest(nodes, f), climbs(nodes, r)
    ensures ends(r.next, r.succ, inside(nodes), by_rank(f))
{
    let inv = inside(nodes); let m = by_rank(f);
    assert forall|n: NodeId| #![trigger inv(n)] #![trigger r.succ.requires((&n,))] inv(n) implies r.succ.requires((&n,)) && m(n) >= 0 by { assert(node_ok(nodes, f, n.ix())); }
    assert forall|n: NodeId, o: Option<NodeId>| #[trigger] r.succ.ensures((&n,), o) && inv(n) && o is Some implies inv(o->0) && 0 <= m(o->0) < m(n) by {
        assert(node_ok(nodes, f, n.ix())); assert(node_ok(nodes, f, o->0.ix()));
    }
}
proof fn lemma_climbs<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, r: Successors<F>, c: Seq<NodeId>)
    requires forest(nodes, f), climbs(nodes, r), r.next is Some, is_chain(r.next, r.succ, c)
    ensures parent_chain(nodes, c), ids_of(c, up(f, r.next->0.ix()))
{
    lemma_climbs_ends(nodes, f, r);
    let inv = inside(nodes); let m = by_rank(f);
    lemma_inv(r.next, r.succ, inv, m, c);
    assert forall|i: int| 0 <= i < c.len() implies in_arena(nodes, #[trigger] c[i]) && nodes[c[i].ix()].parent == nth_or_none(c, i + 1) by {
        assert(inv(c[i]));
        assert(step_ok(r.succ, c, i));
    }
    lemma_parent_chain_unique(nodes, f, c);
}
proof fn lemma_follows_ends<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, r: Successors<F>)
    requires forest(nodes, f), follows(nodes, r)
    ensures ends(r.next, r.succ, inside(nodes), by_pos(f))
{
    let inv = inside(nodes); let m = by_pos(f);
    assert forall|n: NodeId| #![trigger inv(n)] #![trigger r.succ.requires((&n,))] inv(n) implies r.succ.requires((&n,)) && m(n) >= 0 by { assert(node_ok(nodes, f, n.ix())); }
    assert forall|n: NodeId, o: Option<NodeId>| #[trigger] r.succ.ensures((&n,), o) && inv(n) && o is Some implies inv(o->0) && 0 <= m(o->0) < m(n) by {
        let x = n.ix();
        lemma_nonzero(o->0);
        assert(node_ok(nodes, f, x));
        assert(f.par[x] != 0);
        assert(kid_ok(nodes, f, f.par[x], f.pos[x]));
        assert(kid_ok(nodes, f, f.par[x], f.pos[x] + 1));
        assert(node_ok(nodes, f, o->0.ix()));
    }
}
proof fn lemma_follows<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, r: Successors<F>, c: Seq<NodeId>)
    requires forest(nodes, f), follows(nodes, r), r.next is Some, is_chain(r.next, r.succ, c), f.par[r.next->0.ix()] != 0
    ensures ids_of(c, sibs(f, r.next->0.ix())), sibling_chain(nodes, c)
{
    lemma_follows_ends(nodes, f, r);
    let inv = inside(nodes); let m = by_pos(f);
    lemma_inv(r.next, r.succ, inv, m, c);
    assert forall|i: int| 0 <= i < c.len() implies in_arena(nodes, #[trigger] c[i]) && nodes[c[i].ix()].next_sibling == nth_or_none(c, i + 1) by {
        assert(inv(c[i]));
        assert(step_ok(r.succ, c, i));
    }
    let x = r.next->0.ix();
    assert(node_ok(nodes, f, x));
    lemma_sibling_chain(nodes, f, f.par[x], f.pos[x], c);
}
/// the first sibling found on the way up is where the walk climbs to
proof fn lemma_first_up<F: Fn(&NodeId) -> Option<NodeId>, G: Fn(NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, it: Successors<F>, g: G, r: Option<NodeId>)
    requires forest(nodes, f), climbs(nodes, it), it.next is Some,
        forall|n: NodeId, o: Option<NodeId>| #[trigger] g.ensures((n,), o) ==> o == nodes[n.ix()].next_sibling,
        r is Some ==> exists|c: Seq<NodeId>| is_prefix(it.next, it.succ, c) && found_at(g, c, r),
        r is None ==> exists|c: Seq<NodeId>| is_chain(it.next, it.succ, c) && #[trigger] none_of(g, c, c.len() as int),
    ensures ln(r) == climb(f, it.next->0.ix())
{
    lemma_climbs_ends(nodes, f, it);
    let inv = inside(nodes); let m = by_rank(f);
    if r is Some {
        let c = choose|c: Seq<NodeId>| is_prefix(it.next, it.succ, c) && found_at(g, c, r);
        lemma_inv(it.next, it.succ, inv, m, c);
        assert forall|i: int| 0 <= i < c.len() implies in_arena(nodes, #[trigger] c[i]) by { assert(inv(c[i])); }
        assert forall|i: int| 0 <= i < c.len() - 1 implies nodes[(#[trigger] c[i]).ix()].parent == nth_or_none(c, i + 1) by {
            assert(step_ok(it.succ, c, i));
        }
        lemma_climb(nodes, f, c, c.len() - 1);
    } else {
        let c = choose|c: Seq<NodeId>| is_chain(it.next, it.succ, c) && #[trigger] none_of(g, c, c.len() as int);
        lemma_climbs(nodes, f, it, c);
        assert forall|i: int| 0 <= i < c.len() implies nodes[(#[trigger] c[i]).ix()].next_sibling is None by {}
        lemma_climb(nodes, f, c, c.len() - 1);
    }
}
/// everything that a walk reaches satisfies its invariant
proof fn lemma_inv<F: Fn(&NodeId) -> Option<NodeId>>(first: Option<NodeId>, step: F, inv: spec_fn(NodeId) -> bool, m: spec_fn(NodeId) -> int, c: Seq<NodeId>)
    requires ends(first, step, inv, m), is_prefix(first, step, c) || is_chain(first, step, c)
    ensures forall|i: int| 0 <= i < c.len() ==> inv(#[trigger] c[i])
{
    if c.len() > 0 { lemma_inv_at(first, step, inv, m, c, c.len() - 1); }
}
proof fn lemma_inv_at<F: Fn(&NodeId) -> Option<NodeId>>(first: Option<NodeId>, step: F, inv: spec_fn(NodeId) -> bool, m: spec_fn(NodeId) -> int, c: Seq<NodeId>, k: int)
    requires ends(first, step, inv, m), is_prefix(first, step, c) || is_chain(first, step, c), 0 <= k < c.len()
    ensures forall|i: int| 0 <= i <= k ==> inv(#[trigger] c[i])
    decreases k
{
    if k > 0 {
        lemma_inv_at(first, step, inv, m, c, k - 1);
        assert(inv(c[k - 1]));
        assert(step_ok(step, c, k - 1));
    }
}

/// a walk that goes to the next node in document order
pub open spec fn orders<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, r: Successors<F>) -> bool {
    &&& r.next is Some && r.next->0.ix() == 1
    &&& forall|n: NodeId| #![trigger r.succ.requires((&n,))] in_arena(nodes, n) ==> r.succ.requires((&n,))
    &&& forall|n: NodeId, o: Option<NodeId>| #[trigger] r.succ.ensures((&n,), o) && in_arena(nodes, n) ==> ln(o) == nxt(f, n.ix())
}
pub open spec fn in_tree(f: Forest) -> spec_fn(NodeId) -> bool { |n: NodeId| pre(f, 1).contains(n.ix()) }
pub open spec fn to_go(f: Forest) -> spec_fn(NodeId) -> int { |n: NodeId| pre(f, 1).len() - pre(f, 1).index_of(n.ix()) }
proof fn lemma_order_step(nodes: Seq<Node>, f: Forest, i: int)
    requires forest(nodes, f), 0 <= i < pre(f, 1).len()
    ensures nxt(f, pre(f, 1)[i]) == (if i + 1 < pre(f, 1).len() { pre(f, 1)[i + 1] } else { 0 })
{
    lemma_pre(nodes, f, 1);
    assert(f.par[1] == 0);
    assert(climb(f, 1) == 0);
}
proof fn lemma_orders_ends<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, r: Successors<F>)
    requires forest(nodes, f), orders(nodes, f, r)
    ensures ends(r.next, r.succ, in_tree(f), to_go(f))
{
    let inv = in_tree(f); let m = to_go(f); let t = pre(f, 1);
    lemma_pre(nodes, f, 1);
    lemma_pre_exact(nodes, f, 1);
    assert(t[0] == 1);
    assert(inv(r.next->0));
    assert forall|n: NodeId| #![trigger inv(n)] #![trigger r.succ.requires((&n,))] inv(n) implies r.succ.requires((&n,)) && m(n) >= 0 by {
        let i = t.index_of(n.ix());
        assert(t[i] == n.ix());
        assert(in_arena(nodes, n));
    }
    assert forall|n: NodeId, o: Option<NodeId>| #[trigger] r.succ.ensures((&n,), o) && inv(n) && o is Some implies inv(o->0) && 0 <= m(o->0) < m(n) by {
        let i = t.index_of(n.ix());
        assert(t[i] == n.ix());
        assert(in_arena(nodes, n));
        lemma_order_step(nodes, f, i);
        lemma_nonzero(o->0);
        assert(t[i + 1] == o->0.ix());
        assert(t.contains(t[i + 1]));
        let j = t.index_of(o->0.ix());
        assert(t[j] == t[i + 1]);
        assert(j == i + 1);
    }
}
/// such a walk gives exactly document order
proof fn lemma_orders<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, r: Successors<F>, c: Seq<NodeId>)
    requires forest(nodes, f), orders(nodes, f, r), is_chain(r.next, r.succ, c)
    ensures ids_of(c, pre(f, 1))
{
    lemma_pre(nodes, f, 1);
    let t = pre(f, 1);
    lemma_orders_at(nodes, f, r, c, c.len() - 1);
    let k = c.len() - 1;
    assert(step_ok(r.succ, c, k));
    assert(in_arena(nodes, c[k]));
    lemma_order_step(nodes, f, k);
}
proof fn lemma_orders_at<F: Fn(&NodeId) -> Option<NodeId>>(nodes: Seq<Node>, f: Forest, r: Successors<F>, c: Seq<NodeId>, k: int)
    requires forest(nodes, f), orders(nodes, f, r), is_chain(r.next, r.succ, c), 0 <= k < c.len()
    ensures k < pre(f, 1).len(), forall|i: int| 0 <= i <= k ==> (#[trigger] c[i]).ix() == pre(f, 1)[i]
    decreases k
{
    lemma_pre(nodes, f, 1);
    if k > 0 {
        lemma_orders_at(nodes, f, r, c, k - 1);
        assert(step_ok(r.succ, c, k - 1));
        assert(c[k - 1].ix() == pre(f, 1)[k - 1]);
        assert(in_arena(nodes, c[k - 1]));
        lemma_order_step(nodes, f, k - 1);
        lemma_nonzero(c[k]);
        assert(nth_or_none(c, k) == Some(c[k]));
    }
}
/// the links determine the children
proof fn lemma_same_kids(nodes: Seq<Node>, f: Forest, g: Forest, p: int)
    requires forest(nodes, f), forest(nodes, g), 0 <= p < nodes.len()
    ensures f.kids[p] == g.kids[p]
{
    lemma_same_kids_to(nodes, f, g, p, f.kids[p].len() as int);
    lemma_same_kids_to(nodes, g, f, p, g.kids[p].len() as int);
    assert(f.kids[p] =~= g.kids[p]);
}
proof fn lemma_same_kids_to(nodes: Seq<Node>, f: Forest, g: Forest, p: int, n: int)
    requires forest(nodes, f), forest(nodes, g), 0 <= p < nodes.len(), 0 <= n <= f.kids[p].len()
    ensures n <= g.kids[p].len(), forall|i: int| 0 <= i < n ==> f.kids[p][i] == g.kids[p][i]
    decreases n
{
    assert(node_ok(nodes, f, p)); assert(node_ok(nodes, g, p));
    if n > 0 {
        lemma_same_kids_to(nodes, f, g, p, n - 1);
        assert(kid_ok(nodes, f, p, n - 1));
        if n > 1 { assert(kid_ok(nodes, f, p, n - 2)); assert(kid_ok(nodes, g, p, n - 2)); }
        if g.kids[p].len() > 0 { assert(kid_ok(nodes, g, p, 0)); }
    }
}
/// the children of the document: one element, and doctypes, comments and processing instructions
pub open spec fn one_root(nodes: Seq<Node>, k: Seq<int>) -> bool {
    &&& exists|i: int| 0 <= i < k.len() && (#[trigger] nodes[k[i]]).data is Element
    &&& forall|i: int, j: int| 0 <= i < k.len() && 0 <= j < k.len() && nodes[#[trigger] k[i]].data is Element && nodes[#[trigger] k[j]].data is Element ==> i == j
    &&& forall|i: int| 0 <= i < k.len() ==> !(nodes[#[trigger] k[i]].data is Text) && !(nodes[k[i]].data is Document)
}
/// `assert!`
fn vassert(b: bool) requires b {}
/// the texts among the first n nodes of s, in order
pub open spec fn texts(nodes: Seq<Node>, s: Seq<int>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if nodes[s[n - 1]].data is Text { texts(nodes, s, n - 1) + nodes[s[n - 1]].data->Text_contents@ }
    else { texts(nodes, s, n - 1) }
}
/// some of the first n nodes of s is text
pub open spec fn any_text(nodes: Seq<Node>, s: Seq<int>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] nodes[s[i]]).data is Text }

// ---- Cow<String>
pub enum Cow<'a> { Borrowed(&'a String), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn text(self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    #[verifier::external_body]
    fn push_str(&mut self, s: &String)
        ensures final(self).text() == old(self).text() + s@
    { unimplemented!() }
}

//@@ include dom_index.inc

impl Document {
//@@ fn victor/src/dom/mod.rs | impl Document :: document_node_id
//@@ ret r
//@@ spec
    ensures r.ix() == 1
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: node_and_ancestors
//@@ sub /move\s+\|&node\|\s*([^|]*?)\)\s*\}$/ => move |node_: &NodeId| -> (r: Option<NodeId>) requires in_arena(self.nodes@, *node_) ensures r == self.nodes@[node_.ix()].parent { let node = *node_; \1 }); proof { assert forall|f: Forest| #[trigger] forest(self.nodes@, f) implies ends(it.next, it.succ, inside(self.nodes@), by_rank(f)) && forall|c: Seq<NodeId>| #[trigger] is_chain(it.next, it.succ, c) ==> ids_of(c, up(f, node.ix())) by { lemma_climbs_ends(self.nodes@, f, it); assert forall|c: Seq<NodeId>| #[trigger] is_chain(it.next, it.succ, c) implies ids_of(c, up(f, node.ix())) by { lemma_climbs(self.nodes@, f, it, c); } } } it }
//@@ sub /successors\(/ => let it = successors(
//@@ hdr fn node_and_ancestors(&self, node: NodeId) -> (r: Successors<impl Fn(&NodeId) -> Option<NodeId> + '_>)
//@@ spec
    requires in_arena(self.nodes@, node)
    ensures
        r.next == Some(node),
        climbs(self.nodes@, r),
        // the items are the node and its ancestors, nearest first
        forall|f: Forest| #[trigger] forest(self.nodes@, f) ==> {
            &&& ends(r.next, r.succ, inside(self.nodes@), by_rank(f))
            &&& forall|c: Seq<NodeId>| #[trigger] is_chain(r.next, r.succ, c) ==> ids_of(c, up(f, node.ix()))
        },
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: node_and_following_siblings
//@@ sub /move\s+\|&node\|\s*([^|]*?)\)\s*\}$/ => move |node_: &NodeId| -> (r: Option<NodeId>) requires in_arena(self.nodes@, *node_) ensures r == self.nodes@[node_.ix()].next_sibling { let node = *node_; \1 }); proof { assert forall|f: Forest| #[trigger] forest(self.nodes@, f) implies ends(it.next, it.succ, inside(self.nodes@), by_pos(f)) && (f.par[node.ix()] != 0 ==> forall|c: Seq<NodeId>| #[trigger] is_chain(it.next, it.succ, c) ==> ids_of(c, sibs(f, node.ix()))) by { lemma_follows_ends(self.nodes@, f, it); if f.par[node.ix()] != 0 { assert forall|c: Seq<NodeId>| #[trigger] is_chain(it.next, it.succ, c) implies ids_of(c, sibs(f, node.ix())) by { lemma_follows(self.nodes@, f, it, c); } } } } it }
//@@ sub /successors\(/ => let it = successors(
//@@ hdr fn node_and_following_siblings(&self, node: NodeId) -> (r: Successors<impl Fn(&NodeId) -> Option<NodeId> + '_>)
//@@ spec
    requires in_arena(self.nodes@, node)
    ensures
        r.next == Some(node),
        follows(self.nodes@, r),
        forall|f: Forest| #[trigger] forest(self.nodes@, f) ==> {
            &&& ends(r.next, r.succ, inside(self.nodes@), by_pos(f))
            &&& f.par[node.ix()] != 0 ==> forall|c: Seq<NodeId>| #[trigger] is_chain(r.next, r.succ, c)
                ==> ids_of(c, sibs(f, node.ix()))
        },
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: next_in_tree_order
//@@ ret r
//@@ sub /self\[node\]\.first_child\.or_else\(\|\|\s*\{/ => let first = self[node].first_child; let r = first.or_else(|| -> (r: Option<NodeId>) requires wf(self.nodes@), 0 < node.ix() < self.nodes@.len() ensures forall|f: Forest| #[trigger] forest(self.nodes@, f) ==> ln(r) == climb(f, node.ix()) {
//@@ sub /self\.node_and_ancestors\(node\)\s*\.find_map\(\|ancestor\| ([^)]*)\)\s*\}\)/ => let it = self.node_and_ancestors(node); proof { let f = choose|f: Forest| #[trigger] forest(self.nodes@, f); assert(ends(it.next, it.succ, inside(self.nodes@), by_rank(f))); } let g = |ancestor: NodeId| -> (r: Option<NodeId>) requires in_arena(self.nodes@, ancestor) ensures r == self.nodes@[ancestor.ix()].next_sibling { \1 }; proof { assert forall|n: NodeId| #[trigger] inside(self.nodes@)(n) implies g.requires((n,)) by {} } let r = it.find_map(g); proof { assert forall|f: Forest| #[trigger] forest(self.nodes@, f) implies ln(r) == climb(f, node.ix()) by { lemma_first_up(self.nodes@, f, it, g, r); } } r }); proof { assert(first == self.nodes@[node.ix()].first_child); assert forall|f: Forest| #[trigger] forest(self.nodes@, f) implies ln(r) == nxt(f, node.ix()) by { assert(node_ok(self.nodes@, f, node.ix())); assert(first is Some ==> r == first); if first is Some { assert(ln(r) == nxt(f, node.ix())); } else { assert(ln(r) == climb(f, node.ix())); assert(kid_ok(self.nodes@, f, node.ix(), 0) || f.kids[node.ix()].len() == 0); } } } r
//@@ spec
    requires wf(self.nodes@), 0 < node.ix() < self.nodes@.len()
    ensures forall|f: Forest| #[trigger] forest(self.nodes@, f) ==> ln(r) == nxt(f, node.ix())
//@@ start
    proof { assert forall|f: Forest| #[trigger] forest(self.nodes@, f) implies node_ok(self.nodes@, f, node.ix()) by {} if self.nodes@[node.ix()].first_child is Some { lemma_nonzero(self.nodes@[node.ix()].first_child->0); } }
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: nodes
//@@ hdr fn nodes(&self) -> (r: Successors<impl Fn(&NodeId) -> Option<NodeId> + '_>)
//@@ sub /successors\(/ => let it = successors(
//@@ sub /move\s+\|&node\|\s*([^|]*?)\)\s*\}$/ => move |node_: &NodeId| -> (r: Option<NodeId>) requires wf(self.nodes@), in_arena(self.nodes@, *node_) ensures forall|f: Forest| #[trigger] forest(self.nodes@, f) ==> ln(r) == nxt(f, node_.ix()) { proof { lemma_nonzero(*node_); } let node = *node_; \1 }); proof { assert forall|f: Forest| #[trigger] forest(self.nodes@, f) implies ends(it.next, it.succ, in_tree(f), to_go(f)) && forall|c: Seq<NodeId>| #[trigger] is_chain(it.next, it.succ, c) ==> ids_of(c, pre(f, 1)) by { assert(orders(self.nodes@, f, it)); lemma_orders_ends(self.nodes@, f, it); assert forall|c: Seq<NodeId>| #[trigger] is_chain(it.next, it.succ, c) implies ids_of(c, pre(f, 1)) by { lemma_orders(self.nodes@, f, it, c); } } } it }
//@@ spec
    requires wf(self.nodes@)
    ensures
        // the items are the nodes of the tree in document order (lemma_pre_exact), and the walk ends
        forall|f: Forest| #[trigger] forest(self.nodes@, f) ==> {
            &&& ends(r.next, r.succ, in_tree(f), to_go(f))
            &&& forall|c: Seq<NodeId>| #[trigger] is_chain(r.next, r.succ, c) ==> ids_of(c, pre(f, 1))
        },
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: child_text_content
//@@ hdr fn child_text_content(&self, node: NodeId) -> (r: Cow<'_>)
//@@ sub /None => text = Some\(Cow::Borrowed\(contents\)\),/ => None => { text = Some(Cow::Borrowed(contents)); }
//@@ sub /Some\(text\) => text\.to_mut\(\)\.push_str\(&contents\),/ => Some(text) => { text.push_str(&contents); }
//@@ sub /let mut text = None;/ => let mut text: Option<Cow<'_>> = None;
//@@ sub OPT /text\.unwrap_or_else\(\|\| Cow::Owned\(String::new\(\)\)\)/ => match text { Some(text) => { assert(text.text() == texts(self.nodes@, k, k.len() as int)); text }, None => { let e = Cow::Owned(String::new()); assert(e.text() =~= Seq::<char>::empty()); e } }
//@@ spec
    requires wf(self.nodes@), in_arena(self.nodes@, node)
    ensures forall|f: Forest| #[trigger] forest(self.nodes@, f) ==> r.text() == texts(self.nodes@, f.kids[node.ix()], f.kids[node.ix()].len() as int)
//@@ start
    let ghost f0 = choose|f: Forest| #[trigger] forest(self.nodes@, f);
    let ghost k = f0.kids[node.ix()];
    let ghost mut i: int = 0;
    proof { assert(node_ok(self.nodes@, f0, node.ix())); if k.len() > 0 { assert(kid_ok(self.nodes@, f0, node.ix(), 0)); } if self.nodes@[node.ix()].first_child is Some { lemma_nonzero(self.nodes@[node.ix()].first_child->0); } }
//@@ loop 1
    invariant
        forest(self.nodes@, f0), in_arena(self.nodes@, node), k == f0.kids[node.ix()],
        0 <= i <= k.len(),
        link is Some <==> i < k.len(),
        link is Some ==> link->0.ix() == k[i],
        text is Some ==> text->0.text() == texts(self.nodes@, k, i),
        text is None ==> texts(self.nodes@, k, i) == Seq::<char>::empty(),
    ensures
        i == k.len(),
        text is Some ==> text->0.text() == texts(self.nodes@, k, i),
        text is None ==> texts(self.nodes@, k, i) == Seq::<char>::empty(),
    decreases k.len() - i
//@@ loopstart 1
    proof { assert(kid_ok(self.nodes@, f0, node.ix(), i)); }
//@@ loopend 1
    proof {
        if link is Some { lemma_nonzero(link->0); }
        assert(self.nodes@[k[i]].data is Text ==> Seq::<char>::empty() + self.nodes@[k[i]].data->Text_contents@ =~= self.nodes@[k[i]].data->Text_contents@);
        if i + 1 < k.len() { assert(kid_ok(self.nodes@, f0, node.ix(), i + 1)); }
        i = i + 1;
    }
//@@ afterloop 1
    proof {
        assert forall|f: Forest| #[trigger] forest(self.nodes@, f) implies f.kids[node.ix()] =~= k by { lemma_same_kids(self.nodes@, f, f0, node.ix()); }
    }
//@@ end

//@@ fn victor/src/dom/mod.rs | impl Document :: root_element
//@@ ret r
//@@ sub /\bassert!\(root\.is_none\(\), "[^"]*"\)/ => vassert(root.is_none())
//@@ sub /assert!\(matches!\((.*?), NodeData::Document\)\)/ => vassert(match document_node.data { NodeData::Document => true, _ => false })
//@@ sub /\bassert!\(/ => vassert(
//@@ sub /panic!\("[^"]*"\)/ => vassert(false)
//@@ sub /for child in (self[^{]*?) \{/ => let mut it = \1; while let Some(child) = it.next() {
//@@ sub /let mut root = None;/ => let mut root: Option<NodeId> = None;
//@@ spec
    requires
        exists|f: Forest| #[trigger] forest(self.nodes@, f) && one_root(self.nodes@, f.kids[1]),
        self.nodes@[1].data is Document,
    ensures forall|f: Forest| #[trigger] forest(self.nodes@, f) ==> f.kids[1].contains(r.ix()) && self.nodes@[r.ix()].data is Element
//@@ start
    let ghost f0 = choose|f: Forest| #[trigger] forest(self.nodes@, f) && one_root(self.nodes@, f.kids[1]);
    let ghost k = f0.kids[1];
    let ghost mut i: int = 0;
    proof { assert(node_ok(self.nodes@, f0, 1)); assert(kid_ok(self.nodes@, f0, 1, 0)); if self.nodes@[1].first_child is Some { lemma_nonzero(self.nodes@[1].first_child->0); } if self.nodes@[1].parent is Some { lemma_nonzero(self.nodes@[1].parent->0); } if self.nodes@[1].next_sibling is Some { lemma_nonzero(self.nodes@[1].next_sibling->0); } if self.nodes@[1].previous_sibling is Some { lemma_nonzero(self.nodes@[1].previous_sibling->0); } }
//@@ loop 1
    invariant
        forest(self.nodes@, f0), k == f0.kids[1], one_root(self.nodes@, k),
        follows(self.nodes@, it),
        0 <= i <= k.len(),
        it.next is Some <==> i < k.len(),
        it.next is Some ==> it.next->0.ix() == k[i],
        root is Some ==> exists|j: int| 0 <= j < i && #[trigger] k[j] == root->0.ix() && self.nodes@[k[j]].data is Element,
        root is None ==> forall|j: int| 0 <= j < i ==> !(self.nodes@[#[trigger] k[j]].data is Element),
    ensures
        i == k.len(),
        root is Some ==> exists|j: int| 0 <= j < k.len() && #[trigger] k[j] == root->0.ix() && self.nodes@[k[j]].data is Element,
        root is None ==> forall|j: int| 0 <= j < k.len() ==> !(self.nodes@[#[trigger] k[j]].data is Element),
    decreases k.len() - i
//@@ loopstart 1
    proof {
        assert(kid_ok(self.nodes@, f0, 1, i));
        if i + 1 < k.len() { assert(kid_ok(self.nodes@, f0, 1, i + 1)); }
        if it.next is Some { lemma_nonzero(it.next->0); }
    }
//@@ loopend 1
    proof { i = i + 1; }
//@@ afterloop 1
    proof {
        assert forall|f: Forest| #[trigger] forest(self.nodes@, f) implies f.kids[1] =~= k by { lemma_same_kids(self.nodes@, f, f0, 1); }
    }
//@@ end
}

} // verus!
fn main() {}
