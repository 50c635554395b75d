//@@ item victor/src/dom/mod.rs | struct NodeId
//@@ attr #[derive(Copy, Clone)]
//@@ sub /struct NodeId\(std::num::NonZeroUsize\)/ => struct NodeId(pub std::num::NonZeroUsize)
//@@ end
//@@ item victor/src/dom/mod.rs | struct ElementData
//@@ sub /atomic_refcell::AtomicRefCell<crate::layout::LayoutDataForElement>/ => LayoutData
//@@ end
//@@ item victor/src/dom/mod.rs | enum NodeData
//@@ end
//@@ item victor/src/dom/mod.rs | struct Node
//@@ end
//@@ item victor/src/dom/mod.rs | struct Document
//@@ sub /nodes: Vec<Node>/ => pub nodes: Vec<Node>
//@@ sub /style_elements: Vec/ => pub style_elements: Vec
//@@ end

impl NodeId { pub open spec fn ix(self) -> int { self.0@ as int } }

/// index of the node that a link points to; 0 (a dummy node) stands for no link
pub open spec fn ln(o: Option<NodeId>) -> int { match o { Some(n) => n.ix(), None => 0 } }

/// Ghost description of a forest: the children of every node in order, the parent (0: none) and
/// the position of every node among its siblings, and a rank that grows from parent to child.
pub struct Forest { pub kids: Seq<Seq<int>>, pub par: Seq<int>, pub pos: Seq<int>, pub rank: Seq<int> }

pub open spec fn kid_ok(nodes: Seq<Node>, f: Forest, p: int, i: int) -> bool {
    let c = f.kids[p][i];
    &&& 0 < p && 0 < c < nodes.len()
    &&& f.pos[c] == i
    &&& f.par[c] == p
    &&& ln(nodes[c].previous_sibling) == (if i == 0 { 0 } else { f.kids[p][i - 1] })
    &&& ln(nodes[c].next_sibling) == (if i == f.kids[p].len() - 1 { 0 } else { f.kids[p][i + 1] })
}
pub open spec fn node_ok(nodes: Seq<Node>, f: Forest, c: int) -> bool {
    let p = f.par[c];
    let k = f.kids[c];
    &&& ln(nodes[c].parent) == p
    &&& ln(nodes[c].first_child) == (if k.len() == 0 { 0 } else { k[0] })
    &&& ln(nodes[c].last_child) == (if k.len() == 0 { 0 } else { k[k.len() - 1] })
    &&& p == 0 ==> ln(nodes[c].previous_sibling) == 0 && ln(nodes[c].next_sibling) == 0
    &&& p != 0 ==> {
        &&& 0 < p < nodes.len()
        &&& 0 <= f.pos[c] < f.kids[p].len()
        &&& f.kids[p][f.pos[c]] == c
        &&& f.rank[p] < f.rank[c]
    }
    &&& f.rank[c] >= 0
}
/// the arena is a forest: all the links agree with the ordered lists of children
pub open spec fn forest(nodes: Seq<Node>, f: Forest) -> bool {
    &&& nodes.len() >= 2
    &&& f.kids.len() == nodes.len() && f.par.len() == nodes.len() && f.pos.len() == nodes.len() && f.rank.len() == nodes.len()
    &&& forall|p: int, i: int| 0 <= p < nodes.len() && 0 <= i < f.kids[p].len() ==> #[trigger] kid_ok(nodes, f, p, i)
    &&& forall|c: int| 0 <= c < nodes.len() ==> #[trigger] node_ok(nodes, f, c)
    &&& f.par[0] == 0 && f.par[1] == 0
}
pub open spec fn in_arena(nodes: Seq<Node>, n: NodeId) -> bool { n.ix() < nodes.len() }

/// the contents of nodes do not change, only links do
pub open spec fn same_data(a: Seq<Node>, b: Seq<Node>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).data == a[i].data
}

/// r is x or one of its ancestors
pub open spec fn under(f: Forest, x: int, r: int) -> bool
    decreases (if 0 <= x < f.rank.len() { f.rank[x] } else { 0int })
{
    x == r || (0 <= x < f.rank.len() && f.par[x] != 0
        && 0 <= f.par[x] < f.rank.len()
        && 0 <= f.rank[f.par[x]] < f.rank[x]
        && under(f, f.par[x], r))
}

