//! A very simple adjacency structure using index-based nodes and edges.
//!
//! This minimal graph is used internally (e.g., during FOLLOW set computations)
//! to avoid dependencies while keeping operations fast and predictable.
//initial idea stolen from here:
//http://smallcultfollowing.com/babysteps/blog/2015/04/06/modeling-graphs-in-rust-using-vector-indices/
/*@
use vstd::std_specs::iter::IteratorSpecImpl;

/// the link behind edge `e` leads to an edge with a smaller id
pub open spec fn next_ok(edges: Seq<EdgeData>, e: int) -> bool {
    edges[e].next_outgoing_edge is Some ==>
        edges[e].next_outgoing_edge->0 < edges.len() && edges[edges[e].next_outgoing_edge->0 as int].id < edges[e].id
}
pub open spec fn edges_wf(edges: Seq<EdgeData>) -> bool { forall|e: int| 0 <= e < edges.len() ==> #[trigger] next_ok(edges, e) }
/// the edges of a node whose first edge is `first`
pub open spec fn chain(edges: Seq<EdgeData>, first: Option<usize>) -> Seq<usize>
    decreases (match first { Some(i) => edges[i as int].id + 1, None => 0 })
{
    match first {
        None => Seq::empty(),
        Some(i) => if i < edges.len() && next_ok(edges, i as int) { seq![i] + chain(edges, edges[i as int].next_outgoing_edge) } else { seq![i] },
    }
}
/// id and target of the edges of a chain
pub open spec fn links(edges: Seq<EdgeData>, c: Seq<usize>) -> Seq<(EdgeId, NodeIndex)> {
    Seq::new(c.len(), |i: int| (edges[c[i] as int].id, edges[c[i] as int].target))
}
pub open spec fn in_range(edges: Seq<EdgeData>, first: Option<usize>) -> bool { first is Some ==> first->0 < edges.len() }

pub proof fn lemma_chain_range(edges: Seq<EdgeData>, first: Option<usize>)
    requires edges_wf(edges), in_range(edges, first)
    ensures
        forall|i: int| 0 <= i < chain(edges, first).len() ==> (#[trigger] chain(edges, first)[i]) < edges.len() && edges[chain(edges, first)[i] as int].id <= edges[first->0 as int].id,
        forall|i: int, j: int| 0 <= i < j < chain(edges, first).len() ==> edges[#[trigger] chain(edges, first)[i] as int].id > edges[#[trigger] chain(edges, first)[j] as int].id,
        first is None <==> chain(edges, first).len() == 0,
        first is Some ==> chain(edges, first)[0] == first->0 && chain(edges, first).drop_first() == chain(edges, edges[first->0 as int].next_outgoing_edge),
    decreases (match first { Some(i) => edges[i as int].id + 1, None => 0 })
{
    if first is Some {
        let i0 = first->0 as int;
        assert(next_ok(edges, i0));
        let next = edges[i0].next_outgoing_edge;
        lemma_chain_range(edges, next);
        let c = chain(edges, first);
        assert(c.drop_first() =~= chain(edges, next));
        assert forall|i: int| 0 < i < c.len() implies #[trigger] c[i] == chain(edges, next)[i - 1] by { assert(c.drop_first()[i - 1] == c[i]); }
    }
}
/// the chain behind its k-th edge
pub proof fn lemma_chain_skip(edges: Seq<EdgeData>, first: Option<usize>, k: int)
    requires edges_wf(edges), in_range(edges, first), 0 <= k < chain(edges, first).len()
    ensures chain(edges, first).skip(k + 1) == chain(edges, edges[chain(edges, first)[k] as int].next_outgoing_edge)
    decreases k
{
    lemma_chain_range(edges, first);
    let c = chain(edges, first);
    if k == 0 {
        assert(c.skip(1) =~= c.drop_first());
    } else {
        let next = edges[first->0 as int].next_outgoing_edge;
        assert(next_ok(edges, first->0 as int));
        lemma_chain_skip(edges, next, k - 1);
        assert(c.drop_first()[k - 1] == c[k]);
        assert(c.drop_first().skip(k) =~= c.skip(k + 1));
    }
}
/// `owner` says of every edge which node it leaves
pub open spec fn owns(edges: Seq<EdgeData>, owner: Seq<int>) -> bool {
    &&& owner.len() == edges.len()
    &&& forall|e: int| 0 <= e < edges.len() && (#[trigger] edges[e]).next_outgoing_edge is Some ==> owner[edges[e].next_outgoing_edge->0 as int] == owner[e]
}
/// A chain stays as it is if no edge of its node changes.
pub proof fn lemma_chain_frame(e1: Seq<EdgeData>, e2: Seq<EdgeData>, owner: Seq<int>, o: int, first: Option<usize>)
    requires
        edges_wf(e1), in_range(e1, first), owns(e1, owner), first is Some ==> owner[first->0 as int] == o, e1.len() <= e2.len(),
        forall|e: int| 0 <= e < e1.len() && owner[e] == o ==> e2[e] == #[trigger] e1[e],
    ensures
        chain(e2, first) == chain(e1, first), links(e2, chain(e2, first)) == links(e1, chain(e1, first)),
        forall|i: int| 0 <= i < chain(e1, first).len() ==> owner[#[trigger] chain(e1, first)[i] as int] == o,
    decreases (match first { Some(i) => e1[i as int].id + 1, None => 0 })
{
    lemma_chain_range(e1, first);
    if first is Some {
        let i0 = first->0 as int;
        assert(next_ok(e1, i0));
        let next = e1[i0].next_outgoing_edge;
        lemma_chain_frame(e1, e2, owner, o, next);
        if next is Some { assert(e2[next->0 as int] == e1[next->0 as int]); }
        assert(next_ok(e2, i0));
        let c = chain(e1, first);
        assert forall|i: int| 0 <= i < c.len() implies owner[#[trigger] c[i] as int] == o by { if i > 0 { assert(c.drop_first()[i - 1] == c[i]); } }
    }
    assert(links(e2, chain(e2, first)) =~= links(e1, chain(e1, first)));
}
/// A new last edge `n` put behind the k-th edge of a chain.
pub proof fn lemma_chain_insert(e1: Seq<EdgeData>, e2: Seq<EdgeData>, first: Option<usize>, k: int, n: usize)
    requires
        edges_wf(e1), edges_wf(e2), in_range(e1, first), n == e1.len(), e2.len() == n + 1, 0 <= k < chain(e1, first).len(),
        forall|e: int| 0 <= e < n && e != chain(e1, first)[k] ==> e2[e] == #[trigger] e1[e],
        e2[n as int].next_outgoing_edge == e1[chain(e1, first)[k] as int].next_outgoing_edge,
        e2[chain(e1, first)[k] as int].next_outgoing_edge == Some(n),
    ensures
        chain(e2, first) == chain(e1, first).insert(k + 1, n),
    decreases k
{
    lemma_chain_range(e1, first);
    lemma_chain_range(e2, first);
    let c = chain(e1, first);
    let i0 = first->0;
    assert(next_ok(e1, i0 as int));
    let next = e1[i0 as int].next_outgoing_edge;
    if k == 0 {
        assert(next_ok(e2, i0 as int));
        lemma_chain_same_tail(e1, e2, next, i0 as int);
        assert(chain(e2, Some(n)) =~= seq![n] + chain(e1, next)) by { assert(next_ok(e2, n as int)); }
        assert(chain(e2, first) =~= c.insert(1, n));
    } else {
        assert(c.drop_first()[k - 1] == c[k]);
        lemma_chain_insert(e1, e2, next, k - 1, n);
        assert(c.drop_first().insert(k, n) =~= c.insert(k + 1, n).drop_first());
        assert(chain(e2, first) =~= c.insert(k + 1, n));
    }
}
pub proof fn lemma_chain_same_tail(e1: Seq<EdgeData>, e2: Seq<EdgeData>, first: Option<usize>, x: int)
    requires
        edges_wf(e1), in_range(e1, first), 0 <= x < e1.len(), e1.len() <= e2.len(), edges_wf(e2),
        first is Some ==> e1[first->0 as int].id < e1[x].id,
        forall|e: int| 0 <= e < e1.len() && e != x ==> e2[e] == #[trigger] e1[e],
    ensures chain(e2, first) == chain(e1, first)
    decreases (match first { Some(i) => e1[i as int].id + 1, None => 0 })
{
    if first is Some {
        let i0 = first->0 as int;
        assert(next_ok(e1, i0));
        assert(next_ok(e2, i0));
        lemma_chain_same_tail(e1, e2, e1[i0].next_outgoing_edge, x);
    }
}
pub open spec fn moved_links(a: Seq<(EdgeId, NodeIndex)>, b: Seq<(EdgeId, NodeIndex)>, by: int) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && b[i].1 == a[i].1 + by
}
pub open spec fn next_id(s: Seq<(EdgeId, NodeIndex)>) -> EdgeId { if s.len() == 0 { 0 } else { (s[0].0 + 1) as usize } }
pub open spec fn has_id(s: Seq<(EdgeId, NodeIndex)>, id: EdgeId) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == id }
pub open spec fn ids_descend(s: Seq<(EdgeId, NodeIndex)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 > (#[trigger] s[j]).0 }
/// the node a sequence of ids leads to
pub open spec fn path_end<T>(g: &Graph<T>, n: Option<NodeIndex>, ids: Seq<EdgeId>, r: Option<NodeIndex>) -> bool
    decreases ids.len()
{
    if ids.len() == 0 { r == n } else {
        exists|m: Option<NodeIndex>| #[trigger] g.step(n, ids[0], m) && path_end(g, m, ids.drop_first(), r)
    }
}
pub proof fn lemma_path_none<T>(g: &Graph<T>, ids: Seq<EdgeId>)
    ensures path_end(g, None, ids, None)
    decreases ids.len()
{
    if ids.len() > 0 { lemma_path_none(g, ids.drop_first()); assert(g.step(None, ids[0], None)); }
}
pub proof fn lemma_path_step<T>(g: &Graph<T>, n: Option<NodeIndex>, m: Option<NodeIndex>, ids: Seq<EdgeId>, i: int)
    requires 0 <= i < ids.len(), g.step(n, ids[i], m)
    ensures forall|r: Option<NodeIndex>| #[trigger] path_end(g, m, ids.skip(i + 1), r) ==> path_end(g, n, ids.skip(i), r)
{
    assert(ids.skip(i).drop_first() =~= ids.skip(i + 1));
    assert(g.step(n, ids.skip(i)[0], m));
}
/// What a graph is after an edge was put behind the first k edges of a node.
pub proof fn lemma_inserted<T>(o: Graph<T>, g: Graph<T>, source: int, k: int, id: EdgeId, target: NodeIndex, next: Option<usize>)
    requires
        o.wf(), 0 <= source < o.nodes@.len(), target < o.nodes@.len(), 0 <= k <= o.out_edges(source).len(), o.edges@.len() <= usize::MAX,
        g.nodes@.len() == o.nodes@.len(), g.edges@.len() == o.edges@.len() + 1,
        forall|n: int| 0 <= n < o.nodes@.len() && !(k == 0 && n == source) ==> #[trigger] g.nodes@[n] == o.nodes@[n],
        forall|e: int| 0 <= e < o.edges@.len() && !(k > 0 && e == o.out_edges(source)[k - 1]) ==> #[trigger] g.edges@[e] == o.edges@[e],
        next == (if k == 0 { o.nodes@[source].first_outgoing_edge } else { o.edges@[o.out_edges(source)[k - 1] as int].next_outgoing_edge }),
        next is Some ==> o.edges@[next->0 as int].id < id,
        k > 0 ==> o.edges@[o.out_edges(source)[k - 1] as int].id > id,
        g.edges@.last() == (EdgeData { target, next_outgoing_edge: next, id }),
        k == 0 ==> g.nodes@[source].data == o.nodes@[source].data && g.nodes@[source].first_outgoing_edge == Some(o.edges@.len() as usize),
        k > 0 ==> g.edges@[o.out_edges(source)[k - 1] as int] == (EdgeData { next_outgoing_edge: Some(o.edges@.len() as usize), ..o.edges@[o.out_edges(source)[k - 1] as int] }),
    ensures
        g.wf(), g.keeps(&o, source), g.out(source) == o.out(source).insert(k, (id, target)),
{
    let e1 = o.edges@; let e2 = g.edges@; let l = e1.len() as usize;
    let c = o.out_edges(source);
    let first = o.nodes@[source].first_outgoing_edge;
    let owner = choose|owner: Seq<int>| #[trigger] o.owned(owner);
    assert(o.owned(owner));
    let owner2 = owner.push(source);
    o.lemma_out(source);
    lemma_chain_frame(e1, e1, owner, source, first);
    if k > 0 { assert(owner[c[k - 1] as int] == source); assert(next_ok(e1, c[k - 1] as int)); }
    assert forall|e: int| 0 <= e < e2.len() implies #[trigger] next_ok(e2, e) by { if e < e1.len() { assert(next_ok(e1, e)); } }
    assert forall|e: int| 0 <= e < e2.len() implies (#[trigger] e2[e]).target < g.nodes@.len() by { if e < e1.len() { assert(e1[e].target < o.nodes@.len()); } }
    assert forall|e: int| 0 <= e < e2.len() && (#[trigger] e2[e]).next_outgoing_edge is Some implies owner2[e2[e].next_outgoing_edge->0 as int] == owner2[e] by {
        if e < e1.len() {
            assert(next_ok(e1, e));
            if !(k > 0 && e == c[k - 1]) { assert(e2[e] == e1[e]); assert(owner[e1[e].next_outgoing_edge->0 as int] == owner[e]); }
        } else if k > 0 {
            assert(owner[e1[c[k - 1] as int].next_outgoing_edge->0 as int] == owner[c[k - 1] as int]);
        }
    }
    assert(owns(e2, owner2));
    assert forall|n: int| 0 <= n < g.nodes@.len() && (#[trigger] g.nodes@[n]).first_outgoing_edge is Some implies
        g.nodes@[n].first_outgoing_edge->0 < e2.len() && owner2[g.nodes@[n].first_outgoing_edge->0 as int] == n by {
        if !(k == 0 && n == source) { assert(g.nodes@[n] == o.nodes@[n]); }
    }
    assert(g.owned(owner2));
    assert(g.wf());
    assert forall|m: int| 0 <= m < o.nodes@.len() && m != source implies #[trigger] g.out(m) == o.out(m) by {
        lemma_chain_frame(e1, e2, owner, m, o.nodes@[m].first_outgoing_edge);
        assert(g.nodes@[m] == o.nodes@[m]);
    }
    assert forall|m: int| 0 <= m < o.nodes@.len() implies #[trigger] g.data(m) == o.data(m) by { if !(k == 0 && m == source) { assert(g.nodes@[m] == o.nodes@[m]); } }
    if k > 0 {
        lemma_chain_insert(e1, e2, first, k - 1, l);
        assert(g.nodes@[source] == o.nodes@[source]);
    } else {
        assert(next_ok(e2, l as int));
        lemma_chain_frame(e1, e2, owner, source, first);
        assert(g.out_edges(source) =~= c.insert(0, l));
    }
    assert(g.out_edges(source) == c.insert(k, l));
    assert forall|i: int| 0 <= i < c.len() implies e2[#[trigger] c[i] as int].id == e1[c[i] as int].id && e2[c[i] as int].target == e1[c[i] as int].target by {
        if !(k > 0 && c[i] == c[k - 1]) { assert(e2[c[i] as int] == e1[c[i] as int]); }
    }
    assert(g.out(source) =~= o.out(source).insert(k, (id, target)));
}
/// Edges moved behind others keep their chains.
pub proof fn lemma_chain_shift(e1: Seq<EdgeData>, e2: Seq<EdgeData>, first: Option<usize>, eo: usize, no: usize)
    requires
        edges_wf(e1), in_range(e1, first), e2.len() == eo + e1.len(), e2.len() <= usize::MAX,
        forall|e: int| 0 <= e < e1.len() ==> is_shifted(e1[e], #[trigger] e2[eo + e], eo, no),
    ensures
        chain(e2, shift(first, eo)).len() == chain(e1, first).len(),
        forall|i: int| 0 <= i < chain(e1, first).len() ==> #[trigger] chain(e2, shift(first, eo))[i] == chain(e1, first)[i] + eo,
    decreases (match first { Some(i) => e1[i as int].id + 1, None => 0 })
{
    if first is Some {
        let i0 = first->0 as int;
        assert(next_ok(e1, i0));
        let next = e1[i0].next_outgoing_edge;
        assert(is_shifted(e1[i0], e2[eo + i0], eo, no));
        lemma_chain_shift(e1, e2, next, eo, no);
        if next is Some { assert(is_shifted(e1[next->0 as int], e2[eo + next->0 as int], eo, no)); }
        assert(next_ok(e2, eo + i0));
        assert(shift(first, eo)->0 == eo + i0);
        assert(chain(e2, shift(first, eo)) == seq![(eo + i0) as usize] + chain(e2, shift(next, eo)));
    }
}
pub open spec fn shift(x: Option<usize>, by: usize) -> Option<usize> { match x { Some(i) => Some((i + by) as usize), None => None } }
pub open spec fn is_shifted(a: EdgeData, b: EdgeData, eo: usize, no: usize) -> bool {
    b.id == a.id && b.target == a.target + no && b.next_outgoing_edge == shift(a.next_outgoing_edge, eo)
}
impl<T> Graph<T> {
    pub open spec fn out_edges(&self, n: int) -> Seq<usize> { chain(self.edges@, self.nodes@[n].first_outgoing_edge) }
    /// id and target of the edges leaving node `n`, highest id first
    pub open spec fn out(&self, n: int) -> Seq<(EdgeId, NodeIndex)> { links(self.edges@, self.out_edges(n)) }
    pub open spec fn owned(&self, owner: Seq<int>) -> bool {
        &&& owns(self.edges@, owner)
        &&& forall|n: int| 0 <= n < self.nodes@.len() && (#[trigger] self.nodes@[n]).first_outgoing_edge is Some ==>
            self.nodes@[n].first_outgoing_edge->0 < self.edges@.len() && owner[self.nodes@[n].first_outgoing_edge->0 as int] == n
    }
    pub open spec fn wf(&self) -> bool {
        &&& edges_wf(self.edges@)
        &&& forall|e: int| 0 <= e < self.edges@.len() ==> (#[trigger] self.edges@[e]).target < self.nodes@.len()
        &&& exists|owner: Seq<int>| #[trigger] self.owned(owner)
    }
    pub open spec fn data(&self, n: int) -> T { self.nodes@[n].data }
    /// from node n the edge `id` leads to m (None: there is no such edge, or no n)
    pub open spec fn step(&self, n: Option<NodeIndex>, id: EdgeId, m: Option<NodeIndex>) -> bool {
        match m {
            Some(t) => n is Some && self.out(n->0 as int).contains((id, t)),
            None => n is None || !has_id(self.out(n->0 as int), id),
        }
    }
    /// nodes and their data stay, and the edges of all nodes but `n`
    pub open spec fn keeps(&self, o: &Self, n: int) -> bool {
        &&& self.nodes@.len() >= o.nodes@.len()
        &&& forall|m: int| 0 <= m < o.nodes@.len() ==> #[trigger] self.data(m) == o.data(m)
        &&& forall|m: int| 0 <= m < o.nodes@.len() && m != n ==> #[trigger] self.out(m) == o.out(m)
    }
    pub proof fn lemma_out(&self, n: int)
        requires self.wf(), 0 <= n < self.nodes@.len()
        ensures
            ids_descend(self.out(n)),
            forall|i: int| 0 <= i < self.out(n).len() ==> (#[trigger] self.out(n)[i]).1 < self.nodes@.len(),
            forall|i: int| 0 <= i < self.out(n).len() ==> (#[trigger] self.out_edges(n)[i]) < self.edges@.len(),
            in_range(self.edges@, self.nodes@[n].first_outgoing_edge),
            self.out(n).len() == self.out_edges(n).len(),
    {
        let owner = choose|owner: Seq<int>| #[trigger] self.owned(owner);
        assert(self.owned(owner));
        assert(in_range(self.edges@, self.nodes@[n].first_outgoing_edge));
        lemma_chain_range(self.edges@, self.nodes@[n].first_outgoing_edge);
    }
}
@*/
enum ThingWithNextEdge {
    Node(NodeIndex),
    Edge(EdgeIndex),
}

pub struct Graph<T> {
    pub nodes: Vec<NodeData<T>>,
    pub edges: Vec<EdgeData>,
}

pub type NodeIndex = usize;

pub struct NodeData<T> {
    pub first_outgoing_edge: Option<EdgeIndex>,
    pub data: T,
}

pub type EdgeIndex = usize;
pub type EdgeId = usize;

pub struct EdgeData {
    pub target: NodeIndex,
    pub id: EdgeId,
    pub next_outgoing_edge: Option<EdgeIndex>,
}

impl<T> Default for Graph<T> {
    fn default() -> /*@ (r: @*/ Self /*@ )
        ensures r.wf(), r.nodes@.len() == 0, r.edges@.len() == 0 @*/ {
        Self::new()
    }
}

impl<T> Graph<T> {
    #[must_use]
    pub fn new() -> /*@ (r: @*/ Graph<T> /*@ )
        ensures r.wf(), r.nodes@.len() == 0, r.edges@.len() == 0 @*/ {
        /*@ let r = @*/ Graph {
            nodes: vec![],
            edges: vec![],
        } /*@ ; proof { assert(r.owned(Seq::<int>::empty())); } r @*/
    }

    pub fn add_node(&mut self, data: T) -> /*@ (r: @*/ NodeIndex /*@ )
        requires old(self).wf()
        ensures
            final(self).wf(), r == old(self).nodes@.len(), final(self).nodes@.len() == r + 1, final(self).data(r as int) == data,
            final(self).out(r as int).len() == 0, final(self).keeps(&*old(self), -1), final(self).edges == old(self).edges, @*/ {
        let index = self.nodes.len();
        self.nodes.push(NodeData {
            first_outgoing_edge: None,
            data,
        });
        /*@ proof {
            let owner = choose|owner: Seq<int>| #[trigger] old(self).owned(owner);
            assert(self.owned(owner));
        } @*/
        index
    }

    pub fn add_edge(&mut self, source: NodeIndex, target: NodeIndex) /*@
        requires
            old(self).wf(), source < old(self).nodes@.len(), target < old(self).nodes@.len(),
            old(self).out(source as int).len() > 0 ==> old(self).out(source as int)[0].0 < usize::MAX,
        ensures
            final(self).wf(), final(self).keeps(&*old(self), source as int), final(self).nodes@.len() == old(self).nodes@.len(),
            final(self).edges@.len() == old(self).edges@.len() + 1,
            final(self).out(source as int) == seq![(next_id(old(self).out(source as int)), target)] + old(self).out(source as int), @*/ {
        /*@ proof { self.lemma_out(source as int); lemma_chain_range(self.edges@, self.nodes@[source as int].first_outgoing_edge); } @*/
        let edge_index: EdgeIndex = self.edges.len();
        let node_data = &mut self.nodes[source];
        let last_edge_index = node_data.first_outgoing_edge;
        let new_edge_id = match last_edge_index {
            None => 0,
            Some(index) => self.edges.get(index).unwrap().id + 1,
        };
        self.edges.push(EdgeData {
            target,
            next_outgoing_edge: node_data.first_outgoing_edge,
            id: new_edge_id,
        });
        node_data.first_outgoing_edge = Some(edge_index);
        /*@ proof {
            let e1 = old(self).edges@; let e2 = self.edges@;
            let owner = choose|owner: Seq<int>| #[trigger] old(self).owned(owner);
            let owner2 = owner.push(source as int);
            assert(e2.len() == e1.len() + 1);
            assert forall|e: int| 0 <= e < e2.len() implies #[trigger] next_ok(e2, e) by { if e < e1.len() { assert(next_ok(e1, e)); assert(e2[e] == e1[e]); } }
            assert(owns(e2, owner2)) by {
                assert forall|e: int| 0 <= e < e2.len() && (#[trigger] e2[e]).next_outgoing_edge is Some implies owner2[e2[e].next_outgoing_edge->0 as int] == owner2[e] by {
                    if e < e1.len() { assert(e2[e] == e1[e]); assert(next_ok(e1, e)); }
                }
            }
            assert forall|n: int| 0 <= n < self.nodes@.len() && (#[trigger] self.nodes@[n]).first_outgoing_edge is Some implies
                self.nodes@[n].first_outgoing_edge->0 < e2.len() && owner2[self.nodes@[n].first_outgoing_edge->0 as int] == n by {
                if n != source { assert(self.nodes@[n] == old(self).nodes@[n]); }
            }
            assert(self.owned(owner2));
            assert forall|m: int| 0 <= m < old(self).nodes@.len() implies
                chain(e2, old(self).nodes@[m].first_outgoing_edge) == #[trigger] old(self).out_edges(m) && links(e2, old(self).out_edges(m)) == old(self).out(m) by {
                lemma_chain_frame(e1, e2, owner, m, old(self).nodes@[m].first_outgoing_edge);
            }
            assert forall|m: int| 0 <= m < old(self).nodes@.len() && m != source implies #[trigger] self.out(m) == old(self).out(m) by { assert(old(self).out_edges(m) == old(self).out_edges(m)); }
            assert(next_ok(e2, edge_index as int));
            assert(self.out_edges(source as int) =~= seq![edge_index] + old(self).out_edges(source as int));
            assert(links(e2, old(self).out_edges(source as int)) == old(self).out(source as int));
            assert forall|i: int| 0 <= i < old(self).out(source as int).len() implies self.out(source as int)[i + 1] == #[trigger] old(self).out(source as int)[i] by {
                assert(links(e2, old(self).out_edges(source as int))[i] == old(self).out(source as int)[i]);
            }
            assert(self.out(source as int) =~= seq![(next_id(old(self).out(source as int)), target)] + old(self).out(source as int));
        } @*/
    }

    pub fn try_add_edge_with_id(
        &mut self,
        source: NodeIndex,
        target: NodeIndex,
        id: usize,
    ) -> /*@ (r: @*/ bool /*@ )
        requires old(self).wf(), source < old(self).nodes@.len(), target < old(self).nodes@.len(),
        ensures
            final(self).wf(), final(self).nodes@.len() == old(self).nodes@.len(), r == !has_id(old(self).out(source as int), id),
            !r ==> *final(self) == *old(self),
            r ==> final(self).keeps(&*old(self), source as int) && exists|k: int| 0 <= k <= old(self).out(source as int).len()
                && final(self).out(source as int) == #[trigger] old(self).out(source as int).insert(k, (id, target)), @*/ {
        /*@ proof { self.lemma_out(source as int); lemma_chain_range(self.edges@, self.nodes@[source as int].first_outgoing_edge); }
        let ghost c = self.out_edges(source as int); let ghost mut k: int = 0; @*/
        let connected_edges = self.connected_edges(source);
        let mut previous = ThingWithNextEdge::Node(source);
        let mut next_edge_index = self.nodes[source].first_outgoing_edge;
        for connected_edge_index in /*@ iter: @*/ connected_edges
            /*@ invariant_except_break
                k == iter.index(),
            invariant
                iter.seq() == c, c == self.out_edges(source as int), *self == *old(self), self.wf(), source < self.nodes@.len(),
                0 <= k <= c.len(),
                forall|i: int| 0 <= i < k ==> self.edges@[#[trigger] c[i] as int].id > id,
                forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]) < self.edges@.len(),
                previous == (if k == 0 { ThingWithNextEdge::Node(source) } else { ThingWithNextEdge::Edge(c[k - 1]) }),
                next_edge_index == (if k == 0 { self.nodes@[source as int].first_outgoing_edge } else { self.edges@[c[k - 1] as int].next_outgoing_edge }),
            ensures
                k < c.len() ==> self.edges@[c[k] as int].id < id,
            @*/ {
            let connected_edge = &self.edges[connected_edge_index];
            if connected_edge.id == id {
                /*@ proof { assert(self.out(source as int)[k].0 == id); } @*/
                return false;
            } else if connected_edge.id > id {
                previous = ThingWithNextEdge::Edge(connected_edge_index);
                next_edge_index = connected_edge.next_outgoing_edge;
                /*@ proof { k = k + 1; } @*/
                continue;
            }
            break;
        }
        /*@ proof {
            let first = self.nodes@[source as int].first_outgoing_edge;
            assert(!has_id(self.out(source as int), id)) by {
                assert forall|i: int| 0 <= i < self.out(source as int).len() implies (#[trigger] self.out(source as int)[i]).0 != id by {
                    if i < k { assert(self.edges@[c[i] as int].id > id); } else { if i > k { assert(self.edges@[c[k] as int].id > self.edges@[c[i] as int].id); } }
                }
            }
            if k > 0 {
                lemma_chain_skip(self.edges@, first, k - 1);
                assert(next_ok(self.edges@, c[k - 1] as int));
                lemma_chain_range(self.edges@, next_edge_index);
                if next_edge_index is Some { assert(c.skip(k)[0] == c[k]); }
                assert(self.edges@[c[k - 1] as int].id > id);
            }
            assert(next_edge_index is Some ==> self.edges@[next_edge_index->0 as int].id < id);
        } @*/
        let edge_index: EdgeIndex = self.edges.len();
        match previous {
            ThingWithNextEdge::Node(node) => {
                self.nodes[node].first_outgoing_edge = Some(edge_index)
            }
            ThingWithNextEdge::Edge(edge) => self.edges[edge].next_outgoing_edge = Some(edge_index),
        }

        self.edges.push(EdgeData {
            target,
            next_outgoing_edge: next_edge_index,
            id,
        });
        /*@ proof { lemma_inserted(*old(self), *self, source as int, k, id, target, next_edge_index); } @*/

        true
    }
    #[must_use]
    pub fn find_node_index(&self, source: NodeIndex, id: EdgeId) -> /*@ (r: @*/ Option<NodeIndex> /*@ )
        requires self.wf(), source < self.nodes@.len()
        ensures self.step(Some(source), id, r), r is Some ==> r->0 < self.nodes@.len() @*/ {
        /*@ proof { self.lemma_out(source as int); }
        let ghost c = self.out_edges(source as int); @*/
        let edges = self.connected_edges(source);
        for edge_index in /*@ iter: @*/ edges
            /*@ invariant
                iter.seq() == c, c == self.out_edges(source as int), self.wf(), source < self.nodes@.len(), ids_descend(self.out(source as int)),
                forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]) < self.edges@.len(),
                forall|i: int| 0 <= i < iter.index() ==> self.edges@[#[trigger] c[i] as int].id > id,
            @*/ {
            /*@ proof { assert(self.out(source as int)[iter.index()] == (self.edges@[c[iter.index()] as int].id, self.edges@[c[iter.index()] as int].target)); } @*/
            let edge = &self.edges[edge_index];
            if edge.id == id {
                return Some(edge.target);
            } else if edge.id < id {
                return None;
            }
        }
        None
    }
    pub fn find_node_index_by_path(
        &self,
        source: NodeIndex,
        ids: impl Iterator<Item = EdgeIndex>,
    ) -> /*@ (r: @*/ Option<NodeIndex> /*@ )
        requires self.wf(), source < self.nodes@.len(), laws(&ids), iter_decrease(&ids) is Some,
        ensures path_end(self, Some(source), rest(&ids), r), r is Some ==> r->0 < self.nodes@.len() @*/ {
        let mut cur_node_index = Some(source);
        for id in /*@ iter: @*/ ids
            /*@ invariant
                laws(&iter.iter), self.wf(), source < self.nodes@.len(), iter.seq() == rest(&ids),
                cur_node_index is Some ==> cur_node_index->0 < self.nodes@.len(),
                forall|r: Option<NodeIndex>| path_end(self, cur_node_index, iter.seq().skip(iter.index()), r) ==> #[trigger] path_end(self, Some(source), iter.seq(), r),
            @*/ {
            /*@ proof { lemma_path_none(self, iter.seq().skip(iter.index())); } @*/
            match cur_node_index {
                None => return None,
                Some(cni) => {
                    cur_node_index = self.find_node_index(cni, id);
                    /*@ proof { lemma_path_step(self, Some(cni), cur_node_index, iter.seq(), iter.index()); } @*/
                }
            }
        }
        cur_node_index
    }

    #[must_use]
    pub fn find_node(&self, source: NodeIndex, id: EdgeId) -> /*@ (r: @*/ Option<&NodeData<T>> /*@ )
        requires self.wf(), source < self.nodes@.len()
        ensures exists|m: Option<NodeIndex>| #[trigger] self.step(Some(source), id, m) && match m { Some(t) => r == Some(&self.nodes@[t as int]), None => r is None } @*/ {
        self.find_node_index(source, id)
            .map(/*@< |index: usize| -> (x: &NodeData<T>) requires index < self.nodes@.len() ensures *x == self.nodes@[index as int] { @*/ |index| /*@>@*/ &self.nodes[index] /*@ } @*/)
    }

    pub fn find_node_by_path(
        &self,
        source: NodeIndex,
        ids: impl Iterator<Item = EdgeIndex>,
    ) -> /*@ (r: @*/ Option<&NodeData<T>> /*@ )
        requires self.wf(), source < self.nodes@.len(), laws(&ids), iter_decrease(&ids) is Some,
        ensures exists|m: Option<NodeIndex>| #[trigger] path_end(self, Some(source), rest(&ids), m) && match m { Some(t) => r == Some(&self.nodes@[t as int]), None => r is None } @*/ {
        self.find_node_index_by_path(source, ids)
            .map(/*@< |index: usize| -> (x: &NodeData<T>) requires index < self.nodes@.len() ensures *x == self.nodes@[index as int] { @*/ |index| /*@>@*/ &self.nodes[index] /*@ } @*/)
    }

    #[must_use]
    pub fn successors(&self, source: NodeIndex) -> /*@ (r: @*/ Successors<'_, T> /*@ )
        requires self.wf(), source < self.nodes@.len()
        ensures laws(&r), will_end(&r), iter_decrease(&r) is Some,
            rest(&r).len() == self.out(source as int).len(), forall|i: int| 0 <= i < rest(&r).len() ==> #[trigger] rest(&r)[i] == self.out(source as int)[i].1, @*/ {
        /*@ proof { self.lemma_out(source as int); } @*/
        let first_outgoing_edge = self.nodes[source].first_outgoing_edge;
        Successors {
            graph: self,
            current_edge_index: first_outgoing_edge,
        }
    }

    #[must_use]
    pub fn connected_edges(&self, source: NodeIndex) -> /*@ (r: @*/ ConnectedEdges<'_, T> /*@ )
        requires self.wf(), source < self.nodes@.len()
        ensures laws(&r), will_end(&r), iter_decrease(&r) is Some, rest(&r) == self.out_edges(source as int) @*/ {
        /*@ proof { self.lemma_out(source as int); } @*/
        ConnectedEdges {
            graph: self,
            current_edge_index: self.nodes[source].first_outgoing_edge,
        }
    }

    pub fn add_graph_at_node(&mut self, graph: Graph<T>, this: NodeIndex, other: NodeIndex) /*@
        requires
            old(self).wf(), graph.wf(), this < old(self).nodes@.len(), other < graph.nodes@.len(),
            old(self).nodes@.len() + graph.nodes@.len() <= usize::MAX, old(self).edges@.len() + graph.edges@.len() <= usize::MAX,
            old(self).out(this as int).len() > 0 ==> old(self).out(this as int)[0].0 < usize::MAX,
        ensures
            final(self).wf(), final(self).nodes@.len() == old(self).nodes@.len() + graph.nodes@.len(),
            final(self).keeps(&*old(self), this as int),
            final(self).out(this as int) == seq![(next_id(old(self).out(this as int)), (other + old(self).nodes@.len()) as usize)] + old(self).out(this as int),
            forall|m: int| 0 <= m < graph.nodes@.len() ==> #[trigger] graph.data(m) == final(self).data(m + old(self).nodes@.len()),
            forall|m: int| 0 <= m < graph.nodes@.len() ==> moved_links(#[trigger] graph.out(m), final(self).out(m + old(self).nodes@.len()), old(self).nodes@.len() as int), @*/ {
        let node_offset = self.nodes.len();
        let edge_offset = self.edges.len();
        for node in /*@ iter: @*/ graph.nodes.into_iter()
            /*@ invariant
                iter.seq() == graph.nodes@, self.edges == old(self).edges, node_offset == old(self).nodes@.len(), edge_offset == old(self).edges@.len(),
                graph.wf(), old(self).edges@.len() + graph.edges@.len() <= usize::MAX,
                self.nodes@.len() == old(self).nodes@.len() + iter.index(),
                forall|m: int| 0 <= m < old(self).nodes@.len() ==> #[trigger] self.nodes@[m] == old(self).nodes@[m],
                forall|m: int| 0 <= m < iter.index() ==> (#[trigger] self.nodes@[m + node_offset]).data == graph.nodes@[m].data
                    && self.nodes@[m + node_offset].first_outgoing_edge == shift(graph.nodes@[m].first_outgoing_edge, edge_offset),
            @*/ {
            /*@ proof { graph.lemma_out(iter.index()); } @*/
            let first_outgoing_edge: Option<EdgeIndex> =
                node.first_outgoing_edge.map(/*@< |ei: usize| -> (x: usize) requires edge_offset + ei <= usize::MAX ensures x == edge_offset + ei { @*/ |ei| /*@>@*/ edge_offset + ei /*@ } @*/);
            self.nodes.push(NodeData {
                data: node.data,
                first_outgoing_edge,
            });
        }

        /*@ let ghost nodes1 = self.nodes; @*/
        for edge in /*@ iter: @*/ graph.edges.into_iter()
            /*@ invariant
                iter.seq() == graph.edges@, self.nodes == nodes1, node_offset == old(self).nodes@.len(), edge_offset == old(self).edges@.len(),
                graph.wf(), old(self).nodes@.len() + graph.nodes@.len() <= usize::MAX, old(self).edges@.len() + graph.edges@.len() <= usize::MAX,
                self.edges@.len() == old(self).edges@.len() + iter.index(),
                forall|e: int| 0 <= e < old(self).edges@.len() ==> #[trigger] self.edges@[e] == old(self).edges@[e],
                forall|e: int| 0 <= e < iter.index() ==> is_shifted(graph.edges@[e], #[trigger] self.edges@[e + edge_offset], edge_offset, node_offset),
            @*/ {
            /*@ proof { assert(next_ok(graph.edges@, iter.index())); assert(graph.edges@[iter.index()].target < graph.nodes@.len()); } @*/
            let next_outgoing_edge: Option<EdgeIndex> =
                edge.next_outgoing_edge.map(/*@< |ei: usize| -> (x: usize) requires edge_offset + ei <= usize::MAX ensures x == edge_offset + ei { @*/ |ei| /*@>@*/ edge_offset + ei /*@ } @*/);
            self.edges.push(EdgeData {
                target: node_offset + edge.target,
                next_outgoing_edge,
                id: edge.id,
            });
        }
        /*@ let ghost mid = *self;
        proof {
            let e0 = graph.edges@; let e1 = old(self).edges@; let e2 = self.edges@;
            let ow = choose|owner: Seq<int>| #[trigger] old(self).owned(owner);
            assert(old(self).owned(ow));
            let og = choose|owner: Seq<int>| #[trigger] graph.owned(owner);
            assert(graph.owned(og));
            let owner2 = ow + og.map_values(|n: int| n + node_offset);
            assert forall|e: int| 0 <= e < e0.len() implies is_shifted(e0[e], #[trigger] e2[edge_offset + e], edge_offset, node_offset) by { assert(is_shifted(e0[e], e2[e + edge_offset], edge_offset, node_offset)); }
            assert forall|e: int| 0 <= e < e2.len() implies #[trigger] next_ok(e2, e) && e2[e].target < self.nodes@.len()
                && (e2[e].next_outgoing_edge is Some ==> owner2[e2[e].next_outgoing_edge->0 as int] == owner2[e]) by {
                if e < e1.len() { assert(next_ok(e1, e)); assert(e2[e] == e1[e]); assert(e1[e].target < old(self).nodes@.len()); }
                else {
                    let f = e - edge_offset;
                    assert(is_shifted(e0[f], e2[f + edge_offset], edge_offset, node_offset)); assert(next_ok(e0, f)); assert(e0[f].target < graph.nodes@.len());
                    if e0[f].next_outgoing_edge is Some { let h = e0[f].next_outgoing_edge->0; assert(is_shifted(e0[h as int], e2[h + edge_offset], edge_offset, node_offset)); assert(og[h as int] == og[f]); }
                }
            }
            assert forall|n: int| 0 <= n < self.nodes@.len() && (#[trigger] self.nodes@[n]).first_outgoing_edge is Some implies
                self.nodes@[n].first_outgoing_edge->0 < e2.len() && owner2[self.nodes@[n].first_outgoing_edge->0 as int] == n by {
                if n < old(self).nodes@.len() { assert(self.nodes@[n] == old(self).nodes@[n]); }
                else { let m = n - node_offset; assert(self.nodes@[m + node_offset].data == graph.nodes@[m].data); assert(graph.nodes@[m].first_outgoing_edge is Some); }
            }
            assert forall|e: int| 0 <= e < e2.len() implies (#[trigger] e2[e]).target < self.nodes@.len() && (e2[e].next_outgoing_edge is Some ==> owner2[e2[e].next_outgoing_edge->0 as int] == owner2[e]) by { assert(next_ok(e2, e)); }
            assert(owns(e2, owner2));
            assert(self.owned(owner2));
            assert forall|m: int| 0 <= m < old(self).nodes@.len() implies #[trigger] self.out(m) == old(self).out(m) by {
                lemma_chain_frame(e1, e2, ow, m, old(self).nodes@[m].first_outgoing_edge);
                assert(self.nodes@[m] == old(self).nodes@[m]);
            }
            assert forall|m: int| 0 <= m < graph.nodes@.len() implies moved_links(#[trigger] graph.out(m), self.out(m + node_offset), node_offset as int) by {
                graph.lemma_out(m);
                lemma_chain_shift(e0, e2, graph.nodes@[m].first_outgoing_edge, edge_offset, node_offset);
                assert(self.nodes@[m + node_offset].data == graph.nodes@[m].data);
                assert forall|i: int| 0 <= i < graph.out(m).len() implies (#[trigger] self.out(m + node_offset)[i]).0 == graph.out(m)[i].0 && self.out(m + node_offset)[i].1 == graph.out(m)[i].1 + node_offset by {
                    let e = graph.out_edges(m)[i];
                    assert(self.out_edges(m + node_offset)[i] == e + edge_offset);
                    assert(is_shifted(e0[e as int], e2[e + edge_offset], edge_offset, node_offset));
                }
            }
            assert forall|m: int| 0 <= m < old(self).nodes@.len() implies #[trigger] self.data(m) == old(self).data(m) by { assert(self.nodes@[m] == old(self).nodes@[m]); }
            assert forall|m: int| 0 <= m < graph.nodes@.len() implies #[trigger] graph.data(m) == self.data(m + node_offset) by { assert(self.nodes@[m + node_offset].data == graph.nodes@[m].data); }
        } @*/
        self.add_edge(this, other + node_offset);
        /*@ proof {
            assert forall|m: int| 0 <= m < old(self).nodes@.len() && m != this implies #[trigger] self.out(m) == old(self).out(m) by { assert(mid.out(m) == old(self).out(m)); }
            assert forall|m: int| 0 <= m < old(self).nodes@.len() implies #[trigger] self.data(m) == old(self).data(m) by { assert(mid.data(m) == old(self).data(m)); }
            assert forall|m: int| 0 <= m < graph.nodes@.len() implies #[trigger] graph.data(m) == self.data(m + node_offset) by { assert(mid.data(m + node_offset) == graph.data(m)); }
            assert forall|m: int| 0 <= m < graph.nodes@.len() implies moved_links(#[trigger] graph.out(m), self.out(m + node_offset), node_offset as int) by { assert(self.out(m + node_offset) == mid.out(m + node_offset)); }
            assert(mid.out(this as int) == old(self).out(this as int));
        } @*/
    }
}

pub struct Successors<'graph, T> {
    graph: &'graph Graph<T>,
    current_edge_index: Option<EdgeIndex>,
}

/*@
impl<'graph, T> Successors<'graph, T> {
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { self.graph.wf() && in_range(self.graph.edges@, self.current_edge_index) }
}
impl<'graph, T> IteratorSpecImpl for Successors<'graph, T> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    closed spec fn remaining(&self) -> Seq<NodeIndex> {
        Seq::new(chain(self.graph.edges@, self.current_edge_index).len(), |i: int| self.graph.edges@[chain(self.graph.edges@, self.current_edge_index)[i] as int].target)
    }
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { Some(chain(self.graph.edges@, self.current_edge_index).len()) }
    closed spec fn peek(&self, i: int) -> Option<NodeIndex> { None }
}
@*/
impl<T> Iterator for Successors<'_, T> {
    type Item = NodeIndex;

    fn next(&mut self) -> Option<NodeIndex> {
        /*@ proof { use_type_invariant(&*self); lemma_chain_range(self.graph.edges@, self.current_edge_index); if self.current_edge_index is Some { assert(next_ok(self.graph.edges@, self.current_edge_index->0 as int)); } } @*/
        match self.current_edge_index {
            None => None,
            Some(edge_num) => {
                let edge = &self.graph.edges[edge_num];
                self.current_edge_index = edge.next_outgoing_edge;
                Some(edge.target)
            }
        }
    }
}

pub struct ConnectedEdges<'graph, T> {
    graph: &'graph Graph<T>,
    current_edge_index: Option<EdgeIndex>,
}

/*@
impl<'graph, T> ConnectedEdges<'graph, T> {
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { self.graph.wf() && in_range(self.graph.edges@, self.current_edge_index) }
}
impl<'graph, T> IteratorSpecImpl for ConnectedEdges<'graph, T> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    closed spec fn remaining(&self) -> Seq<EdgeIndex> {
        Seq::new(chain(self.graph.edges@, self.current_edge_index).len(), |i: int| chain(self.graph.edges@, self.current_edge_index)[i])
    }
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { Some(chain(self.graph.edges@, self.current_edge_index).len()) }
    closed spec fn peek(&self, i: int) -> Option<EdgeIndex> { None }
}
@*/
impl<T> Iterator for ConnectedEdges<'_, T> {
    type Item = EdgeIndex;

    fn next(&mut self) -> Option<EdgeIndex> {
        /*@ proof { use_type_invariant(&*self); lemma_chain_range(self.graph.edges@, self.current_edge_index); if self.current_edge_index is Some { assert(next_ok(self.graph.edges@, self.current_edge_index->0 as int)); } } @*/
        match self.current_edge_index {
            None => None,
            Some(edge_num) => {
                let edge = &self.graph.edges[edge_num];
                self.current_edge_index = edge.next_outgoing_edge;
                Some(edge_num)
            }
        }
    }
}

