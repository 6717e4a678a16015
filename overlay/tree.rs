use crate::tree::TreeError::{ChildDoesNotExists, NodeDoesNotExist, NodeWasRemoved};
use std::fmt;
use std::sync::atomic::AtomicUsize;

/*@
use vstd::std_specs::iter::IteratorSpecImpl;

pub open spec fn live<T>(nodes: Seq<Node<T>>, free: Seq<usize>, i: int) -> bool { 0 <= i < nodes.len() && i <= usize::MAX && !free.contains(i as usize) }
/// the links of node i are mutual; children and later siblings have higher keys
pub open spec fn node_ok<T>(nodes: Seq<Node<T>>, free: Seq<usize>, i: int) -> bool {
    down_ok(nodes, free, i) && side_ok(nodes, free, i) && up_ok(nodes, free, i)
}
pub open spec fn down_ok<T>(nodes: Seq<Node<T>>, free: Seq<usize>, i: int) -> bool {
    let n = nodes[i];
    &&& n.first_child is Some <==> n.last_child is Some
    &&& n.first_child is Some ==> {
        let c = n.first_child->0 as int;
        live(nodes, free, c) && nodes[c].parent == Some(i as usize) && nodes[c].previous_sibling is None && nodes[c].pk > n.pk
    }
    &&& n.last_child is Some ==> {
        let c = n.last_child->0 as int;
        live(nodes, free, c) && nodes[c].parent == Some(i as usize) && nodes[c].next_sibling is None
    }
}
pub open spec fn side_ok<T>(nodes: Seq<Node<T>>, free: Seq<usize>, i: int) -> bool {
    let n = nodes[i];
    &&& n.next_sibling is Some ==> {
        let c = n.next_sibling->0 as int;
        live(nodes, free, c) && nodes[c].parent == n.parent && nodes[c].previous_sibling == Some(i as usize) && nodes[c].pk > n.pk
    }
    &&& n.previous_sibling is Some ==> {
        let c = n.previous_sibling->0 as int;
        live(nodes, free, c) && nodes[c].next_sibling == Some(i as usize)
    }
    &&& n.parent is None ==> n.next_sibling is None && n.previous_sibling is None
}
pub open spec fn up_ok<T>(nodes: Seq<Node<T>>, free: Seq<usize>, i: int) -> bool {
    let n = nodes[i];
    &&& n.parent is Some ==> {
        let p = n.parent->0 as int;
        &&& live(nodes, free, p) && nodes[p].pk < n.pk
        &&& n.previous_sibling is None ==> nodes[p].first_child == Some(i as usize)
        &&& n.next_sibling is None ==> nodes[p].last_child == Some(i as usize)
    }
}
pub open spec fn tree_ok<T>(nodes: Seq<Node<T>>, free: Seq<usize>, next_pk: nat) -> bool {
    &&& forall|i: int| live(nodes, free, i) ==> #[trigger] node_ok(nodes, free, i)
    &&& forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).pk < next_pk
    &&& forall|i: int, j: int| live(nodes, free, i) && live(nodes, free, j) && i != j ==> (#[trigger] nodes[i]).pk != (#[trigger] nodes[j]).pk
    &&& next_pk <= usize::MAX && nodes.len() <= usize::MAX
    &&& free.no_duplicates()
    &&& forall|k: int| 0 <= k < free.len() ==> (#[trigger] free[k]) < nodes.len()
}
pub open spec fn next_inc<T>(nodes: Seq<Node<T>>, i: int) -> bool {
    nodes[i].next_sibling is Some ==> nodes[i].next_sibling->0 < nodes.len() && nodes[nodes[i].next_sibling->0 as int].pk > nodes[i].pk
}
/// the node `first` and the siblings behind it
pub open spec fn chain<T>(nodes: Seq<Node<T>>, first: Option<usize>) -> Seq<usize>
    decreases (match first { None => 0int, Some(i) => 1 + usize::MAX - nodes[i as int].pk })
{
    match first {
        None => Seq::empty(),
        Some(i) => if i < nodes.len() && next_inc(nodes, i as int) { seq![i] + chain(nodes, nodes[i as int].next_sibling) } else { seq![i] },
    }
}
/// node i is node a or a descendant of it
pub open spec fn below<T>(nodes: Seq<Node<T>>, a: int, i: int) -> bool
    decreases nodes[i].pk
{
    i == a || (0 <= i < nodes.len() && nodes[i].parent is Some && nodes[i].parent->0 < nodes.len() && nodes[nodes[i].parent->0 as int].pk < nodes[i].pk
        && below(nodes, a, nodes[i].parent->0 as int))
}
pub open spec fn live_opt<T>(t: &Tree<T>, i: Option<usize>) -> bool { i is Some ==> t.is_live(i->0 as int) }
/// strictly increasing keys
pub open spec fn sorted<T>(nodes: Seq<Node<T>>, s: Seq<usize>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> nodes[#[trigger] s[i] as int].pk < nodes[#[trigger] s[j] as int].pk
}
pub proof fn lemma_sorted_unique<T>(nodes: Seq<Node<T>>, a: Seq<usize>, b: Seq<usize>)
    requires sorted(nodes, a), sorted(nodes, b), forall|x: usize| a.contains(x) <==> b.contains(x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a[0]));
        assert(b.contains(a[0]));
        let k = b.index_of(a[0]);
        assert(b[k] == a[0]);
        assert(b.contains(b[0]));
        assert(a.contains(b[0]));
        let m = a.index_of(b[0]);
        assert(a[m] == b[0]);
        assert(k == 0) by { if k > 0 { assert(nodes[b[0] as int].pk < nodes[b[k] as int].pk); if m > 0 { assert(nodes[a[0] as int].pk < nodes[a[m] as int].pk); } } }
        let (a1, b1) = (a.drop_first(), b.drop_first());
        assert forall|x: usize| a1.contains(x) <==> b1.contains(x) by {
            if a1.contains(x) { let i = a1.index_of(x); assert(a[i + 1] == x); assert(a.contains(x)); assert(b.contains(x)); let j = b.index_of(x); assert(b[j] == x);
                if j == 0 { assert(nodes[a[0] as int].pk < nodes[a[i + 1] as int].pk); } assert(b1[j - 1] == x); }
            if b1.contains(x) { let i = b1.index_of(x); assert(b[i + 1] == x); assert(b.contains(x)); assert(a.contains(x)); let j = a.index_of(x); assert(a[j] == x);
                if j == 0 { assert(nodes[b[0] as int].pk < nodes[b[i + 1] as int].pk); } assert(a1[j - 1] == x); }
        }
        assert(sorted(nodes, a1)) by { assert forall|i: int, j: int| 0 <= i < j < a1.len() implies nodes[#[trigger] a1[i] as int].pk < nodes[#[trigger] a1[j] as int].pk by { assert(a[i + 1] == a1[i] && a[j + 1] == a1[j]); } }
        assert(sorted(nodes, b1)) by { assert forall|i: int, j: int| 0 <= i < j < b1.len() implies nodes[#[trigger] b1[i] as int].pk < nodes[#[trigger] b1[j] as int].pk by { assert(b[i + 1] == b1[i] && b[j + 1] == b1[j]); } }
        lemma_sorted_unique(nodes, a1, b1);
        assert(a =~= seq![a[0]] + a1);
        assert(b =~= seq![b[0]] + b1);
    }
}
impl<T> Tree<T> {
    pub open spec fn next_pk(&self) -> nat { counted(&self.counter) }
    pub open spec fn wf(&self) -> bool { tree_ok(self.nodes@, self.free_node_indexes@, self.next_pk()) }
    pub open spec fn is_live(&self, i: int) -> bool { live(self.nodes@, self.free_node_indexes@, i) }
    /// the id resolves
    pub open spec fn valid(&self, id: NodeId) -> bool { self.is_live(id.node_ptr as int) && self.nodes@[id.node_ptr as int].pk == id.node_pk }
    pub open spec fn id_of(&self, i: int) -> NodeId { NodeId { node_ptr: i as usize, node_pk: self.nodes@[i].pk } }
    /// the children of node p, in order
    pub open spec fn kids(&self, p: int) -> Seq<usize> { chain(self.nodes@, self.nodes@[p].first_child) }
    pub open spec fn ids(&self, s: Seq<usize>) -> Seq<NodeId> { Seq::new(s.len(), |i: int| self.id_of(s[i] as int)) }
    pub open spec fn kid_ids(&self, p: int) -> Seq<NodeId> { self.ids(self.kids(p)) }
    pub open spec fn has(&self, n: &Node<T>) -> bool { exists|i: int| #[trigger] self.is_live(i) && self.nodes@[i] == *n }
    /// the node a path of child numbers leads to
    pub open spec fn walk(&self, i: int, path: Seq<usize>) -> Option<int>
        decreases path.len()
    {
        if path.len() == 0 { Some(i) } else {
            match self.walk(i, path.drop_last()) {
                Some(j) => if path.last() < self.kids(j).len() { Some(self.kids(j)[path.last() as int] as int) } else { None },
                None => None,
            }
        }
    }
    pub open spec fn leads(&self, i: int, path: Seq<usize>, n: Option<&Node<T>>) -> bool {
        match (self.walk(i, path), n) { (Some(j), Some(n)) => self.is_live(j) && *n == self.nodes@[j], (None, None) => true, _ => false }
    }
    pub proof fn lemma_walk(&self, i: int, path: Seq<usize>, k: int)
        requires 0 <= k < path.len()
        ensures path.take(k + 1).drop_last() == path.take(k), path.take(k + 1).last() == path[k],
            self.walk(i, path.take(k)) is None ==> self.walk(i, path) is None,
            self.walk(i, path.take(k + 1)) is None ==> self.walk(i, path) is None,
        decreases path.len() - k
    {
        assert(path.take(k + 1).drop_last() =~= path.take(k));
        if k + 1 < path.len() { self.lemma_walk(i, path, k + 1); } else { assert(path.take(k + 1) =~= path); }
    }
    pub open spec fn chain_in(&self, first: Option<usize>, c: Seq<usize>) -> bool {
        &&& first is None <==> c.len() == 0
        &&& first is Some ==> c[0] == first->0
        &&& forall|k: int| 0 <= k < c.len() ==> self.is_live(#[trigger] c[k] as int) && self.nodes@[c[k] as int].parent == self.nodes@[first->0 as int].parent
                && (if k == 0 { true } else { self.nodes@[c[k] as int].pk > self.nodes@[first->0 as int].pk })
    }
    pub open spec fn chain_next(&self, c: Seq<usize>) -> bool {
        forall|k: int| 0 <= k < c.len() ==> (#[trigger] self.nodes@[c[k] as int]).next_sibling == (if k + 1 < c.len() { Some(c[k + 1]) } else { None })
    }
    proof fn lemma_chain_unfold(&self, first: Option<usize>)
        requires self.wf(), live_opt(self, first), first is Some
        ensures chain(self.nodes@, first) == seq![first->0] + chain(self.nodes@, self.nodes@[first->0 as int].next_sibling),
            live_opt(self, self.nodes@[first->0 as int].next_sibling),
            self.nodes@[first->0 as int].next_sibling is Some ==> {
                let n = self.nodes@[first->0 as int].next_sibling->0 as int;
                self.nodes@[n].pk > self.nodes@[first->0 as int].pk && self.nodes@[n].parent == self.nodes@[first->0 as int].parent
            }
    {
        assert(node_ok(self.nodes@, self.free_node_indexes@, first->0 as int));
        assert(next_inc(self.nodes@, first->0 as int));
    }
    proof fn lemma_chain_in(&self, first: Option<usize>)
        requires self.wf(), live_opt(self, first)
        ensures self.chain_in(first, chain(self.nodes@, first))
        decreases (match first { None => 0int, Some(i) => 1 + usize::MAX - self.nodes@[i as int].pk })
    {
        if first is Some {
            self.lemma_chain_unfold(first);
            let next = self.nodes@[first->0 as int].next_sibling;
            self.lemma_chain_in(next);
            let c = chain(self.nodes@, first);
            let d = chain(self.nodes@, next);
            assert forall|k: int| 0 < k < c.len() implies #[trigger] c[k] == d[k - 1] by {}
        }
    }
    proof fn lemma_chain_next(&self, first: Option<usize>)
        requires self.wf(), live_opt(self, first)
        ensures self.chain_next(chain(self.nodes@, first))
        decreases (match first { None => 0int, Some(i) => 1 + usize::MAX - self.nodes@[i as int].pk })
    {
        if first is Some {
            self.lemma_chain_unfold(first);
            let next = self.nodes@[first->0 as int].next_sibling;
            self.lemma_chain_next(next);
            self.lemma_chain_in(next);
            let c = chain(self.nodes@, first);
            let d = chain(self.nodes@, next);
            assert forall|k: int| 0 <= k < c.len() implies (#[trigger] self.nodes@[c[k] as int]).next_sibling == (if k + 1 < c.len() { Some(c[k + 1]) } else { None }) by {
                if k > 0 { assert(c[k] == d[k - 1]); assert(k + 1 < c.len() ==> c[k + 1] == d[k]); } else { assert(c.len() > 1 ==> c[1] == d[0]); }
            }
        }
    }
    proof fn lemma_chain_sorted(&self, first: Option<usize>)
        requires self.wf(), live_opt(self, first)
        ensures sorted(self.nodes@, chain(self.nodes@, first))
        decreases (match first { None => 0int, Some(i) => 1 + usize::MAX - self.nodes@[i as int].pk })
    {
        if first is Some {
            self.lemma_chain_unfold(first);
            let next = self.nodes@[first->0 as int].next_sibling;
            self.lemma_chain_sorted(next);
            self.lemma_chain_in(next);
            self.lemma_chain_in(first);
            let c = chain(self.nodes@, first);
            let d = chain(self.nodes@, next);
            assert forall|k: int, m: int| 0 <= k < m < c.len() implies self.nodes@[#[trigger] c[k] as int].pk < self.nodes@[#[trigger] c[m] as int].pk by {
                assert(c[m] == d[m - 1]);
                if k > 0 { assert(c[k] == d[k - 1]); }
            }
        }
    }
    pub proof fn lemma_chain(&self, first: Option<usize>)
        requires self.wf(), live_opt(self, first)
        ensures
            self.chain_in(first, chain(self.nodes@, first)),
            self.chain_next(chain(self.nodes@, first)),
            sorted(self.nodes@, chain(self.nodes@, first)),
            first is Some ==> chain(self.nodes@, first) == seq![first->0] + chain(self.nodes@, self.nodes@[first->0 as int].next_sibling)
                && chain(self.nodes@, first).drop_first() == chain(self.nodes@, self.nodes@[first->0 as int].next_sibling)
                && live_opt(self, self.nodes@[first->0 as int].next_sibling),
            chain(self.nodes@, first).len() <= usize::MAX,
    {
        self.lemma_chain_in(first);
        self.lemma_chain_next(first);
        self.lemma_chain_sorted(first);
        let c = chain(self.nodes@, first);
        if first is Some {
            self.lemma_chain_unfold(first);
            assert(c.drop_first() =~= chain(self.nodes@, self.nodes@[first->0 as int].next_sibling));
        }
        if c.len() > usize::MAX { self.lemma_sorted_len(c); }
    }
    pub proof fn lemma_sorted_len(&self, c: Seq<usize>)
        requires sorted(self.nodes@, c)
        ensures c.len() > 0 ==> self.nodes@[c.last() as int].pk >= c.len() - 1
        decreases c.len()
    {
        if c.len() > 1 {
            let d = c.drop_last();
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies self.nodes@[#[trigger] d[i] as int].pk < self.nodes@[#[trigger] d[j] as int].pk by { assert(c[i] == d[i] && c[j] == d[j]); }
            self.lemma_sorted_len(d);
            assert(d.last() == c[c.len() - 2]);
        }
    }
    pub proof fn lemma_first(&self, p: int)
        requires self.wf(), self.is_live(p)
        ensures live_opt(self, self.nodes@[p].first_child)
    { assert(node_ok(self.nodes@, self.free_node_indexes@, p)); }
    pub proof fn lemma_has(&self, n: &Node<T>)
        requires self.wf(), self.has(n)
        ensures live_opt(self, n.first_child)
    { let i = choose|i: int| #[trigger] self.is_live(i) && self.nodes@[i] == *n; self.lemma_first(i); }
    proof fn lemma_in_kids(&self, j: int)
        requires self.wf(), self.is_live(j), self.nodes@[j].parent is Some
        ensures self.kids(self.nodes@[j].parent->0 as int).contains(j as usize)
        decreases self.nodes@[j].pk
    {
        assert(node_ok(self.nodes@, self.free_node_indexes@, j));
        let p = self.nodes@[j].parent->0 as int;
        assert(node_ok(self.nodes@, self.free_node_indexes@, p));
        let c = self.kids(p);
        self.lemma_chain(self.nodes@[p].first_child);
        match self.nodes@[j].previous_sibling {
            None => { assert(c[0] == j); }
            Some(q) => {
                assert(node_ok(self.nodes@, self.free_node_indexes@, q as int));
                self.lemma_in_kids(q as int);
                let k = c.index_of(q);
                assert(self.nodes@[c[k] as int].next_sibling == Some(j as usize));
                assert(c[k + 1] == j);
            }
        }
    }
    /// the children of p are the nodes whose parent is p, in the order of their keys
    pub proof fn lemma_kids(&self, p: int)
        requires self.wf(), self.is_live(p)
        ensures
            forall|j: usize| #[trigger] self.kids(p).contains(j) <==> self.is_live(j as int) && self.nodes@[j as int].parent == Some(p as usize),
            sorted(self.nodes@, self.kids(p)),
            forall|k: int| 0 <= k < self.kids(p).len() ==> self.is_live(#[trigger] self.kids(p)[k] as int) && self.nodes@[self.kids(p)[k] as int].parent == Some(p as usize)
                && self.nodes@[self.kids(p)[k] as int].pk > self.nodes@[p].pk,
            self.kids(p).no_duplicates(),
    {
        assert(node_ok(self.nodes@, self.free_node_indexes@, p));
        self.lemma_chain(self.nodes@[p].first_child);
        let c = self.kids(p);
        assert forall|j: usize| #[trigger] c.contains(j) <==> self.is_live(j as int) && self.nodes@[j as int].parent == Some(p as usize) by {
            if c.contains(j) { let k = c.index_of(j); assert(c[k] == j); }
            if self.is_live(j as int) && self.nodes@[j as int].parent == Some(p as usize) { self.lemma_in_kids(j as int); }
        }
        assert forall|k: int| 0 <= k < c.len() implies self.nodes@[#[trigger] c[k] as int].pk > self.nodes@[p].pk by {
            assert(node_ok(self.nodes@, self.free_node_indexes@, c[k] as int));
        }
    }
    pub proof fn lemma_kid_ids(&self, p: int)
        requires self.wf()
        ensures self.is_live(p) ==> {
            &&& forall|k: int| 0 <= k < self.kid_ids(p).len() ==> self.valid(#[trigger] self.kid_ids(p)[k]) && self.kid_ids(p)[k].node_pk > self.nodes@[p].pk
            &&& forall|k: int| 0 <= k < self.kid_ids(p).len() ==> #[trigger] self.kid_ids(p)[k] == self.id_of(self.kids(p)[k] as int)
        }
    { if self.is_live(p) { self.lemma_kids(p); } }
    pub proof fn lemma_below_pk(&self, a: int, i: int)
        requires below(self.nodes@, a, i)
        ensures i == a || self.nodes@[a].pk < self.nodes@[i].pk
        decreases self.nodes@[i].pk
    { if i != a { self.lemma_below_pk(a, self.nodes@[i].parent->0 as int); } }
    pub proof fn lemma_below_trans(&self, a: int, b: int, i: int)
        requires below(self.nodes@, a, b), below(self.nodes@, b, i)
        ensures below(self.nodes@, a, i)
        decreases self.nodes@[i].pk
    { if i != b { self.lemma_below_trans(a, b, self.nodes@[i].parent->0 as int); } }
    pub proof fn lemma_below_line(&self, a: int, b: int, i: int)
        requires below(self.nodes@, a, i), below(self.nodes@, b, i)
        ensures below(self.nodes@, a, b) || below(self.nodes@, b, a)
        decreases self.nodes@[i].pk
    { if i != a && i != b { self.lemma_below_line(a, b, self.nodes@[i].parent->0 as int); } }
    /// a proper descendant is below one of the children
    pub proof fn lemma_below_kid(&self, a: int, i: int) -> (k: int)
        requires self.wf(), self.is_live(a), self.is_live(i), below(self.nodes@, a, i), i != a
        ensures 0 <= k < self.kids(a).len(), below(self.nodes@, self.kids(a)[k] as int, i)
        decreases self.nodes@[i].pk
    {
        assert(node_ok(self.nodes@, self.free_node_indexes@, i));
        let p = self.nodes@[i].parent->0 as int;
        self.lemma_kids(a);
        if p == a {
            assert(self.kids(a).contains(i as usize));
            let k = self.kids(a).index_of(i as usize);
            assert(self.kids(a)[k] == i);
            k
        } else {
            let k = self.lemma_below_kid(a, p);
            assert(below(self.nodes@, self.kids(a)[k] as int, i));
            k
        }
    }
    pub proof fn lemma_kid_below(&self, a: int, k: int)
        requires self.wf(), self.is_live(a), 0 <= k < self.kids(a).len()
        ensures below(self.nodes@, a, self.kids(a)[k] as int), self.kids(a)[k] != a
    {
        self.lemma_kids(a);
        let i = self.kids(a)[k] as int;
        assert(node_ok(self.nodes@, self.free_node_indexes@, i));
        assert(below(self.nodes@, a, a));
    }
    /// d lists the descendants of a node once each
    pub open spec fn descs(&self, id: NodeId, d: Seq<NodeId>) -> bool {
        d.no_duplicates() && forall|x: NodeId| #[trigger] d.contains(x) <==> self.valid(x) && x != id && below(self.nodes@, id.node_ptr as int, x.node_ptr as int)
    }
    proof fn lemma_gone(&self, id: NodeId, d: Seq<NodeId>, g: Seq<usize>)
        requires self.wf(), self.valid(id), self.descs(id, d), is_ptrs(d, g)
        ensures g.push(id.node_ptr).no_duplicates(), forall|i: usize| #[trigger] g.push(id.node_ptr).contains(i) <==> self.is_live(i as int) && below(self.nodes@, id.node_ptr as int, i as int)
    {
        let a = id.node_ptr as int;
        let w = g.push(id.node_ptr);
        assert forall|k: int| 0 <= k < g.len() implies d.contains(#[trigger] d[k]) && g[k] == d[k].node_ptr && g[k] != id.node_ptr by { assert(d.contains(d[k])); }
        assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by {
            if i < g.len() { assert(d.contains(d[i])); }
            if j < g.len() { assert(d.contains(d[j])); }
            if i < g.len() && j < g.len() { assert(d[i] != d[j]); }
        }
        assert forall|i: usize| #[trigger] w.contains(i) <==> self.is_live(i as int) && below(self.nodes@, a, i as int) by {
            if w.contains(i) { let k = w.index_of(i); assert(w[k] == i); if k < g.len() { assert(d.contains(d[k])); } }
            if self.is_live(i as int) && below(self.nodes@, a, i as int) {
                if i == a { assert(w[g.len() as int] == i); }
                else { let x = self.id_of(i as int); assert(d.contains(x)); let k = d.index_of(x); assert(d[k] == x); assert(w[k] == g[k]); }
            }
        }
    }
    /// what get_descendants has collected behind its first k children
    pub open spec fn some_below(&self, id: NodeId, ks: Seq<NodeId>, k: int, d: Seq<NodeId>) -> bool {
        &&& !self.valid(id) ==> d.len() == 0
        &&& self.valid(id) ==> d.no_duplicates() && forall|x: NodeId| #[trigger] d.contains(x) <==> self.valid(x) && (ks.contains(x) || self.under(ks, k, x))
    }
    pub open spec fn under(&self, ks: Seq<NodeId>, k: int, x: NodeId) -> bool {
        exists|j: int| 0 <= j < k && x != ks[j] && below(self.nodes@, (#[trigger] ks[j]).node_ptr as int, x.node_ptr as int)
    }
    proof fn lemma_valid_unique(&self, x: NodeId, y: NodeId)
        requires self.valid(x), self.valid(y), x.node_ptr == y.node_ptr
        ensures x == y
    {}
    proof fn lemma_some_below_start(&self, id: NodeId, ks: Seq<NodeId>, d: Seq<NodeId>)
        requires self.wf(), self.valid(id), ks == self.kid_ids(id.node_ptr as int), d == ks
        ensures self.some_below(id, ks, 0, d)
    {
        let p = id.node_ptr as int;
        self.lemma_kids(p); self.lemma_kid_ids(p);
        assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(self.kids(p)[i] != self.kids(p)[j]); }
    }
    proof fn lemma_some_below_step(&self, id: NodeId, ks: Seq<NodeId>, k: int, d: Seq<NodeId>, e: Seq<NodeId>)
        requires
            self.wf(), self.valid(id), ks == self.kid_ids(id.node_ptr as int), self.some_below(id, ks, k, d), 0 <= k < ks.len(),
            exists|c: Seq<NodeId>| e == #[trigger] (d + c) && c.no_duplicates() && forall|x: NodeId| #[trigger] c.contains(x) <==> self.valid(x) && x != ks[k] && below(self.nodes@, ks[k].node_ptr as int, x.node_ptr as int),
        ensures self.some_below(id, ks, k + 1, e)
    {
        let c = choose|c: Seq<NodeId>| e == #[trigger] (d + c) && c.no_duplicates() && forall|x: NodeId| #[trigger] c.contains(x) <==> self.valid(x) && x != ks[k] && below(self.nodes@, ks[k].node_ptr as int, x.node_ptr as int);
        let p = id.node_ptr as int;
        self.lemma_kids(p); self.lemma_kid_ids(p);
        let kids = self.kids(p);
        // a child is below no other child, so the subtrees do not meet
        assert forall|x: NodeId| c.contains(x) implies !d.contains(x) by {
            if d.contains(x) {
                if ks.contains(x) {
                    let j = ks.index_of(x);
                    assert(ks[j] == x);
                    self.lemma_disjoint(p, k, j);
                } else {
                    let j = choose|j: int| 0 <= j < k && x != ks[j] && below(self.nodes@, (#[trigger] ks[j]).node_ptr as int, x.node_ptr as int);
                    self.lemma_below_line(ks[k].node_ptr as int, ks[j].node_ptr as int, x.node_ptr as int);
                    if below(self.nodes@, self.kids(p)[k] as int, self.kids(p)[j] as int) { self.lemma_disjoint(p, k, j); } else { self.lemma_disjoint(p, j, k); }
                }
            }
        }
        assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by {
            if i < d.len() && j >= d.len() { assert(d.contains(e[i])); assert(c.contains(c[j - d.len()])); }
            if j < d.len() && i >= d.len() { assert(d.contains(e[j])); assert(c.contains(c[i - d.len()])); }
        }
        assert forall|x: NodeId| #[trigger] e.contains(x) <==> self.valid(x) && (ks.contains(x) || self.under(ks, k + 1, x)) by {
            if e.contains(x) {
                let i = e.index_of(x);
                if i < d.len() { assert(d[i] == x); assert(d.contains(x)); if !ks.contains(x) { let j = choose|j: int| 0 <= j < k && x != ks[j] && below(self.nodes@, (#[trigger] ks[j]).node_ptr as int, x.node_ptr as int); assert(self.under(ks, k + 1, x)); } }
                else { assert(c[i - d.len()] == x); assert(c.contains(x)); assert(self.under(ks, k + 1, x)); }
            }
            if self.valid(x) && (ks.contains(x) || self.under(ks, k + 1, x)) {
                if ks.contains(x) || self.under(ks, k, x) { assert(d.contains(x)); let i = d.index_of(x); assert(e[i] == x); }
                else {
                    let j = choose|j: int| 0 <= j < k + 1 && x != ks[j] && below(self.nodes@, (#[trigger] ks[j]).node_ptr as int, x.node_ptr as int);
                    assert(j == k);
                    assert(c.contains(x)); let i = c.index_of(x); assert(e[d.len() + i] == x);
                }
            }
        }
    }
    proof fn lemma_disjoint(&self, p: int, k: int, j: int)
        requires self.wf(), self.is_live(p), 0 <= k < self.kids(p).len(), 0 <= j < self.kids(p).len(), below(self.nodes@, self.kids(p)[k] as int, self.kids(p)[j] as int)
        ensures k == j
    {
        self.lemma_kids(p);
        let (a, b) = (self.kids(p)[k] as int, self.kids(p)[j] as int);
        if a != b { self.lemma_below_pk(a, p); }
    }
    proof fn lemma_some_below_end(&self, id: NodeId, ks: Seq<NodeId>, d: Seq<NodeId>)
        requires self.wf(), self.valid(id), ks == self.kid_ids(id.node_ptr as int), self.some_below(id, ks, ks.len() as int, d)
        ensures d.no_duplicates(), forall|x: NodeId| #[trigger] d.contains(x) <==> self.valid(x) && x != id && below(self.nodes@, id.node_ptr as int, x.node_ptr as int)
    {
        let p = id.node_ptr as int;
        self.lemma_kids(p); self.lemma_kid_ids(p);
        assert forall|x: NodeId| #[trigger] d.contains(x) <==> self.valid(x) && x != id && below(self.nodes@, p, x.node_ptr as int) by {
            if d.contains(x) {
                if ks.contains(x) { let j = ks.index_of(x); self.lemma_kid_below(p, j); }
                else {
                    let j = choose|j: int| 0 <= j < ks.len() && x != ks[j] && below(self.nodes@, (#[trigger] ks[j]).node_ptr as int, x.node_ptr as int);
                    self.lemma_kid_below(p, j);
                    self.lemma_below_trans(p, ks[j].node_ptr as int, x.node_ptr as int);
                    self.lemma_below_pk(ks[j].node_ptr as int, x.node_ptr as int);
                }
            }
            if self.valid(x) && x != id && below(self.nodes@, p, x.node_ptr as int) {
                let k = self.lemma_below_kid(p, x.node_ptr as int);
                assert(ks[k].node_ptr == self.kids(p)[k]);
                if x == ks[k] { assert(ks.contains(x)); } else { assert(self.under(ks, ks.len() as int, x)); }
            }
        }
    }
}
pub open spec fn is_ptrs(d: Seq<NodeId>, g: Seq<usize>) -> bool { g.len() == d.len() && forall|k: int| 0 <= k < d.len() ==> g[k] == (#[trigger] d[k]).node_ptr }
/// node i is the same node, with the same place under the same parent
pub open spec fn same_node<T>(o: &Tree<T>, t: &Tree<T>, i: int) -> bool {
    t.nodes@[i].data == o.nodes@[i].data && t.nodes@[i].pk == o.nodes@[i].pk && t.nodes@[i].parent == o.nodes@[i].parent
}
pub open spec fn added<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, id: NodeId) -> bool {
    &&& t.wf() && t.valid(id) && !o.is_live(id.node_ptr as int) && id.node_pk == o.next_pk() && t.next_pk() == o.next_pk() + 1
    &&& parent is Some ==> o.valid(parent->0)
    &&& t.nodes@[id.node_ptr as int].data == data
    &&& t.nodes@[id.node_ptr as int].parent == (match parent { Some(p) => Some(p.node_ptr), None => None })
    &&& t.kids(id.node_ptr as int).len() == 0
    // no other id starts or stops to resolve
    &&& forall|x: NodeId| x != id ==> (#[trigger] t.valid(x) <==> o.valid(x))
    &&& forall|i: int| #[trigger] o.is_live(i) ==> t.is_live(i) && same_node(o, t, i)
        && t.kids(i) == (if parent is Some && parent->0.node_ptr == i { o.kids(i).push(id.node_ptr) } else { o.kids(i) })
}
pub open spec fn removed<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId) -> bool {
    &&& t.wf() && t.next_pk() == o.next_pk()
    &&& forall|x: NodeId| #[trigger] t.valid(x) <==> o.valid(x) && !below(o.nodes@, id.node_ptr as int, x.node_ptr as int)
    &&& forall|i: int| #[trigger] t.is_live(i) ==> o.is_live(i) && same_node(o, t, i)
        && t.kids(i) == (if o.nodes@[id.node_ptr as int].parent == Some(i as usize) { o.kids(i).remove(o.kids(i).index_of(id.node_ptr)) } else { o.kids(i) })
}
/// the effect of add_node on the slots
pub open spec fn placed<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, ix: usize, pk: usize) -> bool {
    let n = o.nodes@.len();
    &&& pk == o.next_pk() && t.next_pk() == pk + 1 && t.next_pk() <= usize::MAX && t.nodes@.len() <= usize::MAX
    &&& if o.free_node_indexes@.len() == 0 { ix == n && t.nodes@.len() == n + 1 && t.free_node_indexes@ == o.free_node_indexes@ }
        else { ix == o.free_node_indexes@.last() && t.nodes@.len() == n && t.free_node_indexes@ == o.free_node_indexes@.drop_last() }
    &&& t.nodes@[ix as int].data == data && t.nodes@[ix as int].pk == pk && t.nodes@[ix as int].first_child is None && t.nodes@[ix as int].last_child is None && t.nodes@[ix as int].next_sibling is None
    &&& match parent {
        None => t.nodes@[ix as int].parent is None && t.nodes@[ix as int].previous_sibling is None && forall|i: int| 0 <= i < n && i != ix ==> #[trigger] t.nodes@[i] == o.nodes@[i],
        Some(id) => {
            let p = id.node_ptr as int;
            let l = o.nodes@[p].last_child;
            &&& o.valid(id)
            &&& t.nodes@[ix as int].parent == Some(id.node_ptr) && t.nodes@[ix as int].previous_sibling == l
            &&& forall|i: int| 0 <= i < n && i != ix && i != p && l != Some(i as usize) ==> #[trigger] t.nodes@[i] == o.nodes@[i]
            &&& t.nodes@[p] == Node { last_child: Some(ix), first_child: if o.nodes@[p].first_child is Some { o.nodes@[p].first_child } else { Some(ix) }, ..o.nodes@[p] }
            &&& l is Some ==> t.nodes@[l->0 as int] == Node { next_sibling: Some(ix), ..o.nodes@[l->0 as int] }
        },
    }
}
proof fn lemma_live_range<T>(o: &Tree<T>)
    ensures forall|i: int| #[trigger] live(o.nodes@, o.free_node_indexes@, i) ==> 0 <= i < o.nodes@.len() && i <= usize::MAX
{}
pub open spec fn grown<T>(o: &Tree<T>, t: &Tree<T>, x: int) -> bool {
    forall|i: int| #[trigger] live(t.nodes@, t.free_node_indexes@, i) <==> live(o.nodes@, o.free_node_indexes@, i) || i == x
}
proof fn lemma_added<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, ix: usize, pk: usize)
    requires o.wf(), placed(o, t, data, parent, ix, pk)
    ensures added(o, t, data, parent, NodeId { node_ptr: ix, node_pk: pk })
{
    let id = NodeId { node_ptr: ix, node_pk: pk };
    let x = ix as int;
    lemma_added_live(o, t, data, parent, ix, pk);
    if parent is Some {
        let p = parent->0.node_ptr as int;
        assert(node_ok(o.nodes@, o.free_node_indexes@, p));
        if o.nodes@[p].last_child is Some { assert(node_ok(o.nodes@, o.free_node_indexes@, o.nodes@[p].last_child->0 as int)); }
    }
    assert forall|i: int| #[trigger] o.is_live(i) implies same_node(o, t, i) by {}
    assert forall|i: int| t.is_live(i) implies #[trigger] node_ok(t.nodes@, t.free_node_indexes@, i) by { lemma_added_ok(o, t, data, parent, ix, pk, i); }
    assert forall|i: int| 0 <= i < t.nodes@.len() implies (#[trigger] t.nodes@[i]).pk < t.next_pk() by {
        if i != x {
            assert(o.nodes@[i].pk < o.next_pk());
            if parent is Some { let p = parent->0.node_ptr as int; if i == p { assert(t.nodes@[p].pk == o.nodes@[p].pk); } else if o.nodes@[p].last_child == Some(i as usize) { assert(t.nodes@[i].pk == o.nodes@[i].pk); } else { assert(t.nodes@[i] == o.nodes@[i]); } }
            else { assert(t.nodes@[i] == o.nodes@[i]); }
        }
    }
    assert forall|i: int, j: int| t.is_live(i) && t.is_live(j) && i != j implies (#[trigger] t.nodes@[i]).pk != (#[trigger] t.nodes@[j]).pk by {
        if i != x { assert(o.is_live(i)); assert(t.nodes@[i].pk == o.nodes@[i].pk); }
        if j != x { assert(o.is_live(j)); assert(t.nodes@[j].pk == o.nodes@[j].pk); }
    }
    assert(t.wf());
    assert forall|i: int| #[trigger] o.is_live(i) implies t.is_live(i) && same_node(o, t, i)
        && t.kids(i) == (if parent is Some && parent->0.node_ptr == i { o.kids(i).push(ix) } else { o.kids(i) }) by { lemma_added_kids(o, t, data, parent, ix, pk, i); }
    assert forall|y: NodeId| y != id implies (#[trigger] t.valid(y) <==> o.valid(y)) by { assert(t.is_live(y.node_ptr as int) <==> o.is_live(y.node_ptr as int) || y.node_ptr == ix); }
}
proof fn lemma_added_live<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, ix: usize, pk: usize)
    requires o.wf(), placed(o, t, data, parent, ix, pk)
    ensures grown(o, t, ix as int), !o.is_live(ix as int), t.free_node_indexes@.no_duplicates(),
        forall|k: int| 0 <= k < t.free_node_indexes@.len() ==> (#[trigger] t.free_node_indexes@[k]) < t.nodes@.len(),
{
    let (of, tf) = (o.free_node_indexes@, t.free_node_indexes@);
    let x = ix as int;
    assert(!o.is_live(x)) by { if of.len() > 0 { assert(of[of.len() - 1] == ix); } }
    assert forall|i: int| #[trigger] live(t.nodes@, tf, i) <==> live(o.nodes@, of, i) || i == x by {
        if of.len() > 0 && 0 <= i <= usize::MAX {
            if of.contains(i as usize) && i != x { let k = of.index_of(i as usize); assert(of[k] == i as usize); assert(tf[k] == i as usize); }
            if tf.contains(i as usize) { let k = tf.index_of(i as usize); assert(tf[k] == i as usize); assert(of[k] == i as usize); assert(of[of.len() - 1] == ix); }
        }
    }
    assert forall|k: int| 0 <= k < tf.len() implies (#[trigger] tf[k]) < t.nodes@.len() by { assert(tf[k] == of[k]); }
}
proof fn lemma_added_ok<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, ix: usize, pk: usize, i: int)
    requires o.wf(), placed(o, t, data, parent, ix, pk), grown(o, t, ix as int), !o.is_live(ix as int), t.is_live(i)
    ensures node_ok(t.nodes@, t.free_node_indexes@, i)
{ lemma_added_down(o, t, data, parent, ix, pk, i); lemma_added_side(o, t, data, parent, ix, pk, i); lemma_added_up(o, t, data, parent, ix, pk, i); }
proof fn lemma_added_down<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, ix: usize, pk: usize, i: int)
    requires o.wf(), placed(o, t, data, parent, ix, pk), grown(o, t, ix as int), !o.is_live(ix as int), t.is_live(i)
    ensures down_ok(t.nodes@, t.free_node_indexes@, i)
{
    hide(live);
    lemma_live_range(o); lemma_live_range(t);
    let of = o.free_node_indexes@;
    let x = ix as int;
    if i != x { assert(o.is_live(i)); assert(node_ok(o.nodes@, of, i)); }
    if parent is Some {
        let p = parent->0.node_ptr as int;
        assert(node_ok(o.nodes@, of, p));
        assert(o.nodes@[p].pk < o.next_pk());
        if o.nodes@[p].last_child is Some { assert(node_ok(o.nodes@, of, o.nodes@[p].last_child->0 as int)); assert(o.nodes@[o.nodes@[p].last_child->0 as int].pk < o.next_pk()); }
    }
}
proof fn lemma_added_side<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, ix: usize, pk: usize, i: int)
    requires o.wf(), placed(o, t, data, parent, ix, pk), grown(o, t, ix as int), !o.is_live(ix as int), t.is_live(i)
    ensures side_ok(t.nodes@, t.free_node_indexes@, i)
{
    hide(live);
    lemma_live_range(o); lemma_live_range(t);
    let of = o.free_node_indexes@;
    let x = ix as int;
    if i != x { assert(o.is_live(i)); assert(node_ok(o.nodes@, of, i)); }
    if parent is Some {
        let p = parent->0.node_ptr as int;
        assert(node_ok(o.nodes@, of, p));
        assert(o.nodes@[p].pk < o.next_pk());
        if o.nodes@[p].last_child is Some { assert(node_ok(o.nodes@, of, o.nodes@[p].last_child->0 as int)); assert(o.nodes@[o.nodes@[p].last_child->0 as int].pk < o.next_pk()); }
    }
}
proof fn lemma_added_up<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, ix: usize, pk: usize, i: int)
    requires o.wf(), placed(o, t, data, parent, ix, pk), grown(o, t, ix as int), !o.is_live(ix as int), t.is_live(i)
    ensures up_ok(t.nodes@, t.free_node_indexes@, i)
{
    hide(live);
    lemma_live_range(o); lemma_live_range(t);
    let of = o.free_node_indexes@;
    let x = ix as int;
    if i != x { assert(o.is_live(i)); assert(node_ok(o.nodes@, of, i)); }
    if parent is Some {
        let p = parent->0.node_ptr as int;
        assert(node_ok(o.nodes@, of, p));
        assert(o.nodes@[p].pk < o.next_pk());
        if o.nodes@[p].last_child is Some { assert(node_ok(o.nodes@, of, o.nodes@[p].last_child->0 as int)); assert(o.nodes@[o.nodes@[p].last_child->0 as int].pk < o.next_pk()); }
    }
}
proof fn lemma_added_kids<T>(o: &Tree<T>, t: &Tree<T>, data: T, parent: Option<NodeId>, ix: usize, pk: usize, i: int)
    requires o.wf(), t.wf(), placed(o, t, data, parent, ix, pk), grown(o, t, ix as int), !o.is_live(ix as int), o.is_live(i), forall|i: int| #[trigger] o.is_live(i) ==> same_node(o, t, i)
    ensures t.kids(i) == (if parent is Some && parent->0.node_ptr == i { o.kids(i).push(ix) } else { o.kids(i) })
{
    assert(t.is_live(i));
    o.lemma_kids(i); t.lemma_kids(i);
    let w = if parent is Some && parent->0.node_ptr == i { o.kids(i).push(ix) } else { o.kids(i) };
    let ok = o.kids(i);
    assert forall|j: usize| t.kids(i).contains(j) <==> w.contains(j) by {
        if w.contains(j) { let k = w.index_of(j); assert(w[k] == j); if k < ok.len() { assert(ok[k] == j); assert(ok.contains(j)); assert(o.is_live(j as int)); } assert(t.is_live(j as int)); }
        if t.kids(i).contains(j) { assert(t.is_live(j as int)); if j == ix { assert(w[w.len() - 1] == ix); } else { assert(o.is_live(j as int)); assert(ok.contains(j)); let k = ok.index_of(j); assert(w[k] == j); } }
    }
    assert(sorted(t.nodes@, w)) by {
        assert forall|a: int, b: int| 0 <= a < b < w.len() implies t.nodes@[#[trigger] w[a] as int].pk < t.nodes@[#[trigger] w[b] as int].pk by {
            assert(w[a] == ok[a]); assert(o.is_live(ok[a] as int)); assert(o.nodes@[ok[a] as int].pk < o.next_pk());
            if b < ok.len() { assert(w[b] == ok[b]); assert(o.is_live(ok[b] as int)); }
        }
    }
    lemma_sorted_unique(t.nodes@, t.kids(i), w);
}
/// the effect of remove_branch on the slots; gone: what is freed
pub open spec fn unlinked<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>) -> bool {
    let a = id.node_ptr as int;
    let n = o.nodes@[a];
    &&& o.valid(id) && t.next_pk() == o.next_pk() && t.nodes@.len() == o.nodes@.len() && t.free_node_indexes@ == o.free_node_indexes@ + gone
    &&& gone.no_duplicates() && forall|i: usize| #[trigger] gone.contains(i) <==> o.is_live(i as int) && below(o.nodes@, a, i as int)
    &&& forall|i: int| 0 <= i < o.nodes@.len() ==> #[trigger] t.nodes@[i] == Node {
            first_child: if n.parent == Some(i as usize) && o.nodes@[i].first_child == Some(id.node_ptr) { n.next_sibling } else { o.nodes@[i].first_child },
            last_child: if n.parent == Some(i as usize) && o.nodes@[i].last_child == Some(id.node_ptr) { n.previous_sibling } else { o.nodes@[i].last_child },
            next_sibling: if n.previous_sibling == Some(i as usize) { n.next_sibling } else { o.nodes@[i].next_sibling },
            previous_sibling: if n.next_sibling == Some(i as usize) { n.previous_sibling } else { o.nodes@[i].previous_sibling },
            ..o.nodes@[i]
        }
}
pub open spec fn shrunk<T>(o: &Tree<T>, t: &Tree<T>, a: int) -> bool {
    forall|i: int| #[trigger] live(t.nodes@, t.free_node_indexes@, i) <==> live(o.nodes@, o.free_node_indexes@, i) && !below(o.nodes@, a, i)
}
proof fn lemma_removed<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>)
    requires o.wf(), unlinked(o, t, id, gone)
    ensures removed(o, t, id)
{
    let a = id.node_ptr as int;
    lemma_removed_live(o, t, id, gone);
    assert forall|i: int| t.is_live(i) implies #[trigger] node_ok(t.nodes@, t.free_node_indexes@, i) by { lemma_removed_ok(o, t, id, gone, i); }
    assert forall|i: int| 0 <= i < t.nodes@.len() implies (#[trigger] t.nodes@[i]).pk < t.next_pk() by { assert(o.nodes@[i].pk < o.next_pk()); }
    assert forall|i: int, j: int| t.is_live(i) && t.is_live(j) && i != j implies (#[trigger] t.nodes@[i]).pk != (#[trigger] t.nodes@[j]).pk by {
        assert(o.is_live(i) && o.is_live(j)); assert(t.nodes@[i].pk == o.nodes@[i].pk); assert(t.nodes@[j].pk == o.nodes@[j].pk);
    }
    assert(t.wf());
    assert forall|i: int| #[trigger] t.is_live(i) implies o.is_live(i) && same_node(o, t, i)
        && t.kids(i) == (if o.nodes@[a].parent == Some(i as usize) { o.kids(i).remove(o.kids(i).index_of(id.node_ptr)) } else { o.kids(i) }) by { assert(o.is_live(i)); lemma_removed_kids(o, t, id, gone, i); }
    assert forall|x: NodeId| #[trigger] t.valid(x) <==> o.valid(x) && !below(o.nodes@, a, x.node_ptr as int) by { assert(t.is_live(x.node_ptr as int) <==> o.is_live(x.node_ptr as int) && !below(o.nodes@, a, x.node_ptr as int)); }
}
proof fn lemma_removed_live<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>)
    requires o.wf(), unlinked(o, t, id, gone)
    ensures shrunk(o, t, id.node_ptr as int), t.free_node_indexes@.no_duplicates(),
        forall|k: int| 0 <= k < t.free_node_indexes@.len() ==> (#[trigger] t.free_node_indexes@[k]) < t.nodes@.len(),
{
    let a = id.node_ptr as int;
    let (of, tf) = (o.free_node_indexes@, t.free_node_indexes@);
    assert forall|i: int| #[trigger] live(t.nodes@, tf, i) <==> live(o.nodes@, of, i) && !below(o.nodes@, a, i) by {
        if 0 <= i <= usize::MAX {
            let u = i as usize;
            if tf.contains(u) { let k = tf.index_of(u); assert(tf[k] == u); if k < of.len() { assert(of[k] == u); } else { assert(gone[k - of.len()] == u); assert(gone.contains(u)); } }
            if of.contains(u) { let k = of.index_of(u); assert(of[k] == u); assert(tf[k] == u); }
            if gone.contains(u) { let k = gone.index_of(u); assert(gone[k] == u); assert(tf[of.len() + k] == u); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < tf.len() && 0 <= j < tf.len() && i != j implies tf[i] != tf[j] by {
        if i < of.len() && j >= of.len() { assert(tf[i] == of[i]); assert(gone[j - of.len()] == tf[j]); assert(gone.contains(tf[j])); assert(of.contains(tf[i])); }
        if j < of.len() && i >= of.len() { assert(tf[j] == of[j]); assert(gone[i - of.len()] == tf[i]); assert(gone.contains(tf[i])); assert(of.contains(tf[j])); }
    }
    assert forall|k: int| 0 <= k < tf.len() implies (#[trigger] tf[k]) < t.nodes@.len() by {
        if k < of.len() { assert(tf[k] == of[k]); } else { assert(gone[k - of.len()] == tf[k]); assert(gone.contains(tf[k])); }
    }
}
proof fn lemma_removed_in<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>, i: int, j: usize)
    requires o.wf(), t.wf(), unlinked(o, t, id, gone), shrunk(o, t, id.node_ptr as int), t.is_live(i), o.is_live(i)
    ensures t.kids(i).contains(j) <==> o.kids(i).contains(j) && j != id.node_ptr
{
    hide(chain);
    let a = id.node_ptr as int;
    o.lemma_kids(i); t.lemma_kids(i);
    let ji = j as int;
    assert(below(o.nodes@, a, a));
    if o.is_live(ji) && o.nodes@[ji].parent == Some(i as usize) { assert(node_ok(o.nodes@, o.free_node_indexes@, ji)); assert(below(o.nodes@, a, ji) <==> ji == a || below(o.nodes@, a, i)); assert(t.is_live(ji) <==> ji != a); }
    if t.is_live(ji) { assert(o.is_live(ji)); assert(t.nodes@[ji].parent == o.nodes@[ji].parent); }
}
proof fn lemma_removed_kids<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>, i: int)
    requires o.wf(), t.wf(), unlinked(o, t, id, gone), shrunk(o, t, id.node_ptr as int), t.is_live(i), o.is_live(i)
    ensures t.kids(i) == (if o.nodes@[id.node_ptr as int].parent == Some(i as usize) { o.kids(i).remove(o.kids(i).index_of(id.node_ptr)) } else { o.kids(i) })
{
    hide(chain); hide(below); hide(tree_ok); hide(live);
    o.lemma_kids(i); t.lemma_kids(i);
    assert(o.is_live(id.node_ptr as int));
    let up = o.nodes@[id.node_ptr as int].parent == Some(i as usize);
    assert(o.kids(i).contains(id.node_ptr) <==> up);
    let k0 = o.kids(i).index_of(id.node_ptr);
    let w = if up { o.kids(i).remove(k0) } else { o.kids(i) };
    assert forall|j: usize| t.kids(i).contains(j) <==> o.kids(i).contains(j) && j != id.node_ptr by { lemma_removed_in(o, t, id, gone, i, j); }
    if up { lemma_without(o.kids(i), id.node_ptr); }
    assert(sorted(t.nodes@, w)) by { lemma_removed_sorted(o, t, id, gone, i, w, up, k0); }
    lemma_sorted_unique(t.nodes@, t.kids(i), w);
}
proof fn lemma_without(s: Seq<usize>, x: usize)
    requires s.no_duplicates(), s.contains(x)
    ensures forall|j: usize| s.remove(s.index_of(x)).contains(j) <==> s.contains(j) && j != x
{
    let k0 = s.index_of(x);
    let w = s.remove(k0);
    assert(s[k0] == x);
    assert forall|j: usize| w.contains(j) <==> s.contains(j) && j != x by {
        if w.contains(j) { let k = w.index_of(j); assert(w[k] == j); let kk = if k >= k0 { k + 1 } else { k }; assert(s[kk] == j); assert(kk != k0); }
        if s.contains(j) && j != x { let k = s.index_of(j); assert(s[k] == j); if k < k0 { assert(w[k] == j); } else { assert(w[k - 1] == j); } }
    }
}
proof fn lemma_removed_sorted<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>, i: int, w: Seq<usize>, up: bool, k0: int)
    requires unlinked(o, t, id, gone), sorted(o.nodes@, o.kids(i)), up ==> 0 <= k0 < o.kids(i).len(), w == (if up { o.kids(i).remove(k0) } else { o.kids(i) }),
        forall|k: int| 0 <= k < o.kids(i).len() ==> o.is_live(#[trigger] o.kids(i)[k] as int)
    ensures sorted(t.nodes@, w)
{
    hide(chain); hide(below);
    let ok = o.kids(i);
    assert forall|x: int, y: int| 0 <= x < y < w.len() implies t.nodes@[#[trigger] w[x] as int].pk < t.nodes@[#[trigger] w[y] as int].pk by {
        let xx = if up && x >= k0 { x + 1 } else { x };
        let yy = if up && y >= k0 { y + 1 } else { y };
        assert(w[x] == ok[xx] && w[y] == ok[yy]);
        assert(o.is_live(ok[xx] as int) && o.is_live(ok[yy] as int));
    }
}
proof fn lemma_removed_ok<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>, i: int)
    requires o.wf(), unlinked(o, t, id, gone), t.is_live(i), shrunk(o, t, id.node_ptr as int)
    ensures node_ok(t.nodes@, t.free_node_indexes@, i)
{ lemma_removed_down(o, t, id, gone, i); lemma_removed_side(o, t, id, gone, i); lemma_removed_up(o, t, id, gone, i); }
proof fn lemma_removed_down<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>, i: int)
    requires o.wf(), unlinked(o, t, id, gone), t.is_live(i), shrunk(o, t, id.node_ptr as int)
    ensures down_ok(t.nodes@, t.free_node_indexes@, i)
{
    hide(live);
    let a = id.node_ptr as int;
    let n = o.nodes@[a];
    lemma_live_range(o); lemma_live_range(t);
    let of = o.free_node_indexes@;
    assert(o.is_live(i));
    assert(below(o.nodes@, a, a));
    assert(i != a);
    assert(node_ok(o.nodes@, of, a));
    assert(node_ok(o.nodes@, of, i));
    let m = o.nodes@[i];
    if m.first_child is Some { let c = m.first_child->0 as int; assert(node_ok(o.nodes@, of, c)); assert(below(o.nodes@, a, c) <==> c == a || below(o.nodes@, a, i)); }
    if m.last_child is Some { let c = m.last_child->0 as int; assert(node_ok(o.nodes@, of, c)); assert(below(o.nodes@, a, c) <==> c == a || below(o.nodes@, a, i)); }
    if n.parent == Some(i as usize) {
        if n.next_sibling is Some { assert(node_ok(o.nodes@, of, n.next_sibling->0 as int)); lemma_sibling_of_root(o, a, n.next_sibling->0 as int); }
        if n.previous_sibling is Some { assert(node_ok(o.nodes@, of, n.previous_sibling->0 as int)); lemma_sibling_of_root(o, a, n.previous_sibling->0 as int); }
    }
}
proof fn lemma_removed_side<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>, i: int)
    requires o.wf(), unlinked(o, t, id, gone), t.is_live(i), shrunk(o, t, id.node_ptr as int)
    ensures side_ok(t.nodes@, t.free_node_indexes@, i)
{
    hide(live);
    let a = id.node_ptr as int;
    let n = o.nodes@[a];
    lemma_live_range(o); lemma_live_range(t);
    let of = o.free_node_indexes@;
    assert(o.is_live(i));
    assert(below(o.nodes@, a, a));
    assert(i != a);
    assert(node_ok(o.nodes@, of, a));
    assert(node_ok(o.nodes@, of, i));
    let m = o.nodes@[i];
    if n.next_sibling is Some { assert(node_ok(o.nodes@, of, n.next_sibling->0 as int)); lemma_sibling_of_root(o, a, n.next_sibling->0 as int); }
    if n.previous_sibling is Some { assert(node_ok(o.nodes@, of, n.previous_sibling->0 as int)); lemma_sibling_of_root(o, a, n.previous_sibling->0 as int); }
    if m.next_sibling is Some { let c = m.next_sibling->0 as int; assert(node_ok(o.nodes@, of, c)); lemma_sibling(o, a, i, c); }
    if m.previous_sibling is Some { let c = m.previous_sibling->0 as int; assert(node_ok(o.nodes@, of, c)); lemma_sibling(o, a, i, c); }
}
proof fn lemma_removed_up<T>(o: &Tree<T>, t: &Tree<T>, id: NodeId, gone: Seq<usize>, i: int)
    requires o.wf(), unlinked(o, t, id, gone), t.is_live(i), shrunk(o, t, id.node_ptr as int)
    ensures up_ok(t.nodes@, t.free_node_indexes@, i)
{
    hide(live);
    let a = id.node_ptr as int;
    let n = o.nodes@[a];
    lemma_live_range(o); lemma_live_range(t);
    let of = o.free_node_indexes@;
    assert(o.is_live(i));
    assert(below(o.nodes@, a, a));
    assert(i != a);
    assert(node_ok(o.nodes@, of, a));
    assert(node_ok(o.nodes@, of, i));
    let m = o.nodes@[i];
    if m.parent is Some {
        let c = m.parent->0 as int;
        assert(node_ok(o.nodes@, of, c));
        assert(below(o.nodes@, a, i) <==> i == a || below(o.nodes@, a, c));
        if m.next_sibling is Some { assert(node_ok(o.nodes@, of, m.next_sibling->0 as int)); }
        if m.previous_sibling is Some { assert(node_ok(o.nodes@, of, m.previous_sibling->0 as int)); }
    }
}
proof fn lemma_sibling_of_root<T>(o: &Tree<T>, a: int, c: int)
    requires o.wf(), o.is_live(a), o.is_live(c), o.nodes@[c].parent == o.nodes@[a].parent, c != a
    ensures !below(o.nodes@, a, c)
{
    assert(node_ok(o.nodes@, o.free_node_indexes@, c));
    lemma_next_not_below(o, a);
}
/// a sibling of a node outside the branch is outside too, unless it is the branch's root
proof fn lemma_sibling<T>(o: &Tree<T>, a: int, i: int, c: int)
    requires o.wf(), o.is_live(i), o.is_live(c), o.nodes@[c].parent == o.nodes@[i].parent, !below(o.nodes@, a, i), i != a
    ensures below(o.nodes@, a, c) <==> c == a
{
    assert(node_ok(o.nodes@, o.free_node_indexes@, i));
    assert(node_ok(o.nodes@, o.free_node_indexes@, c));
}
proof fn lemma_next_not_below<T>(o: &Tree<T>, a: int)
    requires o.wf(), o.is_live(a)
    ensures o.nodes@[a].parent is Some ==> !below(o.nodes@, a, o.nodes@[a].parent->0 as int)
{
    assert(node_ok(o.nodes@, o.free_node_indexes@, a));
    if o.nodes@[a].parent is Some && below(o.nodes@, a, o.nodes@[a].parent->0 as int) { o.lemma_below_pk(a, o.nodes@[a].parent->0 as int); }
}
@*/
/*@ pub @*/ type NodePtr = usize;
/*@ pub @*/ type NodePk = usize;

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub struct NodeId {
    pub node_ptr: NodePtr,
    pub node_pk: NodePk,
}
impl NodeId {
    pub(crate) fn new(node_ptr: NodePtr, node_pk: NodePk) -> /*@ (r: @*/ NodeId /*@ )
        ensures r.node_ptr == node_ptr, r.node_pk == node_pk @*/ {
        NodeId { node_ptr, node_pk }
    }
}
/*@ #[verifier::external] @*/
impl fmt::Display for NodeId {
    // This trait requires `fmt` with this exact signature.
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        // Write strictly the first element into the supplied output
        // stream: `f`. Returns `fmt::Result` which indicates whether the
        // operation succeeded or failed. Note that `write!` uses syntax which
        // is very similar to `println!`.
        write!(f, "ptr_in_arr:{}, pk:{}", self.node_ptr, self.node_pk)
    }
}
#[derive(Debug)]
pub struct Tree<T> {
    /*@ pub @*/ nodes: Vec<Node<T>>,
    /*@ pub @*/ free_node_indexes: Vec<NodePtr>,
    /*@ pub @*/ counter: AtomicUsize,
}

#[derive(Debug)]
pub struct Node<T> {
    /*@ pub @*/ parent: Option<NodePtr>,
    /*@ pub @*/ previous_sibling: Option<NodePtr>,
    /*@ pub @*/ next_sibling: Option<NodePtr>,
    /*@ pub @*/ first_child: Option<NodePtr>,
    /*@ pub @*/ last_child: Option<NodePtr>,
    /*@ pub @*/ pk: NodePk,
    pub data: T,
}
impl<T> Node<T> {
    fn new(
        parent: Option<NodePtr>,
        data: T,
        pk: NodePk,
        previous_sibling: Option<NodePtr>,
    ) -> /*@ (r: @*/ Node<T> /*@ )
        ensures r.parent == parent, r.data == data, r.pk == pk, r.previous_sibling == previous_sibling,
            r.next_sibling is None, r.first_child is None, r.last_child is None @*/ {
        Node {
            parent,
            first_child: None,
            last_child: None,
            previous_sibling,
            next_sibling: None,
            pk,
            data,
        }
    }
}

impl<T> Tree<T> {
    pub fn new() -> /*@ (r: @*/ Tree<T> /*@ )
        ensures r.wf(), r.nodes@.len() == 0, r.next_pk() == 0 @*/ {
        Tree {
            nodes: vec![],
            free_node_indexes: vec![],
            counter: /*@< v_counter @*/ AtomicUsize::new /*@>@*/ (0),
        }
    }
    pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> /*@ (r: @*/ Result<NodeId, TreeError> /*@ )
        requires old(self).wf()
        ensures match r {
            Err(_) => parent is Some && !old(self).valid(parent->0) && *final(self) == *old(self),
            Ok(id) => added(&*old(self), &*final(self), data, parent, id),
        } @*/ {
        /*@ let ghost o = *self; @*/
        // Check the parent before a free index is taken, so that a failed call changes nothing
        if let Some(parent_id) = parent {
            if !self.node_exists(parent_id) {
                return Err(NodeDoesNotExist { node_id: parent_id });
            }
        }
        // Get the next free index
        let mut reused_index = false;
        let next_index = match self.free_node_indexes.pop() {
            None => self.nodes.len(),
            Some(i) => {
                reused_index = true;
                i
            }
        };

        let new_pk = match parent {
            None => {
                let pk = self
                    .counter
                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let new_node = Node::new(None, data, pk, None);
                if reused_index {
                    self.nodes[next_index] = new_node;
                } else {
                    self.nodes.push(new_node);
                }
                pk
            }
            Some(parent_id) => {
                let pk = self
                    .counter
                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let parent_node = self.get_node_mut(parent_id)?;
                let new_node =
                    Node::new(Some(parent_id.node_ptr), data, pk, parent_node.last_child);

                let last_child_index = parent_node.last_child;
                if let None = parent_node.first_child {
                    parent_node.first_child = Some(next_index);
                }
                parent_node.last_child = Some(next_index);
                /*@ proof { assert(node_ok(o.nodes@, o.free_node_indexes@, parent_id.node_ptr as int)); } @*/
                if let Some(lci) = last_child_index {
                    self.nodes[lci].next_sibling = Some(next_index);
                }

                Some(next_index);
                if reused_index {
                    self.nodes[next_index] = new_node;
                } else {
                    self.nodes.push(new_node);
                }
                pk
            }
        };

        /*@ proof {
            assert(self.nodes.len() == self.nodes@.len());
            lemma_added(&o, self, data, parent, next_index, new_pk);
        } @*/
        Ok(NodeId::new(next_index, new_pk))
    }

    pub fn get_descendants(&self, node_id: NodeId) -> /*@ (r: @*/ Vec<NodeId> /*@ )
        requires self.wf()
        ensures
            !self.valid(node_id) ==> r@.len() == 0,
            self.valid(node_id) ==> self.descs(node_id, r@),
        decreases usize::MAX - node_id.node_pk @*/ {
        let mut descendants = vec![];
        let children = self.get_children(node_id);
        descendants.extend(&children);
        /*@ proof { if self.valid(node_id) { self.lemma_some_below_start(node_id, children@, descendants@); } } @*/
        /*@ let ghost ks = children@; @*/
        for child in /*@ it: @*/ children /*@
            invariant
                self.wf(), ks == (if self.valid(node_id) { self.kid_ids(node_id.node_ptr as int) } else { Seq::empty() }), it.seq() == ks,
                self.some_below(node_id, ks, it.index(), descendants@),
        @*/ {
            /*@ proof { self.lemma_kid_ids(node_id.node_ptr as int); } let ghost before = descendants@; @*/
            let child_descendants = self.get_descendants(child);
            descendants.extend(child_descendants);
            /*@ proof { self.lemma_some_below_step(node_id, ks, it.index(), before, descendants@); } @*/
        }
        /*@ proof { if self.valid(node_id) { self.lemma_some_below_end(node_id, ks, descendants@); } } @*/
        descendants
    }

    pub fn get_children(&self, node_id: NodeId) -> /*@ (r: @*/ Vec<NodeId> /*@ )
        requires self.wf()
        ensures r@ == (if self.valid(node_id) { self.kid_ids(node_id.node_ptr as int) } else { Seq::empty() }) @*/ {
        let mut children = vec![];
        if !self.node_exists(node_id) {
            return children;
        }
        let node = &self.nodes[node_id.node_ptr];
        let mut cur_children_ix = node.first_child;
        /*@ let ghost p = node_id.node_ptr as int; proof { self.lemma_first(p); assert(self.ids(Seq::empty()) + self.kid_ids(p) =~= self.kid_ids(p)); } @*/
        while let Some(child_index) = cur_children_ix /*@
            invariant
                self.wf(), p == node_id.node_ptr, live_opt(self, cur_children_ix),
                children@ + self.ids(chain(self.nodes@, cur_children_ix)) == self.kid_ids(p),
            ensures children@ == self.kid_ids(p),
            decreases chain(self.nodes@, cur_children_ix).len()
        @*/ {
            /*@ proof { self.lemma_chain(cur_children_ix); self.lemma_chain(self.nodes@[child_index as int].next_sibling); } let ghost before = children@; @*/
            let cur_children = &self.nodes[child_index];
            children.push(NodeId::new(child_index, cur_children.pk));
            cur_children_ix = cur_children.next_sibling;
            /*@ proof {
                assert(before + self.ids(chain(self.nodes@, Some(child_index))) =~= children@ + self.ids(chain(self.nodes@, cur_children_ix)));
                if cur_children_ix is None { assert(children@ =~= self.kid_ids(p)); }
            } @*/
        }

        children
    }

    pub fn get_nth_child(&self, node: &Node<T>, nth: usize) -> /*@ (r: @*/ Result<&Node<T>, TreeError> /*@ )
        requires self.wf(), self.has(node)
        ensures match r {
            Ok(c) => nth < chain(self.nodes@, node.first_child).len() && *c == self.nodes@[chain(self.nodes@, node.first_child)[nth as int] as int] && self.has(c),
            Err(_) => nth >= chain(self.nodes@, node.first_child).len(),
        } @*/ {
        /*@ proof { self.lemma_has(node); self.lemma_chain(node.first_child); } let ghost c = chain(self.nodes@, node.first_child); @*/
        let children = Children {
            tree: self,
            current_child: node.first_child,
        };
        for (i, child) in /*@ it: @*/ children.enumerate() /*@
            invariant
                c == chain(self.nodes@, node.first_child), c.len() <= usize::MAX, it.seq().len() == c.len(),
                forall|k: int| 0 <= k < c.len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == self.nodes@[c[k] as int],
                forall|k: int| 0 <= k < c.len() ==> self.is_live(#[trigger] c[k] as int),
                nth >= it.index(), laws(&it.iter),
        @*/ {
            if i == nth {
                return Ok(child);
            }
        }
        Err(ChildDoesNotExists { child_nth: nth })
    }
    pub fn get_nth_child_or_none(&self, node: &Node<T>, nth: usize) -> /*@ (r: @*/ Option<&Node<T>> /*@ )
        requires self.wf(), self.has(node)
        ensures match r {
            Some(c) => nth < chain(self.nodes@, node.first_child).len() && *c == self.nodes@[chain(self.nodes@, node.first_child)[nth as int] as int] && self.has(c),
            None => nth >= chain(self.nodes@, node.first_child).len(),
        } @*/ {
        /*@ proof { self.lemma_has(node); self.lemma_chain(node.first_child); } let ghost c = chain(self.nodes@, node.first_child); @*/
        let children = Children {
            tree: self,
            current_child: node.first_child,
        };
        for (i, child) in /*@ it: @*/ children.enumerate() /*@
            invariant
                c == chain(self.nodes@, node.first_child), c.len() <= usize::MAX, it.seq().len() == c.len(),
                forall|k: int| 0 <= k < c.len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == self.nodes@[c[k] as int],
                forall|k: int| 0 <= k < c.len() ==> self.is_live(#[trigger] c[k] as int),
                nth >= it.index(), laws(&it.iter),
        @*/ {
            if i == nth {
                return Some(child);
            }
        }
        None
    }
    pub fn get_by_path_or_none(
        &self,
        source: NodeId,
        ids: impl Iterator<Item = usize>,
    ) -> /*@ (r: @*/ Result<Option<&Node<T>>, TreeError> /*@ )
        requires self.wf(), laws(&ids), iter_decrease(&ids) is Some
        ensures match r {
            Err(_) => !self.valid(source),
            Ok(n) => self.valid(source) && self.leads(source.node_ptr as int, rest(&ids), n),
        } @*/ {
        let mut node = self.get_node(source)?;
        /*@ let ghost mut at = source.node_ptr as int; let ghost mut done = 0int; @*/

        for id in /*@ it: @*/ ids /*@
            invariant self.wf(), self.is_live(at), *node == self.nodes@[at], self.valid(source), laws(&it.iter),
                self.walk(source.node_ptr as int, it.seq().take(it.index())) == Some(at),
        @*/ {
            /*@ proof { self.lemma_walk(source.node_ptr as int, it.seq(), it.index()); } @*/
            if let Some(nodee) = self.get_nth_child_or_none(node, id) {
                node = nodee;
                /*@ proof { self.lemma_kids(at); at = self.kids(at)[id as int] as int; } @*/
            } else {
                return Ok(None);
            }
        }

        Ok(Some(node))
    }

    pub fn get_node(&self, node_id: NodeId) -> /*@ (r: @*/ Result<&Node<T>, TreeError> /*@ )
        requires self.wf()
        ensures match r { Ok(n) => self.valid(node_id) && *n == self.nodes@[node_id.node_ptr as int] && self.has(n), Err(_) => !self.valid(node_id) } @*/ {
        if node_id.node_ptr >= self.nodes.len() {
            return Err(NodeDoesNotExist { node_id });
        }
        if self.free_node_indexes.contains(&node_id.node_ptr) {
            return Err(NodeWasRemoved { node_id });
        }
        let current_node = &self.nodes[node_id.node_ptr];
        if current_node.pk != node_id.node_pk {
            return Err(NodeDoesNotExist { node_id });
        }
        /*@ proof { assert(self.is_live(node_id.node_ptr as int)); } @*/
        Ok(&current_node)
    }
    pub fn get_node_mut(&mut self, node_id: NodeId) -> /*@ (r: @*/ Result<&mut Node<T>, TreeError> /*@ )
        ensures match r {
            Ok(n) => old(self).valid(node_id) && *n == old(self).nodes@[node_id.node_ptr as int]
                && final(self).nodes@ == old(self).nodes@.update(node_id.node_ptr as int, *final(n))
                && final(self).free_node_indexes == old(self).free_node_indexes && final(self).counter == old(self).counter,
            Err(_) => !old(self).valid(node_id) && final(self).nodes@ == old(self).nodes@ && final(self).free_node_indexes == old(self).free_node_indexes && final(self).counter == old(self).counter,
        } @*/ {
        if node_id.node_ptr >= self.nodes.len() {
            return Err(NodeDoesNotExist { node_id });
        }
        if self.free_node_indexes.contains(&node_id.node_ptr) {
            return Err(NodeWasRemoved { node_id });
        }
        let current_node = &mut self.nodes[node_id.node_ptr];
        if current_node.pk != node_id.node_pk {
            return Err(NodeDoesNotExist { node_id });
        }
        Ok(current_node)
    }
    pub fn node_exists(&self, node_id: NodeId) -> /*@ (r: @*/ bool /*@ )
        ensures r == self.valid(node_id) @*/ {
        if node_id.node_ptr >= self.nodes.len() {
            return false;
        }
        if self.free_node_indexes.contains(&node_id.node_ptr) {
            return false;
        }
        let current_node = &self.nodes[node_id.node_ptr];
        if current_node.pk != node_id.node_pk {
            return false;
        }
        true
    }

    pub fn remove_branch(&mut self, node_id: NodeId) -> /*@ (r: @*/ Result<(), TreeError> /*@ )
        requires old(self).wf()
        ensures match r {
            Err(_) => !old(self).valid(node_id) && *final(self) == *old(self),
            Ok(_) => old(self).valid(node_id) && removed(&*old(self), &*final(self), node_id),
        } @*/ {
        /*@ let ghost o = *self; @*/
        let node = &self.get_node(node_id)?;
        let parent_id_maybe = node.parent;
        let mut nodes_to_free = self
            .get_descendants(node_id)
            .iter()
            ./*@< v_map @*/ map /*@>@*/ (/*@< |x: &NodeId| -> (y: usize) ensures y == x.node_ptr { @*/ |x| /*@>@*/ x.node_ptr /*@ } @*/)
            .collect::<Vec<usize>>();
        /*@ let ghost ds = choose|ds: Seq<NodeId>| #[trigger] self.descs(node_id, ds) && is_ptrs(ds, nodes_to_free@); proof { assert(exists|ds: Seq<NodeId>| #[trigger] self.descs(node_id, ds) && is_ptrs(ds, nodes_to_free@)); } @*/
        nodes_to_free.push(node_id.node_ptr);
        /*@ let ghost gone = nodes_to_free@; proof { assert(node_ok(o.nodes@, o.free_node_indexes@, node_id.node_ptr as int)); } @*/

        let next_sibling_id = node.next_sibling;
        let previous_sibling_id = node.previous_sibling;

        if let Some(parent_id) = parent_id_maybe {
            let parent = &mut self.nodes[parent_id];
            if parent.first_child == Some(node_id.node_ptr) {
                parent.first_child = next_sibling_id;
            }
            if parent.last_child == Some(node_id.node_ptr) {
                parent.last_child = previous_sibling_id
            }
        }
        if let Some(pre_sibling) = previous_sibling_id {
            let pre = &mut self.nodes[pre_sibling];
            pre.next_sibling = next_sibling_id;
        }
        if let Some(next_sibling) = next_sibling_id {
            let next = &mut self.nodes[next_sibling];
            next.previous_sibling = previous_sibling_id;
        }
        self.free_node_indexes.extend(nodes_to_free);
        /*@ proof {
            assert(self.free_node_indexes@ == o.free_node_indexes@ + gone);
            o.lemma_gone(node_id, ds, gone.drop_last()); assert(gone =~= gone.drop_last().push(node_id.node_ptr));
            lemma_removed(&o, self, node_id, gone);
        } @*/

        Ok(())
    }
}

/*@
impl<'tree, T> Children<'tree, T> {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { self.tree.wf() && live_opt(self.tree, self.current_child) }
}
impl<'tree, T> IteratorSpecImpl for Children<'tree, T> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    closed spec fn remaining(&self) -> Seq<&'tree Node<T>> {
        Seq::new(chain(self.tree.nodes@, self.current_child).len(), |i: int| &self.tree.nodes@[chain(self.tree.nodes@, self.current_child)[i] as int])
    }
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { Some(chain(self.tree.nodes@, self.current_child).len()) }
    closed spec fn peek(&self, i: int) -> Option<&'tree Node<T>> { None }
}
@*/
pub struct Children<'tree, T> {
    tree: &'tree Tree<T>,
    current_child: Option<NodePtr>,
}

impl<'tree, T> Iterator for Children<'tree, T> {
    type Item = &'tree Node<T>;

    fn next(&mut self) -> Option<&'tree Node<T>> {
        /*@ proof { use_type_invariant(&*self); self.tree.lemma_chain(self.current_child); if self.current_child is Some { self.tree.lemma_chain(self.tree.nodes@[self.current_child->0 as int].next_sibling); } } @*/
        match self.current_child {
            None => None,
            Some(node_id) => {
                let child = &self.tree.nodes[node_id];
                let next_id = child.next_sibling;
                self.current_child = next_id;
                Some(child)
            }
        }
    }
}

#[derive(Debug)]
pub enum TreeError {
    NodeDoesNotExist { node_id: NodeId },
    NodeWasRemoved { node_id: NodeId },
    ChildDoesNotExists { child_nth: usize },
}

/*@ #[verifier::external] @*/
impl std::error::Error for TreeError {}

/*@ #[verifier::external] @*/
impl fmt::Display for TreeError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            NodeDoesNotExist { node_id } => write!(f, "{} does not exists", node_id),
            NodeWasRemoved { node_id } => write!(f, "{} was removed", node_id),
            ChildDoesNotExists { child_nth } => write!(f, "{} does not exist", child_nth),
        }
    }
}
