//! A graph wrapper that assigns stable names to nodes.
//!
//! This is used by FOLLOW set computation to reference nodes by element indexes
//! and propagate data along edges while keeping the underlying graph indices
//! internal.

use std::collections::HashMap;
use std::fmt;

use crate::errors::GrammarError;
use crate::parser_data::ElementIndex;

use crate::named_graph::GraphError::{
    IndexOutOfBounds, NodeAlreadyExistsError, NodeDoesNotExistsError,
};
use crate::simple_graph::{EdgeIndex, Graph, NodeData, NodeIndex, Successors};

#[derive(Debug)]
pub enum GraphError {
    NodeAlreadyExistsError { node_name: String },
    NodeDoesNotExistsError { node_name: String },
    IndexOutOfBounds { index: NodeIndex },
}

/*@ #[verifier::external] @*/
impl std::error::Error for GraphError {}

/*@ #[verifier::external] @*/
impl fmt::Display for GraphError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            NodeAlreadyExistsError { node_name } => {
                write!(f, "Node with the name \"{node_name}\" already exists")
            }
            NodeDoesNotExistsError { node_name } => {
                write!(f, "Node \"{node_name}\" does not exist")
            }
            IndexOutOfBounds { index } => write!(f, "Index \"{index}\" out of bounds"),
        }
    }
}

pub struct GraphNamedNodes<Ta> {
    /*@ pub @*/ graph: Graph<Ta>,
    pub names: HashMap<ElementIndex, NodeIndex>,
}

/*@
use vstd::std_specs::iter::IteratorSpecImpl;
use crate::simple_graph::{chain, in_range, next_id, next_ok, lemma_chain_range};

impl<Ta> GraphNamedNodes<Ta> {
    pub open spec fn g(&self) -> Graph<Ta> { self.graph }
    pub open spec fn wf(&self) -> bool {
        &&& self.g().wf()
        &&& forall|k: ElementIndex| #[trigger] self.names@.contains_key(k) ==> self.names@[k] < self.g().nodes@.len()
        &&& forall|k: ElementIndex, l: ElementIndex| #[trigger] self.names@.contains_key(k) && #[trigger] self.names@.contains_key(l) && self.names@[k] == self.names@[l] ==> k == l
        &&& forall|n: int| 0 <= n < self.g().nodes@.len() ==> #[trigger] self.named(n)
    }
    pub open spec fn named(&self, n: int) -> bool { exists|k: ElementIndex| #[trigger] self.names@.contains_key(k) && self.names@[k] == n }
    /// the node a name denotes
    pub open spec fn node(&self, k: ElementIndex) -> int { self.names@[k] as int }
    pub open spec fn count(&self) -> nat { self.g().nodes@.len() }
}
@*/
impl<Ta> Default for GraphNamedNodes<Ta> {
    fn default() -> /*@ (r: @*/ Self /*@ ) ensures r.wf(), r.count() == 0, r.names@ == Map::<ElementIndex, NodeIndex>::empty() @*/ {
        Self::new()
    }
}

impl<Ta> GraphNamedNodes<Ta> {
    pub fn new() -> /*@ (r: @*/ GraphNamedNodes<Ta> /*@ ) ensures r.wf(), r.count() == 0, r.names@ == Map::<ElementIndex, NodeIndex>::empty() @*/ {
        GraphNamedNodes {
            graph: Graph::new(),
            names: HashMap::new(),
        }
    }
    pub fn add_node(
        &mut self,
        node_name: ElementIndex,
        data: Ta,
    ) -> /*@ (r: @*/ Result<NodeIndex, GrammarError> /*@ )
        requires old(self).wf()
        ensures
            final(self).wf(), r is Ok <==> !old(self).names@.contains_key(node_name),
            match r {
                Ok(ix) => ix == old(self).count() && final(self).names@ == old(self).names@.insert(node_name, ix) && final(self).count() == ix + 1
                    && final(self).g().data(ix as int) == data && final(self).g().out(ix as int).len() == 0 && final(self).g().keeps(&old(self).g(), -1)
                    && final(self).g().edges == old(self).g().edges,
                Err(e) => *final(self) == *old(self) && e == (GrammarError::GraphNodeAlreadyExistsError { node_name }),
            } @*/ {
        if self.names.contains_key(&node_name) {
            return Err(GrammarError::GraphNodeAlreadyExistsError { node_name });
        }
        let index = self.graph.add_node(data);
        self.names.insert(node_name, index);
        /*@ proof {
            assert forall|n: int| 0 <= n < self.graph.nodes@.len() implies #[trigger] self.named(n) by {
                assert(n < index ==> old(self).named(n));
                if n < index {
                    let k = choose|k: ElementIndex| #[trigger] old(self).names@.contains_key(k) && old(self).names@[k] == n;
                    assert(self.names@.contains_key(k) && self.names@[k] == n);
                } else { assert(self.names@.contains_key(node_name)); }
            }
        } @*/
        Ok(index)
    }

    fn get_index_of_node(&self, node_name: ElementIndex) -> /*@ (r: @*/ Result<NodeIndex, GrammarError> /*@ )
        ensures r is Ok <==> self.names@.contains_key(node_name),
            match r { Ok(ix) => ix == self.names@[node_name], Err(e) => e == (GrammarError::GraphNodeDoesNotExistsError { node_name }) } @*/ {
        Ok(*self
            .names
            .get(&node_name)
            .ok_or(GrammarError::GraphNodeDoesNotExistsError { node_name })?
            as NodeIndex)
    }

    pub fn get_node_by_index(&self, index: NodeIndex) -> /*@ (r: @*/ Result<&NodeData<Ta>, GrammarError> /*@ )
        ensures r is Ok <==> index < self.count(),
            match r { Ok(d) => *d == self.g().nodes@[index as int], Err(e) => e == (GrammarError::GraphIndexOutOfBounds { index }) } @*/ {
        if index >= self.graph.nodes.len() {
            return Err(GrammarError::GraphIndexOutOfBounds { index });
        }
        Ok(&self.graph.nodes[index])
    }
    pub fn get_node_mut_by_index(
        &mut self,
        index: NodeIndex,
    ) -> /*@ (r: @*/ Result<&mut NodeData<Ta>, GrammarError> /*@ )
        ensures r is Ok <==> index < old(self).count(), final(self).names == old(self).names,
            match r {
                Ok(d) => *d == old(self).g().nodes@[index as int] && final(self).g().edges == old(self).g().edges
                    && final(self).g().nodes@ == old(self).g().nodes@.update(index as int, *final(d)),
                Err(e) => e == (GrammarError::GraphIndexOutOfBounds { index }) && *final(self) == *old(self),
            } @*/ {
        if index >= self.graph.nodes.len() {
            return Err(GrammarError::GraphIndexOutOfBounds { index });
        }
        Ok(&mut self.graph.nodes[index])
    }

    pub fn get_node(&self, node_name: ElementIndex) -> /*@ (r: @*/ Result<&NodeData<Ta>, GrammarError> /*@ )
        requires self.wf()
        ensures r is Ok <==> self.names@.contains_key(node_name),
            match r { Ok(d) => *d == self.g().nodes@[self.node(node_name)], Err(e) => e == (GrammarError::GraphNodeDoesNotExistsError { node_name }) } @*/ {
        let index = self.get_index_of_node(node_name)?;
        Ok(&self.graph.nodes[index])
    }
    pub fn get_node_mut(
        &mut self,
        node_name: ElementIndex,
    ) -> /*@ (r: @*/ Result<&mut NodeData<Ta>, GrammarError> /*@ )
        requires old(self).wf()
        ensures r is Ok <==> old(self).names@.contains_key(node_name), final(self).names == old(self).names,
            match r {
                Ok(d) => *d == old(self).g().nodes@[old(self).node(node_name)] && final(self).g().edges == old(self).g().edges
                    && final(self).g().nodes@ == old(self).g().nodes@.update(old(self).node(node_name), *final(d)),
                Err(e) => e == (GrammarError::GraphNodeDoesNotExistsError { node_name }) && *final(self) == *old(self),
            } @*/ {
        let index = self.get_index_of_node(node_name)?;
        Ok(&mut self.graph.nodes[index])
    }
    pub fn add_edge(
        &mut self,
        source: ElementIndex,
        target: ElementIndex,
    ) -> /*@ (r: @*/ Result<(), GrammarError> /*@ )
        requires
            old(self).wf(),
            old(self).names@.contains_key(source) && old(self).g().out(old(self).node(source)).len() > 0 ==> old(self).g().out(old(self).node(source))[0].0 < usize::MAX,
        ensures
            final(self).wf(), final(self).names == old(self).names, final(self).count() == old(self).count(),
            r is Ok <==> old(self).names@.contains_key(source) && old(self).names@.contains_key(target),
            match r {
                Ok(_) => final(self).g().edges@.len() == old(self).g().edges@.len() + 1 && final(self).g().keeps(&old(self).g(), old(self).node(source)) && final(self).g().out(old(self).node(source))
                    == seq![(next_id(old(self).g().out(old(self).node(source))), old(self).node(target) as usize)] + old(self).g().out(old(self).node(source)),
                Err(e) => *final(self) == *old(self)
                    && e == (GrammarError::GraphNodeDoesNotExistsError { node_name: if old(self).names@.contains_key(source) { target } else { source } }),
            } @*/ {
        let source_index = self.get_index_of_node(source)?;
        let target_index = self.get_index_of_node(target)?;
        self.graph.add_edge(source_index, target_index);
        /*@ proof { assert forall|n: int| 0 <= n < self.graph.nodes@.len() implies #[trigger] self.named(n) by {
            assert(old(self).named(n));
            let k = choose|k: ElementIndex| #[trigger] old(self).names@.contains_key(k) && old(self).names@[k] == n;
            assert(self.names@.contains_key(k) && self.names@[k] == n);
        } } @*/
        Ok(())
    }

    pub fn successor_indices(
        &self,
        node_name: ElementIndex,
    ) -> /*@ (r: @*/ Result<Successors<'_, Ta>, GrammarError> /*@ )
        requires self.wf()
        ensures r is Ok <==> self.names@.contains_key(node_name),
            match r {
                Ok(s) => laws(&s) && will_end(&s) && iter_decrease(&s) is Some && rest(&s).len() == self.g().out(self.node(node_name)).len()
                    && forall|i: int| 0 <= i < rest(&s).len() ==> #[trigger] rest(&s)[i] == self.g().out(self.node(node_name))[i].1,
                Err(e) => e == (GrammarError::GraphNodeDoesNotExistsError { node_name }),
            } @*/ {
        let index = self.get_index_of_node(node_name)?;
        Ok(self.graph.successors(index))
    }

    pub fn successors(
        &self,
        node_name: ElementIndex,
    ) -> /*@ (r: @*/ Result<SuccessorsData<'_, Ta>, GrammarError> /*@ )
        requires self.wf()
        ensures r is Ok <==> self.names@.contains_key(node_name),
            match r {
                Ok(s) => laws(&s) && will_end(&s) && iter_decrease(&s) is Some && rest(&s).len() == self.g().out(self.node(node_name)).len()
                    && forall|i: int| 0 <= i < rest(&s).len() ==> (#[trigger] rest(&s)[i]).0 == self.g().out(self.node(node_name))[i].1
                        && *rest(&s)[i].1 == self.g().nodes@[rest(&s)[i].0 as int],
                Err(e) => e == (GrammarError::GraphNodeDoesNotExistsError { node_name }),
            } @*/ {
        /*@ proof { if self.names@.contains_key(node_name) { self.graph.lemma_out(self.node(node_name)); } } @*/
        let index = self.get_index_of_node(node_name)?;
        let first_outgoing_edge = self.graph.nodes[index].first_outgoing_edge;
        Ok(SuccessorsData {
            graph: self,
            current_edge_index: first_outgoing_edge,
        })
    }
}
pub struct SuccessorsData<'graph, Ta> {
    graph: &'graph GraphNamedNodes<Ta>,
    current_edge_index: Option<EdgeIndex>,
}

/*@
impl<'graph, Ta> SuccessorsData<'graph, Ta> {
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { self.graph.graph.wf() && in_range(self.graph.graph.edges@, self.current_edge_index) }
}
impl<'graph, Ta> IteratorSpecImpl for SuccessorsData<'graph, Ta> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    closed spec fn remaining(&self) -> Seq<(NodeIndex, &'graph NodeData<Ta>)> {
        let c = chain(self.graph.graph.edges@, self.current_edge_index);
        Seq::new(c.len(), |i: int| (self.graph.graph.edges@[c[i] as int].target, &self.graph.graph.nodes@[self.graph.graph.edges@[c[i] as int].target as int]))
    }
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { Some(chain(self.graph.graph.edges@, self.current_edge_index).len()) }
    closed spec fn peek(&self, i: int) -> Option<(NodeIndex, &'graph NodeData<Ta>)> { None }
}
@*/
impl<'graph, Ta> Iterator for SuccessorsData<'graph, Ta> {
    type Item = (NodeIndex, &'graph NodeData<Ta>);

    fn next(&mut self) -> Option<(NodeIndex, &'graph NodeData<Ta>)> {
        /*@ proof {
            use_type_invariant(&*self); lemma_chain_range(self.graph.graph.edges@, self.current_edge_index);
            if self.current_edge_index is Some { assert(next_ok(self.graph.graph.edges@, self.current_edge_index->0 as int)); }
        } @*/
        match self.current_edge_index {
            None => None,
            Some(edge_num) => {
                let ggraph: &Graph<Ta> = &self.graph.graph;
                let nodes: &Vec<NodeData<Ta>> = &(ggraph.nodes);
                let edge = &ggraph.edges[edge_num];
                self.current_edge_index = edge.next_outgoing_edge;
                Some((edge.target, &nodes[edge.target]))
            }
        }
    }
}
