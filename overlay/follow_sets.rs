//! Compute FOLLOW sets for non-terminals.
//!
//! This module builds a dependency graph between non-terminals and propagates
//! terminal symbols according to LL(1) FOLLOW rules. The resulting map is used
//! when constructing the parsing steuer maps.

use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;
use std::iter::FromIterator;

use crate::errors::GrammarError;
use crate::parser_data::{ElementType, ParserData};
use crate::vms::VM;
/*@ use crate::grammar::*; use crate::parser_data::production_of; use crate::sets::*; use crate::simple_graph::{chain, links, owns, next_id, edges_wf, in_range, lemma_chain_range}; use vstd::std_specs::hash::*; @*/

use crate::first_sets::first_set_of_partial;
use crate::named_graph::GraphNamedNodes;
use crate::parser_data::{ElementIndex, Production, RuleMap};
use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
use crate::simple_graph::NodeData;

pub type Graph = GraphNamedNodes<HashSet<SetMember>>;

/// Computes the FOLLOW sets for all non-terminals.
///
/// The start symbol's FOLLOW set is initialized with Terminate and information
/// is propagated along a graph built from productions. Returns a map from
/// a non-terminal index to the set of terminal symbols that may follow it.
pub fn get_follow_sets<T>(
    start: ElementIndex,
    first_sets: &NamedSets,
    parser_data: &ParserData<T>,
) -> /*@ (r: @*/ Result<NamedSetsNoEmpty, GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires parser_data.gram_ok(), parser_data.gram().exact(first_sets)
    ensures
        r is Ok ==> r->Ok_0@.dom() == parser_data.gram().rules.dom(),
        r is Ok ==> forall|x: usize| #[trigger] r->Ok_0@.contains_key(x) ==> parser_data.gram().is_follow(start, x, r->Ok_0@[x]@),
        r is Ok ==> parser_data.gram().rules.contains_key(start) && parser_data.gram().complete(),
        r is Err ==> follow_error(parser_data.gram(), start, first_sets, r->Err_0),
    @*/
{
    /*@ let ghost g = parser_data.gram(); @*/
    let mut follow_graph = make_graph_with_index(&parser_data.parse_rules.rules)?;
    /*@ let ghost fg0 = follow_graph; @*/
    follow_graph
        .get_node_mut(start)?
        .data
        .insert(SetMember::Terminate);
    /*@ proof { lemma_started(g, start, &fg0, &follow_graph); lemma_grows_refl(g, &follow_graph); } let ghost fr = follow_graph; @*/
    for (&el_index, nt_rules) in /*@ it: @*/ &parser_data.parse_rules.rules /*@
        invariant
            g == parser_data.gram(), parser_data.gram_ok(), g.exact(first_sets),
            fresh(g, start, &fr), prep(g, &follow_graph), grows(&fr, &follow_graph), only_adds(g, &fr, &follow_graph),
            forall|i: int| 0 <= i < it.seq().len() ==> parser_data.parse_rules.rules@.contains_key(*(#[trigger] it.seq()[i]).0) && parser_data.parse_rules.rules@[*it.seq()[i].0] == *it.seq()[i].1,
            forall|k: usize| parser_data.parse_rules.rules@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
            forall|i: int| 0 <= i < it.index() ==> rule_marked(g, &follow_graph, *(#[trigger] it.seq()[i]).0, g.alts(*it.seq()[i].0).len() as int),
    @*/ {
        /*@ let ghost before = follow_graph; let ghost seq = it.seq(); let ghost i = it.index();
        proof { assert(parser_data.parse_rules.rules@.contains_key(*seq[i].0)); assert(g.alts(el_index).len() == nt_rules.possible_productions@.len()); } @*/
        for production in /*@ jt: @*/ &nt_rules.possible_productions /*@
            invariant
                g == parser_data.gram(), parser_data.gram_ok(), g.exact(first_sets),
                fresh(g, start, &fr), prep(g, &follow_graph), grows(&fr, &follow_graph), only_adds(g, &fr, &follow_graph), grows(&before, &follow_graph),
                parser_data.parse_rules.rules@.contains_key(el_index), *nt_rules == parser_data.parse_rules.rules@[el_index],
                g.alts(el_index).len() == nt_rules.possible_productions@.len(), jt.seq() == nt_rules.possible_productions@.as_ref(),
                rule_marked(g, &follow_graph, el_index, jt.index()),
        @*/ {
            /*@ let ghost mid = follow_graph; let ghost j = jt.index();
            proof { assert(**jt.seq()[j] == parser_data.prods(el_index)[j]); assert(g.alts(el_index)[j] == production_of(**production)); } @*/
            let prodi = &**production;
            if let Production::NotEmpty(prod) = prodi {
                /*@ proof { assert(production_at(g, el_index, j, prod@)); } @*/
                graph_marking_for_rightside_elements(
                    prod,
                    &mut follow_graph,
                    first_sets,
                    el_index,
                    parser_data,
                )?;
            }
            /*@ proof { lemma_rule_done(g, &fr, &before, &mid, &follow_graph, el_index, j); } @*/
        }
        /*@ proof {
            assert forall|l: int| 0 <= l < i + 1 implies rule_marked(g, &follow_graph, *(#[trigger] seq[l]).0, g.alts(*seq[l].0).len() as int) by {
                if l < i { lemma_rule_grows(g, &before, &follow_graph, *seq[l].0, g.alts(*seq[l].0).len() as int); }
            }
        } @*/
    }
    /*@ proof {
        assert forall|a: usize| #[trigger] g.rules.contains_key(a) implies rule_marked(g, &follow_graph, a, g.alts(a).len() as int) by {
            assert(parser_data.parse_rules.rules@.contains_key(a));
        }
        lemma_complete(g, &follow_graph);
        lemma_all_follow(g, start, &fr, &follow_graph);
    } @*/
    make_follow_sets_from_marked_graph(&mut follow_graph)
}

fn make_graph_with_index<T>(rules: &RuleMap<T>) -> /*@ (r: @*/ Result<Graph, GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ ensures
        r is Ok, r->Ok_0.wf(), r->Ok_0.names@.dom() == rules@.dom(),
        forall|n: int| 0 <= n < r->Ok_0.count() ==> (#[trigger] r->Ok_0.g().nodes@[n]).data@ == Set::<SetMember>::empty() && r->Ok_0.g().out(n).len() == 0, @*/
{
    let mut follow_graph = Graph::new();
    for (name, _) in /*@ it: @*/ rules.iter() /*@
        invariant
            follow_graph.wf(),
            forall|i: int| 0 <= i < it.seq().len() ==> rules@.contains_key(*(#[trigger] it.seq()[i]).0),
            it.seq().no_duplicates(), forall|i: int| 0 <= i < it.seq().len() ==> rules@[*(#[trigger] it.seq()[i]).0] == *it.seq()[i].1,
            forall|k: usize| rules@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
            forall|k: usize| #[trigger] follow_graph.names@.contains_key(k) ==> exists|i: int| 0 <= i < it.index() && *(#[trigger] it.seq()[i]).0 == k,
            forall|i: int| 0 <= i < it.index() ==> follow_graph.names@.contains_key(*(#[trigger] it.seq()[i]).0),
            forall|n: int| 0 <= n < follow_graph.count() ==> (#[trigger] follow_graph.g().nodes@[n]).data@ == Set::<SetMember>::empty() && follow_graph.g().out(n).len() == 0,
    @*/ {
        /*@ let ghost before = follow_graph; let ghost i = it.index();
        proof {
            assert forall|l: int| 0 <= l < i implies *(#[trigger] it.seq()[l]).0 != *name by {
                if *it.seq()[l].0 == *name { assert(it.seq()[l] == it.seq()[i]); }
            }
        } @*/
        follow_graph.add_node(*name, HashSet::new())?;
        /*@ proof {
            assert forall|n: int| 0 <= n < follow_graph.count() implies (#[trigger] follow_graph.g().nodes@[n]).data@ == Set::<SetMember>::empty() && follow_graph.g().out(n).len() == 0 by {
                if n < before.count() {
                    assert(follow_graph.g().data(n) == before.g().data(n)); assert(follow_graph.g().out(n) == before.g().out(n));
                    assert(before.g().nodes@[n].data@ == Set::<SetMember>::empty());
                } else { assert(follow_graph.g().data(n)@ == Set::<SetMember>::empty()); }
            }
        } @*/
    }
    /*@ proof { assert(follow_graph.names@.dom() =~= rules@.dom()); } @*/
    Ok(follow_graph)
}

fn make_follow_sets_from_marked_graph(
    follow_graph: &mut Graph,
) -> /*@ (r: @*/ Result<NamedSetsNoEmpty, GrammarError> /*@ )
    requires old(follow_graph).wf()
    ensures
        r is Ok, r->Ok_0@.dom() == old(follow_graph).names@.dom(),
        forall|x: usize| #[trigger] r->Ok_0@.contains_key(x) ==> forall|m: SetMember| #[trigger] r->Ok_0@[x]@.contains(m) <==> arrives(old(follow_graph), x, m), @*/ {
    /*@ let ghost o = *follow_graph; let ghost all = union_to(follow_graph.g().nodes@, follow_graph.count() as int);
    proof { lemma_union(follow_graph.g().nodes@, follow_graph.count() as int); lemma_flow_start(&o); } @*/
    let mut follow_sets: NamedSetsNoEmpty = HashMap::new();
    let mut changes = true;
    while changes /*@
        invariant
            flowing(&o, follow_graph, all),
            !changes ==> settled(follow_graph),
        decreases follow_graph.count() * all.len() - total(follow_graph.g().nodes@, follow_graph.count() as int), (if changes { 1int } else { 0 })
    @*/ {
        /*@ let ghost start = *follow_graph; @*/
        changes = false;
        let mut successor_indexes /*@ : Vec<(usize, Vec<SetMember>)> @*/ = vec![];
        for (name, node_index) in /*@ it: @*/ &follow_graph.names /*@
            invariant
                flowing(&o, follow_graph, all), *follow_graph == start,
                forall|i: int| 0 <= i < it.seq().len() ==> follow_graph.names@.contains_key(*(#[trigger] it.seq()[i]).0) && follow_graph.names@[*it.seq()[i].0] == *it.seq()[i].1,
                forall|k: usize| follow_graph.names@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
                forall|j: int| 0 <= j < successor_indexes@.len() ==> found(follow_graph, (#[trigger] successor_indexes@[j]).0 as int, successor_indexes@[j].1@),
                changes == (successor_indexes@.len() > 0),
                !changes ==> forall|i: int| 0 <= i < it.index() ==> settled_at(follow_graph, *(#[trigger] it.seq()[i]).1 as int, follow_graph.g().out(*it.seq()[i].1 as int).len() as int),
        @*/ {
            /*@ proof { assert(follow_graph.names@.contains_key(*it.seq()[it.index()].0)); } let ghost n = *node_index as int; let ghost c0 = changes; @*/
            let node: &NodeData<HashSet<SetMember>> =
                follow_graph.get_node_by_index(*node_index)?;
            let successors = follow_graph.successors(*name)?;
            for (successor_index, successor) in /*@ jt: @*/ successors /*@
                invariant
                    flowing(&o, follow_graph, all), *follow_graph == start, laws(&jt.iter), 0 <= n < follow_graph.count(),
                    *node == follow_graph.g().nodes@[n],
                    jt.seq().len() == follow_graph.g().out(n).len(),
                    forall|i: int| 0 <= i < jt.seq().len() ==> (#[trigger] jt.seq()[i]).0 == follow_graph.g().out(n)[i].1 && *jt.seq()[i].1 == follow_graph.g().nodes@[jt.seq()[i].0 as int],
                    forall|j: int| 0 <= j < successor_indexes@.len() ==> found(follow_graph, (#[trigger] successor_indexes@[j]).0 as int, successor_indexes@[j].1@),
                    changes == (successor_indexes@.len() > 0), c0 ==> changes,
                    !changes ==> settled_at(follow_graph, n, jt.index()),
            @*/ {
                /*@ let ghost k = jt.index(); proof { assert(jt.seq()[k].0 == follow_graph.g().out(n)[k].1); follow_graph.g().lemma_out(n); } @*/
                if !node.data.is_subset(&successor.data) {
                    changes = true;
                    let missing_in_successor = node
                        .data
                        .difference(&successor.data).copied()
                        ./*@< v_collect @*/ collect /*@>@*/ ::<Vec<SetMember>>();
                    /*@ proof {
                        assert(exists|x: SetMember| node.data@.contains(x) && !successor.data@.contains(x));
                        lemma_found(follow_graph, n, k, missing_in_successor@); } @*/
                    successor_indexes.push((successor_index, missing_in_successor));
                }
            }
        }
        /*@ proof { if !changes { lemma_settled(follow_graph); } } let ghost mid = *follow_graph; @*/
        for (index, members_missing) in /*@ it: @*/ successor_indexes.iter() /*@
            invariant
                flowing(&o, &mid, all), flowing(&o, follow_graph, all), swollen(&mid, follow_graph), mid == start,
                it.seq() == successor_indexes@.as_ref(),
                forall|j: int| 0 <= j < successor_indexes@.len() ==> found(&mid, (#[trigger] successor_indexes@[j]).0 as int, successor_indexes@[j].1@),
                changes == (successor_indexes@.len() > 0), !changes ==> settled(&mid),
                it.index() == 0 ==> *follow_graph == mid,
                it.index() > 0 ==> total(follow_graph.g().nodes@, follow_graph.count() as int) > total(mid.g().nodes@, mid.count() as int),
        @*/ {
            /*@ let ghost before = *follow_graph; let ghost j = it.index(); proof { assert(*it.seq()[j] == successor_indexes@[j]); assert(found(&mid, successor_indexes@[j].0 as int, successor_indexes@[j].1@)); } @*/
            follow_graph
                .get_node_mut_by_index(*index)?
                .data
                .extend(members_missing);
            /*@ proof { lemma_flow_step(&o, &mid, &before, follow_graph, all, *index as int, members_missing@); } @*/
        }
        /*@ proof { if changes { lemma_measure(&o, follow_graph, all); } } @*/
    }
    /*@ proof { lemma_flow_end(&o, follow_graph, all); } @*/
    for (name, index) in /*@ it: @*/ &follow_graph.names /*@
        invariant
            flowing(&o, follow_graph, all), settled(follow_graph), arrived(&o, follow_graph),
            forall|i: int| 0 <= i < it.seq().len() ==> follow_graph.names@.contains_key(*(#[trigger] it.seq()[i]).0) && follow_graph.names@[*it.seq()[i].0] == *it.seq()[i].1,
            forall|k: usize| follow_graph.names@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
            forall|i: int| 0 <= i < it.index() ==> follow_sets@.contains_key(*(#[trigger] it.seq()[i]).0),
            forall|x: usize| #[trigger] follow_sets@.contains_key(x) ==> follow_graph.names@.contains_key(x) && follow_sets@[x]@ == follow_graph.g().data(follow_graph.node(x))@,
    @*/ {
        /*@ proof { assert(follow_graph.names@.contains_key(*it.seq()[it.index()].0)); } @*/
        follow_sets.insert(
            name.clone(),
            follow_graph.get_node_by_index(*index)?.data.clone(),
        );
    }
    /*@ proof {
        assert(follow_sets@.dom() =~= o.names@.dom());
        assert forall|x: usize| #[trigger] follow_sets@.contains_key(x) implies forall|m: SetMember| #[trigger] follow_sets@[x]@.contains(m) <==> arrives(&o, x, m) by {
            assert forall|m: SetMember| #[trigger] follow_sets@[x]@.contains(m) <==> arrives(&o, x, m) by { assert(ndata(follow_graph, o.node(x)).contains(m) <==> narrives(&o, o.node(x), m)); }
        }
    } @*/
    Ok(follow_sets)
}

fn graph_marking_for_rightside_elements<T>(
    prod: &[ElementIndex],
    follow_graph: &mut Graph,
    first_sets: &NamedSets,
    left_side: ElementIndex,
    parser_data: &ParserData<T>,
) -> /*@ (r: @*/ Result<(), GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires
        parser_data.gram_ok(), parser_data.gram().exact(first_sets), prep(parser_data.gram(), old(follow_graph)),
        exists|p: int| production_at(parser_data.gram(), left_side, p, prod@),
    ensures
        r is Ok ==> prep(parser_data.gram(), final(follow_graph)) && only_adds(parser_data.gram(), old(follow_graph), final(follow_graph)),
        r is Ok ==> grows(old(follow_graph), final(follow_graph)) && prod_marked(parser_data.gram(), final(follow_graph), left_side, prod@, prod@.len() as int),
        r is Err ==> missing_error(parser_data.gram(), first_sets, r->Err_0),
    @*/
{
    /*@ let ghost g = parser_data.gram(); let ghost o = *follow_graph; let ghost p0 = choose|p: int| production_at(g, left_side, p, prod@);
    proof { lemma_grows_refl(g, &o); assert(g.known(prod@)); } @*/
    let der_len = prod.len();
    for (i, &el_index) in /*@ it: @*/ prod.iter().enumerate() /*@
        invariant
            g == parser_data.gram(), parser_data.gram_ok(), g.exact(first_sets), production_at(g, left_side, p0, prod@), g.known(prod@), der_len == prod@.len(),
            laws(&it.iter), it.seq().len() == prod@.len(), forall|k: int| 0 <= k < prod@.len() ==> #[trigger] it.seq()[k] == (k as usize, &prod@[k]),
            prep(g, &o), prep(g, follow_graph), only_adds(g, &o, follow_graph), grows(&o, follow_graph), prod_marked(g, follow_graph, left_side, prod@, it.index()),
    @*/ {
        /*@ let ghost before = *follow_graph; let ghost k = it.index(); proof { assert(it.seq()[k] == (k as usize, &prod@[k])); assert(g.alts(left_side)[p0][k] == el_index); } @*/
        let element = parser_data
            .get_element(el_index)
            .ok_or(GrammarError::MissingElementForIndex { index: el_index })?
            .et;
        if let ElementType::NonTerminal = &element {
            let is_last_element = i >= der_len - 1;
            let mut add_edge = false;
            if is_last_element {
                add_edge = true;
            } else {
                let mut first_set_following =
                    first_set_of_partial(&prod[i + 1..], first_sets, &parser_data)?;
                let has_empty = first_set_following.contains(&SetMemberWithEmpty::Empty);
                if has_empty {
                    first_set_following.remove(&SetMemberWithEmpty::Empty);
                    add_edge = true;
                }
                /*@ proof {
                    assert(prod@.subrange(i + 1, prod@.len() as int) =~= prod@.skip(k + 1));
                    assert(!first_set_following@.contains(SetMemberWithEmpty::Empty));
                    assert(!first_set_following@.contains(SetMemberWithEmpty::Terminate));
                } let ghost ff = first_set_following@; @*/
                follow_graph
                    .get_node_mut(el_index)?
                    .data
                    .extend(first_set_following
                            .iter()
                            ./*@< v_map @*/ map /*@>@*/ (|x/*@ : &SetMemberWithEmpty @*/| /*@ -> (y: SetMember) requires *x != SetMemberWithEmpty::Empty ensures no_empty(*x) == Some(y) { @*/ SetMember::try_from(*x).unwrap() /*@ } @*/).collect::<HashSet<_>>());
                /*@ proof {
                    assert(forall|c: char| #[trigger] ff.contains(SetMemberWithEmpty::Char(c)) ==> fdata(follow_graph, el_index).contains(SetMember::Char(c)));
                    assert(forall|m: SetMember| #[trigger] fdata(follow_graph, el_index).contains(m) ==> fdata(&before, el_index).contains(m) || m is Char && ff.contains(SetMemberWithEmpty::Char(m->Char_0)));
                    assert(forall|m: SetMember| #[trigger] fdata(&before, el_index).contains(m) ==> fdata(follow_graph, el_index).contains(m));
                    assert forall|m: SetMember| #[trigger] fdata(follow_graph, el_index).contains(m) <==> fdata(&before, el_index).contains(m) || m is Char && g.seq_starts(prod@.skip(k + 1), m->Char_0) by {
                        if m is Char { assert(ff.contains(SetMemberWithEmpty::Char(m->Char_0)) <==> g.seq_starts(prod@.skip(k + 1), m->Char_0)); }
                    }
                } @*/
            }
            /*@ proof { if k + 1 < prod@.len() {
                assert(before.names@.contains_key(prod@[k]));
                assert(follow_graph.g().edges == before.g().edges);
                assert(follow_graph.g().nodes@ == before.g().nodes@.update(before.node(prod@[k]), follow_graph.g().nodes@[before.node(prod@[k])]));
            } } @*/
            /*@ let ghost mid = *follow_graph; proof { assert(g.occ(left_side, p0, k, el_index)); lemma_data_marked(g, &o, &before, follow_graph, left_side, p0, prod@, k, add_edge); assert(follow_graph.g().edges.len() <= usize::MAX); } @*/
            if add_edge {
                follow_graph.add_edge(left_side, el_index)?;
                /*@ proof { lemma_edge_marked(g, &o, &mid, follow_graph, left_side, p0, prod@, k); } @*/
            }
            /*@ proof { lemma_prod_grows(g, &before, follow_graph, left_side, prod@, k); } @*/
        }
    }
    Ok(())
}
/*@
/// an element that should have a rule (or a FIRST set) has none
pub open spec fn missing_error(g: Gram, fs: &NamedSets, e: GrammarError) -> bool {
    ||| (e is GraphNodeDoesNotExistsError && !g.rules.contains_key(e->GraphNodeDoesNotExistsError_node_name) && g.referred(e->GraphNodeDoesNotExistsError_node_name)
        && !g.term(e->GraphNodeDoesNotExistsError_node_name))
    ||| (e is MissingFirstSet && !g.in_dom(fs, e->MissingFirstSet_index) && g.referred(e->MissingFirstSet_index))
}
pub open spec fn follow_error(g: Gram, start: usize, fs: &NamedSets, e: GrammarError) -> bool {
    missing_error(g, fs, e) || e is GraphNodeDoesNotExistsError && e->GraphNodeDoesNotExistsError_node_name == start && !g.rules.contains_key(start)
}
// ---- the graph: one node for each rule, what is known to follow it, edges to the rules it passes its set to
pub open spec fn fdata(fg: &Graph, x: usize) -> Set<SetMember> { fg.g().nodes@[fg.node(x)].data@ }
pub open spec fn ndata(fg: &Graph, i: int) -> Set<SetMember> { fg.g().nodes@[i].data@ }
pub open spec fn edge_at(fg: &Graph, a: int, i: int, j: int) -> bool { 0 <= j < fg.g().out(a).len() && fg.g().out(a)[j].1 == i }
pub open spec fn nedge(fg: &Graph, a: int, i: int) -> bool { exists|j: int| edge_at(fg, a, i, j) }
pub open spec fn has_edge(fg: &Graph, a: usize, x: usize) -> bool { nedge(fg, fg.node(a), fg.node(x)) }
pub open spec fn small_ids(fg: &Graph) -> bool {
    forall|n: int| 0 <= n < fg.count() && (#[trigger] fg.g().out(n)).len() > 0 ==> fg.g().out(n)[0].0 < fg.g().edges@.len()
}
pub open spec fn prep(g: Gram, fg: &Graph) -> bool { fg.wf() && fg.names@.dom() == g.rules.dom() && small_ids(fg) }
pub open spec fn grows(o: &Graph, n: &Graph) -> bool {
    &&& n.names == o.names
    &&& forall|x: usize| #[trigger] o.names@.contains_key(x) ==> fdata(o, x).subset_of(fdata(n, x))
    &&& forall|a: usize, x: usize| o.names@.contains_key(a) && o.names@.contains_key(x) && #[trigger] has_edge(o, a, x) ==> has_edge(n, a, x)
}
/// m comes directly behind x in a production
pub open spec fn comes(g: Gram, x: usize, m: SetMember) -> bool {
    exists|a: usize, p: int, k: int| #[trigger] g.occ(a, p, k, x) && m is Char && g.seq_starts(g.alts(a)[p].skip(k + 1), m->Char_0)
}
pub open spec fn only_adds(g: Gram, o: &Graph, n: &Graph) -> bool {
    &&& forall|x: usize, m: SetMember| o.names@.contains_key(x) && #[trigger] fdata(n, x).contains(m) ==> fdata(o, x).contains(m) || comes(g, x, m)
    &&& forall|a: usize, x: usize| o.names@.contains_key(a) && o.names@.contains_key(x) && #[trigger] has_edge(n, a, x) ==> has_edge(o, a, x) || g.passes(a, x)
}
proof fn lemma_trans(g: Gram, o: &Graph, m: &Graph, n: &Graph)
    requires grows(o, m), grows(m, n), only_adds(g, o, m), only_adds(g, m, n)
    ensures grows(o, n), only_adds(g, o, n)
{
    assert forall|x: usize| #[trigger] o.names@.contains_key(x) implies fdata(o, x).subset_of(fdata(n, x)) by { assert(m.names@.contains_key(x)); }
    assert forall|a: usize, x: usize| o.names@.contains_key(a) && o.names@.contains_key(x) && #[trigger] has_edge(o, a, x) implies has_edge(n, a, x) by { assert(has_edge(m, a, x)); }
    assert forall|x: usize, d: SetMember| o.names@.contains_key(x) && #[trigger] fdata(n, x).contains(d) implies fdata(o, x).contains(d) || comes(g, x, d) by {
        if fdata(m, x).contains(d) {}
    }
    assert forall|a: usize, x: usize| o.names@.contains_key(a) && o.names@.contains_key(x) && #[trigger] has_edge(n, a, x) implies has_edge(o, a, x) || g.passes(a, x) by {
        if has_edge(m, a, x) {}
    }
}
pub open spec fn production_at(g: Gram, a: usize, p: int, s: Seq<usize>) -> bool { g.rules.contains_key(a) && 0 <= p < g.alts(a).len() && g.alts(a)[p] == s }
/// what the j-th element of a production needs is in the graph
pub open spec fn marked(g: Gram, fg: &Graph, a: usize, s: Seq<usize>, j: int) -> bool {
    !g.term(s[j]) ==> {
        &&& fg.names@.contains_key(s[j])
        &&& forall|c: char| g.seq_starts(s.skip(j + 1), c) ==> #[trigger] fdata(fg, s[j]).contains(SetMember::Char(c))
        &&& g.nulls_all(s.skip(j + 1)) ==> has_edge(fg, a, s[j])
    }
}
pub open spec fn prod_marked(g: Gram, fg: &Graph, a: usize, s: Seq<usize>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] marked(g, fg, a, s, j) }
pub open spec fn rule_marked(g: Gram, fg: &Graph, a: usize, n: int) -> bool { forall|p: int| 0 <= p < n ==> prod_marked(g, fg, a, #[trigger] g.alts(a)[p], g.alts(a)[p].len() as int) }
proof fn lemma_marked_grows(g: Gram, o: &Graph, n: &Graph, a: usize, s: Seq<usize>, j: int)
    requires grows(o, n), marked(g, o, a, s, j), o.names@.contains_key(a)
    ensures marked(g, n, a, s, j)
{
    if !g.term(s[j]) {
        assert(o.names@.contains_key(s[j]));
        assert forall|c: char| g.seq_starts(s.skip(j + 1), c) implies #[trigger] fdata(n, s[j]).contains(SetMember::Char(c)) by { assert(fdata(o, s[j]).contains(SetMember::Char(c))); }
        if g.nulls_all(s.skip(j + 1)) { assert(has_edge(o, a, s[j])); }
    }
}
proof fn lemma_rule_grows(g: Gram, o: &Graph, n: &Graph, a: usize, k: int)
    requires grows(o, n), rule_marked(g, o, a, k), o.names@.contains_key(a)
    ensures rule_marked(g, n, a, k)
{
    assert forall|p: int| 0 <= p < k implies prod_marked(g, n, a, #[trigger] g.alts(a)[p], g.alts(a)[p].len() as int) by {
        let s = g.alts(a)[p];
        assert(prod_marked(g, o, a, s, s.len() as int));
        assert forall|j: int| 0 <= j < s.len() implies #[trigger] marked(g, n, a, s, j) by { assert(marked(g, o, a, s, j)); lemma_marked_grows(g, o, n, a, s, j); }
    }
}
proof fn lemma_prod_grows(g: Gram, o: &Graph, n: &Graph, a: usize, s: Seq<usize>, k: int)
    requires grows(o, n), prod_marked(g, o, a, s, k), o.names@.contains_key(a)
    ensures prod_marked(g, n, a, s, k)
{
    assert forall|j: int| 0 <= j < k implies #[trigger] marked(g, n, a, s, j) by { assert(marked(g, o, a, s, j)); lemma_marked_grows(g, o, n, a, s, j); }
}
proof fn lemma_grows_refl(g: Gram, o: &Graph) ensures grows(o, o), only_adds(g, o, o) {}
/// one node's data replaced
proof fn lemma_data_only(o: &Graph, n: &Graph, i: int)
    requires
        o.wf(), 0 <= i < o.count(), n.names == o.names, n.g().edges == o.g().edges, n.count() == o.count(),
        forall|j: int| 0 <= j < o.count() ==> (#[trigger] n.g().nodes@[j]).first_outgoing_edge == o.g().nodes@[j].first_outgoing_edge,
        forall|j: int| 0 <= j < o.count() && j != i ==> #[trigger] n.g().nodes@[j] == o.g().nodes@[j],
    ensures
        n.wf(), forall|j: int| 0 <= j < o.count() ==> #[trigger] n.g().out(j) == o.g().out(j),
{
    let owner = choose|owner: Seq<int>| #[trigger] o.g().owned(owner);
    assert(o.g().owned(owner));
    assert(n.g().owned(owner)) by {
        assert forall|j: int| 0 <= j < n.count() && (#[trigger] n.g().nodes@[j]).first_outgoing_edge is Some implies
            n.g().nodes@[j].first_outgoing_edge->0 < n.g().edges@.len() && owner[n.g().nodes@[j].first_outgoing_edge->0 as int] == j by {
            assert(o.g().nodes@[j].first_outgoing_edge is Some);
        }
    }
    assert forall|j: int| 0 <= j < n.count() implies #[trigger] n.named(j) by {
        assert(o.named(j));
        let k = choose|k: usize| #[trigger] o.names@.contains_key(k) && o.names@[k] == j;
        assert(n.names@.contains_key(k) && n.names@[k] == j);
    }
    assert forall|j: int| 0 <= j < o.count() implies #[trigger] n.g().out(j) == o.g().out(j) by {
        assert(n.g().nodes@[j].first_outgoing_edge == o.g().nodes@[j].first_outgoing_edge);
    }
}
proof fn lemma_data_grows(g: Gram, o: &Graph, n: &Graph, x: usize)
    requires
        prep(g, o), o.names@.contains_key(x), n.names == o.names, n.g().edges == o.g().edges, n.count() == o.count(),
        n.g().nodes@ == o.g().nodes@.update(o.node(x), n.g().nodes@[o.node(x)]),
        n.g().nodes@[o.node(x)].first_outgoing_edge == o.g().nodes@[o.node(x)].first_outgoing_edge,
        fdata(o, x).subset_of(fdata(n, x)),
    ensures
        prep(g, n), grows(o, n), forall|j: int| 0 <= j < o.count() ==> #[trigger] n.g().out(j) == o.g().out(j),
        forall|y: usize| y != x && #[trigger] o.names@.contains_key(y) ==> fdata(n, y) == fdata(o, y),
        forall|a: usize, y: usize| o.names@.contains_key(a) && #[trigger] has_edge(n, a, y) ==> has_edge(o, a, y),
{
    let i = o.node(x);
    lemma_data_only(o, n, i);
    assert forall|y: usize| y != x && #[trigger] o.names@.contains_key(y) implies fdata(n, y) == fdata(o, y) by {
        if o.node(y) == o.node(x) { assert(o.names@.contains_key(x)); }
    }
    assert forall|y: usize| #[trigger] o.names@.contains_key(y) implies fdata(o, y).subset_of(fdata(n, y)) by { if y != x { assert(fdata(n, y) == fdata(o, y)); } }
    assert forall|a: usize, y: usize| o.names@.contains_key(a) && o.names@.contains_key(y) && #[trigger] has_edge(o, a, y) implies has_edge(n, a, y) by {
        let j = choose|j: int| edge_at(o, o.node(a), o.node(y), j);
        assert(n.g().out(o.node(a)) == o.g().out(o.node(a)));
        assert(edge_at(n, n.node(a), n.node(y), j));
    }
    assert forall|a: usize, y: usize| o.names@.contains_key(a) && #[trigger] has_edge(n, a, y) implies has_edge(o, a, y) by {
        let j = choose|j: int| edge_at(n, n.node(a), n.node(y), j);
        assert(n.g().out(o.node(a)) == o.g().out(o.node(a)));
        assert(edge_at(o, o.node(a), o.node(y), j));
    }
}
/// the graph as it is before anything is marked
pub open spec fn fresh(g: Gram, start: usize, fg: &Graph) -> bool {
    &&& prep(g, fg) && fg.names@.contains_key(start) && fdata(fg, start).contains(SetMember::Terminate)
    &&& forall|x: usize, m: SetMember| fg.names@.contains_key(x) && #[trigger] fdata(fg, x).contains(m) ==> x == start && m is Terminate
    &&& forall|a: usize, x: usize| fg.names@.contains_key(a) ==> !#[trigger] has_edge(fg, a, x)
}
proof fn lemma_started(g: Gram, start: usize, o: &Graph, n: &Graph)
    requires
        o.wf(), o.names@.dom() == g.rules.dom(), o.names@.contains_key(start), n.names == o.names, n.g().edges == o.g().edges, n.count() == o.count(),
        forall|j: int| 0 <= j < o.count() ==> (#[trigger] o.g().nodes@[j]).data@ == Set::<SetMember>::empty() && o.g().out(j).len() == 0,
        n.g().nodes@ == o.g().nodes@.update(o.node(start), n.g().nodes@[o.node(start)]),
        n.g().nodes@[o.node(start)].first_outgoing_edge == o.g().nodes@[o.node(start)].first_outgoing_edge,
        n.g().nodes@[o.node(start)].data@ == Set::<SetMember>::empty().insert(SetMember::Terminate),
    ensures fresh(g, start, n)
{
    assert(small_ids(o)) by { assert forall|k: int| 0 <= k < o.count() && (#[trigger] o.g().out(k)).len() > 0 implies o.g().out(k)[0].0 < o.g().edges@.len() by { assert(o.g().nodes@[k].data@ == Set::<SetMember>::empty()); } }
    assert(o.g().nodes@[o.node(start)].data@ == Set::<SetMember>::empty());
    lemma_data_grows(g, o, n, start);
    assert forall|x: usize, m: SetMember| n.names@.contains_key(x) && #[trigger] fdata(n, x).contains(m) implies x == start && m is Terminate by {
        if x != start { assert(o.names@.contains_key(x)); assert(fdata(n, x) == fdata(o, x)); assert(o.g().nodes@[o.node(x)].data@ == Set::<SetMember>::empty()); }
    }
    assert forall|a: usize, x: usize| n.names@.contains_key(a) implies !#[trigger] has_edge(n, a, x) by {
        assert(o.g().nodes@[o.node(a)].data@ == Set::<SetMember>::empty());
        assert(n.g().out(o.node(a)) == o.g().out(o.node(a)));
    }
}
/// every set is right: nothing but what comes behind, and all of it
pub open spec fn all_marked(g: Gram, fg: &Graph) -> bool {
    forall|a: usize| #[trigger] g.rules.contains_key(a) ==> rule_marked(g, fg, a, g.alts(a).len() as int)
}
proof fn lemma_complete(g: Gram, fg: &Graph)
    requires prep(g, fg), all_marked(g, fg)
    ensures g.complete()
{
    assert forall|a: usize, p: int, k: int, x: usize| #[trigger] g.occ(a, p, k, x) implies g.rules.contains_key(x) by {
        assert(prod_marked(g, fg, a, g.alts(a)[p], g.alts(a)[p].len() as int));
        assert(marked(g, fg, a, g.alts(a)[p], k));
    }
}
// ---- what arrives at a node along the edges
pub open spec fn nflow(fg: &Graph, i: int, m: SetMember, n: nat) -> bool decreases n {
    ndata(fg, i).contains(m) || n > 0 && exists|a: int| 0 <= a < fg.count() && #[trigger] nedge(fg, a, i) && nflow(fg, a, m, (n - 1) as nat)
}
pub open spec fn narrives(fg: &Graph, i: int, m: SetMember) -> bool { exists|n: nat| nflow(fg, i, m, n) }
pub open spec fn arrives(fg: &Graph, x: usize, m: SetMember) -> bool { narrives(fg, fg.node(x), m) }
proof fn lemma_flow_is_follow(g: Gram, start: usize, f: &Graph, fg: &Graph, x: usize, m: SetMember, n: nat)
    requires fresh(g, start, f), prep(g, fg), grows(f, fg), only_adds(g, f, fg), all_marked(g, fg), g.rules.contains_key(x)
    ensures nflow(fg, fg.node(x), m, n) ==> g.follow(start, x, m, n)
    decreases n
{
    if nflow(fg, fg.node(x), m, n) {
        if ndata(fg, fg.node(x)).contains(m) {
            assert(fdata(fg, x).contains(m));
            assert(f.names@.contains_key(x));
            assert(g.follow_base(start, x, m));
        } else {
            let a = choose|a: int| 0 <= a < fg.count() && #[trigger] nedge(fg, a, fg.node(x)) && nflow(fg, a, m, (n - 1) as nat);
            assert(fg.named(a));
            let y = choose|y: usize| #[trigger] fg.names@.contains_key(y) && fg.names@[y] == a;
            assert(g.rules.contains_key(y));
            assert(has_edge(fg, y, x));
            assert(f.names@.contains_key(y) && f.names@.contains_key(x));
            assert(g.passes(y, x));
            lemma_flow_is_follow(g, start, f, fg, y, m, (n - 1) as nat);
        }
    }
}
proof fn lemma_follow_is_flow(g: Gram, start: usize, f: &Graph, fg: &Graph, x: usize, m: SetMember, n: nat)
    requires fresh(g, start, f), prep(g, fg), grows(f, fg), only_adds(g, f, fg), all_marked(g, fg), g.rules.contains_key(x), g.follow(start, x, m, n)
    ensures nflow(fg, fg.node(x), m, n)
    decreases n
{
    if g.follow_base(start, x, m) {
        if x == start && m is Terminate {
            assert(f.names@.contains_key(x)); assert(fdata(f, start).contains(SetMember::Terminate)); assert(fdata(fg, start).contains(m));
        } else {
            let (a, p, k) = choose|a: usize, p: int, k: int| #[trigger] g.occ(a, p, k, x) && m is Char && g.seq_starts(g.alts(a)[p].skip(k + 1), m->Char_0);
            assert(prod_marked(g, fg, a, g.alts(a)[p], g.alts(a)[p].len() as int));
            assert(marked(g, fg, a, g.alts(a)[p], k));
            assert(fdata(fg, x).contains(SetMember::Char(m->Char_0)));
        }
    } else {
        let a = choose|a: usize| #[trigger] g.passes(a, x) && g.follow(start, a, m, (n - 1) as nat);
        let (p, k) = choose|p: int, k: int| #[trigger] g.occ(a, p, k, x) && g.nulls_all(g.alts(a)[p].skip(k + 1));
        assert(prod_marked(g, fg, a, g.alts(a)[p], g.alts(a)[p].len() as int));
        assert(marked(g, fg, a, g.alts(a)[p], k));
        assert(has_edge(fg, a, x));
        lemma_follow_is_flow(g, start, f, fg, a, m, (n - 1) as nat);
        assert(fg.names@.contains_key(a));
    }
}
// ======
proof fn lemma_rule_done(g: Gram, f: &Graph, b: &Graph, mid: &Graph, n: &Graph, a: usize, j: int)
    requires g.rules.contains_key(a), mid.names@.contains_key(a), grows(f, mid), only_adds(g, f, mid), grows(b, mid), grows(mid, n), only_adds(g, mid, n), rule_marked(g, mid, a, j), 0 <= j < g.alts(a).len(),
        prod_marked(g, n, a, g.alts(a)[j], g.alts(a)[j].len() as int),
    ensures rule_marked(g, n, a, j + 1), grows(f, n), only_adds(g, f, n), grows(b, n)
{
    lemma_rule_step(g, mid, n, a, j);
    lemma_trans(g, f, mid, n);
    assert forall|x: usize| #[trigger] b.names@.contains_key(x) implies fdata(b, x).subset_of(fdata(n, x)) by { assert(mid.names@.contains_key(x)); }
    assert forall|y: usize, x: usize| b.names@.contains_key(y) && b.names@.contains_key(x) && #[trigger] has_edge(b, y, x) implies has_edge(n, y, x) by { assert(has_edge(mid, y, x)); }
}
proof fn lemma_rule_step(g: Gram, mid: &Graph, n: &Graph, a: usize, j: int)
    requires g.rules.contains_key(a), mid.names@.contains_key(a), grows(mid, n), rule_marked(g, mid, a, j), 0 <= j < g.alts(a).len(),
        prod_marked(g, n, a, g.alts(a)[j], g.alts(a)[j].len() as int),
    ensures rule_marked(g, n, a, j + 1)
{
    lemma_rule_grows(g, mid, n, a, j);
}
/// what comes first behind place k of a production has been added to the element there
proof fn lemma_data_marked(g: Gram, o: &Graph, b: &Graph, n: &Graph, a: usize, p: int, s: Seq<usize>, k: int, passes: bool)
    requires
        production_at(g, a, p, s), 0 <= k < s.len(), !g.term(s[k]), prep(g, b), grows(o, b), only_adds(g, o, b), n.names == b.names,
        passes == g.nulls_all(s.skip(k + 1)),
        k + 1 == s.len() && *n == *b || {
            &&& b.names@.contains_key(s[k]) && n.g().edges == b.g().edges && n.count() == b.count()
            &&& n.g().nodes@ == b.g().nodes@.update(b.node(s[k]), n.g().nodes@[b.node(s[k])])
            &&& n.g().nodes@[b.node(s[k])].first_outgoing_edge == b.g().nodes@[b.node(s[k])].first_outgoing_edge
            &&& forall|m: SetMember| #[trigger] fdata(n, s[k]).contains(m) <==> fdata(b, s[k]).contains(m) || m is Char && g.seq_starts(s.skip(k + 1), m->Char_0)
        },
    ensures
        prep(g, n), grows(o, n), only_adds(g, o, n), grows(b, n),
        b.names@.contains_key(s[k]) ==> forall|c: char| g.seq_starts(s.skip(k + 1), c) ==> #[trigger] fdata(n, s[k]).contains(SetMember::Char(c)),
{
    let x = s[k];
    assert(g.occ(a, p, k, x));
    if k + 1 == s.len() && *n == *b {
        lemma_grows_refl(g, b);
        assert forall|c: char| !(#[trigger] g.seq_starts(s.skip(k + 1), c)) by { assert(s.skip(k + 1).len() == 0); }
    } else {
        lemma_data_grows(g, b, n, x);
        assert forall|y: usize, m: SetMember| b.names@.contains_key(y) && #[trigger] fdata(n, y).contains(m) implies fdata(b, y).contains(m) || comes(g, y, m) by {
            if y != x { assert(fdata(n, y) == fdata(b, y)); }
            else if !fdata(b, x).contains(m) { assert(g.occ(a, p, k, x)); assert(comes(g, x, m)); }
        }
        lemma_trans(g, o, b, n);
        assert forall|c: char| g.seq_starts(s.skip(k + 1), c) implies #[trigger] fdata(n, s[k]).contains(SetMember::Char(c)) by {}
    }
}
proof fn lemma_edge_marked(g: Gram, o: &Graph, b: &Graph, n: &Graph, a: usize, p: int, s: Seq<usize>, k: int)
    requires
        production_at(g, a, p, s), 0 <= k < s.len(), !g.term(s[k]), prep(g, b), grows(o, b), only_adds(g, o, b), n.names == b.names,
        g.nulls_all(s.skip(k + 1)), b.names@.contains_key(a), b.names@.contains_key(s[k]), n.wf(), n.count() == b.count(),
        n.g().edges@.len() == b.g().edges@.len() + 1, n.g().keeps(&b.g(), b.node(a)),
        n.g().out(b.node(a)) == seq![(next_id(b.g().out(b.node(a))), b.node(s[k]) as usize)] + b.g().out(b.node(a)),
    ensures prep(g, n), grows(o, n), only_adds(g, o, n), grows(b, n), has_edge(n, a, s[k]), forall|x: usize| #[trigger] b.names@.contains_key(x) ==> fdata(n, x) == fdata(b, x)
{
    let x = s[k];
    assert(g.occ(a, p, k, x));
    assert forall|y: usize| #[trigger] b.names@.contains_key(y) implies fdata(n, y) == fdata(b, y) by { assert(n.g().data(b.node(y)) == b.g().data(b.node(y))); }
    assert forall|i: int| 0 <= i < n.count() && (#[trigger] n.g().out(i)).len() > 0 implies n.g().out(i)[0].0 < n.g().edges@.len() by {
        if i != b.node(a) { assert(n.g().out(i) == b.g().out(i)); } else { if b.g().out(i).len() > 0 { assert(b.g().out(i)[0].0 < b.g().edges@.len()); } }
    }
    assert(edge_at(n, n.node(a), n.node(x), 0));
    assert forall|y: usize, z: usize| b.names@.contains_key(y) && b.names@.contains_key(z) && #[trigger] has_edge(b, y, z) implies has_edge(n, y, z) by {
        let j = choose|j: int| edge_at(b, b.node(y), b.node(z), j);
        if y == a { assert(n.g().out(b.node(a))[j + 1] == b.g().out(b.node(a))[j]); assert(edge_at(n, n.node(y), n.node(z), j + 1)); }
        else { if b.node(y) == b.node(a) { assert(b.names@.contains_key(a)); } assert(n.g().out(b.node(y)) == b.g().out(b.node(y))); assert(edge_at(n, n.node(y), n.node(z), j)); }
    }
    assert forall|y: usize, z: usize| b.names@.contains_key(y) && b.names@.contains_key(z) && #[trigger] has_edge(n, y, z) implies has_edge(b, y, z) || g.passes(y, z) by {
        let j = choose|j: int| edge_at(n, n.node(y), n.node(z), j);
        if y == a {
            if j == 0 {
                assert(b.node(z) == b.node(x)); assert(b.names@.contains_key(x)); assert(z == x);
                assert(g.occ(y, p, k, z));
            } else { assert(n.g().out(b.node(a))[j] == b.g().out(b.node(a))[j - 1]); assert(edge_at(b, b.node(y), b.node(z), j - 1)); }
        } else {
            if b.node(y) == b.node(a) { assert(b.names@.contains_key(a)); }
            assert(n.g().out(b.node(y)) == b.g().out(b.node(y))); assert(edge_at(b, b.node(y), b.node(z), j));
        }
    }
    assert forall|y: usize| #[trigger] b.names@.contains_key(y) implies fdata(b, y).subset_of(fdata(n, y)) by { assert(fdata(n, y) == fdata(b, y)); }
    assert forall|y: usize, m: SetMember| b.names@.contains_key(y) && #[trigger] fdata(n, y).contains(m) implies fdata(b, y).contains(m) || comes(g, y, m) by { assert(fdata(n, y) == fdata(b, y)); }
    lemma_trans(g, o, b, n);
}
proof fn lemma_all_follow(g: Gram, start: usize, f: &Graph, fg: &Graph)
    requires fresh(g, start, f), prep(g, fg), grows(f, fg), only_adds(g, f, fg), all_marked(g, fg)
    ensures forall|x: usize, m: SetMember| g.rules.contains_key(x) ==> (#[trigger] arrives(fg, x, m) <==> g.follows(start, x, m))
{
    assert forall|x: usize, m: SetMember| g.rules.contains_key(x) implies (#[trigger] arrives(fg, x, m) <==> g.follows(start, x, m)) by {
        if arrives(fg, x, m) {
            let n = choose|n: nat| nflow(fg, fg.node(x), m, n);
            lemma_flow_is_follow(g, start, f, fg, x, m, n);
        }
        if g.follows(start, x, m) {
            let n = choose|n: nat| g.follow(start, x, m, n);
            lemma_follow_is_flow(g, start, f, fg, x, m, n);
        }
    }
}
// ---- propagation
pub open spec fn total(nodes: Seq<NodeData<HashSet<SetMember>>>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { total(nodes, k - 1) + nodes[k - 1].data@.len() }
}
pub open spec fn union_to(nodes: Seq<NodeData<HashSet<SetMember>>>, k: int) -> Set<SetMember> decreases k {
    if k <= 0 { Set::empty() } else { union_to(nodes, k - 1).union(nodes[k - 1].data@) }
}
proof fn lemma_union(nodes: Seq<NodeData<HashSet<SetMember>>>, k: int)
    requires 0 <= k <= nodes.len()
    ensures forall|i: int| 0 <= i < k ==> (#[trigger] nodes[i]).data@.subset_of(union_to(nodes, k))
    decreases k
{ if k > 0 { lemma_union(nodes, k - 1); } }
proof fn lemma_total(a: Seq<NodeData<HashSet<SetMember>>>, b: Seq<NodeData<HashSet<SetMember>>>, k: int, all: Set<SetMember>)
    requires 0 <= k <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).data@.subset_of(b[i].data@) && b[i].data@.subset_of(all)
    ensures total(a, k) <= total(b, k) <= k * all.len()
    decreases k
{
    if k > 0 {
        lemma_total(a, b, k - 1, all);
        vstd::set_lib::lemma_len_subset(a[k - 1].data@, b[k - 1].data@);
        vstd::set_lib::lemma_len_subset(b[k - 1].data@, all);
        assert((k - 1) * all.len() + all.len() == k * all.len()) by(nonlinear_arith);
    }
}
proof fn lemma_total_more(a: Seq<NodeData<HashSet<SetMember>>>, b: Seq<NodeData<HashSet<SetMember>>>, k: int, all: Set<SetMember>, x: int, m: SetMember)
    requires 0 <= x < k <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).data@.subset_of(b[i].data@) && b[i].data@.subset_of(all),
        !a[x].data@.contains(m), b[x].data@.contains(m),
    ensures total(a, k) < total(b, k)
    decreases k
{
    lemma_total(a, b, k - 1, all);
    if x < k - 1 {
        lemma_total_more(a, b, k - 1, all, x, m);
        vstd::set_lib::lemma_len_subset(a[k - 1].data@, b[k - 1].data@);
    } else {
        assert(a[x].data@.insert(m).subset_of(b[x].data@));
        vstd::set_lib::lemma_len_subset(a[x].data@.insert(m), b[x].data@);
    }
}
pub open spec fn swollen(a: &Graph, b: &Graph) -> bool {
    &&& b.wf() && b.names == a.names && b.count() == a.count()
    &&& forall|i: int| 0 <= i < a.count() ==> #[trigger] b.g().out(i) == a.g().out(i)
    &&& forall|i: int| 0 <= i < a.count() ==> #[trigger] ndata(a, i).subset_of(ndata(b, i))
}
pub open spec fn flowing(o: &Graph, fg: &Graph, all: Set<SetMember>) -> bool {
    &&& o.wf() && swollen(o, fg)
    &&& forall|i: int| 0 <= i < fg.count() ==> #[trigger] ndata(fg, i).subset_of(all)
    &&& forall|i: int, m: SetMember| 0 <= i < fg.count() && #[trigger] ndata(fg, i).contains(m) ==> narrives(o, i, m)
}
proof fn lemma_flow_start(o: &Graph)
    requires o.wf()
    ensures flowing(o, o, union_to(o.g().nodes@, o.count() as int))
{
    lemma_union(o.g().nodes@, o.count() as int);
    assert forall|i: int| 0 <= i < o.count() implies #[trigger] ndata(o, i).subset_of(union_to(o.g().nodes@, o.count() as int)) by { assert(o.g().nodes@[i].data@ == ndata(o, i)); }
    assert forall|i: int, m: SetMember| 0 <= i < o.count() && #[trigger] ndata(o, i).contains(m) implies narrives(o, i, m) by { assert(nflow(o, i, m, 0)); }
}
pub open spec fn settled_at(fg: &Graph, n: int, k: int) -> bool { forall|j: int| 0 <= j < k ==> ndata(fg, n).subset_of(ndata(fg, (#[trigger] fg.g().out(n)[j]).1 as int)) }
pub open spec fn settled(fg: &Graph) -> bool { forall|n: int| 0 <= n < fg.count() ==> settled_at(fg, n, #[trigger] fg.g().out(n).len() as int) }
/// members that lack at a node though they are at the source of one of its edges
pub open spec fn found(fg: &Graph, ix: int, ms: Seq<SetMember>) -> bool {
    0 <= ix < fg.count() && ms.len() > 0 && exists|n: int| 0 <= n < fg.count() && #[trigger] nedge(fg, n, ix)
        && forall|j: int| 0 <= j < ms.len() ==> ndata(fg, n).contains(#[trigger] ms[j]) && !ndata(fg, ix).contains(ms[j])
}
proof fn lemma_found(fg: &Graph, n: int, k: int, ms: Seq<SetMember>)
    requires fg.wf(), 0 <= n < fg.count(), 0 <= k < fg.g().out(n).len(), ms.len() > 0,
        forall|j: int| 0 <= j < ms.len() ==> ndata(fg, n).contains(#[trigger] ms[j]) && !ndata(fg, fg.g().out(n)[k].1 as int).contains(ms[j]),
    ensures found(fg, fg.g().out(n)[k].1 as int, ms)
{
    fg.g().lemma_out(n);
    let ix = fg.g().out(n)[k].1 as int;
    assert(edge_at(fg, n, ix, k));
    assert(nedge(fg, n, ix));
}
proof fn lemma_settled(fg: &Graph)
    requires fg.wf(), forall|x: usize| #[trigger] fg.names@.contains_key(x) ==> settled_at(fg, fg.node(x), fg.g().out(fg.node(x)).len() as int)
    ensures settled(fg)
{
    assert forall|n: int| 0 <= n < fg.count() implies settled_at(fg, n, #[trigger] fg.g().out(n).len() as int) by {
        assert(fg.named(n));
        let k = choose|k: usize| #[trigger] fg.names@.contains_key(k) && fg.names@[k] == n;
        assert(settled_at(fg, fg.node(k), fg.g().out(fg.node(k)).len() as int));
    }
}
proof fn lemma_arrives_along(o: &Graph, a: int, i: int, m: SetMember)
    requires 0 <= a < o.count(), nedge(o, a, i), narrives(o, a, m)
    ensures narrives(o, i, m)
{
    let n = choose|n: nat| nflow(o, a, m, n);
    assert(nflow(o, i, m, n + 1));
}
proof fn lemma_flow_step(o: &Graph, mid: &Graph, b: &Graph, n: &Graph, all: Set<SetMember>, ix: int, ms: Seq<SetMember>)
    requires
        flowing(o, mid, all), flowing(o, b, all), swollen(mid, b), found(mid, ix, ms), n.names == b.names, n.g().edges == b.g().edges, n.count() == b.count(),
        n.g().nodes@ == b.g().nodes@.update(ix, n.g().nodes@[ix]), n.g().nodes@[ix].first_outgoing_edge == b.g().nodes@[ix].first_outgoing_edge,
        ndata(n, ix) == ndata(b, ix).union(ms.to_set()),
    ensures
        flowing(o, n, all), swollen(mid, n), total(n.g().nodes@, n.count() as int) >= total(b.g().nodes@, n.count() as int),
        total(n.g().nodes@, n.count() as int) > total(mid.g().nodes@, n.count() as int),
{
    lemma_data_only(b, n, ix);
    let a = choose|a: int| 0 <= a < mid.count() && #[trigger] nedge(mid, a, ix)
        && forall|j: int| 0 <= j < ms.len() ==> ndata(mid, a).contains(#[trigger] ms[j]) && !ndata(mid, ix).contains(ms[j]);
    assert forall|m: SetMember| ms.to_set().contains(m) implies ndata(mid, a).contains(m) && narrives(o, ix, m) && all.contains(m) by {
        assert(ms.contains(m));
        let j = choose|j: int| 0 <= j < ms.len() && ms[j] == m;
        assert(ndata(mid, a).contains(ms[j]));
        let q = choose|q: int| edge_at(mid, a, ix, q);
        assert(mid.g().out(a) == o.g().out(a));
        assert(edge_at(o, a, ix, q));
        lemma_arrives_along(o, a, ix, m);
        assert(ndata(mid, a).subset_of(all));
    }
    assert forall|i: int| 0 <= i < n.count() implies #[trigger] ndata(n, i).subset_of(all) by { assert(ndata(b, i).subset_of(all)); }
    assert forall|i: int| 0 <= i < n.count() implies #[trigger] ndata(b, i).subset_of(ndata(n, i)) by {}
    assert forall|i: int| 0 <= i < n.count() implies #[trigger] ndata(mid, i).subset_of(ndata(n, i)) by { assert(ndata(mid, i).subset_of(ndata(b, i))); assert(ndata(b, i).subset_of(ndata(n, i))); }
    assert forall|i: int| 0 <= i < n.count() implies #[trigger] ndata(o, i).subset_of(ndata(n, i)) by { assert(ndata(o, i).subset_of(ndata(mid, i))); assert(ndata(mid, i).subset_of(ndata(n, i))); }
    assert forall|i: int| 0 <= i < n.count() implies #[trigger] n.g().out(i) == mid.g().out(i) by { assert(b.g().out(i) == mid.g().out(i)); }
    assert forall|i: int| 0 <= i < n.count() implies #[trigger] n.g().out(i) == o.g().out(i) by { assert(b.g().out(i) == o.g().out(i)); }
    assert forall|i: int, m: SetMember| 0 <= i < n.count() && #[trigger] ndata(n, i).contains(m) implies narrives(o, i, m) by {
        if ndata(b, i).contains(m) {} else { assert(i == ix && ms.to_set().contains(m)); }
    }
    assert forall|i: int| 0 <= i < n.count() implies (#[trigger] b.g().nodes@[i]).data@.subset_of(n.g().nodes@[i].data@) && n.g().nodes@[i].data@.subset_of(all) by {
        assert(ndata(b, i).subset_of(ndata(n, i))); assert(ndata(n, i).subset_of(all));
    }
    assert forall|i: int| 0 <= i < n.count() implies (#[trigger] mid.g().nodes@[i]).data@.subset_of(n.g().nodes@[i].data@) && n.g().nodes@[i].data@.subset_of(all) by {
        assert(ndata(mid, i).subset_of(ndata(n, i))); assert(ndata(n, i).subset_of(all));
    }
    lemma_total(b.g().nodes@, n.g().nodes@, n.count() as int, all);
    assert(ms.to_set().contains(ms[0]));
    assert(!ndata(mid, ix).contains(ms[0]));
    lemma_total_more(mid.g().nodes@, n.g().nodes@, n.count() as int, all, ix, ms[0]);
}
proof fn lemma_measure(o: &Graph, fg: &Graph, all: Set<SetMember>)
    requires flowing(o, fg, all)
    ensures total(fg.g().nodes@, fg.count() as int) <= fg.count() * all.len()
{
    assert forall|i: int| 0 <= i < fg.count() implies (#[trigger] fg.g().nodes@[i]).data@.subset_of(all) by { assert(ndata(fg, i).subset_of(all)); }
    lemma_total(fg.g().nodes@, fg.g().nodes@, fg.count() as int, all);
}
/// nothing more to propagate: every node has what arrives at it
proof fn lemma_flow_all(o: &Graph, fg: &Graph, all: Set<SetMember>, i: int, m: SetMember, n: nat)
    requires flowing(o, fg, all), settled(fg), 0 <= i < o.count(), nflow(o, i, m, n)
    ensures ndata(fg, i).contains(m)
    decreases n
{
    if ndata(o, i).contains(m) { assert(ndata(o, i).subset_of(ndata(fg, i))); }
    else {
        let a = choose|a: int| 0 <= a < o.count() && #[trigger] nedge(o, a, i) && nflow(o, a, m, (n - 1) as nat);
        lemma_flow_all(o, fg, all, a, m, (n - 1) as nat);
        let j = choose|j: int| edge_at(o, a, i, j);
        assert(fg.g().out(a) == o.g().out(a));
        assert(settled_at(fg, a, fg.g().out(a).len() as int));
        assert(fg.g().out(a)[j].1 == i);
    }
}
pub open spec fn arrived(o: &Graph, fg: &Graph) -> bool { forall|i: int, m: SetMember| 0 <= i < o.count() ==> (#[trigger] ndata(fg, i).contains(m) <==> narrives(o, i, m)) }
proof fn lemma_flow_end(o: &Graph, fg: &Graph, all: Set<SetMember>)
    requires flowing(o, fg, all), settled(fg)
    ensures arrived(o, fg)
{
    assert forall|i: int, m: SetMember| 0 <= i < o.count() implies (#[trigger] ndata(fg, i).contains(m) <==> narrives(o, i, m)) by {
        if narrives(o, i, m) { let n = choose|n: nat| nflow(o, i, m, n); lemma_flow_all(o, fg, all, i, m, n); }
    }
}
@*/
