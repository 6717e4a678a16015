//! Compute FIRST sets for elements and productions.
//!
//! This module calculates FIRST sets used by the LL(1) machinery and
//! is consumed by follow_sets and steuer_sets.
use crate::errors::GrammarError;
use crate::parser_data::{ElementIndex, ElementType, ParserData, Production};
use std::collections::{HashMap, HashSet};

use crate::sets::{NamedSets, SetMemberWithEmpty};
use crate::vms::VM;
/*@ use crate::grammar::*; use crate::parser_data::production_of; use crate::sets::*; use vstd::std_specs::hash::*; @*/

///Computes the first set of a slice of elements. Usually used to get the first set of a partial right side of a production.
/// # Arguments
/// * `elements` a reference to a slice of elements. The first_set is computed on the basis that the elements are following in this order
/// * `first_sets` a named Set of first_sets. For every element in elements there has to be an entry in first_sets
///
/// For example, we have the production a -> element1 element2 element3 and want to start computing the follow_set of element1
/// For that we need the first_set of [element2, element3].
/// Our first_sets are {element2: ['a',empty], element3: ['b','c']}
/// Our return will be {'a','b','c'}
pub fn first_set_of_partial<T>(
    el_ixs: &[ElementIndex],
    first_sets: &NamedSets,
    parser_data: &ParserData<T>,
) -> /*@ (r: @*/ Result<HashSet<SetMemberWithEmpty>, GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires parser_data.gram_ok(), parser_data.gram().known(el_ixs@)
    ensures
        r is Ok ==> seq_set_of(parser_data.gram(), first_sets, el_ixs@, r->Ok_0@),
        r is Ok && parser_data.gram().exact(first_sets) ==> parser_data.gram().is_seq_first(el_ixs@, r->Ok_0@),
        r is Err ==> r->Err_0 is MissingFirstSet && el_ixs@.contains(r->Err_0->MissingFirstSet_index)
            && !parser_data.gram().in_dom(first_sets, r->Err_0->MissingFirstSet_index),
    @*/
{
    /*@ let ghost g = parser_data.gram(); @*/
    let mut set = HashSet::from([SetMemberWithEmpty::Empty]);

    for &ix in /*@ it: @*/ el_ixs /*@
        invariant_except_break
            set_until(g, first_sets, el_ixs@, it.index(), set@), set@.contains(SetMemberWithEmpty::Empty),
        invariant
            g == parser_data.gram(), parser_data.gram_ok(), g.known(el_ixs@), it.seq() == el_ixs@.as_ref(),
        ensures seq_set_of(g, first_sets, el_ixs@, set@),
    @*/ {
        /*@ let ghost i = it.index(); let ghost before = set@; proof { assert(*it.seq()[i] == el_ixs@[i]); } @*/
        let cur_set = get_first_set_of_element(ix, first_sets, parser_data)?
            .ok_or(GrammarError::MissingFirstSet { index: ix })?;
        let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
        /*@ let ghost cur = cur_set@; @*/
        set.extend(cur_set);
        /*@ proof { lemma_until_step(g, first_sets, el_ixs@, i, before, cur, set@); } @*/
        if !has_empty {
            set.remove(&SetMemberWithEmpty::Empty);
            /*@ proof { lemma_until_stop(g, first_sets, el_ixs@, i, before, cur, set@); } @*/
            break;
        }
    }
    /*@ proof { if g.exact(first_sets) { lemma_seq_exact(g, first_sets, el_ixs@, set@); } } @*/
    Ok(set)
}

pub fn get_first_sets<T>(parser_data: &ParserData<T>) -> /*@ (r: @*/ Result<NamedSets, GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires parser_data.gram_ok()
    ensures
        r is Ok ==> parser_data.gram().exact(&r->Ok_0) && (forall|x: usize| #[trigger] parser_data.gram().defined(x) ==> r->Ok_0@.contains_key(x)),
        r is Ok ==> forall|x: usize| !#[trigger] parser_data.gram().left_recursive(x),
        r is Err ==> analysis_error(parser_data.gram(), r->Err_0),
    @*/
{
    /*@ let ghost g = parser_data.gram(); proof { lemma_empty_grounded(g); } @*/
    let mut first_sets: NamedSets = HashMap::new();
    for &el_ix in /*@ it: @*/ parser_data.parse_rules.rules.keys() /*@
        invariant
            g == parser_data.gram(), parser_data.gram_ok(), g.exact(&first_sets), g.grounded(first_sets@.dom()),
            forall|x: usize| #[trigger] g.rules.contains_key(x) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]) == x,
            forall|i: int| 0 <= i < it.seq().len() ==> g.rules.contains_key(*(#[trigger] it.seq()[i])),
            forall|i: int| 0 <= i < it.index() ==> g.in_dom(&first_sets, *(#[trigger] it.seq()[i])),
    @*/ {
        /*@ let ghost i = it.index(); let ghost before = first_sets; @*/
        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data, &mut vec![])?;
        /*@ proof {
            assert(g.rules.contains_key(*it.seq()[i]));
            assert forall|j: int| 0 <= j < i + 1 implies g.in_dom(&first_sets, *(#[trigger] it.seq()[j])) by { if j < i { assert(g.in_dom(&before, *it.seq()[j])); } }
        } @*/
    }
    /*@ proof {
        assert forall|x: usize| #[trigger] g.defined(x) implies first_sets@.contains_key(x) by { assert(g.rules.contains_key(x)); }
        assert forall|x: usize| !#[trigger] g.left_recursive(x) by {
            if g.left_recursive(x) {
                let n = choose|n: nat| n > 0 && #[trigger] g.left_path(x, x, n);
                let m = choose|m: usize| #[trigger] g.left(x, m) && g.left_path(m, x, (n - 1) as nat);
                assert(g.defined(x));
            }
        }
    } @*/
    Ok(first_sets)
}

fn get_set_first_set_of_element<T>(
    el_ix: ElementIndex,
    first_sets: &mut NamedSets,
    parser_data: &ParserData<T>,
    in_progress: &mut Vec<ElementIndex>,
) -> /*@ (r: @*/ Result<HashSet<SetMemberWithEmpty>, GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires
        parser_data.gram_ok(), ready(parser_data.gram(), old(first_sets), old(in_progress)@), el_ix < parser_data.gram().kinds.len(),
        old(in_progress)@.len() > 0 && !parser_data.gram().term(el_ix) ==> parser_data.gram().left(old(in_progress)@.last(), el_ix),
        parser_data.gram().rules.contains_key(el_ix) || parser_data.gram().referred(el_ix),
    ensures
        r is Ok ==> went_on(parser_data.gram(), old(first_sets), final(first_sets), old(in_progress)@, final(in_progress)@),
        r is Ok ==> parser_data.gram().is_first(el_ix, r->Ok_0@) && parser_data.gram().in_dom(final(first_sets), el_ix),
        r is Err ==> analysis_error(parser_data.gram(), r->Err_0),
    decreases parser_data.gram().kinds.len() - old(in_progress)@.len(), 0int
    @*/
{
    /*@ let ghost g = parser_data.gram(); let ghost fs0 = *first_sets; let ghost ip0 = in_progress@; @*/
    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;
    let res = match set_maybe {
        None => {
            if in_progress.contains(&el_ix) {
                /*@ proof {
                    let i = choose|i: int| 0 <= i < ip0.len() && ip0[i] == el_ix;
                    g.lemma_chain_path(ip0, i, el_ix);
                    assert(g.left_recursive(el_ix));
                } @*/
                return Err(GrammarError::LeftRecursion { index: el_ix });
            }
            in_progress.push(el_ix);
            /*@ let ghost ip = in_progress@; proof { lemma_chain_push(g, ip0, el_ix); g.lemma_chain_len(ip); } @*/
            let mut set: HashSet<SetMemberWithEmpty> = HashSet::new();
            let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                    return Err(GrammarError::MissingProduction { index: el_ix });
                };
            /*@ proof { assert(g.defined(el_ix)); assert(g.alts(el_ix).len() == productions.possible_productions@.len()); } @*/
            for production in /*@ it: @*/ &productions.possible_productions /*@
                invariant
                    g == parser_data.gram(), parser_data.gram_ok(), in_progress@ == ip, ip == ip0.push(el_ix),
                    g.defined(el_ix), g.alts(el_ix).len() == productions.possible_productions@.len(),
                    parser_data.parse_rules.rules@.contains_key(el_ix), *productions == parser_data.parse_rules.rules@[el_ix],
                    it.seq() == productions.possible_productions@.as_ref(),
                    ready(g, first_sets, ip), fs0@.dom().subset_of(first_sets@.dom()), ip.len() <= g.kinds.len(), ip0 == old(in_progress)@,
                    first_until(g, el_ix, it.index(), set@),
                    forall|p: int, b: usize| 0 <= p < it.index() && #[trigger] g.left_in(g.alts(el_ix)[p], b) ==> first_sets@.contains_key(b),
            @*/ {
                /*@ let ghost i = it.index(); let ghost before = set@; let ghost fsb = first_sets@;
                proof {
                    assert(**it.seq()[i] == parser_data.prods(el_ix)[i]);
                    assert(g.alts(el_ix)[i] == production_of(**production));
                    lemma_alt_left(g, el_ix, i);
                } @*/
                let rus = get_first_set_of_production(production, first_sets, parser_data, in_progress)?;
                set.extend(&rus);
                /*@ proof { lemma_first_step(g, el_ix, i, before, rus@, set@); } @*/
            }
            in_progress.pop();
            /*@ let ghost fs1 = *first_sets; proof {
                assert(in_progress@ =~= ip0);
                lemma_first_done(g, el_ix, set@);
                assert(!fs1@.contains_key(el_ix)) by { assert(ip.last() == el_ix); }
                assert forall|b: usize| #[trigger] g.left(el_ix, b) implies fs1@.contains_key(b) by {
                    let p = choose|p: int| 0 <= p < g.alts(el_ix).len() && g.left_in(#[trigger] g.alts(el_ix)[p], b);
                }
                g.lemma_grounded(fs1@.dom(), el_ix);
            } @*/
            first_sets.insert(el_ix, set.clone());
            /*@ proof { lemma_insert_done(g, &fs0, &fs1, first_sets, ip0, el_ix, set@); } @*/
            Ok(set)
        }
        Some(x) => Ok(x),
    };
    res
}

fn get_first_set_of_element<T>(
    el_ix: ElementIndex,
    first_sets: &NamedSets,
    parser_data: &ParserData<T>,
) -> /*@ (r: @*/ Result<Option<HashSet<SetMemberWithEmpty>>, GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires parser_data.gram_ok(), el_ix < parser_data.gram().kinds.len()
    ensures
        r is Ok,
        r->Ok_0 is None <==> !parser_data.gram().in_dom(first_sets, el_ix),
        r->Ok_0 is Some ==> r->Ok_0->0@ == set_of(parser_data.gram(), first_sets, el_ix),
        r->Ok_0 is Some && parser_data.gram().exact(first_sets) ==> parser_data.gram().is_first(el_ix, r->Ok_0->0@),
    @*/
{
    /*@ let ghost g = parser_data.gram(); proof { lemma_set_of(g, first_sets, el_ix); assert(g.kinds == parser_data.element_types@); assert(g.names.len() == parser_data.element_data@.len()); } @*/
    let et = parser_data.element_types[el_ix];
    let res = match et {
        ElementType::NonTerminal => first_sets.get(&el_ix).map(/*@< |entry: &HashSet<SetMemberWithEmpty>| -> (y: HashSet<SetMemberWithEmpty>) ensures y@ == entry@ { @*/ |entry| /*@>@*/ (*entry).clone() /*@ } @*/),
        ElementType::Terminal => {
            let el_verb = &parser_data.get_element_data(el_ix).unwrap().name;
            /*@ proof { assert(g.name(el_ix) == el_verb@); } @*/
            let maybe_char = el_verb.chars().next();
            Some(match maybe_char {
                None => HashSet::from([SetMemberWithEmpty::Empty]),
                Some(ch) => HashSet::from([SetMemberWithEmpty::Char(ch)]),
            })
        }
    };
    /*@ proof { if res is Some { assert(res->0@ =~= set_of(g, first_sets, el_ix)); } } @*/
    Ok(res)
}

fn get_first_set_of_production<T>(
    production: &Production,
    first_sets: &mut NamedSets,
    parser_data: &ParserData<T>,
    in_progress: &mut Vec<ElementIndex>,
) -> /*@ (r: @*/ Result<HashSet<SetMemberWithEmpty>, GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires
        parser_data.gram_ok(), prod_ok(*production), parser_data.gram().known(production_of(*production)),
        ready(parser_data.gram(), old(first_sets), old(in_progress)@), old(in_progress)@.len() > 0,
        forall|b: usize| #[trigger] parser_data.gram().left_in(production_of(*production), b) ==> parser_data.gram().left(old(in_progress)@.last(), b),
        forall|k: int| 0 <= k < production_of(*production).len() ==> parser_data.gram().referred(#[trigger] production_of(*production)[k]),
    ensures
        r is Ok ==> went_on(parser_data.gram(), old(first_sets), final(first_sets), old(in_progress)@, final(in_progress)@),
        r is Ok ==> parser_data.gram().is_seq_first(production_of(*production), r->Ok_0@),
        r is Ok ==> forall|b: usize| #[trigger] parser_data.gram().left_in(production_of(*production), b) ==> final(first_sets)@.contains_key(b),
        r is Err ==> analysis_error(parser_data.gram(), r->Err_0),
    decreases parser_data.gram().kinds.len() - old(in_progress)@.len(), 1int
    @*/
{
    /*@ let ghost g = parser_data.gram(); let ghost fs0 = *first_sets; let ghost ip0 = in_progress@; let ghost s = production_of(*production); @*/
    match production {
        Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
        Production::NotEmpty(el_ixs) => {
            /*@ proof { lemma_left_here(g, s, 0); } @*/
            let mut first_menge =
                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data, in_progress)?;
            /*@ proof { lemma_prod_first(g, s, first_sets, first_menge@); } @*/
            if first_menge.contains(&SetMemberWithEmpty::Empty) {
                for el_ix in /*@ it: @*/ el_ixs.iter().skip(1) /*@
                    invariant_except_break
                        prod_until(g, s, first_sets, it.index() + 1, first_menge@), first_menge@.contains(SetMemberWithEmpty::Empty),
                    invariant
                        g == parser_data.gram(), parser_data.gram_ok(), in_progress@ == ip0, ready(g, first_sets, ip0), ip0.len() > 0,
                        fs0@.dom().subset_of(first_sets@.dom()), s == el_ixs@, g.known(s), s.len() > 0, laws(&it.iter),
                        it.seq().len() == s.len() - 1, forall|j: int| 0 <= j < s.len() - 1 ==> *(#[trigger] it.seq()[j]) == s[j + 1],
                        forall|b: usize| #[trigger] g.left_in(s, b) ==> g.left(ip0.last(), b),
                        forall|k: int| 0 <= k < s.len() ==> g.referred(#[trigger] s[k]),
                        s == production_of(*production), g.kinds.len() - ip0.len() == parser_data.gram().kinds.len() - old(in_progress)@.len(),
                    ensures prod_done(g, s, first_sets, first_menge@),
                @*/ {
                    /*@ let ghost i = it.index() + 1; let ghost before = first_menge@; let ghost fsb = *first_sets;
                    proof { assert(*it.seq()[i - 1] == s[i]); lemma_left_here(g, s, i); } @*/
                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data, in_progress)?;
                    let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                    /*@ let ghost cur = cur_set@; @*/
                    first_menge.extend(cur_set);
                    /*@ proof { lemma_prod_step(g, s, &fsb, first_sets, i, before, cur, first_menge@); } @*/
                    if !has_empty {
                        first_menge.remove(&SetMemberWithEmpty::Empty);
                        /*@ proof { lemma_prod_stop(g, s, &fsb, first_sets, i, before, cur, first_menge@); } @*/
                        break;
                    }
                }
            }
            Ok(first_menge)
        }
    }
}
/*@
/// what get_first_sets may report, and why
pub open spec fn analysis_error(g: Gram, e: GrammarError) -> bool {
    ||| (e is LeftRecursion && g.left_recursive(e->LeftRecursion_index))
    ||| (e is MissingProduction && !g.rules.contains_key(e->MissingProduction_index) && !g.term(e->MissingProduction_index) && g.referred(e->MissingProduction_index))
}
pub open spec fn ready(g: Gram, fs: &NamedSets, ip: Seq<usize>) -> bool {
    &&& g.exact(fs) && g.grounded(fs@.dom()) && g.chain(ip)
    &&& forall|i: int| 0 <= i < ip.len() ==> !fs@.contains_key(#[trigger] ip[i])
}
pub open spec fn went_on(g: Gram, fs0: &NamedSets, fs: &NamedSets, ip0: Seq<usize>, ip: Seq<usize>) -> bool {
    ready(g, fs, ip) && ip == ip0 && fs0@.dom().subset_of(fs@.dom())
}
/// the set that stands for x: given, or read off a terminal
pub open spec fn set_of(g: Gram, fs: &NamedSets, x: usize) -> Set<SetMemberWithEmpty> {
    if !g.term(x) { fs@[x]@ }
    else if g.name(x).len() == 0 { Set::empty().insert(SetMemberWithEmpty::Empty) }
    else { Set::empty().insert(SetMemberWithEmpty::Char(g.name(x)[0])) }
}
pub open spec fn empty_in(g: Gram, fs: &NamedSets, x: usize) -> bool { set_of(g, fs, x).contains(SetMemberWithEmpty::Empty) }
pub open spec fn has_at(g: Gram, fs: &NamedSets, s: Seq<usize>, k: int, m: SetMemberWithEmpty) -> bool {
    &&& 0 <= k < s.len() && set_of(g, fs, s[k]).contains(m)
    &&& forall|j: int| 0 <= j < k ==> empty_in(g, fs, #[trigger] s[j])
}
/// m is in the set of the sequence, given the sets of its elements
pub open spec fn seq_has(g: Gram, fs: &NamedSets, s: Seq<usize>, m: SetMemberWithEmpty) -> bool {
    if m is Empty { forall|j: int| 0 <= j < s.len() ==> empty_in(g, fs, #[trigger] s[j]) } else { exists|k: int| has_at(g, fs, s, k, m) }
}
pub open spec fn seq_known(g: Gram, fs: &NamedSets, s: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> empty_in(g, fs, #[trigger] s[j])) ==> #[trigger] g.in_dom(fs, s[k])
}
pub open spec fn seq_set_of(g: Gram, fs: &NamedSets, s: Seq<usize>, r: Set<SetMemberWithEmpty>) -> bool {
    seq_known(g, fs, s) && forall|m: SetMemberWithEmpty| #[trigger] r.contains(m) <==> seq_has(g, fs, s, m)
}
spec fn set_until(g: Gram, fs: &NamedSets, s: Seq<usize>, i: int, r: Set<SetMemberWithEmpty>) -> bool {
    &&& forall|j: int| 0 <= j < i ==> g.in_dom(fs, s[j]) && empty_in(g, fs, #[trigger] s[j])
    &&& forall|m: SetMemberWithEmpty| !(m is Empty) ==> (#[trigger] r.contains(m) <==> exists|k: int| k < i && has_at(g, fs, s, k, m))
}
proof fn lemma_until_step(g: Gram, fs: &NamedSets, s: Seq<usize>, i: int, a: Set<SetMemberWithEmpty>, cur: Set<SetMemberWithEmpty>, b: Set<SetMemberWithEmpty>)
    requires
        set_until(g, fs, s, i, a), a.contains(SetMemberWithEmpty::Empty), 0 <= i < s.len(), b == a.union(cur), cur == set_of(g, fs, s[i]), g.in_dom(fs, s[i]),
    ensures
        b.contains(SetMemberWithEmpty::Empty),
        cur.contains(SetMemberWithEmpty::Empty) ==> set_until(g, fs, s, i + 1, b),
        cur.contains(SetMemberWithEmpty::Empty) && i + 1 == s.len() ==> seq_set_of(g, fs, s, b),
{
    if cur.contains(SetMemberWithEmpty::Empty) {
        assert forall|m: SetMemberWithEmpty| !(m is Empty) implies (#[trigger] b.contains(m) <==> exists|k: int| k < i + 1 && has_at(g, fs, s, k, m)) by {
            if cur.contains(m) { assert(has_at(g, fs, s, i, m)); }
            if exists|k: int| k < i + 1 && has_at(g, fs, s, k, m) {
                let k = choose|k: int| k < i + 1 && has_at(g, fs, s, k, m);
                if k < i { assert(a.contains(m)); }
            }
        }
        if i + 1 == s.len() { lemma_until_end(g, fs, s, b); }
    }
}
proof fn lemma_until_end(g: Gram, fs: &NamedSets, s: Seq<usize>, b: Set<SetMemberWithEmpty>)
    requires set_until(g, fs, s, s.len() as int, b), b.contains(SetMemberWithEmpty::Empty)
    ensures seq_set_of(g, fs, s, b)
{
    assert forall|m: SetMemberWithEmpty| #[trigger] b.contains(m) <==> seq_has(g, fs, s, m) by {
        if !(m is Empty) && seq_has(g, fs, s, m) { let k = choose|k: int| has_at(g, fs, s, k, m); assert(k < s.len() && has_at(g, fs, s, k, m)); }
    }
}
proof fn lemma_until_stop(g: Gram, fs: &NamedSets, s: Seq<usize>, i: int, a: Set<SetMemberWithEmpty>, cur: Set<SetMemberWithEmpty>, b: Set<SetMemberWithEmpty>)
    requires
        set_until(g, fs, s, i, a), 0 <= i < s.len(), b == a.union(cur).remove(SetMemberWithEmpty::Empty), cur == set_of(g, fs, s[i]), g.in_dom(fs, s[i]),
        !cur.contains(SetMemberWithEmpty::Empty),
    ensures seq_set_of(g, fs, s, b)
{
    assert(!empty_in(g, fs, s[i]));
    assert forall|m: SetMemberWithEmpty| #[trigger] b.contains(m) <==> seq_has(g, fs, s, m) by {
        if !(m is Empty) {
            if cur.contains(m) { assert(has_at(g, fs, s, i, m)); }
            if seq_has(g, fs, s, m) {
                let k = choose|k: int| has_at(g, fs, s, k, m);
                if k > i { assert(empty_in(g, fs, s[i])); }
                if k < i { assert(a.contains(m)); }
            }
        }
    }
}
proof fn lemma_set_of(g: Gram, fs: &NamedSets, x: usize)
    requires g.ok()
    ensures g.in_dom(fs, x) && g.exact(fs) ==> g.is_first(x, set_of(g, fs, x))
{
    if g.in_dom(fs, x) && g.exact(fs) {
        g.lemma_nulls(x);
        assert forall|c: char| #[trigger] set_of(g, fs, x).contains(SetMemberWithEmpty::Char(c)) <==> g.starts(x, c) by { g.lemma_starts(x, c); }
    }
}
/// given the FIRST sets of its elements, the set of a sequence is the FIRST set of the sequence
pub proof fn lemma_seq_exact(g: Gram, fs: &NamedSets, s: Seq<usize>, r: Set<SetMemberWithEmpty>)
    requires g.ok(), g.exact(fs), seq_set_of(g, fs, s, r)
    ensures g.is_seq_first(s, r)
{
    lemma_has_exact(g, fs, s);
    assert forall|c: char| #[trigger] r.contains(SetMemberWithEmpty::Char(c)) <==> g.seq_starts(s, c) by { assert(seq_has(g, fs, s, SetMemberWithEmpty::Char(c)) <==> g.seq_starts(s, c)); }
    assert(r.contains(SetMemberWithEmpty::Empty) <==> seq_has(g, fs, s, SetMemberWithEmpty::Empty));
}
pub proof fn lemma_has_exact(g: Gram, fs: &NamedSets, s: Seq<usize>)
    requires g.ok(), g.exact(fs), seq_known(g, fs, s)
    ensures
        forall|c: char| #[trigger] seq_has(g, fs, s, SetMemberWithEmpty::Char(c)) <==> g.seq_starts(s, c),
        seq_has(g, fs, s, SetMemberWithEmpty::Empty) <==> g.nulls_all(s),
        !seq_has(g, fs, s, SetMemberWithEmpty::Terminate),
{
    assert forall|k: int| 0 <= k <= s.len() implies ((forall|j: int| 0 <= j < k ==> empty_in(g, fs, #[trigger] s[j])) <==> #[trigger] g.nulls_prefix(s, k)) by {
        lemma_prefix_empty(g, fs, s, k);
    }
    assert forall|c: char| #[trigger] seq_has(g, fs, s, SetMemberWithEmpty::Char(c)) <==> g.seq_starts(s, c) by {
        let m = SetMemberWithEmpty::Char(c);
        if seq_has(g, fs, s, m) {
            let k = choose|k: int| has_at(g, fs, s, k, m);
            lemma_set_of(g, fs, s[k]); lemma_prefix_empty(g, fs, s, k);
            assert(g.in_dom(fs, s[k]));
            assert(g.starts_at(s, k, c));
        }
        if g.seq_starts(s, c) {
            let k = choose|k: int| g.starts_at(s, k, c);
            lemma_set_of(g, fs, s[k]); lemma_prefix_empty(g, fs, s, k);
            assert(g.in_dom(fs, s[k]));
            assert(has_at(g, fs, s, k, m));
        }
    }
    lemma_prefix_empty(g, fs, s, s.len() as int);
    if seq_has(g, fs, s, SetMemberWithEmpty::Terminate) {
        let k = choose|k: int| has_at(g, fs, s, k, SetMemberWithEmpty::Terminate);
        lemma_set_of(g, fs, s[k]);
        assert(g.in_dom(fs, s[k]));
    }
}
proof fn lemma_prefix_empty(g: Gram, fs: &NamedSets, s: Seq<usize>, k: int)
    requires g.ok(), g.exact(fs), seq_known(g, fs, s), 0 <= k <= s.len()
    ensures (forall|j: int| 0 <= j < k ==> empty_in(g, fs, #[trigger] s[j])) <==> g.nulls_prefix(s, k)
    decreases k
{
    if k > 0 {
        lemma_prefix_empty(g, fs, s, k - 1);
        if g.nulls_prefix(s, k) || (forall|j: int| 0 <= j < k ==> empty_in(g, fs, #[trigger] s[j])) {
            assert(forall|j: int| 0 <= j < k - 1 ==> empty_in(g, fs, #[trigger] s[j]));
            assert(g.in_dom(fs, s[k - 1]));
            lemma_set_of(g, fs, s[k - 1]);
            assert(empty_in(g, fs, s[k - 1]) <==> g.nulls(s[k - 1]));
        }
    }
}
proof fn lemma_empty_grounded(g: Gram)
    ensures g.grounded(Set::empty())
{}
proof fn lemma_chain_push(g: Gram, ip: Seq<usize>, x: usize)
    requires g.chain(ip), !ip.contains(x), !g.term(x), x < g.kinds.len(), ip.len() > 0 ==> g.left(ip.last(), x)
    ensures g.chain(ip.push(x))
{
    let q = ip.push(x);
    assert forall|i: int| 0 < i < q.len() implies #[trigger] g.left(q[i - 1], q[i]) by {
        if i < ip.len() { assert(g.left(ip[i - 1], ip[i])); } else { assert(q[i - 1] == ip.last()); }
    }
}
/// what stands at the left end of one production of x stands at the left end of x
proof fn lemma_alt_left(g: Gram, x: usize, p: int)
    requires g.defined(x), 0 <= p < g.alts(x).len()
    ensures
        forall|b: usize| #[trigger] g.left_in(g.alts(x)[p], b) ==> g.left(x, b),
        forall|k: int| 0 <= k < g.alts(x)[p].len() ==> g.referred(#[trigger] g.alts(x)[p][k]),
{}
spec fn first_until(g: Gram, x: usize, i: int, s: Set<SetMemberWithEmpty>) -> bool {
    &&& forall|c: char| #[trigger] s.contains(SetMemberWithEmpty::Char(c)) <==> exists|p: int| p < i && #[trigger] g.alt_starts(x, p, c)
    &&& s.contains(SetMemberWithEmpty::Empty) <==> exists|p: int| p < i && #[trigger] g.alt_nulls(x, p)
    &&& !s.contains(SetMemberWithEmpty::Terminate)
}
proof fn lemma_first_step(g: Gram, x: usize, i: int, a: Set<SetMemberWithEmpty>, cur: Set<SetMemberWithEmpty>, b: Set<SetMemberWithEmpty>)
    requires first_until(g, x, i, a), 0 <= i < g.alts(x).len(), g.is_seq_first(g.alts(x)[i], cur), b == a.union(cur)
    ensures first_until(g, x, i + 1, b)
{
    assert forall|c: char| #[trigger] b.contains(SetMemberWithEmpty::Char(c)) <==> exists|p: int| p < i + 1 && #[trigger] g.alt_starts(x, p, c) by {
        let m = SetMemberWithEmpty::Char(c);
        if cur.contains(m) { assert(g.alt_starts(x, i, c)); }
        if a.contains(m) { let p = choose|p: int| p < i && #[trigger] g.alt_starts(x, p, c); assert(p < i + 1 && g.alt_starts(x, p, c)); }
        if exists|p: int| p < i + 1 && #[trigger] g.alt_starts(x, p, c) {
            let p = choose|p: int| p < i + 1 && #[trigger] g.alt_starts(x, p, c);
            if p < i { assert(a.contains(m)); } else { assert(cur.contains(m)); }
        }
    }
    let m = SetMemberWithEmpty::Empty;
    if cur.contains(m) { assert(g.alt_nulls(x, i)); }
    if a.contains(m) { let p = choose|p: int| p < i && #[trigger] g.alt_nulls(x, p); assert(p < i + 1 && g.alt_nulls(x, p)); }
}
proof fn lemma_first_done(g: Gram, x: usize, s: Set<SetMemberWithEmpty>)
    requires g.defined(x), first_until(g, x, g.alts(x).len() as int, s)
    ensures g.is_first(x, s)
{
    g.lemma_nulls(x);
    assert forall|c: char| #[trigger] s.contains(SetMemberWithEmpty::Char(c)) <==> g.starts(x, c) by {
        g.lemma_starts(x, c);
        if g.starts(x, c) { let p = choose|p: int| #[trigger] g.alt_starts(x, p, c); assert(p < g.alts(x).len() && g.alt_starts(x, p, c)); }
    }
    if g.nulls(x) { let p = choose|p: int| #[trigger] g.alt_nulls(x, p); assert(p < g.alts(x).len() && g.alt_nulls(x, p)); }
}
proof fn lemma_insert_done(g: Gram, fs0: &NamedSets, fs1: &NamedSets, fs: &NamedSets, ip: Seq<usize>, x: usize, s: Set<SetMemberWithEmpty>)
    requires
        ready(g, fs1, ip.push(x)), g.chain(ip), g.defined(x), g.is_first(x, s), g.grounded(fs1@.dom().insert(x)), fs0@.dom().subset_of(fs1@.dom()),
        fs@.dom() == fs1@.dom().insert(x), fs@[x]@ == s, forall|y: usize| y != x && fs1@.contains_key(y) ==> fs@[y] == #[trigger] fs1@[y],
    ensures went_on(g, fs0, fs, ip, ip)
{
    assert forall|y: usize| #[trigger] fs@.contains_key(y) implies g.defined(y) && g.is_first(y, fs@[y]@) by {
        if y != x { assert(fs1@.contains_key(y)); assert(fs@[y] == fs1@[y]); }
    }
    let q = ip.push(x);
    assert forall|i: int| 0 <= i < ip.len() implies !fs@.contains_key(#[trigger] ip[i]) by {
        assert(q[i] == ip[i]); assert(q[ip.len() as int] == x);
        assert(!fs1@.contains_key(q[i]));
    }
}
proof fn lemma_left_here(g: Gram, s: Seq<usize>, i: int)
    requires 0 <= i < s.len(), g.nulls_prefix(s, i)
    ensures !g.term(s[i]) ==> g.left_in(s, s[i])
{
    if !g.term(s[i]) { assert(g.left_at(s, i, s[i])); }
}
/// the first i elements have been read and can all derive nothing
spec fn prod_until(g: Gram, s: Seq<usize>, fs: &NamedSets, i: int, r: Set<SetMemberWithEmpty>) -> bool {
    &&& 0 <= i <= s.len() && g.nulls_prefix(s, i) && !r.contains(SetMemberWithEmpty::Terminate)
    &&& forall|c: char| #[trigger] r.contains(SetMemberWithEmpty::Char(c)) <==> exists|k: int| k < i && g.starts_at(s, k, c)
    &&& forall|b: usize, k: int| k < i && #[trigger] g.left_at(s, k, b) ==> fs@.contains_key(b)
}
spec fn prod_done(g: Gram, s: Seq<usize>, fs: &NamedSets, r: Set<SetMemberWithEmpty>) -> bool {
    g.is_seq_first(s, r) && forall|b: usize| #[trigger] g.left_in(s, b) ==> fs@.contains_key(b)
}
proof fn lemma_prod_step(g: Gram, s: Seq<usize>, fs0: &NamedSets, fs: &NamedSets, i: int, a: Set<SetMemberWithEmpty>, cur: Set<SetMemberWithEmpty>, b: Set<SetMemberWithEmpty>)
    requires
        prod_until(g, s, fs0, i, a), a.contains(SetMemberWithEmpty::Empty), 0 <= i < s.len(), g.is_first(s[i], cur), b == a.union(cur), g.in_dom(fs, s[i]),
        fs0@.dom().subset_of(fs@.dom()),
    ensures
        b.contains(SetMemberWithEmpty::Empty),
        cur.contains(SetMemberWithEmpty::Empty) ==> prod_until(g, s, fs, i + 1, b),
        cur.contains(SetMemberWithEmpty::Empty) && i + 1 == s.len() ==> prod_done(g, s, fs, b),
{
    assert forall|c: char| #[trigger] b.contains(SetMemberWithEmpty::Char(c)) <==> exists|k: int| k < i + 1 && g.starts_at(s, k, c) by {
        let m = SetMemberWithEmpty::Char(c);
        if cur.contains(m) { assert(g.starts_at(s, i, c)); }
        if a.contains(m) { let k = choose|k: int| k < i && g.starts_at(s, k, c); assert(k < i + 1 && g.starts_at(s, k, c)); }
        if exists|k: int| k < i + 1 && g.starts_at(s, k, c) {
            let k = choose|k: int| k < i + 1 && g.starts_at(s, k, c);
            if k < i { assert(a.contains(m)); }
        }
    }
    if cur.contains(SetMemberWithEmpty::Empty) {
        assert forall|b: usize, k: int| k < i + 1 && #[trigger] g.left_at(s, k, b) implies fs@.contains_key(b) by {
            if k < i { assert(fs0@.contains_key(b)); }
        }
        if i + 1 == s.len() { lemma_prod_end(g, s, fs, b); }
    }
}
proof fn lemma_prod_end(g: Gram, s: Seq<usize>, fs: &NamedSets, b: Set<SetMemberWithEmpty>)
    requires prod_until(g, s, fs, s.len() as int, b), b.contains(SetMemberWithEmpty::Empty)
    ensures prod_done(g, s, fs, b)
{
    assert forall|c: char| #[trigger] b.contains(SetMemberWithEmpty::Char(c)) <==> g.seq_starts(s, c) by {
        if g.seq_starts(s, c) { let k = choose|k: int| g.starts_at(s, k, c); assert(k < s.len() && g.starts_at(s, k, c)); }
        if b.contains(SetMemberWithEmpty::Char(c)) { let k = choose|k: int| k < s.len() && g.starts_at(s, k, c); assert(g.starts_at(s, k, c)); }
    }
    assert forall|x: usize| #[trigger] g.left_in(s, x) implies fs@.contains_key(x) by { let k = choose|k: int| g.left_at(s, k, x); assert(k < s.len()); }
}
proof fn lemma_prod_stop(g: Gram, s: Seq<usize>, fs0: &NamedSets, fs: &NamedSets, i: int, a: Set<SetMemberWithEmpty>, cur: Set<SetMemberWithEmpty>, b: Set<SetMemberWithEmpty>)
    requires
        prod_until(g, s, fs0, i, a), 0 <= i < s.len(), g.is_first(s[i], cur), b == a.union(cur).remove(SetMemberWithEmpty::Empty), g.in_dom(fs, s[i]),
        fs0@.dom().subset_of(fs@.dom()), !cur.contains(SetMemberWithEmpty::Empty),
    ensures prod_done(g, s, fs, b)
{
    assert(!g.nulls(s[i]));
    assert forall|c: char| #[trigger] b.contains(SetMemberWithEmpty::Char(c)) <==> g.seq_starts(s, c) by {
        let m = SetMemberWithEmpty::Char(c);
        if cur.contains(m) { assert(g.starts_at(s, i, c)); }
        if a.contains(m) { let k = choose|k: int| k < i && g.starts_at(s, k, c); assert(g.starts_at(s, k, c)); }
        if g.seq_starts(s, c) {
            let k = choose|k: int| g.starts_at(s, k, c);
            if k > i { assert(g.nulls(s[i])); }
            if k < i { assert(a.contains(m)); }
        }
    }
    if g.nulls_all(s) { assert(g.nulls(s[i])); }
    assert forall|x: usize| #[trigger] g.left_in(s, x) implies fs@.contains_key(x) by {
        let k = choose|k: int| g.left_at(s, k, x);
        if k > i { assert(g.nulls(s[i])); }
        if k < i { assert(fs0@.contains_key(x)); }
    }
}
proof fn lemma_prod_first(g: Gram, s: Seq<usize>, fs: &NamedSets, r: Set<SetMemberWithEmpty>)
    requires s.len() > 0, g.is_first(s[0], r), g.in_dom(fs, s[0])
    ensures
        !r.contains(SetMemberWithEmpty::Empty) ==> prod_done(g, s, fs, r),
        r.contains(SetMemberWithEmpty::Empty) ==> prod_until(g, s, fs, 1, r),
        r.contains(SetMemberWithEmpty::Empty) && s.len() == 1 ==> prod_done(g, s, fs, r),
{
    let e = Set::<SetMemberWithEmpty>::empty().insert(SetMemberWithEmpty::Empty);
    assert(prod_until(g, s, fs, 0, e));
    lemma_prod_step(g, s, fs, fs, 0, e, r, e.union(r));
    if r.contains(SetMemberWithEmpty::Empty) { assert(e.union(r) =~= r); }
    else { lemma_prod_stop(g, s, fs, fs, 0, e, r, e.union(r).remove(SetMemberWithEmpty::Empty)); assert(e.union(r).remove(SetMemberWithEmpty::Empty) =~= r); }
}
@*/
