//! Construct LL(1) steuer maps for each non-terminal.
//!
//! A steuer map links a lookahead symbol to a specific production. This module
//! turns FIRST/FOLLOW/Steuer information into executable tables used by Parser.
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;
use std::mem;
use std::rc::Rc;

use crate::first_sets::first_set_of_partial;
use crate::parser_data::{ElementIndex, ElementType, ParserData};
use crate::vms::VM;
/*@ use crate::grammar::*; use crate::parser_data::{production_of, NonTerminalRules, ParseRules, RuleMap}; use crate::sets::*; use crate::spec::*; use crate::first_sets::*; use vstd::std_specs::hash::*; @*/

use crate::errors::GrammarError;
use crate::errors::GrammarError::{MissingFollowSet, SteuerSetsNotDistinct};
use crate::parser_data::Production;
use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};

/// Forgot what NT means here. NonTerminal?
pub struct NTRules<T>
where
    T: VM,
{
    pub steuermap: Steuermap,
    pub ignore: Option<ElementIndex>,
    pub instruction: Vec<T::Tinstrution>,
}

pub type Steuermap = HashMap<SetMember, Rc<Production>>;

/*@ #[verifier::loop_isolation(false)] @*/ pub fn get_steuermaps<T>(
    first_sets: &NamedSets,
    follow_sets: &NamedSetsNoEmpty,
    mut parser_data: ParserData<T>,
) -> /*@ (r: @*/ Result<HashMap<ElementIndex, NTRules<T>>, GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires parser_data.gram_ok(), parser_data.gram().exact(first_sets)
    ensures
        r is Ok ==> r->Ok_0@.dom() == parser_data.gram().rules.dom(),
        r is Ok ==> forall|k: usize| #[trigger] r->Ok_0@.contains_key(k) ==> parser_data.gram().is_table(follow_sets, k, r->Ok_0@[k].table()),
        r is Ok ==> forall|k: usize| #[trigger] r->Ok_0@.contains_key(k) ==>
            r->Ok_0@[k].ignore == parser_data.parse_rules.rules@[k].ignore && r->Ok_0@[k].instruction == parser_data.parse_rules.rules@[k].instruction,
        r is Err ==> table_error(parser_data.gram(), first_sets, follow_sets, r->Err_0),
    @*/
{
    /*@ let ghost g = parser_data.gram(); let ghost rules = parser_data.parse_rules.rules@; let ghost pd0 = parser_data; @*/
    let mut steuer_maps /*@ : HashMap<ElementIndex, NTRules<T>> @*/ = HashMap::new();
    for (rule_name, productions) in /*@ it: @*/ mem::take(&mut parser_data.parse_rules.rules)./*@< v_into_iter @*/ into_iter /*@>@*/ () /*@
        invariant
            g == pd0.gram(), pd0.gram_ok(), g.exact(first_sets), rules == pd0.parse_rules.rules@,
            parser_data.gram_ok(), alike(g, parser_data.gram()),
            laws(&it.iter), it.seq().no_duplicates(),
            forall|i: int| 0 <= i < it.seq().len() ==> rules.contains_key((#[trigger] it.seq()[i]).0) && rules[it.seq()[i].0] == it.seq()[i].1,
            forall|k: usize| rules.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0 == k,
            forall|i: int| 0 <= i < it.index() ==> steuer_maps@.contains_key((#[trigger] it.seq()[i]).0),
            forall|k: usize| #[trigger] steuer_maps@.contains_key(k) ==> rules.contains_key(k) && g.is_table(follow_sets, k, steuer_maps@[k].table())
                && steuer_maps@[k].ignore == rules[k].ignore && steuer_maps@[k].instruction == rules[k].instruction,
    @*/ {
        /*@ let ghost nt = productions; proof { assert(rules.contains_key(it.seq()[it.index()].0)); assert(pd0.prods(rule_name).len() == nt.possible_productions@.len()); } @*/
        let mut steuermap = Steuermap::new();

        /*@ proof { lemma_table_start(g, follow_sets, rule_name, steuermap@); } @*/
        for prod in /*@ jt: @*/ productions.possible_productions.into_iter() /*@
            invariant
                g == pd0.gram(), pd0.gram_ok(), g.exact(first_sets), rules == pd0.parse_rules.rules@, rules.contains_key(rule_name), rules[rule_name] == nt,
                parser_data.gram_ok(), alike(g, parser_data.gram()), jt.seq() == nt.possible_productions@,
                g.table_to(follow_sets, rule_name, jt.index(), values(steuermap@)),
        @*/ {
            /*@ let ghost j = jt.index(); let ghost before = steuermap@; let ghost pc = prod;
            proof { assert(pd0.prods(rule_name)[j] == *prod); assert(g.alts(rule_name)[j] == production_of(*prod)); assert(g.known(g.alts(rule_name)[j])); } @*/
            /*@ let res = @*/ steuermap_of_production(
                first_sets,
                follow_sets,
                &mut steuermap,
                prod,
                rule_name,
                &parser_data,
            )/*@ ; proof { if res is Err { lemma_table_error(g, parser_data.gram(), first_sets, follow_sets, rule_name, j, before, res->Err_0); } } res @*/ ?;
            /*@ proof { lemma_table_step(g, parser_data.gram(), first_sets, follow_sets, rule_name, j, before, steuermap@, pc); } @*/
        }
        /*@ proof { g.lemma_table_whole(follow_sets, rule_name, values(steuermap@)); } @*/
        steuer_maps.insert(
            rule_name,
            NTRules {
                steuermap,
                ignore: productions.ignore,
                instruction: productions.instruction,
            },
        );
    }
    /*@ proof { assert(steuer_maps@.dom() =~= g.rules.dom()); } @*/
    Ok(steuer_maps)
}

fn steuermap_of_production<T>(
    first_sets: &NamedSets,
    follow_sets: &NamedSetsNoEmpty,
    steuer_map: &mut Steuermap,
    prod: Rc<Production>,
    cur_rule_name: ElementIndex,
    parser_data: &ParserData<T>,
) -> /*@ (r: @*/ Result<(), GrammarError> /*@ ) @*/
where
    T: VM,
    /*@ requires parser_data.gram_ok(), parser_data.gram().known(made(prod)), prod_ok(*prod),
    ensures
        r is Ok ==> entered(parser_data.gram(), first_sets, follow_sets, cur_rule_name, made(prod), old(steuer_map)@, final(steuer_map)@, prod),
        r is Err ==> production_error(parser_data.gram(), first_sets, follow_sets, cur_rule_name, made(prod), old(steuer_map)@, r->Err_0),
    @*/
{
    /*@ let ghost g = parser_data.gram(); let ghost s = made(prod); let ghost o = steuer_map@; @*/
    let prod_ref = Rc::clone(&prod);
    let prod = &*prod;
    match prod {
        Production::NotEmpty(el) => {
            let first = el[0];
            let et = parser_data
                .element_types
                .get(first)
                .ok_or(GrammarError::MissingElementForIndex { index: first })?;
            let name = parser_data.element_data.get(first).unwrap().name.clone();
            match (et, name.chars().next()) {
                (ElementType::Terminal, Some(first_char)) => {
                    /*@ proof { lemma_terminal(g, first_sets, follow_sets, cur_rule_name, s); } @*/
                    let old_key = steuer_map.insert(SetMember::Char(first_char), prod_ref);
                    /*@ proof { assert(picks(g, first_sets, follow_sets, cur_rule_name, s, SetMember::Char(first_char))); } @*/
                    if old_key.is_some() {
                        return Err(SteuerSetsNotDistinct {
                            steuer_terminal: name.clone(),
                            steuer_char: first_char,
                            rule_name: cur_rule_name.to_string(),
                        });
                    }
                }
                _ => {
                    // What can follow the first element in other productions must not
                    // select this one: only what this production as a whole starts with.
                    let mut first_set = first_set_of_partial(el, first_sets, parser_data)?;
                    let has_empty = first_set.remove(&SetMemberWithEmpty::Empty);
                    let mut steuer_menge = first_set
                        .iter()
                        ./*@< v_map @*/ map /*@>@*/ (|x/*@ : &SetMemberWithEmpty @*/| /*@ -> (y: SetMember) requires *x != SetMemberWithEmpty::Empty ensures no_empty(*x) == Some(y) { @*/ SetMember::try_from(*x).unwrap() /*@ } @*/)
                        .collect::<HashSet<_>>();
                    /*@ proof {
                        assert forall|m: SetMember| #[trigger] steuer_menge@.contains(m) <==> first_set@.contains(with_empty(m)) by {}
                    } @*/
                    if has_empty {
                        let follow_set = follow_sets.get(&cur_rule_name).ok_or(
                            MissingFollowSet {
                                index: cur_rule_name,
                            },
                        )?;
                        steuer_menge.extend(follow_set);
                    }
                    /*@ let ghost w = steuer_menge@; proof { assert forall|m: SetMember| #[trigger] w.contains(m) <==> picks(g, first_sets, follow_sets, cur_rule_name, s, m) by {} }
                    let res = @*/ fill_with_steuer_set(&steuer_menge, steuer_map, &prod_ref, cur_rule_name) /*@ ;
                    proof { if res is Err { let m = choose|m: SetMember| #[trigger] w.contains(m) && clash(o, m, res->Err_0); assert(picks(g, first_sets, follow_sets, cur_rule_name, s, m)); } } res @*/ ?;
                }
            }
            Ok(())
        }
        Production::Empty => {
            let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
                index: cur_rule_name,
            })?;
            /*@ proof { assert forall|m: SetMember| #[trigger] follow_set@.contains(m) <==> picks(g, first_sets, follow_sets, cur_rule_name, s, m) by {} }
            let res = @*/ fill_with_steuer_set(follow_set, steuer_map, &prod_ref, cur_rule_name) /*@ ;
            proof { if res is Err { let m = choose|m: SetMember| #[trigger] follow_set@.contains(m) && clash(o, m, res->Err_0); assert(picks(g, first_sets, follow_sets, cur_rule_name, s, m)); } } res @*/ ?;

            Ok(())
        }
    }
}

fn fill_with_steuer_set(
    set_no_empty: &HashSet<SetMember>,
    steuer_map: &mut Steuermap,
    prod: &Rc<Production>,
    cur_rule_name: ElementIndex,
) -> /*@ (r: @*/ Result<(), GrammarError> /*@ )
    ensures
        r is Ok ==> filled(set_no_empty@, old(steuer_map)@, final(steuer_map)@, *prod),
        r is Err ==> exists|m: SetMember| #[trigger] set_no_empty@.contains(m) && clash(old(steuer_map)@, m, r->Err_0),
    @*/ {
    /*@ let ghost o = steuer_map@; @*/
    for follow_char in /*@ it: @*/ set_no_empty /*@
        invariant
            o == old(steuer_map)@, it.seq().no_duplicates(),
            forall|i: int| 0 <= i < it.seq().len() ==> set_no_empty@.contains(*(#[trigger] it.seq()[i])),
            forall|m: SetMember| set_no_empty@.contains(m) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]) == m,
            forall|i: int| 0 <= i < it.index() ==> !o.contains_key(*(#[trigger] it.seq()[i])) && steuer_map@.contains_key(*it.seq()[i]),
            forall|m: SetMember| #[trigger] steuer_map@.contains_key(m) ==> o.contains_key(m) || exists|i: int| 0 <= i < it.index() && *(#[trigger] it.seq()[i]) == m,
            forall|m: SetMember| #[trigger] o.contains_key(m) ==> steuer_map@.contains_key(m) && steuer_map@[m] == o[m],
            forall|m: SetMember| #[trigger] steuer_map@.contains_key(m) && !o.contains_key(m) ==> *steuer_map@[m] == **prod,
    @*/ {
        /*@ let ghost i = it.index(); proof {
            assert(set_no_empty@.contains(*it.seq()[i]));
            assert forall|l: int| 0 <= l < i implies *(#[trigger] it.seq()[l]) != *follow_char by { if *it.seq()[l] == *follow_char { assert(it.seq()[l] == it.seq()[i]); } }
        } @*/
        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));
        if old_key.is_some() {
            /*@ proof { assert(set_no_empty@.contains(*follow_char)); assert(o.contains_key(*follow_char)); } @*/
            return Err(SteuerSetsNotDistinct {
                steuer_terminal: String::from("follow_set"),
                steuer_char: match follow_char {
                    SetMember::Char(x) => *x,
                    SetMember::Terminate => '#',
                },
                rule_name: cur_rule_name.to_string(),
            });
        }
    }
    Ok(())
}
/*@
pub open spec fn made(p: Rc<Production>) -> Seq<usize> { production_of(*p) }
/// the production each next character (or the end) selects
pub open spec fn values(m: Map<SetMember, Rc<Production>>) -> Map<SetMember, Seq<usize>> { Map::new(m.dom(), |k: SetMember| made(m[k])) }
impl<T> NTRules<T> where T: VM {
    pub open spec fn table(&self) -> Map<SetMember, Seq<usize>> { values(self.steuermap@) }
}
impl Gram {
    /// m is a next character (or the end) with which the sequence s, an alternative of k, can be taken
    pub open spec fn selects(&self, follow: &NamedSetsNoEmpty, k: usize, s: Seq<usize>, m: SetMember) -> bool {
        ||| m is Char && self.seq_starts(s, m->Char_0)
        ||| self.nulls_all(s) && follow@.contains_key(k) && follow@[k]@.contains(m)
    }
    pub open spec fn chooses(&self, follow: &NamedSetsNoEmpty, k: usize, p: int, m: SetMember) -> bool {
        0 <= p < self.alts(k).len() && self.selects(follow, k, self.alts(k)[p], m)
    }
    /// two alternatives of k are selected by the same next character
    pub open spec fn conflict(&self, follow: &NamedSetsNoEmpty, k: usize, p: int, q: int, m: SetMember) -> bool {
        p < q && self.chooses(follow, k, p, m) && self.chooses(follow, k, q, m)
    }
    /// the table of the first n alternatives of k
    pub open spec fn table_to(&self, follow: &NamedSetsNoEmpty, k: usize, n: int, t: Map<SetMember, Seq<usize>>) -> bool {
        &&& forall|m: SetMember| #[trigger] t.contains_key(m) ==> exists|p: int| p < n && #[trigger] self.chooses(follow, k, p, m) && t[m] == self.alts(k)[p]
        &&& forall|p: int, m: SetMember| p < n && #[trigger] self.chooses(follow, k, p, m) ==> t.contains_key(m) && t[m] == self.alts(k)[p]
        &&& forall|p: int, q: int, m: SetMember| p < q < n ==> !(#[trigger] self.chooses(follow, k, p, m) && #[trigger] self.chooses(follow, k, q, m))
    }
    /// The table of k: a next character is listed with a production exactly if it selects that production, and no two are selected by one.
    pub open spec fn is_table(&self, follow: &NamedSetsNoEmpty, k: usize, t: Map<SetMember, Seq<usize>>) -> bool {
        &&& forall|m: SetMember| #[trigger] t.contains_key(m) ==> exists|p: int| #[trigger] self.chooses(follow, k, p, m) && t[m] == self.alts(k)[p]
        &&& forall|p: int, m: SetMember| #[trigger] self.chooses(follow, k, p, m) ==> t.contains_key(m) && t[m] == self.alts(k)[p]
        &&& forall|p: int, q: int, m: SetMember| !#[trigger] self.conflict(follow, k, p, q, m)
    }
    pub proof fn lemma_table_whole(&self, follow: &NamedSetsNoEmpty, k: usize, t: Map<SetMember, Seq<usize>>)
        requires self.table_to(follow, k, self.alts(k).len() as int, t)
        ensures self.is_table(follow, k, t)
    {}
}
pub open spec fn table_error(g: Gram, fs: &NamedSets, follow: &NamedSetsNoEmpty, e: GrammarError) -> bool {
    ||| (e is SteuerSetsNotDistinct && exists|k: usize, p: int, q: int, m: SetMember| g.rules.contains_key(k) && #[trigger] g.conflict(follow, k, p, q, m)
        && e->SteuerSetsNotDistinct_steuer_char == shown(m))
    ||| (e is MissingFollowSet && g.rules.contains_key(e->MissingFollowSet_index) && !follow@.contains_key(e->MissingFollowSet_index)
        && exists|p: int| #[trigger] g.alt_nulls(e->MissingFollowSet_index, p))
    ||| (e is MissingFirstSet && g.referred(e->MissingFirstSet_index) && !g.in_dom(fs, e->MissingFirstSet_index))
}
pub open spec fn shown(m: SetMember) -> char { match m { SetMember::Char(c) => c, SetMember::Terminate => '#' } }
/// same elements, whatever the rules
pub open spec fn alike(g: Gram, h: Gram) -> bool { g.kinds == h.kinds && g.names == h.names }
/// as `selects`, in terms of the FIRST sets that are at hand
pub open spec fn picks(g: Gram, fs: &NamedSets, follow: &NamedSetsNoEmpty, k: usize, s: Seq<usize>, m: SetMember) -> bool {
    seq_has(g, fs, s, with_empty(m)) || seq_has(g, fs, s, SetMemberWithEmpty::Empty) && follow@[k]@.contains(m)
}
/// the members with which s is taken are new and lead to p, all others are as before
pub open spec fn entered(g: Gram, fs: &NamedSets, follow: &NamedSetsNoEmpty, k: usize, s: Seq<usize>, o: Map<SetMember, Rc<Production>>, n: Map<SetMember, Rc<Production>>, p: Rc<Production>) -> bool {
    &&& seq_known(g, fs, s)
    &&& seq_has(g, fs, s, SetMemberWithEmpty::Empty) ==> follow@.contains_key(k)
    &&& forall|m: SetMember| #[trigger] n.contains_key(m) <==> o.contains_key(m) || picks(g, fs, follow, k, s, m)
    &&& forall|m: SetMember| #[trigger] o.contains_key(m) ==> !picks(g, fs, follow, k, s, m) && n[m] == o[m]
    &&& forall|m: SetMember| #[trigger] n.contains_key(m) && !o.contains_key(m) ==> *n[m] == *p
}
pub open spec fn filled(w: Set<SetMember>, o: Map<SetMember, Rc<Production>>, n: Map<SetMember, Rc<Production>>, p: Rc<Production>) -> bool {
    &&& forall|m: SetMember| #[trigger] n.contains_key(m) <==> o.contains_key(m) || w.contains(m)
    &&& forall|m: SetMember| #[trigger] o.contains_key(m) ==> !w.contains(m) && n[m] == o[m]
    &&& forall|m: SetMember| #[trigger] n.contains_key(m) && !o.contains_key(m) ==> *n[m] == *p
}
pub open spec fn clash(o: Map<SetMember, Rc<Production>>, m: SetMember, e: GrammarError) -> bool {
    e is SteuerSetsNotDistinct && e->SteuerSetsNotDistinct_steuer_char == shown(m) && o.contains_key(m)
}
pub open spec fn production_error(g: Gram, fs: &NamedSets, follow: &NamedSetsNoEmpty, k: usize, s: Seq<usize>, o: Map<SetMember, Rc<Production>>, e: GrammarError) -> bool {
    ||| exists|m: SetMember| clash(o, m, e) && #[trigger] picks(g, fs, follow, k, s, m) && (seq_has(g, fs, s, SetMemberWithEmpty::Empty) ==> follow@.contains_key(k)) && seq_known(g, fs, s)
    ||| e is MissingFollowSet && e->MissingFollowSet_index == k && !follow@.contains_key(k) && seq_has(g, fs, s, SetMemberWithEmpty::Empty) && seq_known(g, fs, s)
    ||| e is MissingFirstSet && s.contains(e->MissingFirstSet_index) && !g.in_dom(fs, e->MissingFirstSet_index)
}
proof fn lemma_table_start(g: Gram, follow: &NamedSetsNoEmpty, k: usize, m: Map<SetMember, Rc<Production>>)
    requires m.dom() == Set::<SetMember>::empty()
    ensures g.table_to(follow, k, 0, values(m))
{}
proof fn lemma_alike(g: Gram, h: Gram, fs: &NamedSets, s: Seq<usize>)
    requires alike(g, h)
    ensures
        seq_known(g, fs, s) <==> seq_known(h, fs, s),
        forall|m: SetMemberWithEmpty| #[trigger] seq_has(h, fs, s, m) <==> seq_has(g, fs, s, m),
{
    assert(forall|x: usize| #![trigger set_of(g, fs, x)] #![trigger set_of(h, fs, x)] set_of(g, fs, x) == set_of(h, fs, x));
    assert(forall|x: usize| #![trigger empty_in(g, fs, x)] #![trigger empty_in(h, fs, x)] empty_in(g, fs, x) == empty_in(h, fs, x));
    assert(forall|x: usize| #![trigger g.in_dom(fs, x)] #![trigger h.in_dom(fs, x)] g.in_dom(fs, x) == h.in_dom(fs, x));
    assert forall|m: SetMemberWithEmpty| #[trigger] seq_has(h, fs, s, m) <==> seq_has(g, fs, s, m) by {
        if m is Empty {} else {
            if seq_has(h, fs, s, m) { let k = choose|k: int| has_at(h, fs, s, k, m); assert(has_at(g, fs, s, k, m)); }
            if seq_has(g, fs, s, m) { let k = choose|k: int| has_at(g, fs, s, k, m); assert(has_at(h, fs, s, k, m)); }
        }
    }
}
proof fn lemma_picks(g: Gram, h: Gram, fs: &NamedSets, follow: &NamedSetsNoEmpty, k: usize, s: Seq<usize>)
    requires alike(g, h), g.ok(), g.exact(fs), seq_known(h, fs, s), seq_has(h, fs, s, SetMemberWithEmpty::Empty) ==> follow@.contains_key(k)
    ensures forall|m: SetMember| #[trigger] picks(h, fs, follow, k, s, m) <==> g.selects(follow, k, s, m)
{
    lemma_alike(g, h, fs, s); lemma_has_exact(g, fs, s);
    assert forall|m: SetMember| #[trigger] picks(h, fs, follow, k, s, m) <==> g.selects(follow, k, s, m) by {
        assert(seq_has(h, fs, s, with_empty(m)) <==> seq_has(g, fs, s, with_empty(m)));
        if m is Char { assert(seq_has(g, fs, s, SetMemberWithEmpty::Char(m->Char_0)) <==> g.seq_starts(s, m->Char_0)); }
    }
}
proof fn lemma_table_step(g: Gram, h: Gram, fs: &NamedSets, follow: &NamedSetsNoEmpty, k: usize, j: int, o: Map<SetMember, Rc<Production>>, n: Map<SetMember, Rc<Production>>, p: Rc<Production>)
    requires
        alike(g, h), g.ok(), g.exact(fs), 0 <= j < g.alts(k).len(), g.alts(k)[j] == made(p), g.table_to(follow, k, j, values(o)),
        entered(h, fs, follow, k, made(p), o, n, p),
    ensures g.table_to(follow, k, j + 1, values(n))
{
    let s = made(p);
    lemma_picks(g, h, fs, follow, k, s);
    let t = values(n); let t0 = values(o);
    assert forall|m: SetMember| #[trigger] g.chooses(follow, k, j, m) <==> picks(h, fs, follow, k, s, m) by {}
    assert forall|m: SetMember| #[trigger] t.contains_key(m) implies exists|p: int| p < j + 1 && #[trigger] g.chooses(follow, k, p, m) && t[m] == g.alts(k)[p] by {
        assert(n.contains_key(m));
        if o.contains_key(m) {
            assert(t0.contains_key(m));
            let q = choose|q: int| q < j && #[trigger] g.chooses(follow, k, q, m) && t0[m] == g.alts(k)[q];
            assert(g.chooses(follow, k, q, m) && t[m] == g.alts(k)[q]);
        } else {
            assert(g.chooses(follow, k, j, m) && t[m] == g.alts(k)[j]);
        }
    }
    assert forall|q: int, m: SetMember| q < j + 1 && #[trigger] g.chooses(follow, k, q, m) implies t.contains_key(m) && t[m] == g.alts(k)[q] by {
        if q == j { assert(picks(h, fs, follow, k, s, m)); assert(n.contains_key(m)); assert(!o.contains_key(m)); }
        else { assert(t0.contains_key(m)); assert(o.contains_key(m)); assert(n.contains_key(m)); }
    }
    assert forall|p1: int, q: int, m: SetMember| p1 < q < j + 1 implies !(#[trigger] g.chooses(follow, k, p1, m) && #[trigger] g.chooses(follow, k, q, m)) by {
        if q == j && g.chooses(follow, k, p1, m) { assert(t0.contains_key(m)); assert(o.contains_key(m)); assert(!picks(h, fs, follow, k, s, m)); }
    }
}
/// an error while the j-th alternative is entered
proof fn lemma_table_error(g: Gram, h: Gram, fs: &NamedSets, follow: &NamedSetsNoEmpty, k: usize, j: int, o: Map<SetMember, Rc<Production>>, e: GrammarError)
    requires
        alike(g, h), g.ok(), g.exact(fs), g.rules.contains_key(k), 0 <= j < g.alts(k).len(), g.table_to(follow, k, j, values(o)),
        production_error(h, fs, follow, k, g.alts(k)[j], o, e),
    ensures table_error(g, fs, follow, e)
{
    let s = g.alts(k)[j];
    if exists|m: SetMember| clash(o, m, e) && #[trigger] picks(h, fs, follow, k, s, m) && (seq_has(h, fs, s, SetMemberWithEmpty::Empty) ==> follow@.contains_key(k)) && seq_known(h, fs, s) {
        let m = choose|m: SetMember| clash(o, m, e) && #[trigger] picks(h, fs, follow, k, s, m) && (seq_has(h, fs, s, SetMemberWithEmpty::Empty) ==> follow@.contains_key(k)) && seq_known(h, fs, s);
        lemma_picks(g, h, fs, follow, k, s);
        assert(values(o).contains_key(m));
        let q = choose|q: int| q < j && #[trigger] g.chooses(follow, k, q, m) && values(o)[m] == g.alts(k)[q];
        assert(picks(h, fs, follow, k, s, m));
        assert(g.chooses(follow, k, j, m));
        assert(g.conflict(follow, k, q, j, m));
    } else if e is MissingFollowSet {
        lemma_alike(g, h, fs, s); lemma_has_exact(g, fs, s);
        assert(g.alt_nulls(k, j));
    } else {
        let x = e->MissingFirstSet_index;
        let l = choose|l: int| 0 <= l < s.len() && s[l] == x;
        assert(g.alts(k)[j][l] == x);
        assert(h.in_dom(fs, x) == g.in_dom(fs, x));
    }
}
/// a sequence that begins with a non-empty terminal
proof fn lemma_terminal(g: Gram, fs: &NamedSets, follow: &NamedSetsNoEmpty, k: usize, s: Seq<usize>)
    requires s.len() > 0, g.term(s[0]), g.name(s[0]).len() > 0
    ensures
        seq_known(g, fs, s), !seq_has(g, fs, s, SetMemberWithEmpty::Empty),
        forall|m: SetMember| #[trigger] picks(g, fs, follow, k, s, m) <==> m == SetMember::Char(g.name(s[0])[0]),
{
    assert(!empty_in(g, fs, s[0]));
    assert forall|m: SetMember| #[trigger] picks(g, fs, follow, k, s, m) <==> m == SetMember::Char(g.name(s[0])[0]) by {
        let e = with_empty(m);
        if m == SetMember::Char(g.name(s[0])[0]) { assert(has_at(g, fs, s, 0, e)); }
        if seq_has(g, fs, s, e) { let k = choose|k: int| has_at(g, fs, s, k, e); if k > 0 { assert(empty_in(g, fs, s[0])); } }
    }
    assert(g.in_dom(fs, s[0]));
    assert forall|k: int| 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> empty_in(g, fs, #[trigger] s[j])) implies #[trigger] g.in_dom(fs, s[k]) by { if k > 0 { assert(empty_in(g, fs, s[0])); } }
}
@*/
