//! Data structures that represent grammar elements, productions and rules.
//!
//! This module provides ParserData and related types used to construct parsers
//! programmatically or as the result of parsing a grammar description. It is the
//! core in-memory representation used by the Parser.

use crate::peekables::{ParseProcess, PeekableWrapper};
use crate::vms::VM;
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;
use std::str::Chars;

/// Container for grammar rules and elements used by the parser.
///
/// ParserData stores the set of non-terminals and terminals, their metadata
/// and the productions associated with each non-terminal. You can either build
/// it manually (see examples in examples/rust_defined_rules.rs) or obtain it
/// from the rule parser. It is generic over a VM because productions may carry
/// VM-specific instruction payloads.
pub struct ParserData<T>
where
    T: VM,
{
    pub parse_rules: ParseRules<T>,
    pub element_types: Vec<ElementType>,
    pub element_verbose_map: HashMap<ElementVerbose, ElementIndex>,
    pub element_data: Vec<ElementData>,
}

impl<T> ParserData<T>
where
    T: VM,
{
    /*@
    /// name and kind of an element
    pub open spec fn verbose(&self, ix: int) -> ElementVerbose {
        ElementVerbose { name: self.element_data@[ix].name, et: self.element_types@[ix] }
    }
    /// Every element has one number and every number below `count()` one element.
    pub open spec fn wf(&self) -> bool {
        &&& self.element_types@.len() == self.element_data@.len()
        &&& forall|ix: int| 0 <= ix < self.element_data@.len() ==>
            self.element_verbose_map@.contains_key(#[trigger] self.verbose(ix)) && self.element_verbose_map@[self.verbose(ix)] == ix
        &&& forall|k: ElementVerbose| #[trigger] self.element_verbose_map@.contains_key(k) ==>
            self.element_verbose_map@[k] < self.element_data@.len() && self.verbose(self.element_verbose_map@[k] as int) == k
    }
    pub open spec fn count(&self) -> nat { self.element_data@.len() }
    pub open spec fn same_elements(&self, o: &Self) -> bool {
        self.element_types == o.element_types && self.element_data == o.element_data && self.element_verbose_map == o.element_verbose_map
    }
    /// no element lost or renumbered
    pub open spec fn extends_elements(&self, o: &Self) -> bool {
        &&& self.count() >= o.count()
        &&& forall|ix: int| 0 <= ix < o.count() ==> #[trigger] self.verbose(ix) == o.verbose(ix)
        &&& forall|ix: int| 0 <= ix < o.count() ==> #[trigger] self.element_types@[ix] == o.element_types@[ix]
    }
    @*/
    pub fn new() -> /*@ (r: @*/ ParserData<T> /*@ )
        ensures r.wf(), r.count() == 0, r.parse_rules.rules@ == Map::<ElementIndex, NonTerminalRules<T>>::empty(), r.parse_rules.ignore is None @*/ {
        ParserData {
            parse_rules: ParseRules {
                rules: Default::default(),
                ignore: None,
            },
            element_types: vec![],
            element_verbose_map: Default::default(),
            element_data: vec![],
        }
    }

    pub fn get_element_data(&self, ix: ElementIndex) -> /*@ (r: @*/ Option<&ElementData> /*@ )
        ensures r is Some <==> ix < self.element_data@.len(), r is Some ==> *r->0 == self.element_data@[ix as int] @*/ {
        self.element_data.get(ix)
    }
    pub fn get_element(&self, ix: ElementIndex) -> /*@ (r: @*/ Option<Element> /*@ )
        ensures r is Some <==> ix < self.element_types@.len(), r is Some ==> r->0 == (Element { ix, et: self.element_types@[ix as int] }) @*/ {
        match self.element_types.get(ix) {
            None => None,
            Some(et) => Some(Element::new(ix, *et)),
        }
    }

    pub fn get_element_verbose(&self, ix: ElementIndex) -> /*@ (r: @*/ Option<ElementVerbose> /*@ )
        requires self.element_types@.len() == self.element_data@.len()
        ensures r is Some <==> ix < self.count(), r is Some ==> r->0 == self.verbose(ix as int) @*/ {
        let data = self.element_data.get(ix);
        let et = self.element_types.get(ix);
        Some(ElementVerbose::new(data?.name.clone(), *et?))
    }

    pub fn get_elements_verbose(&self) -> /*@ (r: @*/ Vec<ElementVerbose> /*@ )
        requires self.element_types@.len() == self.element_data@.len()
        ensures r@.len() == self.count(), forall|i: int| 0 <= i < self.count() ==> #[trigger] r@[i] == self.verbose(i) @*/ {
        let mut elements_verbose = vec![];
        for (ix, element_data) in /*@ iter: @*/ self.element_data.iter().enumerate()
            /*@ invariant
                self.element_types@.len() == self.element_data@.len(),
                iter.seq() == Seq::new(self.element_data@.len(), |k: int| (k as usize, &self.element_data@[k])),
                elements_verbose@.len() == iter.index(),
                forall|i: int| 0 <= i < iter.index() ==> #[trigger] elements_verbose@[i] == self.verbose(i), @*/ {
            /*@ proof { assert(self.element_data.len() == self.element_data@.len()); } @*/
            elements_verbose.push(ElementVerbose::new(
                element_data.name.clone(),
                self.element_types[ix],
            ))
        }
        elements_verbose
    }

    pub fn get_rule_by_key(&self, index: ElementIndex) -> /*@ (r: @*/ Option<&NonTerminalRules<T>> /*@ )
        ensures r is Some <==> self.parse_rules.rules@.contains_key(index), r is Some ==> *r->0 == self.parse_rules.rules@[index] @*/ {
        self.parse_rules.rules.get(&index)
    }
    pub fn get_rule_by_element(&self, el: Element) -> /*@ (r: @*/ Option<&NonTerminalRules<T>> /*@ )
        ensures r is Some <==> self.parse_rules.rules@.contains_key(el.ix), r is Some ==> *r->0 == self.parse_rules.rules@[el.ix] @*/ {
        self.parse_rules.rules.get(&el.ix)
    }

    pub fn get_rule_by_element_verbose(&self, el_name: &str) -> /*@ (r: @*/ Option<&NonTerminalRules<T>> /*@ )
        requires self.wf()
        ensures match r {
            Some(rule) => exists|ix: int| 0 <= ix < self.count() && (#[trigger] self.verbose(ix)).name@ == el_name@ && self.verbose(ix).et == ElementType::NonTerminal
                && self.parse_rules.rules@.contains_key(ix as usize) && *rule == self.parse_rules.rules@[ix as usize],
            None => forall|ix: int| 0 <= ix < self.count() ==> !((#[trigger] self.verbose(ix)).name@ == el_name@ && self.verbose(ix).et == ElementType::NonTerminal
                && self.parse_rules.rules@.contains_key(ix as usize)),
        } @*/ {
        let el = ElementVerbose::new(String::from(el_name), ElementType::NonTerminal);
        let index = self.get_element_index(&el);
        if let Some(i) = index {
            self.get_rule_by_key(i)
        } else {
            None
        }
    }

    pub fn get_or_add_element_key(&mut self, identifier: &ElementVerbose) -> /*@ (r: @*/ ElementIndex /*@ )
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).parse_rules == old(self).parse_rules,
            r < final(self).count(), final(self).verbose(r as int) == *identifier,
            old(self).element_verbose_map@.contains_key(*identifier) ==> r == old(self).element_verbose_map@[*identifier] && final(self).same_elements(&*old(self)),
            !old(self).element_verbose_map@.contains_key(*identifier) ==> r == old(self).count() && final(self).count() == old(self).count() + 1,
            final(self).extends_elements(&*old(self)), @*/ {
        match self.element_verbose_map.get(identifier) {
            None => {
                let index = self.element_data.len();
                self.element_data.push(ElementData {
                    keep_data: false,
                    name: identifier.name.clone(),
                });
                self.element_types.push(identifier.et);
                self.element_verbose_map.insert(identifier.clone(), index);
                /*@ proof {
                    assert(self.verbose(index as int) == *identifier);
                    assert forall|ix: int| 0 <= ix < old(self).count() implies #[trigger] self.verbose(ix) == old(self).verbose(ix) by {}
                    assert forall|k: ElementVerbose| #[trigger] self.element_verbose_map@.contains_key(k) implies
                        self.element_verbose_map@[k] < self.element_data@.len() && self.verbose(self.element_verbose_map@[k] as int) == k by {
                        if k != *identifier { assert(old(self).element_verbose_map@.contains_key(k)); }
                    }
                } @*/
                index
            }
            Some(ix) => *ix,
        }
    }

    pub fn add_production(&mut self, idx: ElementIndex, terms: Vec<ElementIndex>) /*@
        ensures
            final(self).same_elements(&*old(self)), final(self).parse_rules.ignore == old(self).parse_rules.ignore,
            final(self).parse_rules.rules@.dom() == old(self).parse_rules.rules@.dom().insert(idx),
            forall|k: ElementIndex| k != idx && old(self).parse_rules.rules@.contains_key(k) ==> final(self).parse_rules.rules@[k] == #[trigger] old(self).parse_rules.rules@[k],
            production_of(final(self).prods(idx).last()) == terms@, (final(self).prods(idx).last() is Empty <==> terms@.len() == 0),
            final(self).prods(idx).len() > 0,
            final(self).prods(idx).drop_last() == old(self).prods(idx),
            old(self).parse_rules.rules@.contains_key(idx) ==> final(self).parse_rules.rules@[idx].ignore == old(self).parse_rules.rules@[idx].ignore
                && final(self).parse_rules.rules@[idx].instruction == old(self).parse_rules.rules@[idx].instruction,
            !old(self).parse_rules.rules@.contains_key(idx) ==> final(self).parse_rules.rules@[idx].ignore is None && final(self).parse_rules.rules@[idx].instruction@.len() == 0, @*/
    {
        let mut start_prod = Rc::new(Production::Empty);
        if terms.len() > 0 {
            start_prod = Rc::new(Production::NotEmpty(terms));
        }
        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.possible_productions.push(start_prod);
        } else {
            let start_rules = NonTerminalRules::new(vec![start_prod], None, vec![]);
            self.parse_rules.rules.insert(idx, start_rules);
        }
    }

    pub fn set_productions(&mut self, idx: ElementIndex, terms: Vec<Vec<ElementIndex>>) /*@
        ensures
            final(self).same_elements(&*old(self)), final(self).parse_rules.ignore == old(self).parse_rules.ignore,
            forall|k: ElementIndex| k != idx ==> (final(self).parse_rules.rules@.contains_key(k) <==> #[trigger] old(self).parse_rules.rules@.contains_key(k)),
            forall|k: ElementIndex| k != idx && old(self).parse_rules.rules@.contains_key(k) ==> final(self).parse_rules.rules@[k] == #[trigger] old(self).parse_rules.rules@[k],
            final(self).prods(idx).map_values(|p: Production| production_of(p)) == terms@.map_values(|v: Vec<ElementIndex>| v@),
            old(self).parse_rules.rules@.contains_key(idx) ==> final(self).parse_rules.rules@.contains_key(idx)
                && final(self).parse_rules.rules@[idx].ignore == old(self).parse_rules.rules@[idx].ignore
                && final(self).parse_rules.rules@[idx].instruction == old(self).parse_rules.rules@[idx].instruction,
            !old(self).parse_rules.rules@.contains_key(idx) ==> final(self).parse_rules.rules@.contains_key(idx) == (terms@.len() > 0)
                && (terms@.len() > 0 ==> final(self).parse_rules.rules@[idx].ignore is None && final(self).parse_rules.rules@[idx].instruction@.len() == 0), @*/
    {
        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.possible_productions = vec![];
        }
        for term in /*@ iter: @*/ terms
            /*@ invariant
                self.same_elements(&*old(self)), self.parse_rules.ignore == old(self).parse_rules.ignore,
                forall|k: ElementIndex| k != idx ==> (self.parse_rules.rules@.contains_key(k) <==> #[trigger] old(self).parse_rules.rules@.contains_key(k)),
                forall|k: ElementIndex| k != idx && old(self).parse_rules.rules@.contains_key(k) ==> self.parse_rules.rules@[k] == #[trigger] old(self).parse_rules.rules@[k],
                iter.seq() == terms@,
                self.prods(idx).map_values(|p: Production| production_of(p)) == terms@.take(iter.index()).map_values(|v: Vec<ElementIndex>| v@),
                old(self).parse_rules.rules@.contains_key(idx) ==> self.parse_rules.rules@.contains_key(idx)
                    && self.parse_rules.rules@[idx].ignore == old(self).parse_rules.rules@[idx].ignore
                    && self.parse_rules.rules@[idx].instruction == old(self).parse_rules.rules@[idx].instruction,
                !old(self).parse_rules.rules@.contains_key(idx) ==> self.parse_rules.rules@.contains_key(idx) == (iter.index() > 0)
                    && (iter.index() > 0 ==> self.parse_rules.rules@[idx].ignore is None && self.parse_rules.rules@[idx].instruction@.len() == 0), @*/
        {
            /*@ let ghost old_prods = self.prods(idx); let ghost i = iter.index(); @*/
            self.add_production(idx, term)
            /*@ ; proof {
                let f = |p: Production| production_of(p);
                assert(self.prods(idx) =~= old_prods.push(self.prods(idx).last()));
                assert(terms@.take(i + 1) =~= terms@.take(i).push(terms@[i]));
                assert(self.prods(idx).map_values(f) =~= old_prods.map_values(f).push(terms@[i]@));
                assert(terms@.take(i + 1).map_values(|v: Vec<ElementIndex>| v@) =~= terms@.take(i).map_values(|v: Vec<ElementIndex>| v@).push(terms@[i]@));
            } @*/
        }
        /*@ proof { assert(terms@.take(terms@.len() as int) =~= terms@); } @*/
    }

    pub fn add_instructions(&mut self, idx: ElementIndex, inst: Vec<T::Tinstrution>) /*@
        ensures
            final(self).same_elements(&*old(self)), final(self).parse_rules.ignore == old(self).parse_rules.ignore,
            final(self).parse_rules.rules@.dom() == old(self).parse_rules.rules@.dom().insert(idx),
            forall|k: ElementIndex| k != idx && old(self).parse_rules.rules@.contains_key(k) ==> final(self).parse_rules.rules@[k] == #[trigger] old(self).parse_rules.rules@[k],
            final(self).prods(idx) == old(self).prods(idx),
            final(self).parse_rules.rules@[idx].instruction == inst,
            old(self).parse_rules.rules@.contains_key(idx) ==> final(self).parse_rules.rules@[idx].ignore == old(self).parse_rules.rules@[idx].ignore,
            !old(self).parse_rules.rules@.contains_key(idx) ==> final(self).parse_rules.rules@[idx].ignore is None, @*/
    {
        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.instruction = inst;
        } else {
            let start_rules = NonTerminalRules::new(vec![], None, inst);
            self.parse_rules.rules.insert(idx, start_rules);
        }
    }

    pub fn get_or_add_non_terminal(&mut self, name: &str) -> /*@ (r: @*/ ElementIndex /*@ )
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).parse_rules == old(self).parse_rules, final(self).extends_elements(&*old(self)),
            r < final(self).count(), final(self).verbose(r as int).name@ == name@, final(self).verbose(r as int).et == ElementType::NonTerminal,
            final(self).same_elements(&*old(self)) || r == old(self).count() && final(self).count() == old(self).count() + 1
                && forall|ix: int| 0 <= ix < old(self).count() ==> !((#[trigger] old(self).verbose(ix)).name@ == name@ && old(self).verbose(ix).et == ElementType::NonTerminal), @*/ {
        let identifier = ElementVerbose::new_nt(String::from(name));
        self.get_or_add_element_key(&identifier)
    }
    pub fn get_or_add_terminal(&mut self, name: &str) -> /*@ (r: @*/ ElementIndex /*@ )
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).parse_rules == old(self).parse_rules, final(self).extends_elements(&*old(self)),
            r < final(self).count(), final(self).verbose(r as int).name@ == name@, final(self).verbose(r as int).et == ElementType::Terminal,
            final(self).same_elements(&*old(self)) || r == old(self).count() && final(self).count() == old(self).count() + 1
                && forall|ix: int| 0 <= ix < old(self).count() ==> !((#[trigger] old(self).verbose(ix)).name@ == name@ && old(self).verbose(ix).et == ElementType::Terminal), @*/ {
        let identifier = ElementVerbose::new_t(String::from(name));
        self.get_or_add_element_key(&identifier)
    }
    pub fn get_element_index(&self, key: &ElementVerbose) -> /*@ (r: @*/ Option<ElementIndex> /*@ )
        ensures r is Some <==> self.element_verbose_map@.contains_key(*key), r is Some ==> r->0 == self.element_verbose_map@[*key] @*/ {
        match self.element_verbose_map.get(key) {
            None => None,
            Some(x) => Some(*x),
        }
    }

    pub fn get_element_nt_index(&self, key: &str) -> /*@ (r: @*/ Option<ElementIndex> /*@ )
        requires self.wf()
        ensures match r {
            Some(i) => i < self.count() && self.verbose(i as int).name@ == key@ && self.verbose(i as int).et == ElementType::NonTerminal,
            None => forall|ix: int| 0 <= ix < self.count() ==> !((#[trigger] self.verbose(ix)).name@ == key@ && self.verbose(ix).et == ElementType::NonTerminal),
        } @*/ {
        let el = ElementVerbose::new(String::from(key), ElementType::NonTerminal);
        match self.element_verbose_map.get(&el) {
            None => None,
            Some(x) => Some(*x),
        }
    }
    pub fn get_element_t_index(&self, key: &str) -> /*@ (r: @*/ Option<ElementIndex> /*@ )
        requires self.wf()
        ensures match r {
            Some(i) => i < self.count() && self.verbose(i as int).name@ == key@ && self.verbose(i as int).et == ElementType::Terminal,
            None => forall|ix: int| 0 <= ix < self.count() ==> !((#[trigger] self.verbose(ix)).name@ == key@ && self.verbose(ix).et == ElementType::Terminal),
        } @*/ {
        let el = ElementVerbose::new(String::from(key), ElementType::Terminal);
        match self.element_verbose_map.get(&el) {
            None => None,
            Some(x) => Some(*x),
        }
    }
}

/*@
/// right side of a production; the empty production has none
pub open spec fn production_of(p: Production) -> Seq<ElementIndex> {
    match p { Production::NotEmpty(v) => v@, Production::Empty => Seq::empty() }
}
impl<T> ParserData<T> where T: VM {
    /// productions of `idx`, in the order they were added
    pub open spec fn prods(&self, idx: ElementIndex) -> Seq<Production> {
        if self.parse_rules.rules@.contains_key(idx) { self.parse_rules.rules@[idx].possible_productions@.map_values(|p: Rc<Production>| *p) } else { Seq::empty() }
    }
}
@*/
pub struct ParseRules<T>
where
    T: VM,
{
    pub rules: RuleMap<T>,
    pub ignore: Option<ElementIndex>,
}
/*@ #[verifier::external] @*/
impl<T> fmt::Debug for ParseRules<T>
where
    T: VM,
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ParseRules")
            .field("rules", &self.rules)
            .field("ignore", &self.ignore)
            .finish()
    }
}

pub type RuleMap<T> = HashMap<ElementIndex, NonTerminalRules<T>>;

pub type Ppp<'pp> = ParseProcess<'pp, PeekableWrapper<Chars<'pp>>>;

pub struct NonTerminalRules<T>
where
    T: VM,
{
    pub possible_productions: PossibleProductions,
    pub ignore: Option<ElementIndex>,
    pub instruction: Vec<<T as VM>::Tinstrution>,
}

impl<T> NonTerminalRules<T>
where
    T: VM,
{
    pub fn new(
        possible_productions: PossibleProductions,
        ignore: Option<ElementIndex>,
        instruction: Vec<<T as VM>::Tinstrution>,
    ) -> /*@ (r: @*/ NonTerminalRules<T> /*@ )
        ensures r.possible_productions == possible_productions, r.ignore == ignore, r.instruction == instruction @*/ {
        NonTerminalRules {
            possible_productions,
            ignore,
            instruction,
        }
    }
}
/*@ #[verifier::external] @*/
impl<T> fmt::Debug for NonTerminalRules<T>
where
    T: VM,
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("NonTerminalRules")
            .field("possible_productions", &self.possible_productions)
            .field("ignore", &self.ignore)
            .finish()
    }
}

pub type PossibleProductions = Vec<Rc<Production>>;

pub type ElementIndex = usize;

/*@< #[derive(PartialEq, Eq, Debug, Hash)] @*/ #[derive(PartialEq, Eq, Debug, Clone, Hash)] /*@>@*/
pub struct ElementVerbose {
    pub name: String,
    pub et: ElementType,
}

/*@
/// #[derive(PartialEq)] compares structurally
impl vstd::std_specs::cmp::PartialEqSpecImpl for ElementVerbose {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.name@ == o.name@ && self.et == o.et }
}
/// What #[derive(Clone)] generates.
impl Clone for ElementVerbose {
    fn clone(&self) -> (r: Self) ensures r == *self { ElementVerbose { name: self.name.clone(), et: self.et } }
}
@*/
impl ElementVerbose {
    pub fn new(name: String, et: ElementType) -> /*@ (r: @*/ ElementVerbose /*@ ) ensures r.name == name, r.et == et @*/ {
        ElementVerbose { name, et }
    }
    pub fn new_t(name: String) -> /*@ (r: @*/ ElementVerbose /*@ ) ensures r.name == name, r.et == ElementType::Terminal @*/ {
        ElementVerbose::new(name, ElementType::Terminal)
    }
    pub fn new_nt(name: String) -> /*@ (r: @*/ ElementVerbose /*@ ) ensures r.name == name, r.et == ElementType::NonTerminal @*/ {
        ElementVerbose::new(name, ElementType::NonTerminal)
    }
}

#[derive(PartialEq, Eq, Debug, Clone, Copy, Hash)]
pub enum ElementType {
    Terminal,
    NonTerminal,
}
#[derive(PartialEq, Eq, Debug, Clone, Copy, Hash)]
pub struct Element {
    pub ix: ElementIndex,
    pub et: ElementType,
}

impl Element {
    pub fn new(ix: ElementIndex, et: ElementType) -> /*@ (r: @*/ Element /*@ ) ensures r.ix == ix, r.et == et @*/ {
        Element { ix, et }
    }
    pub fn new_t(ix: ElementIndex) -> /*@ (r: @*/ Element /*@ ) ensures r.ix == ix, r.et == ElementType::Terminal @*/ {
        Element::new(ix, ElementType::Terminal)
    }
    pub fn new_nt(ix: ElementIndex) -> /*@ (r: @*/ Element /*@ ) ensures r.ix == ix, r.et == ElementType::NonTerminal @*/ {
        Element::new(ix, ElementType::NonTerminal)
    }
}

pub struct ElementData {
    pub keep_data: bool,
    pub name: String,
}
#[derive(Debug)]
pub enum Production {
    NotEmpty(Vec<ElementIndex>),
    Empty,
}
