//! Parser for BNF-like grammar descriptions used to construct ParserData.
//!
//! This module reads textual grammar rules, supports optional instruction
//! sections in braces, and builds the internal representation used by the
//! runtime parser.

use std::borrow::Borrow;
use std::collections::{HashMap, HashSet};
use std::mem;
use std::rc::Rc;
use std::str::Chars;

use crate::errors::GrammarError::UnexpectedElementError;
use crate::errors::ParserError;
use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError};
use crate::parse_funcs::{parse_symbol, parse_var_name, parse_whitespace};
use crate::parser_data::{
    ElementIndex, ElementType, ElementVerbose, NonTerminalRules, ParseRules, ParserData,
    PossibleProductions, Ppp, Production, RuleMap,
};
use crate::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use crate::vms::VM;
/*@ use crate::grammar::prod_ok; use crate::text; use crate::text::*; use crate::parser_data::production_of; use crate::spec::*; use crate::stdspec::*;
/// n characters further on
#[verifier::prophetic]
pub open spec fn behind<'a, T: TPeekable<Item = char>>(b: &ParseProcess<'a, T>, a: &ParseProcess<'a, T>, n: nat) -> bool {
    a.inner_laws() && b.inner_laws() && n <= a.seen().len() && b.seen() == a.seen().skip(n as int) && b.left() <= a.left() && (n > 0 ==> b.left() < a.left())
}
pub broadcast proof fn lemma_behind<'a, T: TPeekable<Item = char>>(a: &ParseProcess<'a, T>, b: &ParseProcess<'a, T>, c: &ParseProcess<'a, T>, n: nat, m: nat)
    requires #[trigger] behind(b, a, n), #[trigger] behind(c, b, m)
    ensures behind(c, a, n + m)
{ assert(a.seen().skip(n as int).skip(m as int) =~= a.seen().skip((n + m) as int)); }
pub broadcast proof fn lemma_moved_behind<'a, T: TPeekable<Item = char>>(a: &ParseProcess<'a, T>, b: &ParseProcess<'a, T>, n: nat)
    requires #[trigger] b.moved(a, n)
    ensures behind(b, a, n), b.seen().len() == a.seen().len() - n
{}
@*/

//TODO not a good interface. parse roules should take the rulestext as an argument.

/*@ /// the struct that edit_rules declares
pub struct Action { pub weave_in: bool } @*/
pub struct RuleParser<'vm, 'pp, T>
where
    T: VM + 'vm,
{
    pub vm: &'vm T,
    pub parse_process: Ppp<'pp>,
    pub parser_data: ParserData<T>,
}

/*@
impl<'vm, 'pp, T> RuleParser<'vm, 'pp, T>
where
    T: VM + 'vm,
{
    #[verifier::prophetic]
    pub open spec fn seen(&self) -> Seq<char> { self.parse_process.seen() }
    pub open spec fn ready(&self) -> bool { self.parse_process.inner_laws() && self.parser_data.wf() }
    /// elements may have been added, the rules are the same
    pub open spec fn kept(&self, o: &Self) -> bool {
        self.vm == o.vm && self.ready() && self.parser_data.extends_elements(&o.parser_data) && self.parser_data.parse_rules == o.parser_data.parse_rules
    }
    #[verifier::prophetic]
    pub open spec fn behind(&self, o: &Self, n: nat) -> bool { behind(&self.parse_process, &o.parse_process, n) }
}
@*/
impl<'vm, 'pp, T> RuleParser<'vm, 'pp, T>
where
    T: VM + 'vm,
{
    pub fn new(
        peekable: &'pp mut PeekableWrapper<Chars<'pp>>,
        vm: &'vm T,
    ) -> /*@ (r: @*/ RuleParser<'vm, 'pp, T> /*@ )
        ensures r.vm == vm, r.parser_data.wf(), r.parser_data.count() == 0, r.parser_data.parse_rules.rules@ == Map::<ElementIndex, NonTerminalRules<T>>::empty(), r.parser_data.parse_rules.ignore is None,
            finite(&*old(peekable)) ==> r.ready() && r.seen() == visible(rest(&*old(peekable)), None, None, false)
        @*/ {
        let parse_process = ParseProcess::<PeekableWrapper<Chars>>::new(peekable, None, None);
        let parser_data = ParserData::<T>::new();
        RuleParser {
            vm,
            parse_process,
            parser_data,
        }
    }

    pub fn parse_rules(&mut self) -> /*@ (r: @*/ Result<&ParseRules<T>, ParserError> /*@ )
        requires old(self).ready(), old(self).parser_data.parse_rules.rules@ == Map::<ElementIndex, NonTerminalRules<T>>::empty(), old(self).parser_data.parse_rules.ignore is None
        ensures ({
            let s = old(self).seen(); let (o, f) = (&*old(self), &*final(self));
            match r {
                Ok(x) => *x == f.parser_data.parse_rules && f.vm == o.vm && told(o.vm, s, &f.parser_data),
                Err(_) => refused(o.vm, s),
            }
        })
        @*/ {
        /*@ hide(ParserData::wf); hide(ParserData::extends_elements); hide(ParserData::shows); hide(ParserData::shows_alts); hide(ParseProcess::moved); hide(ParseProcess::seen); hide(items); hide(text::rule); hide(default_to); hide(meaning); hide(add_item); hide(joined);
        let ghost s = self.seen(); let ghost mut acc: Seq<Item> = if s.len() >= 0 { Seq::empty() } else { Seq::empty() }; let ghost vm = self.vm;
        proof { lemma_nothing(vm, &self.parser_data); } @*/
        loop /*@
            invariant_except_break
                self.ready(), self.vm == vm, vm == old(self).vm, s == old(self).seen(),
                items(s, Seq::empty()) == items(self.seen(), acc), all_readable(vm, acc), self.parser_data.shows(meaning(vm, acc)),
            ensures
                self.ready(), self.vm == vm, vm == old(self).vm, s == old(self).seen(), items(s, Seq::empty()) == Some(acc), all_readable(vm, acc), self.parser_data.shows(meaning(vm, acc)),
            decreases self.parse_process.left()
        @*/ {
            /*@ let ghost s0 = self.seen(); let ghost q = trim(s0); let ghost d0 = self.parser_data; proof { lemma_items_step(s0, acc); assert(q.skip(0) =~= q); } @*/
            self.parse_whitespace();
            if self.parse_process.peek().is_none() {
                break;
            }
            /*@ proof { assert(self.seen() == q); } @*/
            if self.parse_symbol('$').is_ok() {
                self.parse_directive()?;
                /*@ proof {
                    let name = what(default_to(q.skip(1)));
                    lemma_add_default(vm, &d0, &self.parser_data, meaning(vm, acc), name);
                    lemma_meaning_push(vm, acc, Item::Default(name));
                    acc = acc.push(Item::Default(name));
                } @*/
                continue;
            }
            let (rule_name, rule) = /*@ { let res = @*/ self.parse_rule() /*@ ; proof { if res is Err { lemma_bad_rule(vm, s, q, acc);
            } } res } @*/ ?;
            /*@ let ghost d1 = self.parser_data; let ghost nt = rule; @*/
            self.merge_rule(rule, rule_name);
            /*@ proof {
                let t = what(text::rule(q));
                lemma_same(&d1, &self.parser_data);
                lemma_add_rule(vm, &d0, &d1, &self.parser_data, meaning(vm, acc), rule_name, nt, t);
                lemma_meaning_push(vm, acc, Item::Rule(t));
                acc = acc.push(Item::Rule(t));
            } @*/
        }
        /*@ let ghost w = self.parser_data; proof { lemma_shows_fit(&w, meaning(vm, acc)); } @*/
        self.edit_rules()?;
        /*@ proof {
            lemma_same(&w, &self.parser_data); lemma_woven_fit(w.element_types@, &w.parse_rules, &self.parser_data.parse_rules); lemma_fit_gram(&self.parser_data);
        } @*/
        Ok(&self.parser_data.parse_rules)
    }

    fn edit_rules(&mut self) -> /*@ (r: @*/ Result<(), ParserError> /*@ )
        requires fit_rules(old(self).parser_data.element_types@, &old(self).parser_data.parse_rules)
        ensures ({
            let (o, f) = (&*old(self), &*final(self));
            match r {
                Ok(_) => f.vm == o.vm && f.parser_data.same_elements(&o.parser_data) && woven(&o.parser_data.parse_rules, &f.parser_data.parse_rules),
                Err(_) => dangling(&o.parser_data),
            }
        })
        @*/ {
        /*@ hide(made_of); let ghost w = self.parser_data.parse_rules; let ghost types = self.parser_data.element_types@; @*/
        let mut edited_rules /*@ : RuleMap<T> @*/ = RuleMap::new();
        /*@< ; @*/ struct Action {
            weave_in: bool,
        } /*@>@*/

        //First we iterate over the rules and see what actions to do. Then we take all rules iterate a second time to do the actions on them

        //collect actions to do on the rules in a hashmap
        let mut actions /*@ : HashMap<ElementIndex, Action> @*/ = HashMap::new();
        for (rule_index, rule) in /*@ it: @*/ self.parser_data.parse_rules.rules.iter() /*@
            invariant
                self == old(self), w == old(self).parser_data.parse_rules, types == self.parser_data.element_types@, fit_rules(types, &w),
                forall|i: int| 0 <= i < it.seq().len() ==> w.rules@.contains_key(*(#[trigger] it.seq()[i]).0) && w.rules@[*it.seq()[i].0] == *it.seq()[i].1,
                forall|k: usize| w.rules@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
                forall|i: int| 0 <= i < it.index() ==> #[trigger] actions@.contains_key(*it.seq()[i].0),
                forall|k: usize| #[trigger] actions@.contains_key(k) ==> w.rules@.contains_key(k) && actions@[k].weave_in == weaves(&w, k),
        @*/ {
            /*@ proof { assert(w.rules@.contains_key(*rule_index)); assert(fit_rule(types, *rule_index, w.rules@[*rule_index])); assert(w.rules@[*rule_index] == *rule); } @*/
            let mut weave_in: bool = false;
            if let Some(ignore) = &rule.ignore {
                if !/*@ { let res = @*/ check_is_derivative(
                    &self.parser_data.element_types,
                    &self.parser_data.parse_rules,
                    *ignore,
                    *rule_index,
                ) /*@ ; proof { if res is Err {
                    let b = choose|b: usize| #[trigger] made_of(&w, *ignore, b) && !w.rules@.contains_key(b) && types[b as int] == ElementType::NonTerminal;
                    assert(loose_end(&old(self).parser_data, *rule_index, b));
                } } res } @*/ ? {
                    weave_in = true;
                }
            }
            let action = Action { weave_in };
            actions.insert(rule_index.clone(), action);
        }

        //take rules iterate over them and edit them.
        /*@ proof { assert forall|k: usize| #[trigger] w.rules@.contains_key(k) implies actions@.contains_key(k) by {} } @*/
        let rules_to_edit = mem::take(&mut self.parser_data.parse_rules.rules);
        for (rule_name, rule) in /*@ it: @*/ /*@< rules_to_edit.v_into_iter() @*/ rules_to_edit.into_iter() /*@>@*/ /*@
            invariant
                laws(&it.iter),                 self.vm == old(self).vm, self.parser_data.same_elements(&old(self).parser_data), self.parser_data.parse_rules.ignore == w.ignore, w == old(self).parser_data.parse_rules, fit_rules(types, &w),
                forall|k: usize| #[trigger] w.rules@.contains_key(k) ==> actions@.contains_key(k),
                forall|k: usize| #[trigger] actions@.contains_key(k) ==> w.rules@.contains_key(k) && actions@[k].weave_in == weaves(&w, k),
                forall|i: int| 0 <= i < it.seq().len() ==> w.rules@.contains_key((#[trigger] it.seq()[i]).0) && w.rules@[it.seq()[i].0] == it.seq()[i].1,
                forall|k: usize| w.rules@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0 == k,
                forall|i: int| 0 <= i < it.index() ==> #[trigger] edited_rules@.contains_key(it.seq()[i].0),
                forall|k: usize| #[trigger] edited_rules@.contains_key(k) ==> w.rules@.contains_key(k) && woven_rule(&w, k, edited_rules@[k]),
        @*/ {
            /*@ let ghost rule0 = rule; proof {
                assert(w.rules@.contains_key(rule_name)); assert(w.rules@[rule_name] == rule); assert(fit_rule(types, rule_name, rule)); assert(actions@.contains_key(rule_name));
                assert forall|p: int| 0 <= p < rule.possible_productions@.len() implies prod_ok(*#[trigger] rule.possible_productions@[p]) by { assert(fit_alt(types, *rule.possible_productions@[p])); }
            } @*/
            let action = actions.get(&rule_name).ok_or(ParserError::InternalError {
                message: /*@< String::new() @*/ format!("keine Action vorhandne für {rule_name}") /*@>@*/,
            })?; //should never happen because in the first iteration we made an entry for every rule
            let possible_productions: PossibleProductions;
            let mut ignore_new = rule.ignore.clone();
            if let Some(ignore) = &rule.ignore {
                if action.weave_in {
                    possible_productions = self.weave_in_ignorers(&rule, *ignore);
                } else {
                    ignore_new = None;
                    possible_productions = rule.possible_productions;
                }
            } else {
                possible_productions = rule.possible_productions;
            }
            let new_rul = NonTerminalRules::<T> {
                possible_productions,
                ignore: ignore_new,
                instruction: rule.instruction,
            };

            /*@ proof { assert(woven_rule(&w, rule_name, new_rul)); } @*/
            edited_rules.insert(rule_name.clone(), new_rul);
        }
        /*@ proof { assert forall|k: usize| #[trigger] w.rules@.contains_key(k) implies edited_rules@.contains_key(k) by {} assert(edited_rules@.dom() =~= w.rules@.dom()); } @*/

        //put rules back
        self.parser_data.parse_rules.rules = edited_rules;
        Ok(())
    }

    fn merge_rule(&mut self, mut rule: NonTerminalRules<T>, rule_key: ElementIndex) /*@
        ensures ({
            let (o, f) = (&*old(self), &*final(self));
            &&& f.vm == o.vm && f.parse_process == o.parse_process && f.parser_data.same_elements(&o.parser_data) && f.parser_data.parse_rules.ignore == o.parser_data.parse_rules.ignore
            &&& f.parser_data.parse_rules.rules@ == o.parser_data.parse_rules.rules@.insert(rule_key, f.parser_data.parse_rules.rules@[rule_key])
            &&& joined(&o.parser_data.parse_rules, rule_key, rule, f.parser_data.parse_rules.rules@[rule_key])
        })
    @*/ {
        if let Some(rule_to_change) = self.parser_data.parse_rules.rules.get_mut(&rule_key) {
            rule_to_change
                .possible_productions
                .append(&mut rule.possible_productions)
        } else {
            self.parser_data.parse_rules.rules.insert(rule_key, rule);
        }
    }

    pub fn parse_rule(&mut self) -> /*@ (r: @*/ Result<(ElementIndex, NonTerminalRules<T>), ParserError> /*@ )
        requires old(self).ready()
        ensures ({
            let s = old(self).seen(); let (o, f) = (&*old(self), &*final(self));
            match r {
                Ok((key, nt)) => rule(s) is Some && readable(o.vm, Item::Rule(what(rule(s)))) && f.kept(o) && f.behind(o, size(rule(s))) && f.parse_process.left() < o.parse_process.left() && ({
                    let r = what(rule(s)); let d = &f.parser_data;
                    &&& d.has_name(key, r.name, ElementType::NonTerminal) && d.shows_alts(nt.possible_productions@, r.alts) && nt.instruction@ == code_of(o.vm, r)
                    &&& match r.setting { Setting::Inherit => nt.ignore == o.parser_data.parse_rules.ignore, Setting::Off => nt.ignore is None, Setting::Use(n) => nt.ignore is Some && d.has_name(nt.ignore->0, n, ElementType::NonTerminal) }
                }),
                Err(_) => rule(s) is None || !readable(o.vm, Item::Rule(what(rule(s)))),
            }
        })
        @*/ {
        /*@ hide(ParserData::wf); hide(ParserData::extends_elements); hide(ParseProcess::moved); hide(ParseProcess::seen); hide(ParserData::shows_alts);
        hide(text::rule); hide(alternatives); hide(setting); hide(section); hide(arrow);
        let ghost s = self.seen(); let ghost s1 = s.skip(size(name_at(s)) as int); let ghost s2 = s1.skip(arrow(s1)->0 as int); let ghost s3 = s2.skip(size(setting(s2)) as int);
        let ghost s4 = s3.skip(size(alternatives(s3)) as int); let ghost s5 = s4.skip(size(section(s4)) as int);
        proof { lemma_rule(s); lemma_arrow(s1); } @*/
        let identifier = parse_var_name(&mut self.parse_process)?;
        /*@ proof { assert(identifier@ == what(name_at(s))); assert(self.seen() == s1); } @*/
        let key = self
            .parser_data
            .get_or_add_element_key(&ElementVerbose::new(
                identifier.clone(),
                ElementType::NonTerminal,
            ));
        /*@ let ghost d1 = self.parser_data; proof { assert(self.seen() == s1); assert(d1.has_name(key, identifier@, ElementType::NonTerminal)); } @*/
        self.parse_whitespace();
        self.parse_symbol('-')?;
        self.parse_symbol('>')?;
        self.parse_whitespace();
        /*@ proof { assert(self.seen() == s2); } @*/
        let ignore_this_maybe = self.parse_overrides()?;
        /*@ let ghost d2 = self.parser_data; proof { assert(self.seen() == s3); } @*/
        let productions: PossibleProductions = self.parse_possible_productions()?;
        /*@ let ghost d3 = self.parser_data; proof { assert(self.seen() == s4); } @*/
        let instruction = self.parse_instruction_section(&identifier)?;
        /*@ proof {
            assert(self.seen() == s5);
            lemma_extends(&old(self).parser_data, &d1, &d2); lemma_extends(&old(self).parser_data, &d2, &d3); lemma_extends(&d1, &d2, &d3);
            lemma_more_name(&d1, &d3, key, identifier@, ElementType::NonTerminal);
            lemma_more_names(&d2, &d3, ignore_this_maybe);
        } @*/
        self.parse_whitespace();
        self.parse_symbol(';')?;
        let nt_rules = NonTerminalRules::<T> {
            possible_productions: productions,
            ignore: ignore_this_maybe,
            instruction,
        };
        Ok((key, nt_rules))
    }
    fn weave_in_ignorers(
        &self,
        rule: &NonTerminalRules<T>,
        ignore: ElementIndex,
    ) -> /*@ (r: @*/ Vec<Rc<Production>> /*@ )
        requires forall|p: int| 0 <= p < rule.possible_productions@.len() ==> prod_ok(*#[trigger] rule.possible_productions@[p])
        ensures woven_alts(rule.possible_productions@, ignore, r@)
        @*/ {
        let mut weaved_productions /*@ : Vec<Rc<Production>> @*/ = vec![];
        for production in /*@ it: @*/ rule.possible_productions.iter() /*@
            invariant
                forall|p: int| 0 <= p < rule.possible_productions@.len() ==> prod_ok(*#[trigger] rule.possible_productions@[p]),
                it.seq() == rule.possible_productions@.as_ref(), weaved_productions@.len() == it.index(),
                forall|p: int| 0 <= p < it.index() ==> prod_ok(*#[trigger] weaved_productions@[p]) && production_of(*weaved_productions@[p]) == between(production_of(*rule.possible_productions@[p]), ignore),
        @*/ {
            /*@ proof { assert(prod_ok(*rule.possible_productions@[it.index() as int])); } @*/
            let weaved_production =
                Rc::new(self.weave_in_ignorers_single_production(production.clone(), ignore));
            weaved_productions.push(weaved_production);
        }

        weaved_productions
    }

    fn weave_in_ignorers_single_production(
        &self,
        production: Rc<Production>,
        to_weave_in: ElementIndex,
    ) -> /*@ (r: @*/ Production /*@ )
        requires prod_ok(*production)
        ensures prod_ok(r), production_of(r) == between(production_of(*production), to_weave_in)
        @*/ {
        match /*@< &*production @*/ production.borrow() /*@>@*/ {
            Production::NotEmpty(prod) => {
                /*@ let ghost s = prod@; let ghost x = to_weave_in; @*/
                let mut weaved_production /*@ : Vec<ElementIndex> @*/ = vec![];
                //weaved_production.push(to_weave_in.clone()); cant insert here or two weaved ignorers will be next to each other and that will lead to bugs
                for el in /*@ it: @*/ prod /*@
                    invariant it.seq() == prod@.as_ref(), s == prod@, x == to_weave_in, weaved_production@ == Seq::new((2 * it.index()) as nat, |i: int| if i % 2 == 0 { s[i / 2] } else { x })
                @*/ {
                    /*@ let ghost w = weaved_production@; let ghost k = it.index(); @*/
                    weaved_production.push(el.clone());
                    weaved_production.push(to_weave_in);
                    /*@ proof { assert(weaved_production@ =~= Seq::new((2 * (k + 1)) as nat, |i: int| if i % 2 == 0 { s[i / 2] } else { x })); } @*/
                }
                weaved_production.pop();
                /*@ proof { assert(weaved_production@ =~= between(s, x)); } @*/

                Production::NotEmpty(weaved_production)
            }
            Production::Empty => Production::Empty, //cant add weave in here or bugs
        }
    }

    /// Parses the part after the $ in "$IGNORE: production_name;"
    fn parse_directive(&mut self) -> /*@ (r: @*/ Result<(), ParserError> /*@ )
        requires old(self).ready()
        ensures ({
            let s = old(self).seen(); let (o, f) = (&*old(self), &*final(self));
            match r {
                Ok(_) => default_to(s) is Some && f.ready() && f.vm == o.vm && f.parser_data.extends_elements(&o.parser_data) && f.parser_data.parse_rules.rules == o.parser_data.parse_rules.rules
                    && f.behind(o, size(default_to(s)))
                    && f.parser_data.parse_rules.ignore is Some && f.parser_data.has_name(f.parser_data.parse_rules.ignore->0, what(default_to(s)), ElementType::NonTerminal),
                Err(_) => default_to(s) is None,
            }
        })
        @*/ {
        /*@ hide(ParserData::wf); hide(ParserData::extends_elements); hide(ParseProcess::moved); hide(text::default_to); hide(ParseProcess::seen);
        let ghost s = self.seen(); let ghost n0 = size(name_at(s)); let ghost s1 = s.skip(n0 as int); let ghost s2 = trim(s1).skip(1); let ghost n2 = size(name_at(trim(s2))); let ghost s3 = trim(s2).skip(n2 as int);
        proof { lemma_default_step(s); } @*/
        let pos = self.parse_process.cur_pos();
        let operation = parse_var_name(&mut self.parse_process)?;
        /*@ proof { assert(self.seen() == s1); } @*/
        if operation != "IGNORE" {
            return Err(ParserError::UnknownSpecialOperation { operation, pos });
        }
        self.parse_whitespace();
        self.parse_symbol(':')?;
        self.parse_whitespace();
        let name = parse_var_name(&mut self.parse_process)?;
        self.parse_whitespace();
        self.parse_symbol(';')?;
        /*@ let ghost mut d1 = self.parser_data; @*/
        self.parser_data.parse_rules.ignore =
            Some(/*@ { let ix = @*/ self.parser_data.get_or_add_non_terminal(&name) /*@ ; proof { d1 = self.parser_data; } ix } @*/);
        /*@ proof { lemma_same(&d1, &self.parser_data); lemma_extends(&old(self).parser_data, &d1, &self.parser_data); } @*/
        Ok(())
    }

    fn parse_overrides(&mut self) -> /*@ (r: @*/ Result<Option<ElementIndex>, ParserError> /*@ )
        requires old(self).ready()
        ensures ({
            let s = old(self).seen(); let (o, f) = (&*old(self), &*final(self));
            match r {
                Ok(x) => setting(s) is Some && f.kept(o) && f.behind(o, size(setting(s)))
                    && match what(setting(s)) { Setting::Inherit => x == o.parser_data.parse_rules.ignore, Setting::Off => x is None, Setting::Use(n) => x is Some && f.parser_data.has_name(x->0, n, ElementType::NonTerminal) },
                Err(_) => setting(s) is None,
            }
        })
        @*/ {
        /*@ hide(ParserData::wf); hide(ParserData::extends_elements); hide(ParseProcess::moved); hide(ParseProcess::seen);
        let ghost s = self.seen(); let ghost s1 = s.skip(1).skip(1); let ghost n1 = size(name_at(trim(s1))); let ghost s2 = trim(s1).skip(n1 as int); let ghost s3 = trim(s2).skip(1);
        proof { lemma_setting(s); lemma_no_els(&self.parser_data); } @*/
        let mut ignore_this = self.parser_data.parse_rules.ignore.clone();
        if self.parse_symbol('$').is_ok() {
            self.parse_symbol('[')?;
            self.parse_whitespace();
            let varname = parse_var_name(&mut self.parse_process)?;
            self.parse_whitespace();
            self.parse_symbol(':')?;
            self.parse_whitespace();

            if varname == "IGNORE" {
                if self.parse_symbol('#').is_ok() {
                    ignore_this = None;
                } else {
                    ignore_this = Some(self.parser_data.get_or_add_element_key(
                        &ElementVerbose::new(
                            parse_var_name(&mut self.parse_process)?,
                            ElementType::NonTerminal,
                        ),
                    ));
                }
            }

            self.parse_whitespace();
            self.parse_symbol(']')?;
        };

        Ok(ignore_this)
    }

    fn parse_instruction_section(
        &mut self,
        prod_name: &str,
    ) -> /*@ (r: @*/ Result<Vec<<T as VM>::Tinstrution>, ParserError> /*@ )
        requires old(self).ready()
        ensures ({
            let s = old(self).seen(); let (o, f) = (&*old(self), &*final(self));
            match r {
                Ok(v) => section(s) is Some && f.vm == o.vm && f.parser_data == o.parser_data && f.behind(o, size(section(s)))
                    && match what(section(s)) { None => v@ == Seq::<T::Tinstrution>::empty(), Some(t) => o.vm.read(prod_name@, t) == Some(v@) },
                Err(_) => section(s) is None || what(section(s)) is Some && o.vm.read(prod_name@, what(section(s))->0) is None,
            }
        })
        @*/ {
        /*@ hide(ParserData::wf); hide(ParseProcess::moved); hide(visible);
        let ghost s = self.seen(); let ghost s1 = s.skip(1); let ghost s2 = trim(s1); let ghost t = visible(s2, Some('}'), Some('\\'), false);
        proof { lemma_section(s); } @*/
        match self.parse_symbol('{') {
            Ok(_) => {}
            Err(_) => {
                return Ok(vec![]);
            }
        };
        self.parse_whitespace();
        let cur_pos = self.parse_process.cur_pos();
        let mut g =
            ParseProcess::new_nested(&mut self.parse_process, Some('}'), Some('\\'), cur_pos);
        /*@ let ghost g0 = g; proof { assert(g.inner_laws()); assert(g.below() == s2); assert(g.seen() == t); } @*/
        let instruction = self.vm.parse_instructions(prod_name, &mut g)?;
        /*@ proof { let g1 = g; crate::peekables::lemma_given_up(g1); assert(g1.src_end() == self.parse_process); assert(g1.below() == s2.skip(t.len() as int)) by { reveal(ParseProcess::moved); } assert(self.seen() == s2.skip(t.len() as int)); } @*/
        self.parse_symbol('}')?;
        Ok(instruction)
    }

    pub fn parse_possible_productions(&mut self) -> /*@ (r: @*/ Result<PossibleProductions, ParserError> /*@ )
        requires old(self).ready()
        ensures ({
            let s = old(self).seen(); let (o, f) = (&*old(self), &*final(self));
            match r {
                Ok(v) => alternatives(s) is Some && f.kept(o) && f.behind(o, size(alternatives(s))) && f.parser_data.shows_alts(v@, what(alternatives(s))),
                Err(_) => alternatives(s) is None,
            }
        })
        @*/ {
        /*@ hide(alternative); hide(more); hide(ParserData::extends_elements); hide(ParserData::wf); hide(ParserData::shows_alts); hide(ParserData::shows_els);
        let ghost s = self.seen(); let ghost a0 = alternative(s, Seq::empty());
        proof { assert(s.skip(0) =~= s); lemma_no_els(&self.parser_data); } @*/
        let mut elements = vec![self.parse_production()?];
        /*@ let ghost mut c: nat = if s.len() >= 0 { size(a0) } else { 0 }; let ghost mut acc: Seq<AltText> = seq![what(a0)];
        proof { lemma_one_alt(&self.parser_data, elements@, acc); lemma_shift(more(s.skip(size(a0) as int), acc), c, 0); lemma_shift(more(s.skip(size(a0) as int), acc), 0, c); } @*/
        loop /*@
            invariant_except_break
                s == old(self).seen(), old(self).ready(), self.kept(&*old(self)), self.behind(&*old(self), c),
                alternatives(s) == shift(more(self.seen(), acc), c), self.parser_data.shows_alts(elements@, acc),
            ensures
                self.kept(&*old(self)), self.parser_data.shows_alts(elements@, acc), alternatives(s) == Some((acc, c)), self.behind(&*old(self), c),
            decreases self.parse_process.left()
        @*/ {
            /*@ broadcast use {lemma_moved_behind, lemma_behind};
            let ghost s0 = self.seen(); let ghost r = trim(s0); let ghost d0 = self.parser_data; let ghost v0 = elements@; proof { lemma_ws(s0); lemma_more_step(s0, acc); assert(r.skip(0) =~= r); assert(is_ws('\n')); } @*/
            self.parse_whitespace();
            let _ = self.parse_symbol('\n');
            self.parse_whitespace();
            /*@ proof { assert(self.seen() == r); assert(self.behind(&*old(self), c + ws_len(s0))); } @*/
            if self.parse_symbol('|').is_ok() {
                self.parse_whitespace();
                /*@ let ghost r1 = trim(r.skip(1)); let ghost a1 = alternative(r1, Seq::empty());
                proof { lemma_ws(r.skip(1)); assert(self.seen() == r1); assert(self.behind(&*old(self), c + ws_len(s0) + 1 + ws_len(r.skip(1)))); } @*/
                elements.push(self.parse_production()?);
                /*@ proof {
                    lemma_push_alt(&d0, &self.parser_data, v0, acc, elements@.last(), what(a1));
                    assert(v0.push(elements@.last()) == elements@);
                    lemma_extends(&old(self).parser_data, &d0, &self.parser_data);
                    let n = ws_len(s0) + 1 + ws_len(r.skip(1)) + size(a1);
                    lemma_shift(more(self.seen(), acc.push(what(a1))), n, c);
                    c = c + n;
                    acc = acc.push(what(a1));
                } @*/
            } else {
                /*@ proof { c = c + ws_len(s0); } @*/
                break;
            }
        }
        Ok(elements)
    }

    pub fn parse_production(&mut self) -> /*@ (r: @*/ Result<Rc<Production>, ParserError> /*@ )
        requires old(self).ready()
        ensures ({
            let s = old(self).seen(); let (o, f) = (&*old(self), &*final(self)); let a = alternative(s, Seq::empty());
            match r {
                Ok(p) => a is Some && f.kept(o) && f.behind(o, size(a)) && f.parser_data.shows_alt(*p, what(a)),
                Err(_) => a is None,
            }
        })
        @*/ {
        /*@ hide(alternative); hide(ParserData::extends_elements); hide(ParserData::wf); hide(ParserData::shows_els); hide(text::element); broadcast use {lemma_moved_behind, lemma_behind};
        let ghost s = self.seen(); let ghost mut c: nat = if s.len() >= 0 { 0 } else { 0 }; let ghost mut acc: AltText = if s.len() >= 0 { Seq::empty() } else { Seq::empty() };
        proof { assert(s.skip(0) =~= s); lemma_no_els(&self.parser_data); lemma_shift(alternative(s, acc), 0, 0); } @*/
        let mut result = vec![];
        loop /*@
            invariant_except_break
                s == old(self).seen(), old(self).ready(), self.kept(&*old(self)), self.behind(&*old(self), c),
                alternative(s, Seq::empty()) == shift(alternative(self.seen(), acc), c), self.parser_data.shows_els(result@, acc),
            ensures
                self.kept(&*old(self)), self.parser_data.shows_els(result@, acc),
                acc.len() == 0 ==> alternative(s, Seq::empty()) is None,
                acc.len() > 0 ==> alternative(s, Seq::empty()) == Some((acc, c)) && self.behind(&*old(self), c),
            decreases self.parse_process.left()
        @*/ {
            /*@ broadcast use {lemma_moved_behind, lemma_behind}; let ghost s0 = self.seen(); let ghost pp0 = self.parse_process; proof { assert(behind(&pp0, &old(self).parse_process, c)); lemma_ws(s0); lemma_alt_step(s0, acc); lemma_els_len(&self.parser_data, result@, acc); } @*/
            parse_whitespace(&mut self.parse_process);
            /*@ let ghost r = self.seen(); proof { lemma_element(r); assert(self.parse_process.moved(&pp0, ws_len(s0))); c = c + ws_len(s0); } let ghost d0 = self.parser_data; @*/
            if let Ok(element) = /*@ { let ghost pp1 = self.parse_process; let res = @*/ RuleParser::<'vm, 'pp, T>::parse_element(&mut self.parse_process) /*@ ; proof {
                assert(pp1.seen() == r);
                assert(res is Ok ==> behind(&self.parse_process, &pp1, size(text::element(r))));
                assert(behind(&pp1, &old(self).parse_process, c));
                assert(res is Ok ==> self.behind(&*old(self), c + size(text::element(r))));
                assert(res is Err ==> self.behind(&*old(self), c + eaten(r)));
            } res } @*/ {
                /*@ proof { assert(self.behind(&*old(self), c + size(text::element(r)))); c = c + size(text::element(r)); } let ghost v0 = result@; @*/
                match element {
                    None => {
                        if !result.is_empty() {
                            return Err(ParserError::GramError {
                                err: UnexpectedElementError {
                                    reason: String::from(
                                        "Leereelemente für leere Menge darf nicht mit anderen Elementen zusammen stehen",
                                    ),
                                    pos: self.parse_process.cur_pos(),
                                },
                            });
                        }
                        /*@ proof { assert(acc =~= Seq::empty()); assert(result@ =~= Seq::empty()); } @*/
                        return Ok(Rc::new(Production::Empty));
                    }
                    Some(el) => {
                        let index = self.parser_data.get_or_add_element_key(&el);
                        result.push(index);
                        /*@ proof {
                            lemma_push_el(&d0, &self.parser_data, v0, acc, index, what(text::element(r))->0);
                            lemma_extends(&old(self).parser_data, &d0, &self.parser_data);
                            acc = acc.push(what(text::element(r))->0);
                            assert(v0.push(index) == result@);
                        } @*/
                    }
                }
            } else {
                /*@ proof { assert(self.behind(&*old(self), c + eaten(r))); c = c + eaten(r); } @*/
                break;
            }
        }

        /*@ proof { lemma_els_len(&self.parser_data, result@, acc); } @*/
        if !result.is_empty() {
            return Ok(Rc::new(Production::NotEmpty(result)));
        }
        Err(ParserError::GramError {
            err: UnexpectedElementError {
                reason: String::from(
                    "Es wurden keine Elemente gefunden. Es müssen aber welche gefunden werden oder es muss das Symbol für leere Menge genutzt werden (#)",
                ),
                pos: self.parse_process.cur_pos(),
            },
        })
    }

    pub fn parse_element(
        to_parse: &mut ParseProcess<PeekableWrapper<Chars>>,
    ) -> /*@ (r: @*/ Result<Option<ElementVerbose>, ParserError> /*@ )
        requires old(to_parse).inner_laws()
        ensures ({
            let s = old(to_parse).seen();
            match r {
                Ok(e) => element(s) is Some && behind(&*final(to_parse), &*old(to_parse), size(element(s)))
                    && match what(element(s)) { None => e is None, Some(x) => e is Some && e->0.name@ == x.0 && e->0.et == x.1 },
                Err(_) => element(s) is None && behind(&*final(to_parse), &*old(to_parse), eaten(s)),
            }
        })
        @*/ {
        /*@ broadcast use {lemma_moved_behind, lemma_behind}; let ghost s = to_parse.seen();
        let res = @*/ match to_parse.peek() {
            Some('#') => {
                to_parse.next();
                Ok(None)
            }
            Some('"') => Ok(Some(ElementVerbose::new(
                parse_terminal(to_parse)?,
                ElementType::Terminal,
            ))),
            Some(x) if x.is_alphabetic() => Ok(Some(ElementVerbose::new(
                parse_var_name(to_parse)?,
                ElementType::NonTerminal,
            ))),
            Some(x) => Err(UnexpectedCharError {
                chr: *x,
                pos: to_parse.cur_pos(),
                expected: String::from(
                    "char # for empty, \" for terminal ort alphabetic for element",
                ),
            }),
            _ => Err(EndOfCharsError {
                pos: to_parse.cur_pos(),
            }),
        } /*@ ; let _z = &mut *to_parse; res @*/
    }

    fn parse_symbol(&mut self, sym: char) -> /*@ (r: @*/ Result<(), ParserError> /*@ )
        requires old(self).ready()
        ensures ({
            let s = old(self).seen(); let (o, f) = (&*old(self), &*final(self));
            &&& f.vm == o.vm && f.parser_data == o.parser_data && (r is Ok <==> starts(s, sym))
            &&& f.behind(o, if r is Ok { 1 } else { 0 })
        })
        @*/ {
        parse_symbol(&mut self.parse_process, sym)
    }

    fn parse_whitespace(&mut self) /*@
        requires old(self).ready()
        ensures final(self).vm == old(self).vm, final(self).parser_data == old(self).parser_data, final(self).behind(&*old(self), ws_len(old(self).seen()))
    @*/ {
        parse_whitespace(&mut self.parse_process);
    }
}

pub fn parse_terminal(
    to_parse: &mut ParseProcess<PeekableWrapper<Chars>>,
) -> /*@ (r: @*/ Result<String, ParserError> /*@ )
    requires old(to_parse).inner_laws()
    ensures ({
        let s = old(to_parse).seen(); let l = lit_len(s.skip(1), false);
        if starts(s, '"') {
            match r {
                Ok(v) => l is Some && v@ == s.skip(1).take(l->0 as int) && behind(&*final(to_parse), &*old(to_parse), l->0 + 2),
                Err(_) => l is None && behind(&*final(to_parse), &*old(to_parse), s.len()),
            }
        } else { r is Err && behind(&*final(to_parse), &*old(to_parse), 0) }
    })
    @*/ {
    /*@ broadcast use {lemma_moved_behind, crate::peekables::lemma_moved};
    let ghost s = to_parse.seen(); let ghost r0 = s.skip(1); let ghost mut n: nat = 0; @*/
    parse_symbol(to_parse, '"')?;
    /*@ proof { assert(r0.skip(0) =~= r0); } @*/
    let mut literal = "".to_owned();
    let mut escape = false;
    let mut pos = to_parse.cur_pos();
    let mut cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?;
    /*@ proof { reveal_strlit(""); assert(literal@ =~= r0.take(0)); } @*/
    while *cur_char != '"' || escape
    /*@ invariant
            old(to_parse).inner_laws(), s == old(to_parse).seen(), starts(s, '"'), r0 == s.skip(1), n < r0.len(), *cur_char == r0[n as int],
            after_borrow(*to_parse).moved(&*old(to_parse), n + 1), literal@ == r0.take(n as int),
            lit_len(r0, false) == plus(lit_len(r0.skip(n as int), escape), n),
        decreases old(to_parse).left() - n
    @*/ {
        /*@ broadcast use crate::peekables::lemma_moved; proof { lemma_lit_step(r0, n, escape); assert(s.skip(n as int + 1)[0] == r0[n as int]); } @*/
        if *cur_char == '\\' && !escape {
            escape = true
        } else {
            escape = false
        }
        pos = to_parse.cur_pos();
        literal.push(to_parse.next().ok_or(EndOfCharsError { pos })?);
        /*@ proof { n = n + 1; assert(r0.take(n as int) =~= r0.take(n - 1).push(r0[n - 1])); assert((&*to_parse).moved(&*old(to_parse), n + 1)); assert(r0.skip(n as int).len() == r0.len() - n); } @*/
        pos = to_parse.cur_pos();
        cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?
    }
    /*@ proof { lemma_lit_step(r0, n, escape); } @*/
    to_parse.next(); //discard trailing quote
    /*@ proof { assert((&*to_parse).moved(&*old(to_parse), n + 2)); } @*/
    Ok(literal)
}

fn check_is_derivative<T>(
    element_types: &Vec<ElementType>,
    parse_rules: &ParseRules<T>,
    left: ElementIndex,
    right: ElementIndex,
) -> /*@ (r: @*/ Result<bool, ParserError> /*@ ) @*/
where
    T: VM,
    /*@ requires
        fit_rules(element_types@, parse_rules), left < element_types@.len(), right < element_types@.len(), element_types@[right as int] == ElementType::NonTerminal,
    ensures match r {
        Ok(b) => b == made_of(parse_rules, left, right),
        Err(_) => leads_nowhere(element_types@, parse_rules, left),
    }
    @*/
{
    /*@ proof { assert forall|set: Set<usize>| reached(element_types@, parse_rules, right, Set::empty(), set, left) implies !made_of(parse_rules, left, right) by {
        lemma_not_made(element_types@, parse_rules, left, right, set);
    } } @*/
    _check_is_derivative(element_types, parse_rules, left, right, &mut HashSet::new())
}

fn _check_is_derivative<T>(
    element_types: &Vec<ElementType>,
    parse_rules: &ParseRules<T>,
    left: ElementIndex,
    right: ElementIndex,
    visited: &mut HashSet<ElementIndex>,
) -> /*@ (r: @*/ Result<bool, ParserError> /*@ ) @*/
where
    T: VM,
    /*@ requires
        fit_rules(element_types@, parse_rules), left < element_types@.len(), old(visited)@.subset_of(parse_rules.rules@.dom()),
    ensures
        old(visited)@.subset_of(final(visited)@), final(visited)@.subset_of(parse_rules.rules@.dom()),
        match r {
            Ok(b) => if b { made_of(parse_rules, left, right) } else { reached(element_types@, parse_rules, right, old(visited)@, final(visited)@, left) },
            Err(_) => leads_nowhere(element_types@, parse_rules, left),
        }
    decreases parse_rules.rules@.dom().difference(old(visited)@).len()
    @*/
{
    /*@ let ghost v0 = visited@; proof { lemma_made_self(parse_rules, left); assert(parse_rules.rules@.contains_key(left) ==> fit_rule(element_types@, left, parse_rules.rules@[left])); } @*/
    if let ElementType::Terminal = element_types.get(left).unwrap() {
        return Ok(false);
    }
    let prods = &parse_rules
        .rules
        .get(&left)
        .ok_or(ParserError::InternalError {
            message: /*@< String::new() @*/ format!("could not find production for index {left}") /*@>@*/,
        })?
        .possible_productions;

    if left == right {
        return Ok(true);
    }
    if visited.contains(&left) {
        return Ok(false);
    }
    visited.insert(left.clone());
    /*@ let ghost v1 = visited@; let ghost types = element_types@;
    proof {
        assert(parse_rules.rules@.dom().difference(v1).len() < parse_rules.rules@.dom().difference(v0).len()) by {
            assert(parse_rules.rules@.dom().difference(v1) =~= parse_rules.rules@.dom().difference(v0).remove(left));
        }
    } @*/
    let mut is_der = false;
    for prod in /*@ it: @*/ prods /*@
        invariant
            fit_rules(types, parse_rules), types == element_types@, it.seq() == prods@.as_ref(), parse_rules.rules@.contains_key(left), *prods == parse_rules.rules@[left].possible_productions, left != right,
            v0 == old(visited)@, v1 == v0.insert(left), v1.subset_of(visited@), visited@.subset_of(parse_rules.rules@.dom()),
            parse_rules.rules@.dom().difference(v1).len() < parse_rules.rules@.dom().difference(v0).len(),
            is_der ==> made_of(parse_rules, left, right),
            !is_der ==> all_settled(types, parse_rules, right, v1, visited@),
            !is_der ==> forall|p: int, j: int| #![trigger production_of(*prods@[p])[j]] 0 <= p < it.index() && 0 <= j < production_of(*prods@[p]).len() ==> past(types, right, visited@, production_of(*prods@[p])[j]),
    @*/ {
        /*@ let ghost i = it.index(); let ghost els = right_of(prods@, i); proof { assert(fit_rule(types, left, parse_rules.rules@[left])); assert(fit_alt(types, *prods@[i])); assert(*prod == prods@[i]); } @*/
        match &**prod {
            Production::NotEmpty(prod_ne, ..) => {
                for el in /*@ it2: @*/ prod_ne /*@
                    invariant
                        fit_rules(types, parse_rules), types == element_types@, parse_rules.rules@.contains_key(left), *prods == parse_rules.rules@[left].possible_productions, left != right,
                        v0 == old(visited)@, v1 == v0.insert(left), v1.subset_of(visited@), visited@.subset_of(parse_rules.rules@.dom()),
                        parse_rules.rules@.dom().difference(v1).len() < parse_rules.rules@.dom().difference(v0).len(),
                        is_der ==> made_of(parse_rules, left, right),
                        !is_der ==> all_settled(types, parse_rules, right, v1, visited@),
                        !is_der ==> forall|p: int, j: int| #![trigger production_of(*prods@[p])[j]] 0 <= p < i && 0 <= j < production_of(*prods@[p]).len() ==> past(types, right, visited@, production_of(*prods@[p])[j]),
                        0 <= i < prods@.len(), els == production_of(*prods@[i]), els == prod_ne@, it2.seq() == prod_ne@.as_ref(), fit_alt(types, *prods@[i]),
                        !is_der ==> forall|j: int| 0 <= j < it2.index() ==> past(types, right, visited@, #[trigger] els[j]),
                @*/ {
                    /*@ let ghost v2 = visited@; proof {
                        assert(*el == els[it2.index() as int]); assert(els.contains(*el));
                        assert(mentions(parse_rules, left, *el));
                        lemma_made_self(parse_rules, right);
                        if *el == right { lemma_made_step(parse_rules, left, *el, right); }
                        assert(parse_rules.rules@.dom().difference(v2).len() <= parse_rules.rules@.dom().difference(v1).len()) by { vstd::set_lib::lemma_len_subset(parse_rules.rules@.dom().difference(v2), parse_rules.rules@.dom().difference(v1)); }
                    } @*/
                    if *el == right {
                        return Ok(true);
                    } else {
                        is_der = is_der
                            || /*@ { let res = @*/ _check_is_derivative(
                                element_types,
                                parse_rules,
                                *el,
                                right,
                                visited,
                            ) /*@ ; proof {
                                if res is Err { lemma_nowhere_step(types, parse_rules, left, *el); }
                                else if res->Ok_0 { lemma_made_step(parse_rules, left, *el, right); }
                                else { lemma_reached(types, parse_rules, right, v1, v2, visited@, *el); }
                            } res } @*/ ?;
                    }
                }
            }
            Production::Empty => {}
        }
        /*@ proof { assert(!is_der ==> forall|j: int| 0 <= j < els.len() ==> past(types, right, visited@, #[trigger] els[j])); } @*/
    }
    /*@ proof { if !is_der {
        assert forall|e: usize| #[trigger] mentions(parse_rules, left, e) implies past(types, right, visited@, e) by {
            let p = choose|p: int| 0 <= p < prods@.len() && production_of(*#[trigger] prods@[p]).contains(e);
            let j = choose|j: int| 0 <= j < production_of(*prods@[p]).len() && production_of(*prods@[p])[j] == e;
            assert(past(types, right, visited@, production_of(*prods@[p])[j]));
        }
        assert(settled(types, parse_rules, right, visited@, left));
        assert(all_settled(types, parse_rules, right, v0, visited@));
    } } @*/
    Ok(is_der)
}

