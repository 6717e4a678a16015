//! High-level LL(1) script parser built from grammar rules and steuer maps.
//!
//! The Parser type orchestrates rule parsing, FIRST/FOLLOW computation, and
//! drives a VM by turning matched productions into instructions.

use std::collections::HashMap;
use std::rc::Rc;
use std::str::Chars;

use crate::parser_data::{ElementIndex, ElementType, ElementVerbose, ParserData, Production};
use crate::tree::{NodeId, Tree};
use crate::vms::VM;

use crate::errors::GrammarError::MissingProduction;
use crate::errors::ParserError;
use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError};
use crate::first_sets::get_first_sets;
use crate::follow_sets::get_follow_sets;
use crate::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use crate::rule_parsing::RuleParser;
use crate::sets::SetMember;
use crate::steuer_map::{NTRules, get_steuermaps};
/*@ use crate::grammar::*; use crate::words::*; use crate::runs::*; use crate::vms::keeps_tree; use crate::steuer_map::*; use crate::parser_data::production_of; use crate::text::{told, refused}; use crate::sets::*; use crate::spec::*; use crate::tree::{Node, same_node}; @*/

/// The Parser is the core component of the library, responsible for parsing input text
/// according to grammar rules and executing associated VM instructions.
///
/// The Parser works with an LL(1) parsing algorithm, using first and follow sets to
/// determine which production to use when parsing a non-terminal.
///
/// # Example
///
/// ```rust
/// use henriks_parsing_project::script_parser::Parser;
/// use henriks_parsing_project::vms::NullVm;
/// use henriks_parsing_project::vms::VM;
///
/// // Define grammar rules
/// let rules = "start -> \"hello\" \"world\";";
///
/// // Create a VM
/// let vm = NullVm::new();
/// let mut state = NullVm::create_new_state();
///
/// // Create a parser
/// let mut parser = Parser::new_from_text(rules, &vm);
///
/// // Parse a script
/// let script = "helloworld";
/// let result = parser.parse(script, &mut state);
/// ```
pub struct Parser<'a, T>
where
    T: VM,
{
    /// Reference to the virtual machine that will execute instructions
    /*@ pub @*/ vm: &'a T,
    /// Mapping from non-terminal indices to their rules and steuer maps
    /*@ pub @*/ rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
    /// List of all grammar elements (terminals and non-terminals)
    /*@ pub @*/ elements: Vec<ElementVerbose>,
    /// Index of the non-terminal to start with, if it is not the one named "start"
    /*@ pub @*/ start_idx: Option<ElementIndex>,
    /*@ /// the grammar it was built for, and the non-terminal to start with
    pub gram: Ghost<Gram>, pub start: Ghost<usize>, @*/
}
/*@
impl<'a, T> Parser<'a, T>
where
    T: VM + 'a,
{
    /// the instructions of each non-terminal
    pub open spec fn code(&self) -> Map<usize, Seq<T::Tinstrution>> {
        Map::new(self.rules_with_steuermaps@.dom(), |k: usize| self.rules_with_steuermaps@[k].instruction@)
    }
    /// the table of k is the one of the grammar
    pub open spec fn tabled(&self, k: usize) -> bool {
        let g = self.gram@;
        let t = self.rules_with_steuermaps@[k].table();
        &&& forall|m: SetMember| #[trigger] t.contains_key(m) ==> exists|p: int| #[trigger] g.takes(self.start@, k, p, m) && t[m] == g.alts(k)[p]
        &&& forall|p: int, m: SetMember| #[trigger] g.takes(self.start@, k, p, m) ==> t.contains_key(m) && t[m] == g.alts(k)[p]
    }
    pub open spec fn listed(&self, i: int) -> bool {
        self.elements@[i].et == self.gram@.kinds[i] && self.elements@[i].name@ == self.gram@.names[i]
    }
    pub open spec fn is_start(&self, i: int) -> bool { self.elements@[i].name@ == "start"@ && self.elements@[i].et == ElementType::NonTerminal }
    /// the parser was built for its grammar
    pub open spec fn built(&self) -> bool {
        let g = self.gram@;
        &&& g.ok() && g.complete() && g.rules.contains_key(self.start@) && !g.term(self.start@)
        &&& forall|x: usize| !#[trigger] g.left_recursive(x)
        &&& self.elements@.len() == g.kinds.len() && forall|i: int| 0 <= i < self.elements@.len() ==> #[trigger] self.listed(i)
        &&& self.rules_with_steuermaps@.dom() == g.rules.dom()
        &&& forall|k: usize| g.rules.contains_key(k) ==> #[trigger] self.tabled(k)
        &&& self.start_idx is Some ==> self.start_idx->0 == self.start@
        &&& self.start_idx is None ==> self.is_start(self.start@ as int) && forall|i: int| 0 <= i < self.elements@.len() && #[trigger] self.is_start(i) ==> i == self.start@
    }
    /// the rules and instructions are those of d, and it starts with the one named start
    pub open spec fn holds(&self, d: &ParserData<T>) -> bool {
        &&& self.gram@ == d.gram() && self.start_idx is None
        &&& self.code().dom() == d.gram().rules.dom()
        &&& forall|k: usize| #[trigger] self.code().contains_key(k) ==> self.code()[k] == d.parse_rules.rules@[k].instruction@
    }
    /// the parser was made from the text s
    pub open spec fn made(&self, s: Seq<char>, vm: &T) -> bool {
        self.vm == vm && exists|d: ParserData<T>| told(vm, s, &d) && #[trigger] self.holds(&d)
    }
    /// the outcome of reading x from s: m characters are the word of the derivation pt, which the tree and the state show
    pub open spec fn done(&self, x: usize, s: Seq<char>, m: int, o: &Tree<String>, t: &Tree<String>, parent: Option<NodeId>, s0: T::Tstate, s1: T::Tstate, pt: PT) -> bool {
        &&& 0 <= m <= s.len() && self.gram@.spells(x, pt, s.take(m))
        &&& grown(o, t, parent, pt.id) && stands(self.gram@, t, pt) && fresh(o, pt)
        &&& runs(self.vm, self.gram@, self.code(), pt, s0, s1)
    }
    /// The answer to s: a derivation of all of it from the start symbol, the tree that shows it and nothing else, and what its instructions do.
    pub open spec fn answers(&self, s: Seq<char>, t: &Tree<String>, s0: T::Tstate, s1: T::Tstate, pt: PT) -> bool {
        &&& self.gram@.spells(self.start@, pt, s)
        &&& t.wf() && stands(self.gram@, t, pt)
        &&& t.nodes@[pt.id.node_ptr as int].parent is None && forall|i: int| #[trigger] t.is_live(i) && i != pt.id.node_ptr ==> t.nodes@[i].parent is Some
        &&& runs(self.vm, self.gram@, self.code(), pt, s0, s1)
    }
    /// s is rejected: none of the texts like it up to the q-th character and the one behind it is a word of the grammar
    pub open spec fn rejects(&self, s: Seq<char>, q: int, e: ParserError) -> bool {
        &&& error_at(e, s, q, 0)
        &&& forall|t: Seq<char>| agree(s, t, q) ==> !#[trigger] self.gram@.derives(self.start@, t)
        &&& self.gram@.productive() ==> self.gram@.begins(self.start@, s.take(q))
    }
    proof fn lemma_left_over(&self, s: Seq<char>, m: int)
        requires 0 <= m < s.len(), sole(self.gram@, self.start@, self.start@, s, m), self.gram@.derives(self.start@, s.take(m))
        ensures forall|t: Seq<char>| agree(s, t, m) ==> !#[trigger] self.gram@.derives(self.start@, t), self.gram@.begins(self.start@, s.take(m))
    {
        let g = self.gram@;
        assert forall|t: Seq<char>| agree(s, t, m) implies !#[trigger] g.derives(self.start@, t) by {
            if g.derives(self.start@, t) { self.lemma_whole(t); assert(s.skip(m).len() > 0); assert(t.skip(m).len() > 0); }
        }
        assert(s.take(m) + Seq::empty() =~= s.take(m));
    }
    proof fn lemma_whole(&self, t: Seq<char>)
        requires self.gram@.derives(self.start@, t)
        ensures self.gram@.fits(self.start@, self.start@, t, t.len() as int)
    {
        let n = t.len() as int;
        assert(t.take(n) =~= t);
        assert(self.gram@.follow_base(self.start@, self.start@, look(t.skip(n))));
        assert(self.gram@.follow(self.start@, self.start@, look(t.skip(n)), 0));
    }
    proof fn lemma_beginning(&self)
        requires self.built()
        ensures
            self.gram@.rules.contains_key(self.start@), !self.gram@.term(self.start@), self.gram@.chain(seq![self.start@]),
            self.start_idx is Some ==> self.start_idx->0 == self.start@,
            self.start_idx is None ==> self.start@ < self.elements@.len() && self.is_start(self.start@ as int) && forall|i: int| 0 <= i < self.elements@.len() && #[trigger] self.is_start(i) ==> i == self.start@,
    {}
    proof fn lemma_refused(&self, s: Seq<char>, q: int, e: ParserError)
        requires stops(self.gram@, self.start@, self.start@, s, q, 0, e)
        ensures self.rejects(s, q, e)
    { self.lemma_stopped(s, q); }
    proof fn lemma_rest(&self, s: Seq<char>, m: int, e: ParserError)
        requires 0 <= m < s.len(), sole(self.gram@, self.start@, self.start@, s, m), self.gram@.derives(self.start@, s.take(m)), error_at(e, s, m, 0)
        ensures self.rejects(s, m, e)
    { self.lemma_left_over(s, m); }
    proof fn lemma_finished(&self, s: Seq<char>, m: int, o: &Tree<String>, t: &Tree<String>, s0: T::Tstate, s1: T::Tstate, pt: PT)
        requires self.done(self.start@, s, m, o, t, None, s0, s1, pt), forall|i: int| !o.is_live(i)
        ensures self.gram@.derives(self.start@, s.take(m)), m == s.len() ==> self.answers(s, t, s0, s1, pt)
    {
        assert(s.take(s.len() as int) =~= s);
    }
    proof fn lemma_stopped(&self, s: Seq<char>, q: int)
        requires no_fit(self.gram@, self.start@, self.start@, s, q)
        ensures forall|t: Seq<char>| agree(s, t, q) ==> !#[trigger] self.gram@.derives(self.start@, t)
    {
        assert forall|t: Seq<char>| agree(s, t, q) implies !#[trigger] self.gram@.derives(self.start@, t) by {
            if self.gram@.derives(self.start@, t) { self.lemma_whole(t); }
        }
    }
}
@*/

impl<'a, T> Parser<'a, T>
where
    T: VM + 'a,
{
    /// Creates a new Parser from a string containing grammar rules.
    ///
    /// This method parses the rules, computes first and follow sets, and creates steuer maps
    /// for efficient LL(1) parsing.
    ///
    /// # Arguments
    ///
    /// * `rule_text` - A string containing the grammar rules in BNF-like syntax
    /// * `vm` - A reference to a virtual machine that implements the VM trait
    ///
    /// # Returns
    ///
    /// A new Parser instance configured with the provided rules and VM
    ///
    /// # Examples
    ///
    /// ```
    /// use henriks_parsing_project::script_parser::Parser;
    /// use henriks_parsing_project::vms::NullVm;
    ///
    /// let rules = "start -> \"hello\" \"world\";";
    /// let vm = NullVm::new();
    /// let parser = Parser::new_from_text(rules, &vm);
    /// ```
    pub fn new_from_text(rule_text: &str, vm: &'a T) -> /*@ (r: @*/ Parser<'a, T> /*@ )
        ensures r.made(rule_text@, vm), r.built()
        @*/ {
        /*@ hide(ParserData::wf); hide(ParserData::gram); hide(ParserData::gram_ok); hide(Parser::built); hide(Parser::tabled); hide(told); @*/
        let mut peekable = PeekableWrapper::from_str(rule_text);
        let mut rule_parser = RuleParser::new(&mut peekable, vm);
        /*@ proof { lemma_all_visible(rule_text@); assert(rule_parser.seen() == rule_text@); } @*/
        let _ = /*@ { let ret = @*/ rule_parser.parse_rules() /*@ ; proof { if ret is Err { assert(refused(vm, rule_text@)); } } ret } @*/ ./*@< v_unwrap @*/ unwrap /*@>@*/ ();
        /*@ let ghost pd = rule_parser.parser_data; let ghost g = pd.gram();
        proof { assert(told(vm, rule_text@, &pd)); Self::lemma_told(vm, rule_text@, &pd); } @*/
        let RuleParser {
            vm: _,
            parse_process: _parse_process,
            parser_data,
        } = rule_parser;
        /*@ proof { assert(parser_data == pd); } @*/
        let elements = parser_data.get_elements_verbose();
        let first_dict = get_first_sets(&parser_data)./*@< v_unwrap @*/ unwrap /*@>@*/ ();
        /*@ let ghost mut start: usize = 0; @*/
        let follow_dict = get_follow_sets(
            /*@ ({ let ret = @*/ parser_data.get_element_nt_index("start") /*@ ; proof { if ret is Some { start = ret->0; } } ret }) @*/ ./*@< v_unwrap @*/ unwrap /*@>@*/ (),
            &first_dict,
            &parser_data,
        )
        ./*@< v_unwrap @*/ unwrap /*@>@*/ ();

        let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data)./*@< v_unwrap @*/ unwrap /*@>@*/ ();
        /*@ let mut r = @*/
        Parser {
            vm,
            rules_with_steuermaps,
            elements,
            start_idx: None,
            /*@ gram: Ghost(g), start: Ghost(start), @*/
        } /*@ ; proof {
            r.lemma_tables(&follow_dict, g, start);
            r.lemma_listed(&pd);
            r.lemma_named_start(&pd); r.lemma_built();
            assert(r.holds(&pd));
        } r @*/
    }

    /// Creates a new Parser from pre-parsed ParserData.
    ///
    /// This method is useful when you have already parsed the grammar rules
    /// and want to create a parser with a different VM or starting symbol.
    ///
    /// # Arguments
    ///
    /// * `parser_data` - The pre-parsed grammar data
    /// * `start_idx` - The index of the starting non-terminal
    /// * `vm` - A reference to a virtual machine that implements the VM trait
    ///
    /// # Returns
    ///
    /// A new Parser instance configured with the provided parser data and VM
    pub fn new_from_parser_data(
        parser_data: ParserData<T>,
        start_idx: ElementIndex,
        vm: &'a T,
    ) -> /*@ (r: @*/ Parser<'a, T> /*@ )
        requires parser_data.wf(), parser_data.gram_ok()
        ensures
            r.gram@ == parser_data.gram(), r.start@ == start_idx, r.vm == vm, !r.gram@.term(start_idx) ==> r.built(),
            forall|k: usize| #[trigger] r.code().contains_key(k) ==> r.code()[k] == parser_data.parse_rules.rules@[k].instruction@,
            r.code().dom() == parser_data.gram().rules.dom(),
        @*/ {
        /*@ let ghost pd = parser_data; let ghost g = parser_data.gram(); @*/
        let first_dict = get_first_sets(&parser_data)./*@< v_unwrap @*/ unwrap /*@>@*/ ();
        let follow_dict = get_follow_sets(start_idx, &first_dict, &parser_data)./*@< v_unwrap @*/ unwrap /*@>@*/ ();

        let elements_verbose = parser_data.get_elements_verbose();
        let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data)./*@< v_unwrap @*/ unwrap /*@>@*/ ();

        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, /*@< vm @*/ &vm /*@>@*/ );
        parser.start_idx = Some(start_idx);
        /*@ proof {
            parser.gram@ = g; parser.start@ = start_idx;
            parser.lemma_tables(&follow_dict, g, start_idx);
            assert forall|i: int| 0 <= i < parser.elements@.len() implies #[trigger] parser.listed(i) by { assert(parser.elements@[i] == pd.verbose(i)); }
        } @*/
        parser
    }

    /// Creates a new Parser from pre-computed components.
    ///
    /// This is a low-level constructor that takes already computed steuer maps and elements.
    ///
    /// # Arguments
    ///
    /// * `rules_with_steuermaps` - Mapping from non-terminal indices to their rules and steuer maps
    /// * `elements` - List of all grammar elements (terminals and non-terminals)
    /// * `vm` - A reference to a virtual machine that implements the VM trait
    ///
    /// # Returns
    ///
    /// A new Parser instance with the provided components
    pub fn new(
        rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
        elements: Vec<ElementVerbose>,
        vm: &'a T,
    ) -> /*@ (r: @*/ Parser<'a, T> /*@ )
        ensures r.vm == vm, r.rules_with_steuermaps == rules_with_steuermaps, r.elements == elements, r.start_idx is None @*/ {
        Parser {
            vm,
            rules_with_steuermaps,
            elements,
            start_idx: None,
            /*@ gram: Ghost(arbitrary()), start: Ghost(arbitrary()), @*/
        }
    }

    /// Parses a string according to the grammar rules and executes VM instructions.
    ///
    /// This method takes a string to parse and a mutable reference to a VM state,
    /// parses the string according to the grammar rules, and returns a parse tree.
    ///
    /// # Arguments
    ///
    /// * `to_parse` - The string to parse
    /// * `state` - A mutable reference to the VM state
    ///
    /// # Returns
    ///
    /// A Result containing either the parse tree or a ParserError
    ///
    /// # Examples
    ///
    /// ```
    /// use henriks_parsing_project::script_parser::Parser;
    /// use henriks_parsing_project::vms::NullVm;
    ///
    /// let rules = "start -> \"hello\" \"world\";";
    /// let vm = NullVm::new();
    /// let mut state = NullVm::create_new_state();
    /// let mut parser = Parser::new_from_text(rules, &vm);
    ///
    /// let result = parser.parse("helloworld", &mut state);
    /// ```
    pub fn parse(
        &mut self,
        to_parse: &'a str,
        state: &mut T::Tstate,
    ) -> /*@ (r: @*/ Result<Tree<String>, ParserError> /*@ )
        requires old(self).built(), keeps_tree(old(self).vm)
        ensures
            *final(self) == *old(self),
            r is Ok ==> exists|pt: PT| old(self).answers(to_parse@, &r->Ok_0, *old(state), *final(state), pt),
            r is Err ==> exists|q: int| #[trigger] old(self).rejects(to_parse@, q, r->Err_0),
        @*/ {
        /*@ hide(Parser::built); hide(Parser::done); hide(Parser::answers); hide(Parser::rejects); hide(stops); hide(sole); hide(no_fit);
        let ghost s = to_parse@; let ghost g = self.gram@; let ghost s0 = *state; let ghost x = self.start@;
        proof { self.lemma_beginning(); } @*/
        let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
        let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
        /*@ proof { lemma_all_visible(s); assert((&to_parse).seen() == s); } @*/
        let start_index = match self.start_idx {
            Some(start_idx) => start_idx,
            None => /*@ ({ let ret = @*/ self
                .elements
                .iter()
                .position(|r /*@ : &ElementVerbose @*/| /*@ -> (b: bool) ensures b == (r.name@ == "start"@ && r.et == ElementType::NonTerminal) @*/ {
                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
                }) /*@ ; proof { assert(self.start_idx is None && nth(x as int) && self.is_start(x as int)); if ret is Some { assert(self.is_start(ret->0 as int)); } } ret }) @*/
                .unwrap(),
        };
        let mut tree = Tree::new();

        /*@ proof { assert(self.is_start(start_index as int) || self.start_idx is Some); assert(start_index == x); }
        let ghost tree0 = tree; let ghost tp0 = to_parse; let ghost path0 = seq![x];
        let ret = @*/ self.parse_production(&mut to_parse, start_index, state, &mut tree, None /*@ , Ghost(s.len()), Ghost(path0) @*/ ) /*@ ;
        proof { if ret is Err {
            let q = choose|q: int| #[trigger] stops(g, x, x, s, q, 0, ret->Err_0);
            self.lemma_refused(s, q, ret->Err_0);
        } } ret @*/ ?;
        /*@ let ghost m = to_parse.pos() - tp0.pos();
        let ghost pt = choose|pt: PT| self.done(x, s, m, &tree0, &tree, None, s0, *state, pt);
        proof { self.lemma_finished(s, m, &tree0, &tree, s0, *state, pt); } @*/
        if let Some(chr) = to_parse.peek() {
            return /*@ { let res: Result<Tree<String>, ParserError> = @*/ Err(UnexpectedCharError {
                chr: *chr,
                pos: to_parse.cur_pos(),
                expected: String::from("end of input"),
            }) /*@ ; proof { self.lemma_rest(s, m, res->Err_0); } res } @*/ ;
        }
        /*@ proof { assert(m == s.len()); assert(self.answers(s, &tree, s0, *state, pt)); assert(old(self).answers(s, &tree, s0, *state, pt)); let res: Result<Tree<String>, ParserError> = Ok(tree); assert(old(self).answers(s, &res->Ok_0, *old(state), *state, pt)); } @*/
        Ok(tree)
    }

    fn get_fitting_production(
        &self,
        to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
        el_index: ElementIndex,
        cur: &SetMember,
    ) -> /*@ (r: @*/ Result<&Rc<Production>, ParserError> /*@ )
        requires old(to_parse).inner_laws()
        ensures
            final(to_parse).moved(&*old(to_parse), 0),
            r is Ok ==> self.rules_with_steuermaps@.contains_key(el_index) && self.rules_with_steuermaps@[el_index].steuermap@.contains_key(*cur)
                && *r->Ok_0 == self.rules_with_steuermaps@[el_index].steuermap@[*cur],
            r is Err && self.rules_with_steuermaps@.contains_key(el_index) ==> !self.rules_with_steuermaps@[el_index].steuermap@.contains_key(*cur)
                && error_at(r->Err_0, old(to_parse).seen(), 0, old(to_parse).pos()),
        @*/ {
        let nt_rule = self
            .rules_with_steuermaps
            .get(&el_index)
            .ok_or(MissingProduction { index: el_index })?;
        let fitting_production: Option<&Rc<Production>> = nt_rule.steuermap.get(cur);
        match fitting_production {
            None => Err(UnexpectedCharError {
                chr: *to_parse.peek().unwrap_or(&'#'),
                pos: to_parse.cur_pos(),
                expected: nt_rule
                    .steuermap
                    .keys()
                    .cloned()
                    ./*@< v_texts() @*/ map(|x| x.into()) /*@>@*/
                    .collect::<Vec<String>>()
                    .join(";"),
            }),
            Some(fp) => Ok(fp),
        }
    }
    /*@ #[verifier::rlimit(60)] @*/ fn parse_production(
        &self,
        to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
        el_index: ElementIndex,
        state: &mut T::Tstate,
        tree: &mut Tree<String>,
        current_node: Option<NodeId>,
        /*@ Ghost(len): Ghost<nat>, Ghost(path): Ghost<Seq<usize>>, @*/
    ) -> /*@ (r: @*/ Result<(), ParserError> /*@ )
        requires
            self.built(), keeps_tree(self.vm), self.gram@.rules.contains_key(el_index), !self.gram@.term(el_index),
            old(to_parse).inner_laws(), old(to_parse).seen().len() == len,
            self.gram@.chain(path), path.len() > 0, path.last() == el_index,
            old(tree).wf(), current_node is Some ==> old(tree).valid(current_node->0),
        ensures
            r is Ok ==> {
                let s = old(to_parse).seen();
                let m = final(to_parse).pos() - old(to_parse).pos();
                &&& 0 <= m && final(to_parse).moved(&*old(to_parse), m as nat)
                &&& sole(self.gram@, self.start@, el_index, s, m)
                &&& exists|pt: PT| self.done(el_index, s, m, &*old(tree), &*final(tree), current_node, *old(state), *final(state), pt)
            },
            r is Err ==> exists|q: int| #[trigger] stops(self.gram@, self.start@, el_index, old(to_parse).seen(), q, old(to_parse).pos(), r->Err_0),
        decreases len, self.gram@.kinds.len() - path.len()
        @*/ {
        /*@ let ghost g = self.gram@; let ghost start = self.start@; let ghost x = el_index; let ghost s = to_parse.seen(); let ghost tp0 = *to_parse; let ghost tree0 = *tree; let ghost s0 = *state;
        proof { self.lemma_at(x); } @*/
        let cur = SetMember::from(to_parse.peek());
        let nt_rule = self
            .rules_with_steuermaps
            .get(&el_index)
            .ok_or(MissingProduction { index: el_index })?;
        let fitting_production: &Rc<Production> =
            /*@ { let ret = @*/ self.get_fitting_production(to_parse, el_index, &cur) /*@ ; proof { if ret is Err {
                self.lemma_no_entry(x, cur);
                lemma_no_way(g, start, x, s);
                assert(stops(g, start, x, s, 0, tp0.pos(), ret->Err_0));
            } } ret } @*/ ?;
        /*@ let ghost p = self.lemma_entry(x, cur);
        proof { lemma_way_start(g, start, x, p, s); } @*/

        let id = tree.add_node(String::from(""), current_node)?;
        /*@ let ghost tree1 = *tree; let ghost alt = g.alts(x)[p];
        let ghost mut ts: Seq<PT> = if s.len() >= 0 { Seq::empty() } else { Seq::empty() }; let ghost mut c: int = 0;
        proof {
            lemma_added(&tree0, &tree1, tree1.nodes@[id.node_ptr as int].data, current_node, id);
            reveal_strlit("");
            assert(tree1.nodes@[id.node_ptr as int].data@ =~= Seq::<char>::empty());
            self.lemma_start_going(x, p, s, &tree0, &tree1, current_node, id, s0);
            assert(*tree == tree1);
            assert(self.going(x, p, s, 0, c, &tree0, &tree1, tree, current_node, id, s0, *state, ts));
        } @*/

        let prod = &**fitting_production;
        match prod {
            Production::NotEmpty(prod_not_empty) => {
                for next_element_index in /*@ it: @*/ prod_not_empty /*@
                    invariant
                        self.built(), keeps_tree(self.vm), g == self.gram@, start == self.start@, x == el_index, g.rules.contains_key(x), !g.term(x),
                        0 <= p < g.alts(x).len(), alt == g.alts(x)[p], g.chain(path), path.len() > 0, path.last() == x, s.len() == len,
                        it.seq() == prod_not_empty@.as_ref(), prod_not_empty@ == alt,
                        tp0.inner_laws(), tp0.seen() == s, (&*to_parse).moved(&tp0, c as nat), tp0 == *old(to_parse),
                        on_way(g, start, x, p, s, it.index(), c),
                        self.going(x, p, s, it.index(), c, &tree0, &tree1, tree, current_node, id, s0, *state, ts),
                @*/ {
                    /*@ let ghost j = it.index(); let ghost a = alt[j]; let ghost c0 = c; let ghost r = s.skip(c0); let ghost tp1 = *to_parse; let ghost tree2 = *tree; let ghost s1 = *state;
                    proof { assert(*next_element_index == a); assert(g.known(g.alts(x)[p])); assert(self.listed(a as int)); assert(along(g, x, p, s, j, c0)); } @*/
                    let element_next = self.elements.get(*next_element_index).unwrap().clone();

                    match element_next.et {
                        ElementType::Terminal => {
                            /*@< let added_id = @*/ let _ = /*@>@*/ tree.add_node(
                                /*@ { let ret = @*/ self.parse_terminal(to_parse, element_next.name.as_str()) /*@ ; proof { if ret is Err {
                                    let q = choose|q: int| breaks(g.name(a), r, q) && #[trigger] error_at(ret->Err_0, r, q, tp1.pos());
                                    lemma_way_term_stop(g, start, x, p, s, j, c0, q);
                                    if g.productive() { lemma_terminal_begins(g, a, r, q); lemma_way_begins(g, x, p, s, j, c0, q); }
                                    assert(stops(g, start, x, s, c0 + q, tp0.pos(), ret->Err_0));
                                } } ret } @*/ ?,
                                Some(id),
                            );
                            /*@ proof {
                                c = c0 + g.name(a).len();
                                lemma_way_term(g, start, x, p, s, j, c0);
                                let leaf = PT { x: a, id: added_id->Ok_0, kids: Seq::empty() };
                                lemma_added(&tree2, tree, tree.nodes@[leaf.id.node_ptr as int].data, Some(id), leaf.id);
                                assert(self.done(a, r, g.name(a).len() as int, &tree2, tree, Some(id), s1, *state, leaf));
                                self.lemma_going(x, p, s, j, c0, g.name(a).len() as int, &tree0, &tree1, &tree2, tree, current_node, id, s0, s1, *state, ts, leaf);
                                ts = ts.push(leaf);
                            } @*/
                        }
                        ElementType::NonTerminal => {
                            /*@ let ghost sub = if c0 == 0 { path.push(a) } else { seq![a] };
                            proof { self.lemma_sub_path(x, p, s, j, c0, path); assert(g.occ(x, p, j, a)); }
                            let ret = @*/ self.parse_production(
                                to_parse,
                                *next_element_index,
                                state,
                                tree,
                                Some(id),
                                /*@ Ghost((len - c0) as nat), Ghost(sub), @*/
                            ) /*@ ; proof { if ret is Err {
                                let q = choose|q: int| #[trigger] stops(g, start, a, r, q, tp1.pos(), ret->Err_0);
                                lemma_way_sub_stop(g, start, x, p, s, j, c0, q);
                                if g.productive() { lemma_way_begins(g, x, p, s, j, c0, q); }
                                assert(stops(g, start, x, s, c0 + q, tp0.pos(), ret->Err_0));
                            } } ret @*/ ?;
                            /*@ proof {
                                let m = to_parse.pos() - tp1.pos();
                                c = c0 + m;
                                lemma_way_sub(g, start, x, p, s, j, c0, m);
                                let pt = choose|pt: PT| self.done(a, r, m, &tree2, tree, Some(id), s1, *state, pt);
                                self.lemma_going(x, p, s, j, c0, m, &tree0, &tree1, &tree2, tree, current_node, id, s0, s1, *state, ts, pt);
                                ts = ts.push(pt);
                            } @*/
                        }
                    }
                }
            }
            Production::Empty => {}
        };

        /*@ let ghost s1 = *state; let ghost pt = PT { x, id, kids: ts };
        proof { self.lemma_over(x, p, s, c, &tree0, &tree1, tree, current_node, id, s0, s1, ts); } @*/
        self.run_instructions(tree, id, &nt_rule.instruction, state);
        /*@ proof {
            lemma_way_over(g, start, x, p, s, c);
            assert(at(s1) && seen_at(*tree));
            assert(self.code()[x] == nt_rule.instruction@);
            assert(self.done(x, s, c, &tree0, tree, current_node, s0, *state, pt));
            assert((&*to_parse).moved(&tp0, c as nat));
            assert(to_parse.pos() - tp0.pos() == c);
            assert(sole(g, start, x, s, c));
        } @*/

        Ok(())
    }

    fn run_instructions(
        &self,
        tree: &mut Tree<String>,
        cur_node: NodeId,
        instructions: &Vec<<T as VM>::Tinstrution>,
        state: &mut T::Tstate,
    ) /*@
        requires keeps_tree(self.vm), old(tree).wf()
        ensures *final(tree) == *old(tree), executes(self.vm, *old(tree), cur_node, instructions@, *old(state), *final(state))
    @*/ {
        /*@ let ghost s0 = *state; let ghost t = *tree; @*/
        for instruction in /*@ it: @*/ instructions /*@
            invariant
                keeps_tree(self.vm), t == *old(tree), s0 == *old(state), *tree == t, t.wf(), it.seq() == instructions@.as_ref(),
                executes(self.vm, t, cur_node, instructions@.take(it.index()), s0, *state),
        @*/ {
            /*@ let ghost s1 = *state; @*/
            self.vm
                .execute_instruction(tree, cur_node, &instruction, state);
            /*@ proof { lemma_execute(self.vm, t, cur_node, instructions@, it.index(), s0, s1, *tree, *state, *instruction); } @*/
        }
        /*@ proof { assert(instructions@.take(instructions@.len() as int) =~= instructions@); } @*/
    }

    fn parse_terminal(
        &self,
        to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
        terminal: &str,
    ) -> /*@ (r: @*/ Result<String, ParserError> /*@ )
        requires old(to_parse).inner_laws()
        ensures
            r is Ok ==> r->Ok_0@ == terminal@ && final(to_parse).moved(&*old(to_parse), terminal@.len()) && old(to_parse).seen().take(terminal@.len() as int) == terminal@,
            r is Err ==> exists|q: int| breaks(terminal@, old(to_parse).seen(), q) && #[trigger] error_at(r->Err_0, old(to_parse).seen(), q, old(to_parse).pos()),
        @*/ {
        /*@ let ghost s = to_parse.seen(); let ghost tp0 = *to_parse; @*/
        for chr in /*@ it: @*/ terminal.chars() /*@
            invariant
                tp0 == *old(to_parse), tp0.inner_laws(), s == tp0.seen(), it.seq() == terminal@, (&*to_parse).moved(&tp0, it.index() as nat),
                s.take(it.index()) == terminal@.take(it.index()),
        @*/ {
            /*@ let ghost q = it.index(); @*/
            let pos = to_parse.cur_pos();
            let char_to_parse: &char = /*@ { let ret = @*/ to_parse.peek().ok_or(EndOfCharsError { pos }) /*@ ; proof { if ret is Err { assert(breaks(terminal@, s, q)); assert(error_at(ret->Err_0, s, q, tp0.pos())); } } ret } @*/ ?;
            if *char_to_parse != chr {
                /*@ proof { assert(breaks(terminal@, s, q)); } @*/ return /*@ { let res: Result<String, ParserError> = @*/ Err(UnexpectedCharError {
                    chr: *char_to_parse,
                    pos: to_parse.cur_pos(),
                    expected: String::from(chr),
                }) /*@ ; proof { assert(error_at(res->Err_0, s, q, tp0.pos())); } res } @*/ ;
            }
            to_parse.next();
            /*@ proof { assert(s.take(q + 1) =~= s.take(q).push(s[q])); assert(terminal@.take(q + 1) =~= terminal@.take(q).push(terminal@[q])); } @*/
        }
        /*@ proof { assert(terminal@.take(terminal@.len() as int) =~= terminal@); } @*/
        Ok(String::from(terminal))
    }
}

/*@
/// one more instruction
proof fn lemma_execute<V: VM>(vm: &V, t: Tree<String>, node: NodeId, ins: Seq<V::Tinstrution>, k: int, s0: V::Tstate, s1: V::Tstate, t2: Tree<String>, s2: V::Tstate, i: V::Tinstrution)
    requires keeps_tree(vm), 0 <= k < ins.len(), i == ins[k], executes(vm, t, node, ins.take(k), s0, s1), vm.does(t, s1, node, i, t2, s2)
    ensures t2 == t, executes(vm, t, node, ins.take(k + 1), s0, s2)
{
    let u = ins.take(k + 1);
    assert(u.drop_last() =~= ins.take(k) && u.last() == i);
    assert(at(s1));
}
proof fn lemma_all_visible(s: Seq<char>)
    ensures visible(s, None, None, false) == s
    decreases s.len()
{
    if s.len() > 0 { lemma_all_visible(s.drop_first()); assert(seq![s[0]] + s.drop_first() =~= s); }
    else { assert(s =~= Seq::empty()); }
}
impl<'a, T> Parser<'a, T>
where
    T: VM + 'a,
{
    /// inside alternative p of x: c characters of s are the words of the first j elements, whose subtrees are the children of id
    pub open spec fn going(&self, x: usize, p: int, s: Seq<char>, j: int, c: int, o: &Tree<String>, o1: &Tree<String>, t: &Tree<String>, parent: Option<NodeId>, id: NodeId, s0: T::Tstate, s1: T::Tstate, ts: Seq<PT>) -> bool {
        let g = self.gram@;
        &&& 0 <= c <= s.len() && 0 <= j <= g.alts(x)[p].len() && g.spell(g.alts(x)[p].take(j), ts, s.take(c))
        &&& grown(o, t, parent, id) && (forall|i: int| o1.is_live(i) ==> #[trigger] t.is_live(i)) && o1.is_live(id.node_ptr as int) && (forall|i: int| o.is_live(i) ==> #[trigger] o1.is_live(i))
        &&& t.nodes@[id.node_ptr as int].data@ == Seq::<char>::empty()
        &&& t.kids(id.node_ptr as int).len() == j
        &&& forall|i: int| #![trigger ts[i]] 0 <= i < j ==> t.kids(id.node_ptr as int)[i] == ts[i].id.node_ptr && stands(g, t, ts[i]) && fresh(o1, ts[i])
        &&& runs_all(self.vm, g, self.code(), ts, s0, s1)
    }
    proof fn lemma_start_going(&self, x: usize, p: int, s: Seq<char>, o: &Tree<String>, t: &Tree<String>, parent: Option<NodeId>, id: NodeId, s0: T::Tstate)
        requires
            0 <= p < self.gram@.alts(x).len(), grown(o, t, parent, id), t.kids(id.node_ptr as int).len() == 0, t.nodes@[id.node_ptr as int].data@ == Seq::<char>::empty(),
        ensures self.going(x, p, s, 0, 0, o, t, t, parent, id, s0, s0, Seq::empty())
    {
        let g = self.gram@;
        g.lemma_nothing();
        assert(g.alts(x)[p].take(0) =~= Seq::<usize>::empty());
        assert(s.take(0) =~= Seq::<char>::empty());
        assert(g.spell(Seq::empty(), Seq::empty(), Seq::empty()));
        assert(t.valid(id));
        assert(runs_all(self.vm, g, self.code(), Seq::empty(), s0, s0));
    }
    proof fn lemma_going(&self, x: usize, p: int, s: Seq<char>, j: int, c: int, m: int, o: &Tree<String>, o1: &Tree<String>, t: &Tree<String>, u: &Tree<String>, parent: Option<NodeId>, id: NodeId,
        s0: T::Tstate, s1: T::Tstate, s2: T::Tstate, ts: Seq<PT>, pt: PT)
        requires
            j < self.gram@.alts(x)[p].len(), self.going(x, p, s, j, c, o, o1, t, parent, id, s0, s1, ts),
            self.done(self.gram@.alts(x)[p][j], s.skip(c), m, t, u, Some(id), s1, s2, pt),
        ensures self.going(x, p, s, j + 1, c + m, o, o1, u, parent, id, s0, s2, ts.push(pt))
    {
        let g = self.gram@; let q = g.alts(x)[p]; let ts2 = ts.push(pt);
        assert(g.spell(q.take(j + 1), ts2, s.take(c + m))) by {
            g.lemma_flat_push(ts, pt);
            assert(s.take(c + m) =~= s.take(c) + s.skip(c).take(m));
            assert forall|i: int| #![trigger ts2[i]] 0 <= i < ts2.len() implies g.is_tree(q.take(j + 1)[i], ts2[i]) by { if i < j { assert(ts2[i] == ts[i]); assert(q.take(j)[i] == q.take(j + 1)[i]); } }
        }
        lemma_grown(o, t, u, parent, id, pt.id);
        assert forall|i: int| o1.is_live(i) implies #[trigger] u.is_live(i) by { assert(t.is_live(i)); }
        assert(t.is_live(id.node_ptr as int));
        assert(same_node(t, u, id.node_ptr as int));
        assert forall|i: int| #![trigger ts2[i]] 0 <= i < j + 1 implies u.kids(id.node_ptr as int)[i] == ts2[i].id.node_ptr && stands(g, u, ts2[i]) && fresh(o1, ts2[i]) by {
            if i < j { assert(ts2[i] == ts[i]); lemma_stands(g, t, u, Some(id), pt.id, o1, ts[i]); }
            else { lemma_fresh(o1, t, pt); }
        }
        lemma_runs_push(self.vm, g, self.code(), ts, pt, s0, s1, s2);
    }
    proof fn lemma_over(&self, x: usize, p: int, s: Seq<char>, c: int, o: &Tree<String>, o1: &Tree<String>, t: &Tree<String>, parent: Option<NodeId>, id: NodeId, s0: T::Tstate, s1: T::Tstate, ts: Seq<PT>)
        requires
            self.built(), self.gram@.rules.contains_key(x), !self.gram@.term(x), 0 <= p < self.gram@.alts(x).len(),
            self.going(x, p, s, self.gram@.alts(x)[p].len() as int, c, o, o1, t, parent, id, s0, s1, ts),
        ensures ({
            let pt = PT { x, id, kids: ts };
            &&& self.gram@.spells(x, pt, s.take(c)) && stands(self.gram@, t, pt) && fresh(o, pt)
        })
    {
        let g = self.gram@; let q = g.alts(x)[p]; let pt = PT { x, id, kids: ts };
        assert(q.take(q.len() as int) =~= q);
        assert(g.is_forest(g.alts(x)[p], pt.kids));
        assert forall|i: int| #![trigger pt.kids[i]] 0 <= i < pt.kids.len() implies fresh(o, pt.kids[i]) by { assert(ts[i] == pt.kids[i]); lemma_fresh(o, o1, ts[i]); }
        assert forall|i: int| #![trigger pt.kids[i]] 0 <= i < pt.kids.len() implies t.kids(pt.id.node_ptr as int)[i] == pt.kids[i].id.node_ptr && stands(g, t, pt.kids[i]) by { assert(ts[i] == pt.kids[i]); }
    }
    proof fn lemma_at(&self, x: usize)
        requires self.built(), self.gram@.rules.contains_key(x)
        ensures self.tabled(x), self.rules_with_steuermaps@.contains_key(x), self.code().contains_key(x), x < self.elements@.len()
    { assert(self.rules_with_steuermaps@.dom().contains(x)); }
    proof fn lemma_no_entry(&self, x: usize, m: SetMember)
        requires self.tabled(x), !self.rules_with_steuermaps@[x].steuermap@.contains_key(m)
        ensures forall|q: int| !#[trigger] self.gram@.takes(self.start@, x, q, m)
    { assert(!self.rules_with_steuermaps@[x].table().contains_key(m)); }
    proof fn lemma_entry(&self, x: usize, m: SetMember) -> (p: int)
        requires self.tabled(x), self.rules_with_steuermaps@[x].steuermap@.contains_key(m)
        ensures 0 <= p < self.gram@.alts(x).len(), self.gram@.alts(x)[p] == made(self.rules_with_steuermaps@[x].steuermap@[m]),
            forall|q: int| #[trigger] self.gram@.takes(self.start@, x, q, m) ==> self.gram@.alts(x)[q] == self.gram@.alts(x)[p],
    {
        let t = self.rules_with_steuermaps@[x].table();
        assert(t.contains_key(m));
        choose|p: int| #[trigger] self.gram@.takes(self.start@, x, p, m) && t[m] == self.gram@.alts(x)[p]
    }
    /// where nothing was read the elements in progress still form a path at the left end
    proof fn lemma_sub_path(&self, x: usize, p: int, s: Seq<char>, j: int, c: int, path: Seq<usize>)
        requires
            self.built(), self.gram@.chain(path), path.len() > 0, path.last() == x, along(self.gram@, x, p, s, j, c), !self.gram@.term(self.gram@.alts(x)[p][j]),
            self.gram@.derive(self.gram@.alts(x)[p].take(j), s.take(c)), self.gram@.alts(x)[p][j] < self.gram@.kinds.len(),
        ensures ({
            let a = self.gram@.alts(x)[p][j];
            let sub = if c == 0 { path.push(a) } else { seq![a] };
            self.gram@.chain(sub) && sub.len() <= self.gram@.kinds.len()
        })
    {
        let g = self.gram@; let q = g.alts(x)[p]; let a = q[j];
        if c == 0 {
            g.lemma_word_first(q.take(j), s.take(0));
            assert forall|i: int| 0 <= i < j implies g.nulls(#[trigger] q[i]) by { assert(q.take(j)[i] == q[i]); }
            assert(g.left_at(q, j, a));
            assert(g.left_in(g.alts(x)[p], a));
            assert(g.left(x, a));
            let sub = path.push(a);
            if path.contains(a) {
                let i = path.index_of(a);
                g.lemma_chain_path(path, i, a);
                assert(g.left_path(a, a, (path.len() - i) as nat));
                assert(g.left_recursive(a));
            }
            assert forall|i: int| 0 < i < sub.len() implies #[trigger] g.left(sub[i - 1], sub[i]) by { if i < path.len() { assert(g.left(path[i - 1], path[i])); } }
            g.lemma_chain_len(sub);
        } else {
            g.lemma_chain_len(seq![a]);
        }
    }
    proof fn lemma_told(vm: &T, s: Seq<char>, d: &ParserData<T>)
        requires told(vm, s, d)
        ensures d.wf(), d.gram_ok(), d.element_types@.len() == d.element_data@.len()
    {}
    /// the list of elements is that of d
    proof fn lemma_listed(&self, d: &ParserData<T>)
        requires d.wf(), self.gram@ == d.gram(), self.elements@.len() == d.count(), forall|i: int| 0 <= i < d.count() ==> #[trigger] self.elements@[i] == d.verbose(i)
        ensures self.elements@.len() == self.gram@.kinds.len(), forall|i: int| 0 <= i < self.elements@.len() ==> #[trigger] self.listed(i)
    {
        assert forall|i: int| 0 <= i < self.elements@.len() implies #[trigger] self.listed(i) by { assert(self.elements@[i] == d.verbose(i)); }
    }
    /// the symbol named start is the only one of its name
    proof fn lemma_named_start(&self, d: &ParserData<T>)
        requires
            d.wf(), d.gram_ok(), self.gram@ == d.gram(), self.start@ < d.count(), d.verbose(self.start@ as int).name@ == "start"@, d.verbose(self.start@ as int).et == ElementType::NonTerminal,
            self.elements@.len() == d.count(), forall|i: int| 0 <= i < d.count() ==> #[trigger] self.elements@[i] == d.verbose(i),
        ensures
            self.gram@.ok(), !self.gram@.term(self.start@),
            self.is_start(self.start@ as int), forall|i: int| 0 <= i < self.elements@.len() && #[trigger] self.is_start(i) ==> i == self.start@,
    {
        assert(self.elements@[self.start@ as int] == d.verbose(self.start@ as int));
        assert forall|i: int| 0 <= i < self.elements@.len() && #[trigger] self.is_start(i) implies i == self.start@ by {
            assert(self.elements@[i] == d.verbose(i)); assert(d.verbose(i) == d.verbose(self.start@ as int));
        }
    }
    proof fn lemma_built(&self)
        requires
            self.gram@.ok(), self.gram@.complete(), self.gram@.rules.contains_key(self.start@), !self.gram@.term(self.start@),
            forall|x: usize| !#[trigger] self.gram@.left_recursive(x),
            self.elements@.len() == self.gram@.kinds.len(), forall|i: int| 0 <= i < self.elements@.len() ==> #[trigger] self.listed(i),
            self.rules_with_steuermaps@.dom() == self.gram@.rules.dom(),
            forall|k: usize| self.gram@.rules.contains_key(k) ==> #[trigger] self.tabled(k),
            self.start_idx is None, self.is_start(self.start@ as int), forall|i: int| 0 <= i < self.elements@.len() && #[trigger] self.is_start(i) ==> i == self.start@,
        ensures self.built()
    {}
    proof fn lemma_tables(&self, follow: &NamedSetsNoEmpty, g: Gram, start: usize)
        requires
            g == self.gram@, start == self.start@, self.rules_with_steuermaps@.dom() == g.rules.dom(), follow@.dom() == g.rules.dom(),
            forall|x: usize| #[trigger] follow@.contains_key(x) ==> g.is_follow(start, x, follow@[x]@),
            forall|k: usize| #[trigger] self.rules_with_steuermaps@.contains_key(k) ==> g.is_table(follow, k, self.rules_with_steuermaps@[k].table()),
        ensures forall|k: usize| g.rules.contains_key(k) ==> #[trigger] self.tabled(k)
    {
        assert forall|k: usize| g.rules.contains_key(k) implies #[trigger] self.tabled(k) by {
            assert(self.rules_with_steuermaps@.dom().contains(k)); assert(follow@.dom().contains(k));
            let t = self.rules_with_steuermaps@[k].table();
            assert forall|p: int, m: SetMember| #[trigger] g.takes(start, k, p, m) <==> g.chooses(follow, k, p, m) by {}
            assert forall|m: SetMember| #[trigger] t.contains_key(m) implies exists|p: int| #[trigger] g.takes(start, k, p, m) && t[m] == g.alts(k)[p] by {
                let p = choose|p: int| #[trigger] g.chooses(follow, k, p, m) && t[m] == g.alts(k)[p];
                assert(g.takes(start, k, p, m));
            }
        }
    }
}
@*/
