use crate::errors::ParserError;
use crate::peekables::{ParseProcess, TPeekable};
use crate::tree::{NodeId, Tree};
use crate::vms::VM;

pub struct CountingVm {}

impl CountingVm {
    pub fn increment_counter(state: &mut usize) -> /*@ (r: @*/ Result<(), String> /*@ ) ensures r is Ok, *final(state) == *old(state) + 1 @*/ {
        /*@ proof { assume_count_fits(*state); } @*/
        *state += 1;
        Ok(())
    }
}

impl VM for CountingVm {
    /*@
    open spec fn read(&self, name: Seq<char>, s: Seq<char>) -> Option<Seq<usize>> { Some(seq![0usize]) }
    open spec fn does(&self, t0: Tree<String>, s0: usize, n: NodeId, i: usize, t1: Tree<String>, s1: usize) -> bool { t1 == t0 && s1 == s0 + 1 }
    open spec fn is_new(s: usize) -> bool { s == 0 }
    @*/
    type Tstate = usize;
    type Tinstrution = usize;

    fn parse_instructions<T>(
        &self,
        _prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<Self::Tinstrution>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let mut c = to_parse.next();
        /*@ let ghost mut n: nat = if c.is_some() { 1 } else { 0 }; @*/
        while let Some(_cc) = c
            /*@ invariant
                    old(to_parse).inner_laws(), n <= old(to_parse).left(),
                    c is Some ==> (&*to_parse).moved(&*old(to_parse), n),
                    c is None ==> (&*to_parse).drained(&*old(to_parse), n) && n == old(to_parse).seen().len(),
                ensures c is None
                decreases old(to_parse).left() - n + (if c is Some { 1int } else { 0 }) @*/
        {
            /*@ let ghost tp0 = *to_parse; @*/ c = to_parse.next()
            /*@ ; proof { if c.is_some() { n = n + 1; } else { crate::peekables::lemma_drained(&*old(to_parse), &tp0, &*to_parse, n); } } @*/
        }
        Ok(/*@ { let v: Vec<usize> = @*/ vec![0] /*@ ; proof { assert(v@ =~= seq![0usize]); } v } @*/ )
    }

    fn execute_instruction(
        &self,
        /*@< _a1 @*/ _ /*@>@*/: &mut Tree<String>,
        /*@< _a2 @*/ _ /*@>@*/: NodeId,
        /*@< _a3 @*/ _ /*@>@*/: &Self::Tinstrution,
        state: &mut usize,
    ) {
        CountingVm::increment_counter(state).unwrap()
    }

    fn create_new_state() -> Self::Tstate {
        0
    }
}
