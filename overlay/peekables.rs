//! Peekable adapters used by the rule and script parsers.
//!
//! Provides a generic TPeekable trait and wrappers that allow peeking and
//! conditional consumption while tracking positions, which is helpful for
//! error reporting during parsing.

use std::iter::Peekable;
use std::str::Chars;
/*@
use vstd::std_specs::iter::IteratorSpecImpl;

@*/
/*@
pub broadcast proof fn lemma_moved<'a, T: TPeekable<Item = char>>(a: &ParseProcess<'a, T>, b: &ParseProcess<'a, T>, c: &ParseProcess<'a, T>, n: nat, m: nat)
    requires #[trigger] b.moved(a, n), #[trigger] c.moved(b, m)
    ensures c.moved(a, n + m)
{
    assert(a.below().skip(n as int).skip(m as int) =~= a.below().skip((n + m) as int));
    assert(a.seen().skip(n as int).skip(m as int) =~= a.seen().skip((n + m) as int));
}
pub proof fn lemma_still<'a, T: TPeekable<Item = char>>(a: &ParseProcess<'a, T>)
    requires a.inner_laws()
    ensures a.moved(a, 0)
{ assert(a.below().skip(0) =~= a.below()); assert(a.seen().skip(0) =~= a.seen()); }
/// a step that yields nothing, at the end
pub proof fn lemma_drained<'a, T: TPeekable<Item = char>>(a: &ParseProcess<'a, T>, b: &ParseProcess<'a, T>, c: &ParseProcess<'a, T>, n: nat)
    requires b.moved(a, n), c.drained(b, 0)
    ensures c.drained(a, n)
{ assert(b.below().skip(0) =~= b.below()); assert(b.seen().skip(0) =~= b.seen()); }
pub broadcast group group_moves { lemma_moved, lemma_moved_seen }
/// a view that is given up leaves the underlying stream as it was
pub proof fn lemma_given_up<'a, T: TPeekable<Item = char>>(g: ParseProcess<'a, T>)
    requires has_resolved(g)
    ensures finite(&g.src_end()) == g.inner_laws(), rest(&g.src_end()) == g.below(), fuel(&g.src_end()) == g.left()
{}
/// what a caller needs of moved where it is hidden
pub broadcast proof fn lemma_moved_seen<'a, T: TPeekable<Item = char>>(a: &ParseProcess<'a, T>, b: &ParseProcess<'a, T>, n: nat)
    requires #[trigger] b.moved(a, n)
    ensures b.inner_laws(), a.inner_laws(), n <= a.seen().len(), b.seen() == a.seen().skip(n as int), b.pos() == a.pos() + n, b.src_end() == a.src_end(),
        b.seen().len() == a.seen().len() - n, b.left() + n <= a.left(),
{}
@*/

pub trait TPeekable: Iterator {
    fn peek(&mut self) -> /*@ (r: @*/ Option<&Self::Item> /*@ )
        ensures
            laws(&*final(self)) == laws(&*old(self)),
            laws(&*old(self)) ==> burnt(&*final(self), &*old(self), false),
            laws(&*old(self)) ==> {
                &&& rest(&*final(self)) == rest(&*old(self))
                &&& r.is_some() == (rest(&*old(self)).len() > 0)
                &&& r.is_some() ==> *r.unwrap() == rest(&*old(self))[0]
            } @*/ ;

    fn peek_mut(&mut self) -> /*@ (r: @*/ Option<&mut Self::Item> /*@ )
        ensures
            laws(&*final(self)) == laws(&*old(self)),
            laws(&*old(self)) ==> burnt(&*final(self), &*old(self), false),
            laws(&*old(self)) ==> match r {
                Some(x) => rest(&*old(self)).len() > 0 && *x == rest(&*old(self))[0]
                    && (*final(x) == *x ==> rest(&*final(self)) == rest(&*old(self))),
                None => rest(&*old(self)).len() == 0 && rest(&*final(self)) == rest(&*old(self)),
            } @*/ ;

    fn next_if /*@ <F: FnOnce(&Self::Item) -> bool> @*/ (&mut self, func: /*@< F @*/ impl FnOnce(&Self::Item) -> bool /*@>@*/) -> /*@ (r: @*/ Option<Self::Item> /*@ )
        requires forall|x: &Self::Item| func.requires((x,))
        ensures
            laws(&*final(self)) == laws(&*old(self)),
            laws(&*old(self)) ==> burnt(&*final(self), &*old(self), r is Some),
            laws(&*old(self)) ==> {
                let s = rest(&*old(self));
                if s.len() == 0 { r.is_none() && rest(&*final(self)) == s }
                else {
                    ||| (r == Some(s[0]) && rest(&*final(self)) == s.drop_first() && func.ensures((&s[0],), true))
                    ||| (r.is_none() && rest(&*final(self)) == s && func.ensures((&s[0],), false))
                }
            } @*/ ;

    fn next_if_eq(&mut self, expected: &Self::Item) -> /*@ (r: @*/ Option<Self::Item> /*@ )
        ensures
            laws(&*final(self)) == laws(&*old(self)),
            laws(&*old(self)) ==> burnt(&*final(self), &*old(self), r is Some),
            laws(&*old(self)) && eq_is_identity::<Self::Item>() ==> {
                let s = rest(&*old(self));
                if s.len() > 0 && s[0] == *expected { r == Some(s[0]) && rest(&*final(self)) == s.drop_first() }
                else { r.is_none() && rest(&*final(self)) == s }
            } @*/ ;
}

/*@ #[verifier::reject_recursive_types(T)] @*/
pub struct PeekableWrapper<T>
where
    T: Iterator,
    <T as Iterator>::Item: PartialEq,
{
    peekable: Peekable<T>,
}

/*@
impl<T> PeekableWrapper<T>
where
    T: Iterator,
    <T as Iterator>::Item: PartialEq,
{
    pub closed spec fn inner(&self) -> Peekable<T> { self.peekable }
}

impl<T> IteratorSpecImpl for PeekableWrapper<T>
where
    T: Iterator,
    <T as Iterator>::Item: PartialEq,
{
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { laws(&self.peekable) }
    #[verifier::prophetic]
    closed spec fn remaining(&self) -> Seq<T::Item> { rest(&self.peekable) }
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { will_end(&self.peekable) }
    closed spec fn decrease(&self) -> Option<nat> { iter_decrease(&self.peekable) }
    closed spec fn peek(&self, i: int) -> Option<T::Item> { None }
}
@*/
impl<T> Iterator for PeekableWrapper<T>
where
    T: Iterator,
    <T as Iterator>::Item: PartialEq,
{
    type Item = T::Item;

    fn next(&mut self) -> Option<Self::Item> {
        self.peekable.next()
    }
}

impl<T> TPeekable for PeekableWrapper<T>
where
    T: Iterator,
    <T as Iterator>::Item: PartialEq,
{
    fn peek(&mut self) -> Option<&Self::Item> {
        self.peekable.peek()
    }

    fn peek_mut(&mut self) -> Option<&mut Self::Item> {
        self.peekable.peek_mut()
    }

    fn next_if /*@ <F: FnOnce(&Self::Item) -> bool> @*/ (&mut self, func: /*@< F @*/ impl FnOnce(&Self::Item) -> bool /*@>@*/) -> Option<Self::Item> {
        /*@ proof { assert(ahead(self) >= 0); } @*/
        self.peekable.next_if(func)
    }

    fn next_if_eq(&mut self, expected: &Self::Item) -> Option<Self::Item> {
        self.peekable.next_if_eq(expected)
    }
}

impl<T> PeekableWrapper<T>
where
    T: Iterator,
    T::Item: PartialEq,
{
    pub fn new(peekable: Peekable<T>) -> /*@ (r: @*/ PeekableWrapper<T> /*@ )
        ensures laws(&r) == laws(&peekable), rest(&r) == rest(&peekable), iter_decrease(&r) == iter_decrease(&peekable) @*/
    {
        PeekableWrapper { peekable }
    }
}

impl<'a> PeekableWrapper<Chars<'a>> {
    pub fn from_str(input: &'a str) -> /*@ (r: @*/ Self /*@ )
        ensures finite(&r), rest(&r) == input@ @*/ {
        Self::new(input.chars().peekable())
    }
}

pub struct ParseProcess<'a, T>
where
    T: TPeekable<Item = char>,
{
    to_parse: &'a mut T,
    current_position: usize,
    stop_on: Option<char>,
    escape_char: Option<char>,
    escape: bool,
}

impl<'a, T> ParseProcess<'a, T>
where
    T: TPeekable<Item = char>,
{
    pub fn new(
        peekable: &mut T,
        stop_on: Option<char>,
        escape_char: Option<char>,
    ) -> /*@ (r: @*/ ParseProcess<'_, T> /*@ )
        ensures
            r.stop() == stop_on, r.esc() == escape_char, !r.escaped(), r.pos() == 0,
            r.inner_laws() == finite(&*old(peekable)), r.below() == rest(&*old(peekable)), r.left() == fuel(&*old(peekable)),
            *final(peekable) == r.src_end(), @*/ {
        ParseProcess {
            to_parse: peekable,
            current_position: 0,
            stop_on,
            escape_char,
            escape: false,
        }
    }


    pub fn new_nested(
        peekable: &mut T,
        stop_on: Option<char>,
        escape_char: Option<char>,
        global_position: usize,
    ) -> /*@ (r: @*/ ParseProcess<'_, T> /*@ )
        ensures
            r.stop() == stop_on, r.esc() == escape_char, !r.escaped(), r.pos() == global_position,
            r.inner_laws() == finite(&*old(peekable)), r.below() == rest(&*old(peekable)), r.left() == fuel(&*old(peekable)),
            *final(peekable) == r.src_end(), @*/ {
        ParseProcess {
            to_parse: peekable,
            current_position: global_position,
            stop_on,
            escape_char,
            escape: false,
        }
    }
    pub fn cur_pos(&self) -> /*@ (r: @*/ usize /*@ ) ensures r == self.pos() @*/ {
        self.current_position
    }
}

/*@
impl<'a, T> IteratorSpecImpl for ParseProcess<'a, T>
where
    T: TPeekable<Item = char>,
{
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.inner_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<char> { self.seen() }
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { if self.inner_laws() { Some(self.left()) } else { None } }
    closed spec fn peek(&self, i: int) -> Option<char> { None }
}
@*/
impl<'a, T> Iterator for ParseProcess<'a, T>
where
    T: TPeekable<Item = char>,
{
    type Item = char;
    fn next(&mut self) -> /*@ (r: @*/ Option<char> /*@ )
        ensures
            final(self).inner_laws() == old(self).inner_laws(),
            final(self).stop() == old(self).stop(), final(self).esc() == old(self).esc(), final(self).src_end() == old(self).src_end(),
            old(self).inner_laws() ==> match r {
                Some(c) => old(self).seen().len() > 0 && c == old(self).seen()[0] && final(self).taken(&*old(self)) && final(self).moved(&*old(self), 1),
                None => (old(self).seen().len() == 0) && final(self).unmoved(&*old(self)) && final(self).drained(&*old(self), 0),
            } @*/
    {
        if !self.check_allowed() {
            return None;
        }
        let res = self.to_parse.next();
        if res.is_some() {
            /*@ proof { assume_count_fits(self.current_position); } @*/
            self.current_position += 1;
            self.escape = res == self.escape_char;
        }
        res
    }
}

impl<'a, T> TPeekable for ParseProcess<'a, T>
where
    T: TPeekable<Item = char>,
{
    fn peek(&mut self) -> /*@ (r: @*/ Option<&char> /*@ )
        ensures
            final(self).inner_laws() == old(self).inner_laws(),
            final(self).stop() == old(self).stop(), final(self).esc() == old(self).esc(), final(self).src_end() == old(self).src_end(),
            old(self).inner_laws() ==> final(self).unmoved(&*old(self)) && final(self).moved(&*old(self), 0) @*/
    {
        if !self.check_allowed() {
            return None;
        }
        self.to_parse.peek()
    }

    fn peek_mut(&mut self) -> Option<&mut char> {
        if !self.check_allowed() {
            return None;
        }
        self.to_parse.peek_mut()
    }
    fn next_if /*@ <F: FnOnce(&char) -> bool> @*/ (&mut self, func: /*@< F @*/ impl FnOnce(&char) -> bool /*@>@*/) -> /*@ (r: @*/ Option<char> /*@ )
        ensures
            final(self).inner_laws() == old(self).inner_laws(),
            final(self).stop() == old(self).stop(), final(self).esc() == old(self).esc(), final(self).src_end() == old(self).src_end(),
            old(self).inner_laws() ==> match r {
                Some(c) => old(self).seen().len() > 0 && c == old(self).seen()[0] && final(self).taken(&*old(self)) && final(self).moved(&*old(self), 1) && func.ensures((&old(self).seen()[0],), true),
                None => (old(self).seen().len() == 0 || func.ensures((&old(self).seen()[0],), false)) && final(self).unmoved(&*old(self)) && final(self).moved(&*old(self), 0),
            } @*/
    {
        if !self.check_allowed() {
            return None;
        }
        /*@ proof { assert(ahead(self) >= 0); assert(ahead(&*self.to_parse) >= 0); } @*/
        let res = self.to_parse.next_if(func);
        if res.is_some() {
            /*@ proof { assume_count_fits(self.current_position); } @*/
            self.current_position += 1;
            self.escape = res == self.escape_char;
        }
        res
    }

    fn next_if_eq(&mut self, expected: &char) -> /*@ (r: @*/ Option<char> /*@ )
        ensures
            final(self).inner_laws() == old(self).inner_laws(),
            final(self).stop() == old(self).stop(), final(self).esc() == old(self).esc(), final(self).src_end() == old(self).src_end(),
            old(self).inner_laws() ==> match r {
                Some(c) => old(self).seen().len() > 0 && c == old(self).seen()[0] && final(self).taken(&*old(self)) && final(self).moved(&*old(self), 1),
                None => (old(self).seen().len() == 0 || old(self).seen()[0] != *expected) && final(self).unmoved(&*old(self)) && final(self).moved(&*old(self), 0),
            } @*/
    {
        if !self.check_allowed() {
            return None;
        }
        let res = self.to_parse.next_if_eq(expected);
        if res.is_some() {
            /*@ proof { assume_count_fits(self.current_position); } @*/
            self.current_position += 1;
            self.escape = res == self.escape_char;
        }
        res
    }
}

impl<'a, T> ParseProcess<'a, T>
where
    T: TPeekable<Item = char>,
{
    /*@
    pub closed spec fn src(&self) -> T { *self.to_parse }
    /// the underlying stream when this view is given up
    #[verifier::prophetic]
    pub closed spec fn src_end(&self) -> T { *final(self.to_parse) }
    pub closed spec fn inner_laws(&self) -> bool { finite(&*self.to_parse) }
    /// how many chars are left at most: what the loops that read a text count down
    pub closed spec fn left(&self) -> nat { fuel(&*self.to_parse) }
    /// What is left in the underlying stream.
    #[verifier::prophetic]
    pub closed spec fn below(&self) -> Seq<char> { rest(&*self.to_parse) }
    pub closed spec fn stop(&self) -> Option<char> { self.stop_on }
    pub closed spec fn esc(&self) -> Option<char> { self.escape_char }
    pub closed spec fn escaped(&self) -> bool { self.escape }
    pub closed spec fn pos(&self) -> int { self.current_position as int }
    #[verifier::prophetic]
    pub open spec fn seen(&self) -> Seq<char> { visible(self.below(), self.stop(), self.esc(), self.escaped()) }
    @*/
    /*@
    /// nothing was consumed
    #[verifier::prophetic]
    pub open spec fn unmoved(&self, o: &Self) -> bool {
        self.below() == o.below() && self.pos() == o.pos() && self.escaped() == o.escaped()
    }
    /// the chars at the front of the view were consumed, `n` of them
    #[verifier::prophetic]
    pub open spec fn moved(&self, o: &Self, n: nat) -> bool { self.shifted(o, n) && self.left() + n <= o.left() }
    /// the same after a call that yielded nothing: nothing is known of the measure of a stream that has ended
    #[verifier::prophetic]
    pub open spec fn drained(&self, o: &Self, n: nat) -> bool { self.shifted(o, n) && (self.below().len() > 0 ==> self.left() + n <= o.left()) }
    #[verifier::prophetic]
    pub open spec fn shifted(&self, o: &Self, n: nat) -> bool {
        &&& self.inner_laws() && o.inner_laws()
        &&& self.stop() == o.stop() && self.esc() == o.esc() && self.src_end() == o.src_end()
        &&& n <= o.below().len() && n <= o.seen().len()
        &&& self.below() == o.below().skip(n as int)
        &&& self.seen() == o.seen().skip(n as int)
        &&& self.pos() == o.pos() + n
        &&& self.escaped() == (if n == 0 { o.escaped() } else { o.esc() == Some(o.below()[n - 1]) })
    }
    /// exactly one char was consumed
    #[verifier::prophetic]
    pub open spec fn taken(&self, o: &Self) -> bool {
        &&& o.below().len() > 0
        &&& self.below() == o.below().drop_first()
        &&& self.pos() == o.pos() + 1
        &&& self.escaped() == (o.esc() == Some(o.below()[0]))
        &&& self.seen() == o.seen().drop_first()
    }
    @*/
    fn check_allowed(&mut self) -> /*@ (r: @*/ bool /*@ )
        ensures
            final(self).inner_laws() == old(self).inner_laws(),
            final(self).stop() == old(self).stop(), final(self).esc() == old(self).esc(), final(self).src_end() == old(self).src_end(),
            final(self).escaped() == old(self).escaped(), final(self).pos() == old(self).pos(),
            old(self).inner_laws() ==> final(self).left() <= old(self).left(),
            old(self).inner_laws() ==> {
                &&& final(self).below() == old(self).below()
                &&& r <==> old(self).seen().len() > 0 || old(self).below().len() == 0
            } @*/
    {
        if let (/*@< Some(c) @*/ Some(&c) /*@>@*/, Some(stop_char)) = (self.to_parse.peek(), self.stop_on) {
            if /*@< *c @*/ c /*@>@*/ == stop_char && !self.escape {
                return false;
            }
        }
        true
    }
}
