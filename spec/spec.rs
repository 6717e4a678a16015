use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
pub broadcast group group_std { vstd::std_specs::hash::group_hash_axioms, lemma_visible_step, lemma_skip0, lemma_skip1 }

pub broadcast proof fn lemma_skip0<A>(s: Seq<A>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_skip1<A>(s: Seq<A>) requires s.len() > 0 ensures #[trigger] s.skip(1) == s.drop_first() { assert(s.skip(1) =~= s.drop_first()); }

/// What is left to read: the chars this iterator will still yield.
#[verifier::prophetic]
pub open spec fn rest<I: Iterator + ?Sized>(i: &I) -> Seq<I::Item> { <I as IteratorSpec>::remaining(i) }
/// The iterator behaves as an iterator over a finite sequence.
pub open spec fn laws<I: Iterator + ?Sized>(i: &I) -> bool { <I as IteratorSpec>::obeys_prophetic_iter_laws(i) }

#[verifier::prophetic]
pub open spec fn will_end<I: Iterator + ?Sized>(i: &I) -> bool { <I as IteratorSpec>::will_return_none(i) }
pub open spec fn iter_decrease<I: Iterator + ?Sized>(i: &I) -> Option<nat> { <I as IteratorSpec>::decrease(i) }
/// how often the iterator can still yield, at most: what a loop over it counts down
pub open spec fn fuel<I: Iterator + ?Sized>(i: &I) -> nat { match iter_decrease(i) { Some(n) => n, None => 0 } }
/// it behaves as an iterator and has such a measure
pub open spec fn finite<I: Iterator + ?Sized>(i: &I) -> bool { laws(i) && iter_decrease(i) is Some }
/// `f` is `o` after a step that yielded something, or nothing
pub open spec fn burnt<I: Iterator + ?Sized>(f: &I, o: &I, some: bool) -> bool {
    &&& iter_decrease(f) is Some == iter_decrease(o) is Some
    &&& fuel(f) <= fuel(o)
    &&& some && iter_decrease(o) is Some ==> fuel(f) < fuel(o)
}

/// What a view with stop char `stop` and escape char `esc` shows of `s`; `e`: the char consumed last was the escape char.
pub open spec fn visible(s: Seq<char>, stop: Option<char>, esc: Option<char>, e: bool) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if stop == Some(s[0]) && !e { Seq::empty() }
    else { seq![s[0]] + visible(s.drop_first(), stop, esc, esc == Some(s[0])) }
}
pub broadcast proof fn lemma_visible_step(s: Seq<char>, stop: Option<char>, esc: Option<char>, e: bool)
    requires s.len() > 0, !(stop == Some(s[0]) && !e)
    ensures
        #[trigger] visible(s, stop, esc, e).drop_first() == visible(s.drop_first(), stop, esc, esc == Some(s[0])),
{
    assert(visible(s, stop, esc, e).drop_first() =~= visible(s.drop_first(), stop, esc, esc == Some(s[0])));
}

/// Length of the longest prefix whose chars all satisfy `p`.
pub open spec fn prefix_len(s: Seq<char>, p: spec_fn(char) -> bool) -> nat
    decreases s.len()
{
    if s.len() > 0 && p(s[0]) { 1 + prefix_len(s.drop_first(), p) } else { 0 }
}
pub broadcast proof fn lemma_prefix_len(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures
        #[trigger] prefix_len(s, p) <= s.len(),
        forall|i: int| 0 <= i < prefix_len(s, p) ==> p(#[trigger] s[i]),
        prefix_len(s, p) < s.len() ==> !p(s[prefix_len(s, p) as int]),
    decreases s.len()
{
    if s.len() > 0 && p(s[0]) {
        lemma_prefix_len(s.drop_first(), p);
        assert forall|i: int| 0 <= i < prefix_len(s, p) implies p(#[trigger] s[i]) by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } }
    }
}
pub proof fn lemma_prefix_len_unique(s: Seq<char>, p: spec_fn(char) -> bool, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> p(#[trigger] s[i]), n < s.len() ==> !p(s[n as int])
    ensures prefix_len(s, p) == n
{
    lemma_prefix_len(s, p);
    let m = prefix_len(s, p);
    if m < n { assert(p(s[m as int])); }
    if n < m { assert(p(s[n as int])); }
}
/// how many items are ahead (names the item type of an iterator to the solver)
#[verifier::prophetic]
pub open spec fn ahead<P: Iterator>(p: &P) -> nat { rest(p).len() }
}
