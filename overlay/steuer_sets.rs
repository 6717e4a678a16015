//! Compute Steuer sets from FIRST and FOLLOW sets.
//!
//! Steuer sets determine which production to pick based on the next input
//! symbol (including termination). They are a key ingredient in the LL(1)
//! steuer map construction.
use crate::errors::GrammarError;
use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
use std::collections::HashSet;
use std::convert::TryFrom;
use std::iter::FromIterator;
/*@ use crate::sets::{no_empty, with_empty}; use vstd::std_specs::hash::*; use vstd::std_specs::iter::*;

/// m is selected by a symbol with this FIRST set, `follow` being able to come behind it
pub open spec fn selected(first: Set<SetMemberWithEmpty>, follow: Set<SetMember>, m: SetMember) -> bool {
    first.contains(with_empty(m)) || first.contains(SetMemberWithEmpty::Empty) && follow.contains(m)
}
pub open spec fn has_follow(first_sets: &NamedSets, follow_sets: &NamedSetsNoEmpty, k: usize) -> bool {
    first_sets@[k]@.contains(SetMemberWithEmpty::Empty) ==> follow_sets@.contains_key(k)
}
pub open spec fn is_selection(first_sets: &NamedSets, follow_sets: &NamedSetsNoEmpty, k: usize, s: Set<SetMember>) -> bool {
    forall|m: SetMember| #[trigger] s.contains(m) <==> selected(first_sets@[k]@, follow_sets@[k]@, m)
}
@*/

pub fn get_steuer_sets(
    first_sets: &NamedSets,
    follow_sets: &NamedSetsNoEmpty,
) -> /*@ (r: @*/ Result<NamedSetsNoEmpty, GrammarError> /*@ )
    ensures
        r is Ok <==> forall|k: usize| #[trigger] first_sets@.contains_key(k) ==> has_follow(first_sets, follow_sets, k),
        r is Ok ==> r->Ok_0@.dom() == first_sets@.dom(),
        r is Ok ==> forall|k: usize| #[trigger] first_sets@.contains_key(k) ==> is_selection(first_sets, follow_sets, k, r->Ok_0@[k]@),
        r is Err ==> (r->Err_0 is MissingFollowSet && first_sets@.contains_key(r->Err_0->MissingFollowSet_index)
            && !has_follow(first_sets, follow_sets, r->Err_0->MissingFollowSet_index)), @*/
{
    let mut steuer_sets = NamedSetsNoEmpty::new();
    for (name, first) in /*@ iter: @*/ first_sets.iter()
        /*@ invariant
            forall|i: int| 0 <= i < iter.seq().len() ==> first_sets@.contains_key(*(#[trigger] iter.seq()[i]).0) && first_sets@[*iter.seq()[i].0] == *iter.seq()[i].1,
            forall|k: usize| first_sets@.contains_key(k) ==> exists|i: int| 0 <= i < iter.seq().len() && *(#[trigger] iter.seq()[i]).0 == k,
            forall|i: int| 0 <= i < iter.index() ==> #[trigger] steuer_sets@.contains_key(*iter.seq()[i].0),
            forall|k: usize| #[trigger] steuer_sets@.contains_key(k) ==> first_sets@.contains_key(k)
                && has_follow(first_sets, follow_sets, k) && is_selection(first_sets, follow_sets, k, steuer_sets@[k]@), @*/
    {
        /*@ proof { assert(first_sets@.contains_key(*name)); assert(first_sets@[*name] == *first); } @*/
        let mut steuer = first
                .iter()
                .filter(/*@< |member: &&SetMemberWithEmpty| -> (b: bool) ensures b == (**member != SetMemberWithEmpty::Empty) { @*/ |member| /*@>@*/ **member != SetMemberWithEmpty::Empty /*@ } @*/)
                .map(/*@< |x: &SetMemberWithEmpty| -> (y: SetMember) requires *x != SetMemberWithEmpty::Empty ensures *x == with_empty(y) { @*/ |x| /*@>@*/ SetMember::try_from(*x).unwrap() /*@ } @*/).collect::<HashSet<_>>();
        /*@ proof {
            assert forall|m: SetMember| #[trigger] steuer@.contains(m) implies first@.contains(with_empty(m)) by {}
            assert forall|m: SetMember| first@.contains(with_empty(m)) implies #[trigger] steuer@.contains(m) by {}
        } @*/
        if first.contains(&SetMemberWithEmpty::Empty) {
            let follow = follow_sets
                .get(name)
                .ok_or(GrammarError::MissingFollowSet { index: *name })?;
            steuer.extend(follow);
        }
        steuer_sets.insert(*name, steuer);
    }
    /*@ proof { assert forall|k: usize| #[trigger] first_sets@.contains_key(k) implies steuer_sets@.contains_key(k) by {} } @*/
    Ok(steuer_sets)
}
