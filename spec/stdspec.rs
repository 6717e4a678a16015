//! Assumed contracts on the standard library (nothing here is about /repo's own code).
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::iter::IteratorSpec;

use crate::spec::*;
use std::collections::{HashMap, HashSet};
use std::iter::{Enumerate, Peekable};
verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExPeekable<I: Iterator>(Peekable<I>);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExEnumerate<I>(Enumerate<I>);

pub assume_specification<I: Iterator>[ Peekable::<I>::peek ](p: &mut Peekable<I>) -> (r: Option<&I::Item>)
    ensures
        laws(&*final(p)) == laws(&*old(p)),
        laws(&*old(p)) ==> burnt(&*final(p), &*old(p), false),
        laws(&*old(p)) ==> {
            &&& rest(&*final(p)) == rest(&*old(p))
            &&& r.is_some() == (rest(&*old(p)).len() > 0)
            &&& r.is_some() ==> *r.unwrap() == rest(&*old(p))[0]
        };

pub assume_specification<I: Iterator>[ Peekable::<I>::peek_mut ](p: &mut Peekable<I>) -> (r: Option<&mut I::Item>)
    ensures
        laws(&*final(p)) == laws(&*old(p)),
        laws(&*old(p)) ==> burnt(&*final(p), &*old(p), false),
        laws(&*old(p)) ==> match r {
            Some(x) => rest(&*old(p)).len() > 0 && *x == rest(&*old(p))[0]
                && rest(&*final(p)) == rest(&*old(p)).update(0, *final(x)),
            None => rest(&*old(p)).len() == 0 && rest(&*final(p)) == rest(&*old(p)),
        };

pub assume_specification<I: Iterator, F: FnOnce(&I::Item) -> bool>[ Peekable::<I>::next_if ](p: &mut Peekable<I>, func: F) -> (r: Option<I::Item>)
    requires forall|x: &I::Item| func.requires((x,))
    ensures
        laws(&*final(p)) == laws(&*old(p)),
        laws(&*old(p)) ==> burnt(&*final(p), &*old(p), r is Some),
        laws(&*old(p)) ==> {
            let s = rest(&*old(p));
            if s.len() == 0 { r.is_none() && rest(&*final(p)) == s }
            else {
                ||| (r == Some(s[0]) && rest(&*final(p)) == s.drop_first() && func.ensures((&s[0],), true))
                ||| (r.is_none() && rest(&*final(p)) == s && func.ensures((&s[0],), false))
            }
        };

/// `x == y` on values of this type means that they are the same value.
pub uninterp spec fn eq_is_identity<T>() -> bool;
pub broadcast axiom fn axiom_char_eq() ensures #[trigger] eq_is_identity::<char>();

pub uninterp spec fn same<A, T: ?Sized>(a: A, b: &T) -> bool;
pub broadcast axiom fn axiom_same<A>(a: A, b: &A) ensures #[trigger] same::<A, A>(a, b) <==> a == *b;

pub assume_specification<I: Iterator, T: ?Sized>[ Peekable::<I>::next_if_eq ](p: &mut Peekable<I>, expected: &T) -> (r: Option<I::Item>)
    where I::Item: PartialEq<T>
    ensures
        laws(&*final(p)) == laws(&*old(p)),
        laws(&*old(p)) ==> burnt(&*final(p), &*old(p), r is Some),
        laws(&*old(p)) && eq_is_identity::<I::Item>() ==> {
            let s = rest(&*old(p));
            if s.len() > 0 && same(s[0], expected) { r == Some(s[0]) && rest(&*final(p)) == s.drop_first() }
            else { r.is_none() && rest(&*final(p)) == s }
        };

pub assume_specification<'a, K, V, S, A, Q>[ HashMap::<K, V, S, A>::get_mut ](m: &'a mut HashMap<K, V, S, A>, k: &Q) -> (r: Option<&'a mut V>)
    where
        A: std::alloc::Allocator,
        K: Eq + std::hash::Hash + std::borrow::Borrow<Q>,
        Q: std::hash::Hash + Eq + ?Sized,
        S: std::hash::BuildHasher,
    ensures
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> match r {
            Some(v) => exists|key: K| old(m)@.contains_key(key) && #[trigger] borrow_same::<K, Q>(key, k)
                && *v == old(m)@[key] && final(m)@ == old(m)@.insert(key, *final(v)),
            None => final(m)@ == old(m)@ && !contains_borrowed_key(old(m)@, k),
        };
/// a loop over `&map` visits what a loop over `map.iter()` visits
pub assume_specification<'a, K, V, S, A: std::alloc::Allocator>[ <&'a HashMap<K, V, S, A> as IntoIterator>::into_iter ](m: &'a HashMap<K, V, S, A>) -> (r: std::collections::hash_map::Iter<'a, K, V>)
    ensures
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> {
            &&& rest(&r).len() == m@.dom().len()
            &&& forall|i: int| 0 <= i < rest(&r).len() ==> m@.contains_key(*(#[trigger] rest(&r)[i]).0) && m@[*rest(&r)[i].0] == *rest(&r)[i].1
            &&& forall|k: K| #[trigger] m@.contains_key(k) ==> rest(&r).contains((&k, &m@[k]))
            &&& rest(&r).no_duplicates()
            &&& iter_decrease(&r) is Some
        };
/// a loop over `&set` visits every element once
pub assume_specification<'a, T, S, A: std::alloc::Allocator>[ <&'a HashSet<T, S, A> as IntoIterator>::into_iter ](m: &'a HashSet<T, S, A>) -> (r: std::collections::hash_set::Iter<'a, T>)
    ensures
        obeys_key_model::<T>() && builds_valid_hashers::<S>() ==> {
            &&& rest(&r).len() == m@.len()
            &&& forall|i: int| 0 <= i < rest(&r).len() ==> m@.contains(*(#[trigger] rest(&r)[i]))
            &&& forall|x: T| #[trigger] m@.contains(x) ==> exists|i: int| 0 <= i < rest(&r).len() && *(#[trigger] rest(&r)[i]) == x
            &&& rest(&r).no_duplicates()
            &&& iter_decrease(&r) is Some
        };
/// a map consumed by a loop: every entry once
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(A)]
pub struct ExMapIntoIter<K, V, A: std::alloc::Allocator>(std::collections::hash_map::IntoIter<K, V, A>);
pub trait VIntoIter<K, V>: Sized {
    fn v_into_iter(self) -> (r: std::collections::hash_map::IntoIter<K, V>)
        ensures laws(&r), iter_decrease(&r) is Some, Self::entries(self, rest(&r));
    spec fn entries(m: Self, r: Seq<(K, V)>) -> bool;
}
impl<K: Eq + std::hash::Hash, V> VIntoIter<K, V> for HashMap<K, V> {
    open spec fn entries(m: Self, r: Seq<(K, V)>) -> bool {
        obeys_key_model::<K>() ==> {
            &&& r.len() == m@.dom().len() && r.no_duplicates()
            &&& forall|i: int| 0 <= i < r.len() ==> m@.contains_key((#[trigger] r[i]).0) && m@[r[i].0] == r[i].1
            &&& forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
        }
    }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: std::collections::hash_map::IntoIter<K, V>) { self.into_iter() }
}
pub uninterp spec fn borrow_same<K, Q: ?Sized>(key: K, k: &Q) -> bool;
pub broadcast axiom fn axiom_borrow_same<K>(key: K, k: &K) ensures #[trigger] borrow_same::<K, K>(key, k) <==> key == *k;

#[verifier::prophetic]
pub open spec fn enumerates<I: Iterator>(r: &Enumerate<I>, i: &I) -> bool {
    &&& laws(r) == laws(i)
    &&& will_end(r) == will_end(i)
    &&& iter_decrease(r) == iter_decrease(i)
    &&& laws(i) ==> rest(r) == Seq::new(rest(i).len(), |k: int| (k as usize, rest(i)[k]))
}
pub broadcast axiom fn axiom_enumerate_laws<'a, T>(e: &Enumerate<std::slice::Iter<'a, T>>)
    ensures #[trigger] <Enumerate<std::slice::Iter<'a, T>> as vstd::std_specs::iter::IteratorSpec>::obeys_prophetic_iter_laws(e);
pub broadcast axiom fn axiom_enumerate_decrease<'a, T>(e: &Enumerate<std::slice::Iter<'a, T>>)
    ensures #[trigger] <Enumerate<std::slice::Iter<'a, T>> as vstd::std_specs::iter::IteratorSpec>::decrease(e) is Some;
/// `x.m(..)` is checked as `x.v_m(..)`: Verus takes no assumed contract for a provided trait method.
pub trait IterExt: Iterator + Sized {
    fn v_enumerate(self) -> (r: Enumerate<Self>)
        ensures enumerates(&r, &self);
    fn v_peekable(self) -> (r: Peekable<Self>)
        ensures laws(&r) == laws(&self), laws(&self) ==> rest(&r) == rest(&self), iter_decrease(&r) is Some == iter_decrease(&self) is Some;
}
impl<I: Iterator> IterExt for I {
    #[verifier::external_body]
    fn v_enumerate(self) -> (r: Enumerate<Self>) { self.enumerate() }
    #[verifier::external_body]
    fn v_peekable(self) -> (r: Peekable<Self>) { self.peekable() }
}

pub trait VExtend<S>: Sized {
    spec fn extended(o: Self, s: S, n: Self) -> bool;
    fn v_extend(&mut self, s: S) ensures Self::extended(*old(self), s, *final(self));
}
impl<T> VExtend<Vec<T>> for Vec<T> {
    open spec fn extended(o: Self, s: Vec<T>, n: Self) -> bool { n@ == o@ + s@ }
    #[verifier::external_body]
    fn v_extend(&mut self, s: Vec<T>) { self.extend(s) }
}
impl<'a, T: Copy> VExtend<&'a Vec<T>> for Vec<T> {
    open spec fn extended(o: Self, s: &'a Vec<T>, n: Self) -> bool { n@ == o@ + s@ }
    #[verifier::external_body]
    fn v_extend(&mut self, s: &'a Vec<T>) { self.extend(s) }
}
impl<T: Eq + std::hash::Hash> VExtend<HashSet<T>> for HashSet<T> {
    open spec fn extended(o: Self, s: HashSet<T>, n: Self) -> bool { obeys_key_model::<T>() ==> n@ == o@.union(s@) }
    #[verifier::external_body]
    fn v_extend(&mut self, s: HashSet<T>) { self.extend(s) }
}
impl<'a, T: Eq + std::hash::Hash + Copy> VExtend<&'a HashSet<T>> for HashSet<T> {
    open spec fn extended(o: Self, s: &'a HashSet<T>, n: Self) -> bool { obeys_key_model::<T>() ==> n@ == o@.union(s@) }
    #[verifier::external_body]
    fn v_extend(&mut self, s: &'a HashSet<T>) { self.extend(s) }
}
impl<'a, T: Eq + std::hash::Hash + Copy> VExtend<&'a Vec<T>> for HashSet<T> {
    open spec fn extended(o: Self, s: &'a Vec<T>, n: Self) -> bool { obeys_key_model::<T>() ==> n@ == o@.union(s@.to_set()) }
    #[verifier::external_body]
    fn v_extend(&mut self, s: &'a Vec<T>) { self.extend(s) }
}

pub assume_specification<T: Default>[ std::mem::take ](x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x));

pub assume_specification<T>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    where T: PartialEq
    ensures eq_is_identity::<T>() ==> r == s@.contains(*x);
pub broadcast axiom fn axiom_usize_eq() ensures #[trigger] eq_is_identity::<usize>();

pub assume_specification<T, S, A>[ HashSet::<T, S, A>::is_subset ](a: &HashSet<T, S, A>, b: &HashSet<T, S, A>) -> (r: bool)
    where A: std::alloc::Allocator, T: Eq + std::hash::Hash, S: std::hash::BuildHasher
    ensures obeys_key_model::<T>() && builds_valid_hashers::<S>() ==> r == a@.subset_of(b@);

pub broadcast axiom fn axiom_char_to_string(c: &char, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(c, s) ==> s@ == seq![*c];
// ---- #[derive(PartialEq, Eq, Hash)] on /repo's key types is structural
pub broadcast axiom fn axiom_key_setmember() ensures #[trigger] obeys_key_model::<crate::sets::SetMember>();
pub broadcast axiom fn axiom_key_setmember_e() ensures #[trigger] obeys_key_model::<crate::sets::SetMemberWithEmpty>();
pub broadcast axiom fn axiom_key_verbose() ensures #[trigger] obeys_key_model::<crate::parser_data::ElementVerbose>();
pub broadcast axiom fn axiom_eq_setmember() ensures #[trigger] eq_is_identity::<crate::sets::SetMember>();
/// A String is determined by its chars.
pub broadcast axiom fn axiom_string_ext(a: String, b: String)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
/// String::from(s) has the chars of s
pub broadcast axiom fn axiom_string_from_obeys() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec();
pub broadcast axiom fn axiom_string_from<'a>(s: &'a str) ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(s))@ == s@;
/// HashSet::from([x; N]) and HashSet::clone
pub broadcast axiom fn axiom_hashset_from_obeys<T: Eq + std::hash::Hash, const N: usize>()
    ensures #[trigger] <HashSet<T> as vstd::std_specs::convert::FromSpec<[T; N]>>::obeys_from_spec();
pub broadcast axiom fn axiom_hashset_from<T: Eq + std::hash::Hash, const N: usize>(a: [T; N])
    ensures obeys_key_model::<T>() ==> (#[trigger] <HashSet<T> as vstd::std_specs::convert::FromSpec<[T; N]>>::from_spec(a))@ == a@.to_set();
pub assume_specification<T: Clone, S: Clone, A: std::alloc::Allocator + Clone>[ <HashSet<T, S, A> as Clone>::clone ](s: &HashSet<T, S, A>) -> (r: HashSet<T, S, A>)
    ensures clone_is_same::<T>() ==> r@ == s@;
/// Clone on values of this type returns the same value (derived on Copy types).
pub uninterp spec fn clone_is_same<T>() -> bool;
pub broadcast axiom fn axiom_clone_member() ensures #[trigger] clone_is_same::<crate::sets::SetMember>();
pub broadcast axiom fn axiom_clone_member_e() ensures #[trigger] clone_is_same::<crate::sets::SetMemberWithEmpty>();
// ---- filter / map: what is kept of an iterator that is read to its end
pub broadcast proof fn lemma_filter_all<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F, r: std::iter::Filter<I, F>)
    requires
        laws(&i), iter_decrease(&i) is Some, will_end(&r),
        forall|k: int| 0 <= k < i.remaining().len() ==> call_requires(f, (&#[trigger] i.remaining()[k],)),
        #[trigger] vstd::std_specs::iter::filter_post(i, f, r),
    ensures
        will_end(&i),
        forall|j: int| 0 <= j < i.remaining().len() ==> call_ensures(f, (&#[trigger] i.remaining()[j],), false) || r.remaining().contains(i.remaining()[j]),
{
    vstd::std_specs::iter::filter_postcondition(i, f, r);
    let keep = vstd::std_specs::iter::filter_keep(r);
    let t = i.remaining().take(keep.len() as int);
    t.lemma_filter_index(|j: int| keep[j]);
    assert forall|j: int| 0 <= j < i.remaining().len() implies call_ensures(f, (&#[trigger] i.remaining()[j],), false) || r.remaining().contains(i.remaining()[j]) by {
        assert(t[j] == i.remaining()[j]);
        assert(call_ensures(f, (&i.remaining()[j],), keep[j]));
    }
}

pub broadcast axiom fn axiom_hashset_from_iter<T: Eq + std::hash::Hash>(s: Seq<T>, r: HashSet<T>)
    ensures obeys_key_model::<T>() && #[trigger] <HashSet<T> as vstd::std_specs::iter::FromIteratorSpec<T>>::from_iter_ensures(s, r) ==> r@ == s.to_set() ;
pub broadcast proof fn lemma_hashset_from_iter<T: Eq + std::hash::Hash>(s: Seq<T>, r: HashSet<T>, x: T)
    ensures obeys_key_model::<T>() && #[trigger] <HashSet<T> as vstd::std_specs::iter::FromIteratorSpec<T>>::from_iter_ensures(s, r)
        ==> (#[trigger] r@.contains(x) <==> s.contains(x)),
{ axiom_hashset_from_iter(s, r); }
/// iterating over references: what is in the set of the things referred to
pub broadcast proof fn lemma_unref_in<T>(s: Seq<&T>, j: int)
    requires 0 <= j < s.len()
    ensures (#[trigger] s.unref().to_set()).contains(*(#[trigger] s[j])),
{ assert(s.unref()[j] == *s[j]); }
pub broadcast proof fn lemma_unref_out<T>(s: Seq<&T>, x: T)
    ensures #[trigger] s.unref().to_set().contains(x) ==> exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]) == x,
{
    if s.unref().to_set().contains(x) {
        let j = choose|j: int| 0 <= j < s.unref().len() && s.unref()[j] == x;
        assert(*s[j] == x);
    }
}
pub broadcast proof fn lemma_as_ref<T>(s: Seq<T>)
    ensures
        #[trigger] s.as_ref().len() == s.len(),
        forall|k: int| 0 <= k < s.len() ==> *(s.as_ref()[k]) == #[trigger] s[k],
{}
pub broadcast proof fn lemma_map_all<I: Iterator, B, F: FnMut(I::Item) -> B, C: FromIterator<B>>(i: I, f: F, r: std::iter::Map<I, F>, c: C)
    requires laws(&i), will_end(&r), #[trigger] vstd::std_specs::iter::map_post(i, f, r),
        #[trigger] <C as vstd::std_specs::iter::FromIteratorSpec<B>>::from_iter_ensures(r.remaining(), c),
    ensures
        will_end(&i), r.remaining().len() == i.remaining().len(),
        forall|k: int| 0 <= k < i.remaining().len() ==> call_ensures(f, (#[trigger] i.remaining()[k],), r.remaining()[k]) && r.remaining().contains(r.remaining()[k]),
{
    vstd::std_specs::iter::map_postcondition(i, f, r);
}
/// `map` under a name of its own: what lemma_map_all says, stated at the call.
pub trait VMap: Iterator + Sized {
    fn v_map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::iter::Map<Self, F>)
        requires laws(&self), forall|k: int| 0 <= k < rest(&self).len() ==> call_requires(f, (#[trigger] rest(&self)[k],))
        ensures
            laws(&r), iter_decrease(&r) is Some == iter_decrease(&self) is Some,
            will_end(&r) ==> rest(&r).len() == rest(&self).len()
                && (forall|k: int| 0 <= k < rest(&r).len() ==> call_ensures(f, (rest(&self)[k],), #[trigger] rest(&r)[k]))
                && (forall|k: int| 0 <= k < rest(&self).len() ==> call_ensures(f, (#[trigger] rest(&self)[k],), rest(&r)[k]) && rest(&r).contains(rest(&r)[k]));
}
impl<I: Iterator> VMap for I {
    fn v_map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::iter::Map<Self, F>) {
        proof { assert forall|k: int| 0 <= k < <Self as IteratorSpec>::remaining(&self).len() implies call_requires(f, (#[trigger] <Self as IteratorSpec>::remaining(&self)[k],)) by { assert(call_requires(f, (rest(&self)[k],))); } }
        let ghost g = f;
        let ghost i = self;
        let r = self.map(f);
        proof { vstd::std_specs::iter::map_postcondition(i, g, r); }
        r
    }
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(A)]
pub struct ExDifference<'a, T: 'a, S: 'a, A: std::alloc::Allocator>(std::collections::hash_set::Difference<'a, T, S, A>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExCopied<I>(std::iter::Copied<I>);
pub trait VDifference<'a, T: Eq + std::hash::Hash>: Sized {
    fn v_difference(&'a self, other: &'a HashSet<T>) -> (r: std::collections::hash_set::Difference<'a, T, std::hash::RandomState, std::alloc::Global>)
        ensures laws(&r), iter_decrease(&r) is Some, Self::is_difference(*self, other@, rest(&r));
    spec fn is_difference(a: Self, b: Set<T>, r: Seq<&'a T>) -> bool;
}
impl<'a, T: Eq + std::hash::Hash> VDifference<'a, T> for HashSet<T> {
    open spec fn is_difference(a: Self, b: Set<T>, r: Seq<&'a T>) -> bool {
        obeys_key_model::<T>() ==> {
            &&& forall|i: int| 0 <= i < r.len() ==> a@.contains(*(#[trigger] r[i])) && !b.contains(*r[i])
            &&& forall|x: T| a@.contains(x) && !b.contains(x) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]) == x
        }
    }
    #[verifier::external_body]
    fn v_difference(&'a self, other: &'a HashSet<T>) -> (r: std::collections::hash_set::Difference<'a, T, std::hash::RandomState, std::alloc::Global>) { self.difference(other) }
}
/// `collect` under a name of its own: its contract with the item type spelled out.
pub trait VCollect<T>: Iterator<Item = T> + Sized {
    fn v_collect<B: FromIterator<T>>(self) -> (r: B)
        requires laws(&self)
        ensures will_end(&self), <B as vstd::std_specs::iter::FromIteratorSpec<T>>::from_iter_ensures(rest(&self), r);
}
impl<T, I: Iterator<Item = T>> VCollect<T> for I {
    fn v_collect<B: FromIterator<T>>(self) -> (r: B) { self.collect::<B>() }
}
pub trait VCopied<'a, T: Copy + 'a>: Iterator<Item = &'a T> + Sized {
    fn v_copied(self) -> (r: std::iter::Copied<Self>)
        ensures laws(&r) == laws(&self), will_end(&r) ==> will_end(&self), iter_decrease(&r) is Some == iter_decrease(&self) is Some,
            laws(&self) ==> rest(&r).len() == rest(&self).len() && (forall|i: int| 0 <= i < rest(&r).len() ==> #[trigger] rest(&r)[i] == *rest(&self)[i])
                && (forall|i: int| 0 <= i < rest(&self).len() ==> *(#[trigger] rest(&self)[i]) == rest(&r)[i]);
}
impl<'a, T: Copy + 'a, I: Iterator<Item = &'a T>> VCopied<'a, T> for I {
    #[verifier::external_body]
    fn v_copied(self) -> (r: std::iter::Copied<Self>) { self.copied() }
}

/// Option::copied and Option::cloned
pub trait VOptCopied<T> {
    spec fn opt(&self) -> Option<T>;
    fn v_copied(self) -> (r: Option<T>) where T: Copy ensures r == self.opt();
    fn v_cloned(self) -> (r: Option<T>) where T: Clone ensures r is Some == self.opt() is Some, r is Some ==> call_ensures(T::clone, (&self.opt()->0,), r->0);
}
impl<'a, T> VOptCopied<T> for Option<&'a T> {
    open spec fn opt(&self) -> Option<T> { match self { Some(x) => Some(**x), None => None } }
    fn v_copied(self) -> (r: Option<T>) where T: Copy { match self { Some(x) => Some(*x), None => None } }
    fn v_cloned(self) -> (r: Option<T>) where T: Clone { match self { Some(x) => Some(x.clone()), None => None } }
}

/// Result::unwrap and Option::unwrap where a panic is the documented answer to an error: it returns only if there is a value
pub trait VUnwrap<T, E> {
    spec fn value(&self) -> Option<T>;
    fn v_unwrap(self) -> (r: T) ensures self.value() == Some(r);
}
impl<T, E: std::fmt::Debug> VUnwrap<T, E> for Result<T, E> {
    open spec fn value(&self) -> Option<T> { match self { Ok(v) => Some(*v), Err(_) => None } }
    #[verifier::external_body]
    fn v_unwrap(self) -> (r: T) { self.unwrap() }
}
impl<T> VUnwrap<T, ()> for Option<T> {
    open spec fn value(&self) -> Option<T> { *self }
    #[verifier::external_body]
    fn v_unwrap(self) -> (r: T) { self.unwrap() }
}
/// the texts of a message; what they say is not modelled
pub trait VTexts: Sized {
    fn v_texts(self) -> (r: std::vec::IntoIter<String>) ensures laws(&r), iter_decrease(&r) is Some;
}
impl<T: Into<String>, I: Iterator<Item = T>> VTexts for I {
    #[verifier::external_body]
    fn v_texts(self) -> (r: std::vec::IntoIter<String>) { self.map(|x| x.into()).collect::<Vec<String>>().into_iter() }
}
pub trait VJoin {
    fn v_join(&self, sep: &str) -> (r: String);
}
impl VJoin for Vec<String> {
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
pub trait VCloned<'a, T: Clone + 'a>: Iterator<Item = &'a T> + Sized {
    fn v_cloned(self) -> (r: std::vec::IntoIter<T>);
}
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> VCloned<'a, T> for I {
    #[verifier::external_body]
    fn v_cloned(self) -> (r: std::vec::IntoIter<T>) { self.cloned().collect::<Vec<T>>().into_iter() }
}
/// (names an index for the prover)
pub open spec fn nth(k: int) -> bool { true }
pub trait VPosition: Iterator + Sized {
    /// the first place where the predicate holds; the predicate is a function of its argument
    fn v_position<F: FnMut(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires laws(&*old(self)), iter_decrease(&*old(self)) is Some, forall|k: int| 0 <= k < rest(&*old(self)).len() ==> call_requires(f, (#[trigger] rest(&*old(self))[k],))
        ensures match r {
            Some(i) => i < rest(&*old(self)).len() && call_ensures(f, (rest(&*old(self))[i as int],), true)
                && forall|k: int| 0 <= k < i ==> call_ensures(f, (#[trigger] rest(&*old(self))[k],), false),
            None => forall|k: int| #![trigger rest(&*old(self))[k]] #![trigger nth(k)] 0 <= k < rest(&*old(self)).len() ==> call_ensures(f, (rest(&*old(self))[k],), false) && nth(k),
        };
}
impl<I: Iterator> VPosition for I {
    #[verifier::external_body]
    fn v_position<F: FnMut(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>) { self.position(f) }
}

// ---- a counter used through an exclusive reference only; it is assumed never to run over
pub uninterp spec fn counted(c: &std::sync::atomic::AtomicUsize) -> nat;
#[verifier::external_body]
pub fn v_counter(v: usize) -> (r: std::sync::atomic::AtomicUsize) ensures counted(&r) == v { std::sync::atomic::AtomicUsize::new(v) }
pub trait VCounter {
    spec fn count(&self) -> nat;
    fn v_fetch_add(&mut self, n: usize, order: std::sync::atomic::Ordering) -> (r: usize)
        ensures r == old(self).count(), final(self).count() == old(self).count() + n, final(self).count() <= usize::MAX;
}
impl VCounter for std::sync::atomic::AtomicUsize {
    open spec fn count(&self) -> nat { counted(self) }
    #[verifier::external_body]
    fn v_fetch_add(&mut self, n: usize, order: std::sync::atomic::Ordering) -> (r: usize) { self.fetch_add(n, order) }
}

// ---- chars and numbers ----
pub open spec fn is_ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub uninterp spec fn is_alpha(c: char) -> bool;
pub uninterp spec fn is_alnum(c: char) -> bool;
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == is_alpha(c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == is_alnum(c);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == is_digit(*c);
pub open spec fn is_name_char(c: char) -> bool { is_alnum(c) || c == '_' }

/// the number a digit string denotes
pub open spec fn dec_value(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { dec_value(s.drop_last()) * 10 + ((s.last() as nat) - ('0' as nat)) as nat }
}
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(s[i]) }

pub open spec fn ws_len(s: Seq<char>) -> nat { prefix_len(s, |c: char| is_ws(c)) }
pub open spec fn digit_len(s: Seq<char>) -> nat { prefix_len(s, |c: char| is_digit(c)) }
pub open spec fn name_len(s: Seq<char>) -> nat { prefix_len(s, |c: char| is_name_char(c)) }
pub broadcast proof fn lemma_digit_len(s: Seq<char>)
    ensures #[trigger] digit_len(s) <= s.len(), all_digits(s.take(digit_len(s) as int)),
{ lemma_prefix_len(s, |c: char| is_digit(c)); }
pub proof fn lemma_digit_len_unique(s: Seq<char>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> is_digit(#[trigger] s[i]), n < s.len() ==> !is_digit(s[n as int])
    ensures digit_len(s) == n
{ lemma_prefix_len_unique(s, |c: char| is_digit(c), n); }
pub proof fn lemma_ws_len_unique(s: Seq<char>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> is_ws(#[trigger] s[i]), n < s.len() ==> !is_ws(s[n as int])
    ensures ws_len(s) == n
{ lemma_prefix_len_unique(s, |c: char| is_ws(c), n); }
pub proof fn lemma_name_len_unique(s: Seq<char>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> is_name_char(#[trigger] s[i]), n < s.len() ==> !is_name_char(s[n as int])
    ensures name_len(s) == n
{ lemma_prefix_len_unique(s, |c: char| is_name_char(c), n); }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
pub uninterp spec fn parses<F>(s: Seq<char>) -> Option<F>;
pub assume_specification<F>[ str::parse::<F> ](s: &str) -> (r: Result<F, F::Err>)
    where F: std::str::FromStr
    ensures match r { Ok(v) => parses::<F>(s@) == Some(v), Err(_) => parses::<F>(s@).is_none() };
pub broadcast axiom fn axiom_parse_usize(s: Seq<char>)
    ensures s.len() > 0 && all_digits(s) ==> #[trigger] parses::<usize>(s)
        == (if dec_value(s) <= usize::MAX { Some(dec_value(s) as usize) } else { None });
pub broadcast axiom fn axiom_parse_isize(s: Seq<char>)
    ensures
        s.len() > 0 && all_digits(s) ==> #[trigger] parses::<isize>(s)
            == (if dec_value(s) <= isize::MAX { Some(dec_value(s) as isize) } else { None }),
        s.len() > 1 && s[0] == '-' && all_digits(s.drop_first()) ==> parses::<isize>(s)
            == (if dec_value(s.drop_first()) <= isize::MAX + 1 { Some((-(dec_value(s.drop_first()) as int)) as isize) } else { None });

/// b to the power of e
pub open spec fn to_power(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * to_power(b, (e - 1) as nat) } }
pub proof fn lemma_power(b: int, e: nat, v: int)
    requires b >= 0
    ensures to_power(b, e) >= 0, v >= 0 ==> v * to_power(b, e) >= 0
    decreases e
{
    if e > 0 {
        lemma_power(b, (e - 1) as nat, v);
        let p = to_power(b, (e - 1) as nat);
        assert(b * p >= 0) by (nonlinear_arith) requires b >= 0, p >= 0;
    }
    let p = to_power(b, e);
    assert(v >= 0 ==> v * p >= 0) by (nonlinear_arith) requires p >= 0;
}
pub assume_specification[ usize::checked_pow ](b: usize, e: u32) -> (r: Option<usize>)
    ensures r == (if to_power(b as int, e as nat) <= usize::MAX { Some(to_power(b as int, e as nat) as usize) } else { None });
pub assume_specification<T>[ Option::<Option<T>>::flatten ](b: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match b { Some(x) => x, None => None });
pub assume_specification[ <isize as TryFrom<usize>>::try_from ](v: usize) -> (r: Result<isize, <isize as TryFrom<usize>>::Error>)
    ensures r is Ok <==> v <= isize::MAX, r is Ok ==> r->Ok_0 == v;
/// strings are their chars: what a match on a str compares
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
/// println!("{x}"): printing itself is not modelled; the caller keeps account of what it prints
#[verifier::external_body]
pub fn v_println<T: std::fmt::Display>(x: &T) { println!("{x}") }

/// Machine arithmetic: fewer than usize::MAX chars are ever consumed through one view.
#[verifier::external_body]
pub proof fn assume_count_fits(n: usize) ensures n < usize::MAX {}

pub broadcast axiom fn axiom_string_str_obeys() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec();
/// a String equals a &str of the same text
pub broadcast axiom fn axiom_string_str_eq(a: &String, b: &&str)
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(a, b) == (a@ == (*b)@);
pub broadcast group group_stdspec { axiom_clone_member, axiom_clone_member_e, axiom_hashset_from_obeys, axiom_hashset_from, lemma_as_ref, lemma_hashset_from_iter, lemma_map_all, axiom_hashset_from_iter, lemma_unref_in, lemma_unref_out, lemma_filter_all, axiom_string_from_obeys, axiom_string_from, axiom_char_eq, axiom_string_str_eq, axiom_string_str_obeys, axiom_usize_eq, lemma_digit_len, axiom_parse_usize, axiom_enumerate_laws, axiom_enumerate_decrease, axiom_string_ext, axiom_key_setmember, axiom_key_setmember_e, axiom_key_verbose, axiom_eq_setmember, axiom_char_to_string, axiom_parse_isize, axiom_same, axiom_borrow_same }
}
