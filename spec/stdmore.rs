//! Assumed contracts of std functions that /repo does not call at the pinned commit: they are there
//! so that a changed function that calls one of them is still decided by proof. Each is exact.
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use crate::spec::*;
use crate::stdspec::*;
use std::collections::{HashMap, HashSet};
verus! {

// ---- mem, cmp
pub assume_specification<T>[ std::mem::drop ](x: T) ensures true;
pub assume_specification<T>[ std::mem::replace ](d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;

// ---- Option
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures r == (if o is Some { p } else { None });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None });
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> call_requires(f, ())
    ensures o is Some ==> r == o, o is None ==> call_ensures(f, (), r);
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: P) -> (r: Option<T>)
    requires o is Some ==> call_requires(f, (&o->0,))
    ensures o is None ==> r is None, o is Some ==> (r == o && call_ensures(f, (&o->0,), true)) || (r is None && call_ensures(f, (&o->0,), false));
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->0,))
    ensures o is None ==> r == d, o is Some ==> call_ensures(f, (o->0,), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->0,)), o is None ==> call_requires(d, ())
    ensures o is None ==> call_ensures(d, (), r), o is Some ==> call_ensures(f, (o->0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,))
    ensures o is None ==> !r, o is Some ==> call_ensures(f, (o->0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,))
    ensures o is None ==> r, o is Some ==> call_ensures(f, (o->0,), r);

// ---- Result
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> call_requires(f, (o->Ok_0,))
    ensures match o { Ok(v) => call_ensures(f, (v,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(v) => v, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](o: Result<T, E>, f: F) -> (r: T)
    requires o is Err ==> call_requires(f, (o->Err_0,))
    ensures match o { Ok(v) => r == v, Err(e) => call_ensures(f, (e,), r) };
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>>[ Result::<T, E>::or_else ](o: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires o is Err ==> call_requires(f, (o->Err_0,))
    ensures match o { Ok(v) => r == Ok::<T, G>(v), Err(e) => call_ensures(f, (e,), r) };
pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and ](o: Result<T, E>, f: F) -> (r: bool)
    requires o is Ok ==> call_requires(f, (o->Ok_0,))
    ensures match o { Ok(v) => call_ensures(f, (v,), r), Err(e) => !r };

// ---- slices
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { Some(x) => s@.len() > 0 && *x.0 == s@.last() && x.1@ == s@.drop_last(), None => s@.len() == 0 };

// ---- chars
pub uninterp spec fn is_num(c: char) -> bool;
pub open spec fn ascii_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
/// how the predicates hang together: what is alphanumeric is alphabetic or numeric; ASCII is as in its table.
/// (Stated where one of the functions below is called, not everywhere.)
pub open spec fn known_char(c: char) -> bool {
    &&& is_alnum(c) == (is_alpha(c) || is_num(c))
    &&& c as u32 <= 127 ==> is_alpha(c) == ascii_alpha(c) && is_num(c) == is_digit(c)
}
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool)
    ensures r == ascii_alpha(*c), known_char(*c);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool)
    ensures r == (ascii_alpha(*c) || is_digit(*c)), known_char(*c);
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == (*c as u32 <= 127), known_char(*c);
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool)
    ensures r == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\r' || *c as u32 == 12);
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool)
    ensures r == ({ let n = *c as u32; (33 <= n && n <= 47) || (58 <= n && n <= 64) || (91 <= n && n <= 96) || (123 <= n && n <= 126) });
pub uninterp spec fn is_control(c: char) -> bool;
pub uninterp spec fn is_upper(c: char) -> bool;
pub uninterp spec fn is_lower(c: char) -> bool;
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures r == is_num(c), known_char(c);
pub assume_specification[ char::is_control ](c: char) -> (r: bool) ensures r == is_control(c);
pub assume_specification[ char::is_uppercase ](c: char) -> (r: bool) ensures r == is_upper(c);
pub assume_specification[ char::is_lowercase ](c: char) -> (r: bool) ensures r == is_lower(c);
pub assume_specification[ char::is_digit ](c: char, radix: u32) -> (r: bool)
    requires radix == 10
    ensures r == is_digit(c);
pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>)
    requires radix == 10
    ensures r == (if is_digit(c) { Some((c as u32 - '0' as u32) as u32) } else { None });

// ---- numbers
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ isize::saturating_sub ](a: isize, b: isize) -> (r: isize)
    ensures r == (if a - b > isize::MAX { isize::MAX as int } else if a - b < isize::MIN { isize::MIN as int } else { a - b });
pub assume_specification[ isize::saturating_mul ](a: isize, b: isize) -> (r: isize)
    ensures r == (if a * b > isize::MAX { isize::MAX as int } else if a * b < isize::MIN { isize::MIN as int } else { a * b });
pub assume_specification[ isize::abs ](a: isize) -> (r: isize)
    requires a > isize::MIN
    ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification[ isize::checked_abs ](a: isize) -> (r: Option<isize>)
    ensures r == (if a == isize::MIN { None } else if a < 0 { Some((-a) as isize) } else { Some(a) });
pub assume_specification[ isize::checked_neg ](a: isize) -> (r: Option<isize>)
    ensures r == (if a == isize::MIN { None } else { Some((-a) as isize) });
pub assume_specification[ isize::unsigned_abs ](a: isize) -> (r: usize)
    ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification[ isize::signum ](a: isize) -> (r: isize)
    ensures r == (if a < 0 { -1int } else if a == 0 { 0 } else { 1 });
pub assume_specification[ isize::is_negative ](a: isize) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ isize::is_positive ](a: isize) -> (r: bool) ensures r == (a > 0);

// ---- sets
pub assume_specification<T, S, A>[ HashSet::<T, S, A>::is_superset ](a: &HashSet<T, S, A>, b: &HashSet<T, S, A>) -> (r: bool)
    where A: std::alloc::Allocator, T: Eq + std::hash::Hash, S: std::hash::BuildHasher
    ensures obeys_key_model::<T>() && builds_valid_hashers::<S>() ==> r == b@.subset_of(a@);
pub assume_specification<T, S, A>[ HashSet::<T, S, A>::is_disjoint ](a: &HashSet<T, S, A>, b: &HashSet<T, S, A>) -> (r: bool)
    where A: std::alloc::Allocator, T: Eq + std::hash::Hash, S: std::hash::BuildHasher
    ensures obeys_key_model::<T>() && builds_valid_hashers::<S>() ==> r == a@.disjoint(b@);

// ---- Rc
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ <std::rc::Rc<T, A> as AsRef<T>>::as_ref ](x: &std::rc::Rc<T, A>) -> (r: &T)
    ensures r == &**x;

// ---- copies
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(s@[i], #[trigger] r@[i]);
pub assume_specification<T: Default, E>[ Result::<T, E>::unwrap_or_default ](o: Result<T, E>) -> (r: T)
    ensures match o { Ok(v) => r == v, Err(_) => call_ensures(T::default, (), r) };
pub assume_specification<'a>[ <std::str::Chars<'a> as Iterator>::count ](c: std::str::Chars<'a>) -> (r: usize)
    ensures r == rest(&c).len();
pub assume_specification<'a>[ <std::str::Chars<'a> as Iterator>::last ](c: std::str::Chars<'a>) -> (r: Option<char>)
    ensures r == (if rest(&c).len() == 0 { None } else { Some(rest(&c).last()) });
pub assume_specification<'a, T>[ <std::slice::Iter<'a, T> as Iterator>::count ](c: std::slice::Iter<'a, T>) -> (r: usize)
    ensures r == rest(&c).len();
pub assume_specification<'a, T>[ <std::slice::Iter<'a, T> as Iterator>::last ](c: std::slice::Iter<'a, T>) -> (r: Option<&'a T>)
    ensures r == (if rest(&c).len() == 0 { None } else { Some(rest(&c).last()) });
pub assume_specification<'a, T>[ <std::slice::Iter<'a, T> as Iterator>::nth ](c: &mut std::slice::Iter<'a, T>, n: usize) -> (r: Option<&'a T>)
    ensures
        r == (if rest(&*old(c)).len() <= n { None } else { Some(rest(&*old(c))[n as int]) }),
        rest(&*final(c)) == rest(&*old(c)).skip(n + 1);

// ---- identity, order, lengths
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ std::rc::Rc::<T, A>::ptr_eq ](x: &std::rc::Rc<T, A>, y: &std::rc::Rc<T, A>) -> (r: bool)
    ensures r ==> *x == *y;
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r == vstd::utf8::encode_utf8(s@).len(), s@.len() <= r <= 4 * s@.len();
}
