//! Shared set types used in FIRST/FOLLOW/Steuer computations.
//!
//! Provides SetMember and SetMemberWithEmpty and helpers to convert and
//! collect them in hash maps/sets.
use crate::parser_data::ElementIndex;
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;
use std::fmt;

#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
pub enum SetMemberWithEmpty {
    Char(char),
    Empty,
    Terminate,
}

/*@ #[verifier::external] @*/
impl fmt::Display for SetMemberWithEmpty {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SetMemberWithEmpty::Char(x) => {
                write!(f, "'{x}'")
            }
            SetMemberWithEmpty::Empty => {
                write!(f, "empty")
            }
            SetMemberWithEmpty::Terminate => {
                write!(f, "terminate")
            }
        }
    }
}

/*@ #[verifier::external] @*/
impl Into<String> for SetMemberWithEmpty {
    fn into(self) -> String {
        match self {
            SetMemberWithEmpty::Char(x) => String::from(x),
            SetMemberWithEmpty::Empty => String::from("empty"),
            SetMemberWithEmpty::Terminate => String::from("terminate"),
        }
    }
}

#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
pub enum SetMember {
    Char(char),
    Terminate,
}
/*@ #[verifier::external] @*/
impl fmt::Display for SetMember {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SetMember::Char(x) => {
                write!(f, "'{x}'")
            }
            SetMember::Terminate => {
                write!(f, "terminate")
            }
        }
    }
}

/*@ #[verifier::external] @*/
impl Into<String> for SetMember {
    fn into(self) -> String {
        match self {
            SetMember::Char(x) => String::from(x),
            SetMember::Terminate => String::from("terminate"),
        }
    }
}

/*@
/// #[derive(PartialEq)] compares structurally
impl vstd::std_specs::cmp::PartialEqSpecImpl for SetMemberWithEmpty {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SetMember {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
@*/
pub type HashMapOfSets<Ta, Tb> = HashMap<Ta, HashSet<Tb>>;
pub type NamedSets = HashMapOfSets<ElementIndex, SetMemberWithEmpty>;
pub type NamedSetsNoEmpty = HashMapOfSets<ElementIndex, SetMember>;

/*@
/// A set member without the empty word; `Empty` is no such member.
pub open spec fn no_empty(m: SetMemberWithEmpty) -> Option<SetMember> {
    match m {
        SetMemberWithEmpty::Char(c) => Some(SetMember::Char(c)),
        SetMemberWithEmpty::Terminate => Some(SetMember::Terminate),
        SetMemberWithEmpty::Empty => None,
    }
}
pub open spec fn with_empty(m: SetMember) -> SetMemberWithEmpty {
    match m { SetMember::Char(c) => SetMemberWithEmpty::Char(c), SetMember::Terminate => SetMemberWithEmpty::Terminate }
}
/// the member a lookahead stands for
pub open spec fn lookahead(c: Option<char>) -> SetMember {
    match c { Some(x) => SetMember::Char(x), None => SetMember::Terminate }
}
impl vstd::std_specs::convert::TryFromSpecImpl<SetMemberWithEmpty> for SetMember {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: SetMemberWithEmpty) -> Result<SetMember, &'static str> {
        match no_empty(v) { Some(m) => Ok(m), None => Err("") }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<Option<&char>> for SetMember {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Option<&char>) -> SetMember {
        match v { Some(x) => SetMember::Char(*x), None => SetMember::Terminate }
    }
}
@*/
impl TryFrom<SetMemberWithEmpty> for SetMember {
    type Error = &'static str;

    fn try_from(value: SetMemberWithEmpty) -> /*@ (r: @*/ Result<Self, Self::Error> /*@ )
        ensures r is Ok <==> no_empty(value) is Some, r is Ok ==> r->Ok_0 == no_empty(value)->0 @*/ {
        match value {
            SetMemberWithEmpty::Char(x) => Ok(SetMember::Char(x)),
            SetMemberWithEmpty::Empty => Err("was empty"),
            SetMemberWithEmpty::Terminate => Ok(SetMember::Terminate),
        }
    }
}

impl From<Option<&char>> for SetMember {
    fn from(value: Option<&char>) -> /*@ (r: @*/ Self /*@ )
        ensures r == lookahead(match value { Some(x) => Some(*x), None => None }) @*/ {
        match value {
            None => SetMember::Terminate,
            Some(x) => SetMember::Char(*x),
        }
    }
}
