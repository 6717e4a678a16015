//! Low-level helper functions used by the grammar and script parsers.
//!
//! These functions parse small lexical units (whitespace, digits, identifiers)
//! from a ParseProcess and are reusable building blocks for higher-level
//! parsers.

use crate::errors::ParserError;
use crate::errors::ParserError::{EndOfCharsError, Impossible, UnexpectedCharError};
use crate::peekables::{ParseProcess, TPeekable};
/*@
/// The error about the char in front of which parsing stopped, with its position.
pub open spec fn first_char_error(e: ParserError, s: Seq<char>, pos: int) -> bool {
    if s.len() == 0 { e matches ParserError::EndOfCharsError { pos: p } && p == pos }
    else { e matches ParserError::UnexpectedCharError { chr, pos: p, expected: _ } && p == pos && chr == s[0] }
}
@*/

pub fn parse_whitespace<T>(to_parse: &mut ParseProcess<T>)
where
    T: TPeekable<Item = char>,
/*@    requires old(to_parse).inner_laws()
    ensures final(to_parse).moved(&*old(to_parse), ws_len(old(to_parse).seen())) @*/
{
    /*@ let ghost mut n: nat = 0; @*/
    while let Some(x) = to_parse.peek()
        /*@ invariant_except_break
                (&*to_parse).moved(&*old(to_parse), n) && forall|i: int| 0 <= i < n ==> is_ws(#[trigger] old(to_parse).seen()[i]),
            ensures
                (&*to_parse).moved(&*old(to_parse), n) && (forall|i: int| 0 <= i < n ==> is_ws(#[trigger] old(to_parse).seen()[i]))
                    && (n < old(to_parse).seen().len() ==> !is_ws(old(to_parse).seen()[n as int])),
            decreases old(to_parse).left() - n @*/
    {
        if !x.is_whitespace() {
            break;
        }
        to_parse.next();
        /*@ proof { n = n + 1; } @*/
    }
    /*@ proof { lemma_ws_len_unique(old(to_parse).seen(), n); } @*/
}

pub fn parse_digits<T>(to_parse: &mut ParseProcess<T>) -> /*@ (r: @*/ Result<String, ParserError> /*@ ) @*/
where
    T: TPeekable<Item = char>,
/*@    requires old(to_parse).inner_laws()
    ensures ({
        let n = digit_len(old(to_parse).seen());
        &&& r is Ok && r->Ok_0@ == old(to_parse).seen().take(n as int)
        &&& final(to_parse).moved(&*old(to_parse), n)
    }) @*/
{
    let mut cur_char = to_parse.peek();
    let mut number_string = String::new();
    /*@ let ghost mut n: nat = 0; @*/
    while let Some(x) = cur_char
        /*@ invariant_except_break
                after_borrow(*to_parse).moved(&*old(to_parse), n) && number_string@ == old(to_parse).seen().take(n as int)
                    && (cur_char is Some <==> after_borrow(*to_parse).seen().len() > 0) && (cur_char is Some ==> *cur_char->0 == after_borrow(*to_parse).seen()[0])
                    && (forall|i: int| 0 <= i < n ==> is_digit(#[trigger] old(to_parse).seen()[i])),
            ensures
                after_borrow(*to_parse).moved(&*old(to_parse), n) && number_string@ == old(to_parse).seen().take(n as int)
                    && (forall|i: int| 0 <= i < n ==> is_digit(#[trigger] old(to_parse).seen()[i]))
                    && (n < old(to_parse).seen().len() ==> !is_digit(old(to_parse).seen()[n as int])),
            decreases old(to_parse).left() - n @*/
    {
        if !x.is_ascii_digit() {
            break;
        }
        let pos = to_parse.cur_pos();
        number_string.push(to_parse.next().ok_or(EndOfCharsError { pos })?);
        cur_char = to_parse.peek();
        /*@ proof { n = n + 1; } @*/
    }
    /*@ proof { lemma_digit_len_unique(old(to_parse).seen(), n); } @*/
    Ok(number_string)
}

fn parse_required_digits<T>(to_parse: &mut ParseProcess<T>) -> /*@ (r: @*/ Result<String, ParserError> /*@ ) @*/
where
    T: TPeekable<Item = char>,
/*@    requires old(to_parse).inner_laws()
    ensures ({
        let s = old(to_parse).seen();
        let n = digit_len(s);
        match r {
            Ok(v) => n > 0 && v@ == s.take(n as int) && final(to_parse).moved(&*old(to_parse), n),
            Err(e) => n == 0 && final(to_parse).moved(&*old(to_parse), 0) && first_char_error(e, s, old(to_parse).pos()),
        }
    }) @*/
{
    let pos = to_parse.cur_pos();
    let cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?;
    if !cur_char.is_ascii_digit() {
        return Err(UnexpectedCharError {
            chr: *cur_char,
            pos: to_parse.cur_pos(),
            expected: String::from("digit expected"),
        });
    }

    parse_digits(to_parse)
}

pub fn parse_usize<T>(to_parse: &mut ParseProcess<T>) -> /*@ (r: @*/ Result<usize, ParserError> /*@ ) @*/
where
    T: TPeekable<Item = char>,
/*@    requires old(to_parse).inner_laws()
    ensures ({
        let s = old(to_parse).seen();
        let n = digit_len(s);
        let v = dec_value(s.take(n as int));
        &&& final(to_parse).moved(&*old(to_parse), n)
        &&& match r {
            Ok(x) => n > 0 && v == x,
            Err(e) => if n == 0 { first_char_error(e, s, old(to_parse).pos()) } else { v > usize::MAX },
        }
    }) @*/
{
    parse_required_digits(to_parse)?
        .parse::<usize>()
        .map_err(|_| Impossible)
}

pub fn parse_isize<T>(to_parse: &mut ParseProcess<T>) -> /*@ (r: @*/ Result<isize, ParserError> /*@ ) @*/
where
    T: TPeekable<Item = char>,
/*@    requires old(to_parse).inner_laws()
    ensures ({
        let s = old(to_parse).seen();
        let m = if s.len() > 0 && s[0] == '-' { 1nat } else { 0 };
        let n = digit_len(s.skip(m as int));
        let v = dec_value(s.skip(m as int).take(n as int)) as int;
        let x = if m == 1 { -v } else { v };
        &&& final(to_parse).moved(&*old(to_parse), m + n)
        &&& match r {
            Ok(y) => n > 0 && x == y,
            Err(e) => if n == 0 { first_char_error(e, s.skip(m as int), old(to_parse).pos() + m) } else { x > isize::MAX || x < isize::MIN },
        }
    }) @*/
{
    let pos = to_parse.cur_pos();
    let cur_char = *to_parse.peek().ok_or(EndOfCharsError { pos })?;

    let mut number_string = String::new();
    if cur_char == '-' {
        to_parse.next();
        number_string.push('-');
    } else if !cur_char.is_ascii_digit() {
        return Err(UnexpectedCharError {
            chr: cur_char,
            pos: to_parse.cur_pos(),
            expected: String::from("digit or - expected"),
        });
    }

    number_string.push_str(&parse_required_digits(to_parse)?);
    /*@ proof {
        assert(cur_char == '-' ==> number_string@.drop_first() =~= old(to_parse).seen().skip(1).take(digit_len(old(to_parse).seen().skip(1)) as int));
        assert(cur_char != '-' ==> number_string@ =~= old(to_parse).seen().skip(0).take(digit_len(old(to_parse).seen().skip(0)) as int));
    } @*/
    number_string.parse::<isize>().map_err(|_| Impossible)
}
pub fn parse_symbol<T>(to_parse: &mut ParseProcess<T>, sym: char) -> /*@ (r: @*/ Result<(), ParserError> /*@ ) @*/
where
    T: TPeekable<Item = char>,
/*@    requires old(to_parse).inner_laws()
    ensures ({
        let s = old(to_parse).seen();
        match r {
            Ok(_) => s.len() > 0 && s[0] == sym && final(to_parse).moved(&*old(to_parse), 1),
            Err(e) => !(s.len() > 0 && s[0] == sym) && final(to_parse).moved(&*old(to_parse), 0) && first_char_error(e, s, old(to_parse).pos()),
        }
    }) @*/
{
    if let Some(chr) = to_parse.peek() {
        return if *chr == sym {
            to_parse.next();
            Ok(())
        } else {
            Err(UnexpectedCharError {
                chr: *chr,
                pos: to_parse.cur_pos(),
                expected: String::from(sym),
            })
        };
    }
    Err(EndOfCharsError {
        pos: to_parse.cur_pos(),
    })
}

pub fn parse_var_name<T>(to_parse: &mut ParseProcess<T>) -> /*@ (r: @*/ Result<String, ParserError> /*@ ) @*/
where
    T: TPeekable<Item = char>,
/*@    requires old(to_parse).inner_laws()
    ensures ({
        let s = old(to_parse).seen();
        match r {
            Ok(v) => s.len() > 0 && is_alpha(s[0]) && {
                let n = 1 + name_len(s.skip(1));
                v@ == s.take(n as int) && final(to_parse).moved(&*old(to_parse), n)
            },
            Err(e) => !(s.len() > 0 && is_alpha(s[0])) && final(to_parse).moved(&*old(to_parse), 0) && first_char_error(e, s, old(to_parse).pos()),
        }
    }) @*/
{
    let pos = to_parse.cur_pos();
    let cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?;
    if !cur_char.is_alphabetic() {
        return Err(UnexpectedCharError {
            chr: *cur_char,
            pos: to_parse.cur_pos(),
            expected: String::from("alphabetic character"),
        });
    }
    let mut id_name = cur_char.to_string();
    to_parse.next();
    let mut cur_char = to_parse.peek();
    /*@ let ghost mut n: nat = 0; @*/
    while let Some(x) = cur_char
        /*@ invariant_except_break
                after_borrow(*to_parse).moved(&*old(to_parse), n + 1)
                    && (cur_char is Some <==> after_borrow(*to_parse).seen().len() > 0) && (cur_char is Some ==> *cur_char->0 == after_borrow(*to_parse).seen()[0]),
            invariant
                id_name@ == old(to_parse).seen().take(n as int + 1) && n < old(to_parse).seen().len() && is_alpha(old(to_parse).seen()[0])
                    && (forall|i: int| 0 <= i < n ==> is_name_char(#[trigger] old(to_parse).seen().skip(1)[i])),
            ensures
                after_borrow(*to_parse).moved(&*old(to_parse), n + 1)
                    && (n < old(to_parse).seen().skip(1).len() ==> !is_name_char(old(to_parse).seen().skip(1)[n as int])),
            decreases old(to_parse).left() - n @*/
    {
        if !(x.is_alphanumeric() || *x == '_') {
            break;
        }
        id_name.push(to_parse.next().ok_or(EndOfCharsError {
            pos: to_parse.cur_pos(),
        })?);
        cur_char = to_parse.peek();
        /*@ proof { n = n + 1; } @*/
    }
    /*@ proof { lemma_name_len_unique(old(to_parse).seen().skip(1), n); } @*/
    Ok(id_name)
}
