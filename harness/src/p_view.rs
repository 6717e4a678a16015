//! P10, P11: character views and lexical functions.
use crate::check;
use crate::util::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};

#[derive(Clone, Debug)]
struct V { stop: Option<char>, esc: Option<char>, e: bool, pos: usize }
struct M { s: Vec<char>, i: usize, v: Vec<V>, log: Vec<String> }
impl M {
    fn peek(&self, k: usize) -> Option<char> {
        let c = *self.s.get(self.i)?;
        for v in &self.v[..k] { if v.stop == Some(c) && !v.e { return None; } }
        Some(c)
    }
    fn take(&mut self, k: usize) -> Option<char> {
        let c = self.peek(k)?;
        self.i += 1;
        for v in &mut self.v[..k] { v.pos += 1; v.e = v.esc == Some(c); }
        Some(c)
    }
}
const CH: &[char] = &['a', 'b', '}', '\\', '"', ';', 'ß', ' ', '😀', '€'];
fn opt(rng: &mut Rng) -> Option<char> { if rng.chance(1, 3) { None } else { Some(if rng.chance(1, 8) { rng.ch(CH) } else { rng.ch(&CH[..5]) }) } }
fn ops<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, k: usize, m: &mut M, rng: &mut Rng, n: usize) -> Result<(), String> {
    for _ in 0..n {
        let want = m.peek(k);
        let op = rng.below(9);
        let ctx = |m: &M, what: &str| format!("input {:?}, views {:?}, ops {:?}: {what} through view {k}", m.s.iter().collect::<String>(), m.v, m.log);
        match op {
            0 | 1 => {
                let w = m.take(k);
                m.log.push(format!("{k}.next"));
                let g = p.next();
                check!(g == w, "{} gave {g:?}, expected {w:?}", ctx(m, "next"));
            }
            2 | 3 => {
                m.log.push(format!("{k}.peek"));
                let g = p.peek().copied();
                check!(g == want, "{} gave {g:?}, expected {want:?}", ctx(m, "peek"));
            }
            4 => {
                m.log.push(format!("{k}.peek_mut"));
                let g = p.peek_mut().copied();
                check!(g == want, "{} gave {g:?}, expected {want:?}", ctx(m, "peek_mut"));
            }
            5 => {
                let c = rng.ch(CH);
                m.log.push(format!("{k}.next_if_eq {c}"));
                let w = if want == Some(c) { m.take(k) } else { None };
                let g = p.next_if_eq(&c);
                check!(g == w, "{} gave {g:?}, expected {w:?}", ctx(m, "next_if_eq"));
            }
            6 => {
                let c = rng.ch(CH);
                m.log.push(format!("{k}.next_if >= {c}"));
                let w = match want { Some(x) if x >= c => m.take(k), _ => None };
                let g = p.next_if(|x| *x >= c);
                check!(g == w, "{} gave {g:?}, expected {w:?}", ctx(m, "next_if"));
            }
            7 => {
                if let Some(x) = p.peek_mut() {
                    let c = rng.ch(CH);
                    m.log.push(format!("{k}.write {c}"));
                    *x = c;
                    let i = m.i;
                    m.s[i] = c;
                }
            }
            _ => {}
        }
        check!(p.cur_pos() == m.v[k - 1].pos, "{} is at {}, expected {}", ctx(m, "position"), p.cur_pos(), m.v[k - 1].pos);
    }
    Ok(())
}
macro_rules! level {
    ($name:ident, $next:ident, $k:expr) => {
        fn $name<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, m: &mut M, rng: &mut Rng) -> Result<(), String> {
            for _ in 0..rng.range(1, 3) {
                let n = if m.s.len() > 60 && rng.chance(1, 4) { rng.below(4 * m.s.len()) } else { rng.below(6) };
                ops(p, $k, m, rng, n)?;
                if rng.chance(1, 2) {
                    let (stop, esc) = (opt(rng), opt(rng));
                    let start = if rng.chance(1, 2) { p.cur_pos() } else { 0 };
                    m.v.push(V { stop, esc, e: false, pos: start });
                    m.log.push(format!("open view {} stop {stop:?} escape {esc:?} at {start}", $k + 1));
                    let mut q = if start == 0 { ParseProcess::new(p, stop, esc) } else { ParseProcess::new_nested(p, stop, esc, start) };
                    $next(&mut q, m, rng)?;
                    m.v.pop();
                }
                let n = rng.below(6);
                ops(p, $k, m, rng, n)?;
            }
            Ok(())
        }
    };
}
fn leaf<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, m: &mut M, rng: &mut Rng) -> Result<(), String> { ops(p, 3, m, rng, 6) }
level!(l2, leaf, 2);
level!(l1, l2, 1);
pub fn p10(rng: &mut Rng, size: usize) -> Outcome {
    let k = if let Some(n) = rng.jumbo_to(300, 70000) { n + n / 4 } else if rng.chance(1, 30) { 120 } else { 2 + 3 * size };
    let s = rng.string(CH, k);
    let mut w = PeekableWrapper::from_str(&s);
    let (stop, esc) = (opt(rng), opt(rng));
    let mut m = M { s: s.chars().collect(), i: 0, v: vec![V { stop, esc, e: false, pos: 0 }], log: vec![] };
    let mut p = ParseProcess::new(&mut w, stop, esc);
    no_panic(|| l1(&mut p, &mut m, rng)).map_err(|e| format!("input {s:?}: panicked: {e}"))??;
    Ok(m.log.len() > 3 && s.len() > 1)
}

const LEX: &[char] = &['1', '9', '0', '7', '-', 'a', 'Z', '_', 'ü', '٣', ' ', '\t', '\u{a0}', '\n', ';', '$', '+', '²', '😀'];
pub fn p11(rng: &mut Rng, size: usize) -> Outcome {
    let mut s = rng.string(LEX, 3 + 2 * size);
    if let Some(w) = rng.word() { s = format!("{w}{s}"); }
    if let Some(w) = rng.num() { s = format!("{w}{s}"); }
    match rng.below(14) {
        12 => { let c = *rng.pick(LEX); s = format!("{}{s}", c.to_string().repeat(rng.jumbo_to(60, 70000).unwrap_or(rng.count(30)))); }
        13 => { let k = rng.jumbo_to(60, 70000).unwrap_or(rng.count(70)); let p: Vec<char> = ['a', '1', '_', ' ', 'Z'][..].to_vec(); let c = rng.below(5); s = format!("{}{s}", (0..k).map(|_| if c < 3 && rng.chance(1, 4) { rng.ch(&p) } else { p[c] }).collect::<String>()); }
        0 => s = format!("{}{s}", rng.next()),
        1 => s = format!("-{}{s}", rng.next()),
        2 => s = format!("{}{}", if rng.chance(1, 2) { "-" } else { "" }, *rng.pick(&[i64::MAX as u64, i64::MAX as u64 + 1, i64::MAX as u64 + 2, u64::MAX, u64::MAX - 1])),
        3 => s = format!("{}{}", u64::MAX, rng.below(10)),
        4 => s = format!("18446744073709551616{s}"),
        5 => s = format!("{}{}", "0".repeat(rng.range(1, 30)), rng.next()),
        6 => s = format!("{}{s}", " \t\n".repeat(rng.below(3))),
        7 => s = format!("x{}{s}", "_9é".repeat(rng.below(3))),
        _ => {}
    }
    let stop = if rng.chance(1, 3) { Some(rng.ch(LEX)) } else { None };
    let mut w = PeekableWrapper::from_str(&s);
    let mut outer = ParseProcess::new(&mut w, stop, None);
    let skip = rng.below(3);
    for _ in 0..skip { outer.next(); }
    let base = outer.cur_pos();
    let seen: Vec<char> = s.chars().skip(base).take_while(|c| Some(*c) != stop).collect();
    let f = rng.below(7);
    let mut at = ParseProcess::new_nested(&mut outer, None, None, base);
    let lead = |p: &dyn Fn(&char) -> bool| seen.iter().take_while(|c| p(c)).count();
    let digits = |v: &[char]| v.iter().take_while(|c| c.is_ascii_digit()).count();
    let ctx = format!("input {s:?}, stop {stop:?}, after {base} chars");
    let first = seen.first().copied();
    // expected: Ok(text) or Err, and how many chars are consumed (None: not said)
    let err = |r: &ParserError, at: usize| -> Result<(), String> {
        match (r, seen.get(at)) {
            (ParserError::EndOfCharsError { pos }, None) => check!(*pos == base + at, "{ctx}: end of input reported at {pos}, expected {}", base + at),
            (ParserError::UnexpectedCharError { chr, pos, .. }, Some(c)) => check!(chr == c && *pos == base + at, "{ctx}: {chr:?} at {pos} reported, expected {c:?} at {}", base + at),
            (r, c) => return Err(format!("{ctx}: reported {r:?} where {c:?} is read")),
        }
        Ok(())
    };
    let used = match f {
        0 => { parse_whitespace(&mut at); Some(lead(&|c| c.is_whitespace())) }
        1 => {
            let r = parse_digits(&mut at).map_err(|e| format!("{ctx}: digits failed: {e:?}"))?;
            let n = digits(&seen);
            check!(r == seen[..n].iter().collect::<String>(), "{ctx}: digits gave {r:?}");
            Some(n)
        }
        2 => {
            let n = digits(&seen);
            let r = parse_usize(&mut at);
            let v = seen[..n].iter().collect::<String>().trim_start_matches('0').to_string();
            let fits = v.len() < 20 || v.len() == 20 && v <= "18446744073709551615".to_string();
            if n == 0 { check!(r.is_err(), "{ctx}: number {r:?}"); err(&r.unwrap_err(), 0)?; Some(0) }
            else if !fits { check!(r.is_err(), "{ctx}: number {r:?}, too large to be represented"); Some(n) }
            else { check!(matches!(r, Ok(x) if x.to_string() == (if v.is_empty() { "0".into() } else { v.clone() })), "{ctx}: number {r:?}"); Some(n) }
        }
        3 => {
            let neg = first == Some('-');
            let n = digits(&seen[neg as usize..]);
            let r = parse_isize(&mut at);
            let v = seen[neg as usize..][..n].iter().collect::<String>().trim_start_matches('0').to_string();
            let lim = if neg { "9223372036854775808" } else { "9223372036854775807" };
            let fits = v.len() < 19 || v.len() == 19 && v.as_str() <= lim;
            if n == 0 { check!(r.is_err(), "{ctx}: number {r:?}"); err(&r.unwrap_err(), neg as usize)?; Some(neg as usize) }
            else if !fits { check!(r.is_err(), "{ctx}: number {r:?}, too large to be represented"); Some(n + neg as usize) }
            else {
                let w = if v.is_empty() { "0".to_string() } else if neg { format!("-{v}") } else { v };
                check!(matches!(r, Ok(x) if x.to_string() == w), "{ctx}: number {r:?}, expected {w}");
                Some(n + neg as usize)
            }
        }
        4 | 5 => {
            let c = if rng.chance(1, 2) { first.unwrap_or('a') } else { rng.ch(LEX) };
            let r = parse_symbol(&mut at, c);
            if first == Some(c) { check!(r.is_ok(), "{ctx}: symbol {c:?}: {r:?}"); Some(1) } else { check!(r.is_err(), "{ctx}: symbol {c:?} accepted"); err(&r.unwrap_err(), 0)?; Some(0) }
        }
        _ => {
            let r = parse_var_name(&mut at);
            if first.map_or(false, |c| c.is_alphabetic()) {
                let n = lead(&|c: &char| c.is_alphanumeric() || *c == '_');
                let w: String = seen[..n].iter().collect();
                check!(matches!(&r, Ok(x) if *x == w), "{ctx}: name {r:?}, expected {w:?}");
                Some(n)
            } else { check!(r.is_err(), "{ctx}: name {r:?}"); err(&r.unwrap_err(), 0)?; Some(0) }
        }
    };
    if let Some(n) = used {
        check!(at.cur_pos() == base + n, "{ctx}: function {f} consumed up to {}, expected {}", at.cur_pos(), base + n);
        let next = at.peek().copied();
        check!(next == seen.get(n).copied(), "{ctx}: function {f} leaves {next:?} as next char, expected {:?}", seen.get(n));
        let left: String = at.collect();
        check!(left == seen[n..].iter().collect::<String>(), "{ctx}: function {f} leaves {left:?}");
    }
    Ok(seen.len() > 1)
}
