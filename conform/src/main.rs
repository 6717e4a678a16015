//! The assumed contracts of std (spec/stdspec.rs, spec/stdmore.rs), run: for every one, the sentence of its
//! `ensures` on the real std function, over all chars, all small sequences and the edges of the integer types.
//! This does not prove them; it is the check that they were written down right.
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;

fn same<T: PartialEq + Debug>(what: &str, a: T, b: T) { assert!(a == b, "{what}: std {a:?}, contract {b:?}"); }

/// every sequence over 0..k of length up to n
fn seqs(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]]; let mut last = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|s: &Vec<usize>| (0..k).map(move |x| { let mut t = s.clone(); t.push(x); t })).collect();
        all.extend(last.iter().cloned());
    }
    all
}
const EDGE: [isize; 15] = [isize::MIN, isize::MIN + 1, isize::MIN / 2, -65536, -3, -2, -1, 0, 1, 2, 3, 65536, isize::MAX / 2, isize::MAX - 1, isize::MAX];
const UEDGE: [usize; 12] = [0, 1, 2, 3, 10, 255, 256, 65536, u32::MAX as usize, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX];

fn peekable() {
    for s in seqs(3, 5) {
        // any program of up to 6 steps over {peek, peek_mut (write), next, next_if, next_if_eq} against (rest)
        for prog in seqs(6, 5) {
            let mut it = s.clone().into_iter().peekable(); let mut rest = s.clone();
            for (i, op) in prog.iter().enumerate() {
                match op {
                    0 => same("peek", it.peek().copied(), rest.first().copied()),
                    1 => match it.peek_mut() { Some(x) => { same("peek_mut", Some(&*x), rest.first()); *x = i; rest[0] = i; } None => assert!(rest.is_empty()) },
                    2 => { let e = if rest.is_empty() { None } else { Some(rest.remove(0)) }; same("next", it.next(), e) }
                    3 => { let hit = rest.first().map_or(false, |x| *x > 0); let e = if hit { Some(rest.remove(0)) } else { None }; same("next_if", it.next_if(|x| *x > 0), e) }
                    4 => { let hit = rest.first() == Some(&1); let e = if hit { Some(rest.remove(0)) } else { None }; same("next_if_eq", it.next_if_eq(&1), e) }
                    _ => same("rest", it.clone().collect::<Vec<_>>(), rest.clone()),
                }
            }
            same("rest at the end", it.collect::<Vec<_>>(), rest);
        }
    }
}
fn maps() {
    for s in seqs(4, 5) {
        let set: HashSet<usize> = s.iter().copied().collect();
        let mut seen: Vec<usize> = (&set).into_iter().copied().collect(); seen.sort();
        let mut want: Vec<usize> = (0..4).filter(|x| s.contains(x)).collect(); want.sort();
        same("loop over &set", seen, want.clone());
        same("clone of a set", set.clone(), set.clone());
        same("set len", set.len(), want.len());
        let m: HashMap<usize, usize> = s.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        let model = |k: usize| s.iter().rposition(|x| *x == k);
        let mut seen: Vec<(usize, usize)> = (&m).into_iter().map(|(k, v)| (*k, *v)).collect(); seen.sort();
        same("loop over &map", seen.clone(), want.iter().map(|k| (*k, model(*k).unwrap())).collect());
        let mut own: Vec<(usize, usize)> = m.clone().into_iter().collect(); own.sort();
        same("loop over map", own, seen);
        for k in 0..5 {
            let mut n = m.clone();
            match n.get_mut(&k) { Some(v) => { same("get_mut", Some(*v), model(k)); *v = 77; let mut e = m.clone(); e.insert(k, 77); same("get_mut write", n, e); } None => { same("get_mut none", None, model(k)); same("get_mut none", n, m.clone()) } }
        }
        for t in seqs(4, 3) {
            let b: HashSet<usize> = t.iter().copied().collect();
            same("is_subset", set.is_subset(&b), set.iter().all(|x| b.contains(x)));
            same("is_superset", set.is_superset(&b), b.iter().all(|x| set.contains(x)));
            same("is_disjoint", set.is_disjoint(&b), !set.iter().any(|x| b.contains(x)));
            let mut d: Vec<usize> = set.difference(&b).copied().collect(); d.sort();
            same("difference", d, want.iter().copied().filter(|x| !b.contains(x)).collect());
            let mut e = set.clone(); e.extend(&b); let mut f = set.clone(); f.extend(b.clone()); let mut g = set.clone(); g.extend(&t);
            let u: HashSet<usize> = (0..4).filter(|x| set.contains(x) || b.contains(x)).collect();
            same("extend", e, u.clone()); same("extend", f, u.clone()); same("extend", g, u);
            let mut v = s.clone(); v.extend(t.clone()); let mut w = s.clone(); w.extend(&t);
            same("Vec::extend", v.clone(), s.iter().chain(t.iter()).copied().collect()); same("Vec::extend", w, v);
        }
    }
    same("HashSet::from", HashSet::from([1, 2, 1]), [1usize, 2].into_iter().collect());
}
fn slices() {
    for s in seqs(3, 5) {
        for x in 0..4 { same("contains", s.contains(&x), s.iter().any(|y| *y == x)); }
        same("enumerate", s.iter().enumerate().map(|(i, x)| (i, *x)).collect::<Vec<_>>(), (0..s.len()).map(|i| (i, s[i])).collect());
        let mut r = s.clone(); r.reverse(); same("reverse", r, (0..s.len()).map(|i| s[s.len() - 1 - i]).collect());
        for a in 0..s.len() { for b in 0..s.len() { let mut r = s.clone(); r.swap(a, b); let mut e = s.clone(); e[a] = s[b]; e[b] = s[a]; same("swap", r, e); } }
        same("split_last", s.split_last().map(|(x, y)| (*x, y.to_vec())), if s.is_empty() { None } else { Some((s[s.len() - 1], s[..s.len() - 1].to_vec())) });
        same("count", s.iter().count(), s.len());
        same("last", s.iter().last(), if s.is_empty() { None } else { Some(&s[s.len() - 1]) });
        for n in 0..6 {
            let mut it = s.iter(); let r = it.nth(n);
            same("nth", r, if n < s.len() { Some(&s[n]) } else { None });
            same("nth rest", it.collect::<Vec<_>>(), if n < s.len() { s[n + 1..].iter().collect() } else { vec![] });
        }
        same("to_vec", s[..].to_vec(), s.clone());
        for x in 0..3 {
            let p = s.iter().position(|y| *y == x);
            same("position", p, (0..s.len()).filter(|i| s[*i] == x).min());
        }
        same("filter", s.iter().filter(|x| **x > 0).count(), s.iter().map(|x| (*x > 0) as usize).sum());
        let mut t = s.clone(); let old = std::mem::take(&mut t); same("take", (old, t), (s.clone(), vec![]));
        let mut t = s.clone(); let old = std::mem::replace(&mut t, vec![9]); same("replace", (old, t), (s.clone(), vec![9]));
        let txt: String = s.iter().map(|x| ['a', 'ü', '\u{1F600}'][*x]).collect();
        let cs: Vec<char> = txt.chars().collect();
        same("chars count", txt.chars().count(), cs.len()); same("chars last", txt.chars().last(), cs.last().copied());
        same("String::len", txt.len(), cs.iter().map(|c| match *c as u32 { 0..=0x7f => 1, 0x80..=0x7ff => 2, 0x800..=0xffff => 3, _ => 4 }).sum::<usize>());
        same("String::len bounds", cs.len() <= txt.len() && txt.len() <= 4 * cs.len(), true);
        let (r, q) = (std::rc::Rc::new(txt.clone()), std::rc::Rc::new(String::from("a")));
        same("Rc::ptr_eq", !std::rc::Rc::ptr_eq(&r, &q) || *r == *q, true);
        same("string from", String::from(txt.as_str()).chars().collect::<Vec<_>>(), cs.clone());
        for t in seqs(3, 2) {
            let o: String = t.iter().map(|x| ['a', 'ü', '\u{1F600}'][*x]).collect();
            same("String == &str", txt == o.as_str(), cs == o.chars().collect::<Vec<_>>());
        }
    }
}
fn chars() {
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        let n = c as u32;
        let (low, up, dig) = ((97..=122).contains(&n), (65..=90).contains(&n), (48..=57).contains(&n));
        same("is_ascii_digit", c.is_ascii_digit(), dig);
        same("is_ascii_alphabetic", c.is_ascii_alphabetic(), low || up);
        same("is_ascii_alphanumeric", c.is_ascii_alphanumeric(), low || up || dig);
        same("is_ascii_uppercase", c.is_ascii_uppercase(), up);
        same("is_ascii_lowercase", c.is_ascii_lowercase(), low);
        same("is_ascii", c.is_ascii(), n <= 127);
        same("is_ascii_whitespace", c.is_ascii_whitespace(), c == ' ' || c == '\t' || c == '\n' || c == '\r' || n == 12);
        same("is_ascii_punctuation", c.is_ascii_punctuation(), (33..=47).contains(&n) || (58..=64).contains(&n) || (91..=96).contains(&n) || (123..=126).contains(&n));
        same("known_char", c.is_alphanumeric(), c.is_alphabetic() || c.is_numeric());
        if n <= 127 { same("known_char ascii", (c.is_alphabetic(), c.is_numeric()), (low || up, dig)); }
        same("is_digit", c.is_digit(10), dig);
        same("to_digit", c.to_digit(10), if dig { Some(n - 48) } else { None });
        same("to_string", c.to_string().chars().collect::<Vec<_>>(), vec![c]);
        // vstd's is_white_space is the White_Space property
        same("is_whitespace", c.is_whitespace(), matches!(n, 9..=13 | 32 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000));
    }
}
/// the value of a digit string, None above 2^127
fn dec(s: &str) -> Option<i128> { s.chars().try_fold(0i128, |a, c| a.checked_mul(10)?.checked_add((c as u32 - 48) as i128)) }
fn numbers() {
    let mut texts: Vec<String> = seqs(10, 4).iter().map(|s| s.iter().map(|d| (b'0' + *d as u8) as char).collect()).collect();
    for z in ["", "0", "000"] { for m in [isize::MAX as i128, usize::MAX as i128, i64::MAX as i128 / 10] { for d in -3..=3 { texts.push(format!("{z}{}", m + d)); } texts.push(format!("{z}{m}0")); } }
    for t in texts.iter().filter(|t| t.len() > 0) {
        let v = dec(t);
        same("parse usize", t.parse::<usize>().ok(), v.filter(|v| *v <= usize::MAX as i128).map(|v| v as usize));
        same("parse isize", t.parse::<isize>().ok(), v.filter(|v| *v <= isize::MAX as i128).map(|v| v as isize));
        same("parse -isize", format!("-{t}").parse::<isize>().ok(), v.filter(|v| *v <= isize::MAX as i128 + 1).map(|v| (-v) as isize));
    }
    for &a in &UEDGE {
        for e in 0..70u32 {
            let mut p = Some(1u128); for _ in 0..e { p = p.and_then(|p| p.checked_mul(a as u128)); }
            same("usize::checked_pow", a.checked_pow(e), p.filter(|p| *p <= usize::MAX as u128).map(|p| p as usize));
        }
        same("isize::try_from", isize::try_from(a).ok(), if a <= isize::MAX as usize { Some(a as isize) } else { None });
        for &b in &UEDGE { same("abs_diff", a.abs_diff(b), if a >= b { a - b } else { b - a }); }
    }
    let clamp = |x: i128| x.clamp(isize::MIN as i128, isize::MAX as i128) as isize;
    for &a in &EDGE {
        let w = a as i128;
        same("checked_abs", a.checked_abs(), if a == isize::MIN { None } else { Some(w.abs() as isize) });
        same("checked_neg", a.checked_neg(), if a == isize::MIN { None } else { Some(-a) });
        if a > isize::MIN { same("abs", a.abs(), if a < 0 { -a } else { a }); }
        same("unsigned_abs", a.unsigned_abs() as i128, w.abs());
        same("signum", a.signum(), if a < 0 { -1 } else if a == 0 { 0 } else { 1 });
        same("is_negative", (a.is_negative(), a.is_positive()), (a < 0, a > 0));
        for &b in &EDGE {
            let v = b as i128;
            same("saturating_sub", a.saturating_sub(b), clamp(w - v)); same("saturating_mul", a.saturating_mul(b), clamp(w * v));
        }
    }
}
fn options() {
    let os = [None, Some(0usize), Some(1)];
    for o in os {
        for p in os {
            same("or", o.or(p), if o.is_some() { o } else { p }); same("or_else", o.or_else(|| p), if o.is_some() { o } else { p });
            same("and", o.and(p), if o.is_some() { p } else { None });
            same("xor", o.xor(p), if o.is_some() && p.is_none() { o } else if o.is_none() && p.is_some() { p } else { None });
            same("zip", o.zip(p), if o.is_some() && p.is_some() { Some((o.unwrap(), p.unwrap())) } else { None });
        }
        let mut q = o; same("Option::replace", (q.replace(5), q), (o, Some(5)));
        same("Option::filter", o.filter(|x| *x > 0), match o { Some(1) => Some(1), _ => None });
        same("map_or", o.map_or(7, |x| x + 1), match o { Some(x) => x + 1, None => 7 }); same("map_or_else", o.map_or_else(|| 7, |x| x + 1), match o { Some(x) => x + 1, None => 7 });
        same("is_some_and", o.is_some_and(|x| x > 0), o == Some(1)); same("is_none_or", o.is_none_or(|x| x > 0), o != Some(0));
        same("flatten", Some(o).flatten(), o); same("flatten", None::<Option<usize>>.flatten(), None);
    }
    for r in [Ok(0usize), Ok(1), Err(2u8)] {
        same("and_then", r.and_then(|x| if x > 0 { Ok(x) } else { Err(9) }), match r { Ok(1) => Ok(1), Ok(_) => Err(9), Err(e) => Err(e) });
        same("unwrap_or", r.unwrap_or(7), match r { Ok(x) => x, _ => 7 }); same("unwrap_or_else", r.unwrap_or_else(|e| e as usize), match r { Ok(x) => x, Err(e) => e as usize });
        same("Result::or_else", r.or_else(|e| Err::<usize, i8>(e as i8)), match r { Ok(x) => Ok(x), Err(e) => Err(e as i8) });
        same("is_ok_and", r.is_ok_and(|x| x > 0), r == Ok(1)); same("unwrap_or_default", r.unwrap_or_default(), match r { Ok(x) => x, _ => 0 });
    }
    let c = std::sync::atomic::AtomicUsize::new(3); same("fetch_add", (c.fetch_add(2, std::sync::atomic::Ordering::SeqCst), c.load(std::sync::atomic::Ordering::SeqCst)), (3, 5));
}
fn main() { peekable(); maps(); slices(); chars(); numbers(); options(); println!("every assumed contract agrees with std on what was tried"); }
