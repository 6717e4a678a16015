//! P14, P15, P22: grammar text and instruction sections.
use crate::check;
use crate::gram::{La, ALPHA};
use crate::util::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parser_data::{ElementType, ParserData, Production};
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::{parse_terminal, RuleParser};
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm as ssv;
use henriks_parsing_project::vms::stack_vm as sv;
use henriks_parsing_project::vms::{NullVm, VM};
use std::collections::{BTreeMap, BTreeSet};

/// Keeps the section as it was shown to the VM.
pub struct TextVm {}
impl VM for TextVm {
    type Tstate = ();
    type Tinstrution = (String, String);
    fn parse_instructions<'a, T>(&'a self, name: &str, p: &mut ParseProcess<T>) -> Result<Vec<(String, String)>, ParserError> where T: TPeekable<Item = char> {
        let mut s = String::new();
        while let Some(c) = p.next() { s.push(c); }
        Ok(vec![(name.into(), s)])
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &(String, String), _: &mut ()) {}
    fn create_new_state() {}
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E { T(String), N(String) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct R { pub alts: Vec<Vec<E>>, pub ignore: Option<String>, pub instr: Vec<(String, String)> }

/// Reference reader of grammar texts.
pub struct Ref { s: Vec<char>, i: usize, default: Option<String>, pub rules: BTreeMap<String, R> }
type X<T> = Result<T, String>;
impl Ref {
    pub fn read(s: &str) -> X<Ref> {
        let mut r = Ref { s: s.chars().collect(), i: 0, default: None, rules: BTreeMap::new() };
        loop {
            r.ws();
            if r.i == r.s.len() { return Ok(r); }
            if r.eat('$') {
                if r.name()? != "IGNORE" { return Err("unknown directive".into()); }
                r.ws(); r.sym(':')?; r.ws();
                let n = r.name()?;
                r.ws(); r.sym(';')?;
                r.default = Some(n);
                continue;
            }
            let n = r.name()?;
            r.ws(); r.sym('-')?; r.sym('>')?; r.ws();
            let mut ig = r.default.clone();
            if r.eat('$') {
                r.sym('[')?; r.ws();
                let k = r.name()?;
                r.ws(); r.sym(':')?; r.ws();
                if k == "IGNORE" { ig = if r.eat('#') { None } else { Some(r.name()?) }; }
                r.ws(); r.sym(']')?;
            }
            let mut alts = vec![r.alt()?];
            loop {
                r.ws();
                if !r.eat('|') { break; }
                alts.push(r.alt()?);
            }
            let mut instr = vec![];
            if r.eat('{') {
                r.ws();
                let mut t = String::new();
                let mut esc = false;
                while let Some(c) = r.cur() { if c == '}' && !esc { break; } esc = c == '\\'; t.push(c); r.i += 1; }
                r.sym('}')?;
                instr.push((n.clone(), t));
            }
            r.ws(); r.sym(';')?;
            match r.rules.get_mut(&n) { Some(o) => o.alts.extend(alts), None => { r.rules.insert(n, R { alts, ignore: ig, instr }); } }
        }
    }
    fn cur(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn ws(&mut self) { while self.cur().map_or(false, |c| c.is_whitespace()) { self.i += 1; } }
    fn eat(&mut self, c: char) -> bool { if self.cur() == Some(c) { self.i += 1; true } else { false } }
    fn sym(&mut self, c: char) -> X<()> { if self.eat(c) { Ok(()) } else { Err(format!("{c} expected at {}", self.i)) } }
    fn name(&mut self) -> X<String> {
        if !self.cur().map_or(false, |c| c.is_alphabetic()) { return Err(format!("name expected at {}", self.i)); }
        let a = self.i;
        while self.cur().map_or(false, |c| c.is_alphanumeric() || c == '_') { self.i += 1; }
        Ok(self.s[a..self.i].iter().collect())
    }
    fn alt(&mut self) -> X<Vec<E>> {
        let mut v = vec![];
        loop {
            self.ws();
            match self.cur() {
                Some('#') => { if v.is_empty() { self.i += 1; return Ok(v); } return Err("# among others".into()); }
                Some('"') => v.push(E::T(self.terminal()?)),
                Some(c) if c.is_alphabetic() => v.push(E::N(self.name()?)),
                _ => return if v.is_empty() { Err("no element".into()) } else { Ok(v) },
            }
        }
    }
    fn terminal(&mut self) -> X<String> {
        self.sym('"')?;
        let mut t = String::new();
        let mut esc = false;
        loop {
            let c = self.cur().ok_or("unterminated")?;
            self.i += 1;
            if c == '"' && !esc { return Ok(t); }
            esc = c == '\\' && !esc;
            t.push(c);
        }
    }
    /// what remains after the ignored elements are put in; Err: an ignored symbol has no rule
    pub fn weave(&self) -> X<BTreeMap<String, R>> {
        let mut out = BTreeMap::new();
        for (n, r) in &self.rules {
            let mut r = r.clone();
            if let Some(ig) = &r.ignore {
                if !self.rules.contains_key(ig) { return Err(format!("{ig} has no rule")); }
                let mut seen = BTreeSet::new();
                let mut todo = vec![ig.clone()];
                while let Some(x) = todo.pop() {
                    if !seen.insert(x.clone()) { continue; }
                    for e in self.rules.get(&x).iter().flat_map(|r| r.alts.iter().flatten()) { if let E::N(y) = e { todo.push(y.clone()); } }
                }
                if seen.contains(n) { r.ignore = None; }
                else {
                    r.alts = r.alts.iter().map(|p| {
                        let mut v = vec![];
                        for (i, e) in p.iter().enumerate() { if i > 0 { v.push(E::N(ig.clone())); } v.push(e.clone()); }
                        v
                    }).collect();
                }
            }
            out.insert(n.clone(), r);
        }
        Ok(out)
    }
    pub fn undefined(&self) -> bool {
        self.rules.values().any(|r| r.alts.iter().flatten().any(|e| matches!(e, E::N(n) if !self.rules.contains_key(n))) || r.ignore.iter().any(|n| !self.rules.contains_key(n)))
    }
}
pub fn view<V: VM>(pd: &ParserData<V>, instr: impl Fn(&V::Tinstrution) -> (String, String)) -> Result<BTreeMap<String, R>, String> {
    let el = pd.get_elements_verbose();
    let e = |i: &usize| el.get(*i).map(|v| if v.et == ElementType::Terminal { E::T(v.name.clone()) } else { E::N(v.name.clone()) }).ok_or("element number out of range".to_string());
    let mut out = BTreeMap::new();
    for (k, r) in &pd.parse_rules.rules {
        let E::N(name) = e(k)? else { return Err("a terminal has a rule".into()) };
        let mut alts = vec![];
        for p in &r.possible_productions {
            alts.push(match &**p {
                Production::Empty => vec![],
                Production::NotEmpty(v) => { if v.is_empty() { return Err("a non-empty production without elements".into()); } v.iter().map(e).collect::<Result<Vec<_>, _>>()? }
            });
        }
        let ignore = match &r.ignore { None => None, Some(i) => match e(i)? { E::N(n) => Some(n), _ => return Err("a terminal is ignored".into()) } };
        if out.insert(name.clone(), R { alts, ignore, instr: r.instruction.iter().map(&instr).collect() }).is_some() { return Err(format!("two rules for {name}")); }
    }
    Ok(out)
}
fn sp(rng: &mut Rng) -> String { let n = if let Some(n) = rng.jumbo_to(20000, 70000) { n } else if rng.chance(1, 40) { rng.count(12) } else { [0, 0, 1, 1, 2, 3][rng.below(6)] }; (0..n).map(|_| *rng.pick(&[' ', '\n', '\t', '\r', '\u{3000}'])).collect() }
fn term_text(rng: &mut Rng) -> String {
    let mut t = String::new();
    for _ in 0..rng.jumbo(6000).unwrap_or(rng.count(3)) {
        if let Some(w) = rng.word() { t.push_str(w); continue; }
        match rng.below(8) { 0 => t.push_str("\\\""), 1 => t.push_str("\\\\"), 2 => t.push_str("\\n"), 3 => t.push(*rng.pick(&[';', '|', '#', '$', '-', '>', '\n'])), _ => t.push(rng.ch(ALPHA)) }
    }
    t
}
fn gen_name(rng: &mut Rng) -> String {
    if let Some(w) = rng.word() { if w.starts_with(|c: char| c.is_alphabetic()) && w.chars().all(|c| c.is_alphanumeric() || c == '_') { return w.into(); } }
    if rng.chance(1, 30) { return format!("n{}", "_".repeat(rng.jumbo(100).unwrap_or(rng.count(12)))); }
    rng.pick(&["start", "a", "b", "ws", "x1", "n_m", "Ä", "aa"]).to_string() }
/// A grammar text that is mostly well formed.
pub fn gen_text(rng: &mut Rng, size: usize, ignore: bool, defined: bool) -> String {
    let mut names: Vec<String> = vec!["start".into()];
    let many = rng.jumbo(1500);
    if let Some(n) = many { for i in 0..n { names.push(format!("m{}", rng.below(i + 1))); } }
    for _ in 0..rng.count(2 + size).min(14) { names.push(gen_name(rng)); }
    let used: Vec<String> = if defined { names.clone() } else { (0..6).map(|_| gen_name(rng)).chain(names.iter().cloned()).collect() };
    let mut s = String::new();
    for n in &names {
        s += &sp(rng);
        if ignore && rng.chance(1, 4) { let word = if rng.chance(1, 30) { *rng.pick(&["OTHER", "IGNORED", "ignore", "I"]) } else { "IGNORE" }; s += &format!("${word}{}:{}{}{};", sp(rng), sp(rng), rng.pick(&used), sp(rng)); s += &sp(rng); }
        s += &format!("{n}{}->{}", sp(rng), sp(rng));
        if ignore && rng.chance(1, 3) { if rng.chance(1, 3) { s += &format!("$[{}IGNORE{}:{}#{}]", sp(rng), sp(rng), sp(rng), sp(rng)) } else { s += &format!("$[{}IGNORE{}:{}{}{}]", sp(rng), sp(rng), sp(rng), rng.pick(&used), sp(rng)) } }
        else if rng.chance(1, 25) { s += &format!("$[OTHER:{}]", sp(rng)); }
        let k = 1 + rng.jumbo(6000).unwrap_or(rng.count(2).min(9));
        for i in 0..k {
            if i > 0 { s += &format!("{}|{}", sp(rng), sp(rng)); } else { s += &sp(rng); }
            if rng.chance(1, 5) { s += "#"; continue; }
            for j in 0..1 + rng.jumbo(8000).unwrap_or(rng.count(2).min(9)) {
                let at_name = s.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_');
                if rng.chance(1, 2) { s += &format!("\"{}\"", term_text(rng)); } else { if j > 0 && at_name { s += " "; } s += rng.pick(&used).as_str(); }
                s += &sp(rng);
            }
        }
        s += &sp(rng);
        if rng.chance(1, 3) { s += &format!("{{{}{}}}", sp(rng), if let Some(n) = rng.jumbo(200) { "Add; ".repeat(n) } else { String::new() } + rng.pick(&["", "Add; Sub;", "x\\}y", "a\\\\\\}b", "\"", "{", "PushConst 1;\n", " ; ", "\\a"])); }
        s += &sp(rng);
        s += ";";
    }
    s += &sp(rng);
    s
}
fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 2) {
        let c = rng.ch(&['"', '\\', '#', '|', ';', '-', '>', '$', '{', '}', '[', ']', ':', 'a', '1', '_', ' ', '\n', 'I']);
        let mut i = rng.below(v.len() + 1);
        if rng.chance(1, 2) {        // at a place where the syntax is
            let at: Vec<usize> = (0..v.len()).filter(|k| !(v[*k].is_alphanumeric() || v[*k].is_whitespace())).collect();
            if !at.is_empty() { i = *rng.pick(&at); }
        }
        match rng.below(3) { 0 => v.insert(i, c), 1 if i < v.len() => { v.remove(i); } _ => if i < v.len() { v[i] = c } }
    }
    v.into_iter().collect()
}
fn read_real(text: &str) -> Result<Result<BTreeMap<String, R>, String>, String> {
    let vm = TextVm {};
    no_panic(|| {
        let mut p = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut p, &vm);
        if let Err(e) = rp.parse_rules() { return Ok(Err(format!("{e:?}"))); }
        view(&rp.parser_data, |i| i.clone()).map(Ok)
    }).map_err(|e| format!("grammar text {text:?}: panicked: {e}"))?.map_err(|e| format!("grammar text {text:?}: {e}"))
}
pub fn p14(rng: &mut Rng, size: usize) -> Outcome {
    if rng.chance(1, 6) { return terminal_alone(rng, size); }
    let sections = rng.chance(1, 4);
    let mut text = gen_text(rng, size.min(6), sections, sections);
    if rng.chance(1, 2) { text = mutate(rng, &text); }
    let got = read_real(&text)?;
    let want = Ref::read(&text).and_then(|r| r.weave());
    match (&got, &want) {
        (Ok(g), Ok(w)) => check!(g == w, "grammar text {text:?}: read as {g:?}, expected {w:?}"),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => { if let Ok(r) = Ref::read(&text) { if r.undefined() { return Ok(false); } } return Err(format!("grammar text {text:?}: accepted, expected: {e}")) }
        (Err(e), Ok(_)) => { if let Ok(r) = Ref::read(&text) { if r.undefined() && r.rules.values().any(|r| r.ignore.is_some()) { return Ok(false); } } return Err(format!("grammar text {text:?}: rejected ({e}), expected to be accepted")) }
    }
    Ok(got.is_ok())
}
fn terminal_alone(rng: &mut Rng, size: usize) -> Outcome {
    let text = format!("\"{}\"{}", term_text(rng), rng.string(ALPHA, size));
    let text = if rng.chance(1, 3) { mutate(rng, &text) } else { text };
    let mut r = Ref { s: text.chars().collect(), i: 0, default: None, rules: BTreeMap::new() };
    let want = r.terminal();
    let mut p = PeekableWrapper::from_str(&text);
    let mut q = ParseProcess::new(&mut p, None, None);
    let got = no_panic(|| parse_terminal(&mut q)).map_err(|e| format!("terminal {text:?}: panicked: {e}"))?;
    check!(got.is_ok() == want.is_ok(), "terminal {text:?}: {got:?}, expected {want:?}");
    if let (Ok(g), Ok(w)) = (&got, &want) {
        check!(g == w, "terminal {text:?}: read as {g:?}, expected {w:?}");
        let left: String = q.collect();
        check!(left == r.s[r.i..].iter().collect::<String>(), "terminal {text:?}: leaves {left:?}");
    }
    Ok(want.is_ok())
}
pub fn p15(rng: &mut Rng, size: usize) -> Outcome {
    let d = rng.chance(4, 5);
    let text = gen_text(rng, size.min(6), true, d);
    let got = read_real(&text)?;
    let Ok(r) = Ref::read(&text) else { return Ok(false) };
    let want = r.weave();
    let und = r.undefined();
    match (&got, &want) {
        (Ok(g), Ok(w)) => check!(g == w, "grammar text {text:?}: read as {g:?}, expected {w:?}"),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => return Err(format!("grammar text {text:?}: accepted, expected: {e}")),
        (Err(e), Ok(_)) => { if und { return Ok(false); } return Err(format!("grammar text {text:?}: rejected ({e})")) }
    }
    Ok(r.rules.values().any(|r| r.ignore.is_some()))
}

fn show_sv(i: &sv::Instruction) -> String {
    use sv::Instruction::*;
    match i { Add => "Add".into(), RegAddConst(c) => format!("RegAddConst {c}"), Sub => "Sub".into(), Digit => "Digit".into(), PopToReg => "PopToReg".into(), PopToReg2 => "PopToReg2".into(), PopDiscard => "PopDiscard".into(),
        PushConst(c) => format!("PushConst {c}"), PushFromTree => "PushFromTree".into(), PushReg => "PushReg".into(), PushReg2 => "PushReg2".into(), PrintReg => "PrintReg".into(), PrintReg2 => "PrintReg2".into(), PrintError => "PrintError".into(), Pow(c) => format!("Pow {c}") }
}
fn show_ssv(i: &ssv::Instruction) -> String {
    use ssv::Instruction::*;
    match i { Add => "Add".into(), RegAddConst(c) => format!("RegAddConst {c}"), Sub => "Sub".into(), Digit => "Digit".into(), PopToReg => "PopToReg".into(), PopToReg2 => "PopToReg2".into(), PopDiscard => "PopDiscard".into(),
        PushConst(c) => format!("PushConst {c}"), PushFromTree => "PushFromTree".into(), PushReg => "PushReg".into(), PushReg2 => "PushReg2".into(), PrintReg => "PrintReg".into(), PrintReg2 => "PrintReg2".into(), PrintError => "PrintError".into(), Pow(c) => format!("Pow {c}") }
}
const PLAIN: &[&str] = &["Add", "Sub", "Digit", "PopToReg", "PopToReg2", "PopDiscard", "PushFromTree", "PushReg", "PushReg2", "PrintReg", "PrintReg2", "PrintError"];
const CONST: &[&str] = &["RegAddConst", "PushConst", "Pow"];
/// reference for the stack machine's instruction text
fn ref_instr(s: &[char]) -> X<Vec<String>> {
    let mut r = Ref { s: s.to_vec(), i: 0, default: None, rules: BTreeMap::new() };
    let mut out = vec![];
    r.ws();
    while r.cur().is_some() {
        let n = r.name()?;
        if CONST.contains(&n.as_str()) {
            r.ws();
            let a = r.i;
            while r.cur().map_or(false, |c| c.is_ascii_digit()) { r.i += 1; }
            let d: String = r.s[a..r.i].iter().collect();
            if d.is_empty() { return Err("number expected".into()); }
            let d = d.trim_start_matches('0');
            let lim = if n == "Pow" { "18446744073709551615" } else { "9223372036854775807" };
            if d.len() > lim.len() || d.len() == lim.len() && d > lim { return Err("too large".into()); }
            out.push(format!("{n} {}", if d.is_empty() { "0" } else { d }));
        } else if PLAIN.contains(&n.as_str()) { out.push(n); }
        r.sym(';')?;
        r.ws();
    }
    Ok(out)
}
pub fn p22(rng: &mut Rng, size: usize) -> Outcome {
    let mut t = sp(rng);
    for _ in 0..rng.jumbo(600).unwrap_or(rng.count(1 + size)) {
        if let Some(w) = rng.word() { t += w; t += ";"; } else if rng.chance(1, 3) {
            let n = match rng.below(6) { 5 if !dict().nums[1].is_empty() => rng.num().unwrap_or(3).to_string(), 0 => rng.next().to_string(), 1 => "9223372036854775807".into(), 2 => "9223372036854775808".into(), 3 => "00012".into(), _ => rng.below(1000).to_string() };
            t += &format!("{}{}{n};", rng.pick(CONST), if rng.chance(9, 10) { " ".to_string() + &sp(rng) } else { String::new() });
        } else if rng.chance(1, 12) { t += "Unknown;"; } else { t += &format!("{};", rng.pick(PLAIN)); }
        t += &sp(rng);
    }
    if rng.chance(1, 3) { t = mutate(rng, &t); }
    if rng.chance(1, 2) { t += rng.pick(&["}", "} rest", "}}", ""]); }
    let chars: Vec<char> = t.chars().collect();
    // what a section view with stop } and escape \ shows
    let mut n = 0;
    let mut esc = false;
    while n < chars.len() && !(chars[n] == '}' && !esc) { esc = chars[n] == '\\'; n += 1; }
    let names = ["add", "sub", "number", "digit", "number_s_", "print", "other", "Add", "number_s", ""];
    let name = rng.word().unwrap_or(*rng.pick(&names));
    let which = rng.below(6);
    let mut p = PeekableWrapper::from_str(&t);
    let mut q = ParseProcess::new_nested(&mut p, Some('}'), Some('\\'), 5);
    let ctx = format!("section {t:?} of rule {name:?}, machine {which}");
    let (got, want, consumed): (X<Vec<String>>, X<Vec<String>>, bool) = match which {
        0 => (no_panic(|| NullVm::new().parse_instructions(name, &mut q))?.map(|v| v.iter().map(|x| x.to_string()).collect()).map_err(|e| format!("{e:?}")), Ok(vec!["0".into()]), true),
        1 => (no_panic(|| CountingVm {}.parse_instructions(name, &mut q))?.map(|v| v.iter().map(|x| x.to_string()).collect()).map_err(|e| format!("{e:?}")), Ok(vec!["0".into()]), true),
        2 => {
            let w: Vec<&str> = match name {
                "add" => vec!["PopToReg", "Add"], "sub" => vec!["PopToReg", "Sub"], "number" => vec!["PopDiscard"], "digit" => vec!["PushFromTree", "PushConst 1"],
                "number_s_" => vec!["PopToReg", "PopToReg2", "PopDiscard", "Pow 10", "RegAddConst 1", "PushReg"], "print" => vec!["PopToReg", "PrintReg"], _ => vec![] };
            (no_panic(|| ssv::SimpleStackVm {}.parse_instructions(name, &mut q))?.map(|v| v.iter().map(show_ssv).collect()).map_err(|e| format!("{e:?}")), Ok(w.into_iter().map(String::from).collect()), true)
        }
        _ => {
            let w = ref_instr(&chars[..n]);
            let c = w.is_ok();
            (no_panic(|| sv::StackVm {}.parse_instructions(name, &mut q)).map_err(|e| format!("{ctx}: panicked: {e}"))?.map(|v| v.iter().map(show_sv).collect()).map_err(|e| format!("{e:?}")), w, c)
        }
    };
    match (&got, &want) {
        (Ok(g), Ok(w)) => check!(g == w, "{ctx}: instructions {g:?}, expected {w:?}"),
        (Err(_), Err(_)) => {}
        (g, w) => return Err(format!("{ctx}: {g:?}, expected {w:?}")),
    }
    if consumed {
        check!(q.cur_pos() == 5 + n, "{ctx}: read up to {}, expected {}", q.cur_pos(), 5 + n);
        check!(p.next() == chars.get(n).copied(), "{ctx}: the section was not read up to its end");
    }
    let _ = La::End;
    Ok(which > 2 && want.map_or(true, |w| !w.is_empty()))
}
