//! P05-P08: what the parser accepts, builds, runs and reports.
use crate::check;
use crate::gram::*;
use crate::p_sets::build;
use crate::util::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;

/// Records every instruction it is given, with the subtree the node has at that time.
pub struct RecVm {}
#[derive(Clone, Debug, PartialEq)]
pub struct Rec { node: NodeId, what: String, sub: Option<Pt> }
impl VM for RecVm {
    type Tstate = Vec<Rec>;
    type Tinstrution = String;
    fn parse_instructions<'a, T>(&'a self, _name: &str, p: &mut ParseProcess<T>) -> Result<Vec<String>, ParserError> where T: TPeekable<Item = char> {
        let mut s = String::new();
        while let Some(c) = p.next() { s.push(c); }
        Ok(s.split(',').filter(|x| !x.is_empty()).map(String::from).collect())
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, node: NodeId, i: &String, state: &mut Vec<Rec>) {
        state.push(Rec { node, what: i.clone(), sub: shape(tree, node) });
    }
    fn create_new_state() -> Vec<Rec> { vec![] }
}
/// subtree below a node; a childless node is a Leaf
fn shape(t: &Tree<String>, n: NodeId) -> Option<Pt> {
    let kids = t.get_children(n);
    let data = t.get_node(n).ok()?.data.clone();
    if kids.is_empty() { return Some(Pt::Leaf(data)); }
    if !data.is_empty() { return None; }
    Some(Pt::Node(0, kids.into_iter().map(|k| shape(t, k)).collect::<Option<Vec<_>>>()?))
}
/// the same for a derivation
fn want_shape(p: &Pt) -> Pt {
    match p { Pt::Leaf(s) => Pt::Leaf(s.clone()), Pt::Node(_, k) if k.is_empty() => Pt::Leaf(String::new()), Pt::Node(_, k) => Pt::Node(0, k.iter().map(want_shape).collect()) }
}
fn want_log(p: &Pt, ins: &[Vec<String>], out: &mut Vec<(String, Pt)>) {
    if let Pt::Node(x, k) = p {
        for c in k { want_log(c, ins, out); }
        for i in &ins[*x] { out.push((i.clone(), want_shape(p))); }
    }
}
fn count(p: &Pt) -> usize { match p { Pt::Leaf(_) => 1, Pt::Node(_, k) => 1 + k.iter().map(count).sum::<usize>() } }
fn ids(t: &Tree<String>, n: NodeId, out: &mut Vec<NodeId>) { for k in t.get_children(n) { ids(t, k, out); } out.push(n); }

pub struct Case { pub g: Gram, pub start: usize, pub ins: Vec<Vec<String>>, pub inputs: Vec<String>, pub via: usize }
fn can_write(g: &Gram) -> bool { g.rules.iter().flatten().flatten().flatten().all(|s| match s { Sym::T(t) => !t.contains('\\') && !t.contains('"'), _ => true }) }
pub fn render(g: &Gram, ins: &[Vec<String>], rng: &mut Rng) -> String {
    let mut s = String::new();
    let sp = |rng: &mut Rng| [" ", "", "\n", "  "][rng.below(4)];
    for i in 0..g.rules.len() {
        if let Some(alts) = &g.rules[i] {
            s += &format!("{}{}->{}", g.names[i], sp(rng), sp(rng));
            for (k, p) in alts.iter().enumerate() {
                if k > 0 { s += "|"; }
                s += sp(rng);
                if p.is_empty() { s += "#"; }
                for x in p { match x { Sym::T(t) => s += &format!("\"{t}\"{}", sp(rng)), Sym::N(n) => s += &format!("{} ", g.names[*n]) } }
            }
            if !ins[i].is_empty() { s += &format!("{{{}}}", ins[i].join(",")); }
            s += sp(rng);
            s += ";";
            s += sp(rng);
        }
    }
    s
}
pub fn case(rng: &mut Rng, size: usize, productive: bool) -> Option<Case> {
    let g = ll1_gram(rng, size, true)?;
    let start = 0;
    let h = g.heights();
    let reach = g.reachable(start);
    if productive && (0..h.len()).any(|i| reach[i] && h[i] >= usize::MAX / 2) { return None; }
    let ins: Vec<Vec<String>> = (0..g.rules.len()).map(|i| (0..if let Some(n) = rng.jumbo(3000) { n } else if rng.chance(1, 4) { rng.count(3) } else { [0, 1, 1, 2, 3][rng.below(5)] }).map(|k| format!("i{i}_{k}")).collect()).collect();
    let mut inputs = vec![];
    let mut alpha: Vec<char> = g.rules.iter().flatten().flatten().flatten().flat_map(|s| match s { Sym::T(t) => t.chars().collect::<Vec<_>>(), _ => vec![] }).collect();
    alpha.push('z');
    alpha.extend(&dict().chars[1]);
    for _ in 0..rng.range(1, 4) {
        let mut s = String::new();
        let long = rng.jumbo(800);
        if !g.sentence(start, rng, long.unwrap_or(3 + size), &mut s, &h, long.map_or(60, |n| 2 * n.max(31))) || s.chars().count() > long.map_or(if g.rules.len() > 14 { 400 } else { 40 }, |n| 2 * n.max(31)) { s = rng.string(&alpha, 4); }
        if rng.chance(1, 2) {
            let mut v: Vec<char> = s.chars().collect();
            for _ in 0..rng.range(1, 2) {
                let i = rng.below(v.len() + 1);
                match rng.below(7) { 0 => v.insert(i, *rng.pick(&alpha)), 5 | 6 if i < v.len() => v[i] = look_alike(v[i], rng), 1 if i < v.len() => { v.remove(i); } 2 => v.truncate(i), 3 => v.push(*rng.pick(&alpha)), _ => if i < v.len() { v[i] = *rng.pick(&alpha) } }
            }
            s = v.into_iter().collect();
        }
        inputs.push(s);
    }
    let via = rng.below(if can_write(&g) { 4 } else { 3 });
    Some(Case { g, start, ins, inputs, via })
}
type Res = (Result<Tree<String>, ParserError>, Vec<Rec>);
fn with_parser<R>(c: &Case, rng: &mut Rng, f: impl FnOnce(&mut dyn FnMut(&str) -> Result<Res, String>) -> Result<R, String>) -> Result<R, String> {
    let vm = RecVm {};
    let text = render(&c.g, &c.ins, rng);
    let inputs: Vec<String> = c.inputs.clone();
    let shown = c.g.show();
    let (mut pd, ix) = build::<RecVm>(&c.g, rng);
    for i in 0..ix.len() { if c.g.rules[i].is_some() { pd.add_instructions(ix[i], c.ins[i].clone()); } }
    let via = c.via;
    let start = ix[c.start];
    let mut parser = no_panic(|| match via {
        3 => Parser::new_from_text(&text, &vm),
        2 => {
            let el = pd.get_elements_verbose();
            let first = get_first_sets(&pd).unwrap();
            let follow = get_follow_sets(start, &first, &pd).unwrap();
            Parser::new(get_steuermaps(&first, &follow, pd).unwrap(), el, &vm)
        }
        _ => Parser::new_from_parser_data(pd, start, &vm),
    }).map_err(|e| format!("grammar {shown}: LL(1), but no parser could be made: {e}"))?;
    let mut run = |s: &str| -> Result<Res, String> {
        let s = inputs.iter().find(|x| *x == s).unwrap();
        let mut st = RecVm::create_new_state();
        let r = no_panic(|| parser.parse(s, &mut st)).map_err(|e| format!("grammar {shown}, input {s:?}: panicked: {e}"))?;
        Ok((r, st))
    };
    f(&mut run)
}
pub fn p05(rng: &mut Rng, size: usize) -> Outcome {
    let Some(mut c) = case(rng, size, false) else { return Ok(false) };
    let other = if c.via < 2 && rng.chance(1, 4) && c.g.rules.len() > 1 { c.start = rng.below(c.g.rules.len()); true } else { false };
    if other && !c.g.ll1(c.start) { return Ok(false); }
    let inputs = c.inputs.clone();
    let mut any = false;
    with_parser(&c, rng, |run| {
        for s in &inputs {
            let chart = Chart::new(&c.g, s);
            let want = chart.accepts(c.start);
            let (r, _) = run(s)?;
            check!(r.is_ok() == want, "grammar {}, start {}, input {s:?}: {}, but the grammar {} it ({:?})", c.g.show(), c.g.names[c.start], if want { "rejected" } else { "accepted" }, if want { "derives" } else { "does not derive" }, r.map(|_| ()));
            any |= want && !s.is_empty();
        }
        Ok(())
    })?;
    Ok(any)
}
pub fn p06(rng: &mut Rng, size: usize) -> Outcome {
    let Some(mut c) = case(rng, size, false) else { return Ok(false) };
    c.ins[c.start] = vec!["root".into()];
    let inputs = c.inputs.clone();
    let mut any = false;
    with_parser(&c, rng, |run| {
        for s in &inputs {
            let chart = Chart::new(&c.g, s);
            if !chart.accepts(c.start) { continue; }
            let Some(pt) = chart.tree(c.start, 0, s.chars().count()) else { continue };
            let (r, log) = run(s)?;
            let Ok(t) = r else { return Err(format!("grammar {}, input {s:?}: rejected, but the grammar derives it", c.g.show())) };
            let root = match log.last() { Some(x) if x.what == "root" => x.node, _ => NodeId { node_ptr: 0, node_pk: 0 } };
            let got = shape(&t, root);
            let want = want_shape(&pt);
            check!(got.as_ref() == Some(&want), "grammar {}, input {s:?}: tree {got:?}, expected {want:?}", c.g.show());
            check!(t.get_descendants(root).len() + 1 == count(&pt), "grammar {}, input {s:?}: {} nodes, expected {}", c.g.show(), t.get_descendants(root).len() + 1, count(&pt));
            // the root is a root and nothing lies outside it
            let mut all = vec![];
            ids(&t, root, &mut all);
            for p in 0..count(&pt) + 3 { for k in 0..count(&pt) + 3 { let id = NodeId { node_ptr: p, node_pk: k }; check!(!t.node_exists(id) || all.contains(&id), "grammar {}, input {s:?}: node {id} outside the parse tree", c.g.show()); } }
            any |= count(&pt) > 2;
        }
        Ok(())
    })?;
    Ok(any)
}
pub fn p07(rng: &mut Rng, size: usize) -> Outcome {
    let Some(mut c) = case(rng, size, false) else { return Ok(false) };
    if rng.chance(1, 2) { for v in c.ins.iter_mut() { if v.is_empty() { v.push("x".into()); } } }
    let inputs = c.inputs.clone();
    let mut any = false;
    with_parser(&c, rng, |run| {
        for s in &inputs {
            let chart = Chart::new(&c.g, s);
            if !chart.accepts(c.start) { continue; }
            let Some(pt) = chart.tree(c.start, 0, s.chars().count()) else { continue };
            let (r, log) = run(s)?;
            let Ok(t) = r else { return Err(format!("grammar {}, input {s:?}: rejected, but the grammar derives it", c.g.show())) };
            let mut want = vec![];
            want_log(&pt, &c.ins, &mut want);
            let got: Vec<(String, Option<Pt>)> = log.iter().map(|x| (x.what.clone(), x.sub.clone())).collect();
            let w: Vec<(String, Option<Pt>)> = want.iter().map(|x| (x.0.clone(), Some(x.1.clone()))).collect();
            check!(got == w, "grammar {}, instructions {:?}, input {s:?}: executed {got:?}, expected {w:?}", c.g.show(), c.ins);
            // each with its own node, unchanged afterwards
            for x in &log { check!(shape(&t, x.node) == x.sub, "grammar {}, input {s:?}: node {} changed after its instruction", c.g.show(), x.node); }
            for p in log.windows(2) {
                let same = p[0].what.split('_').next() == p[1].what.split('_').next() && p[1].what.contains('_') && !p[1].what.ends_with("_0");
                check!((p[0].node == p[1].node) == same || p[0].what == "x", "grammar {}, instructions {:?}, input {s:?}: node of {} is {}, of {} is {}", c.g.show(), c.ins, p[0].what, p[0].node, p[1].what, p[1].node);
            }
            any |= log.len() > 1;
        }
        Ok(())
    })?;
    Ok(any)
}
pub fn p08(rng: &mut Rng, size: usize) -> Outcome {
    let Some(c) = case(rng, size, true) else { return Ok(false) };
    let inputs = c.inputs.clone();
    let mut any = false;
    with_parser(&c, rng, |run| {
        for s in &inputs {
            let chart = Chart::new(&c.g, s);
            if chart.accepts(c.start) { continue; }
            let vp = viable_prefix(&c.g, c.start, s);
            let chars: Vec<char> = s.chars().collect();
            let (r, _) = run(s)?;
            let ctx = format!("grammar {}, input {s:?}", c.g.show());
            match r {
                Ok(_) => return Err(format!("{ctx}: accepted, but the grammar does not derive it")),
                Err(ParserError::UnexpectedCharError { chr, pos, .. }) => {
                    check!(pos == vp, "{ctx}: error at {pos}, but the input goes wrong at {vp}");
                    check!(chr == chars.get(vp).copied().unwrap_or('#'), "{ctx}: error names {chr:?} at {pos}, but {:?} is there", chars.get(vp));
                }
                Err(ParserError::EndOfCharsError { pos }) => check!(pos == vp && pos == chars.len(), "{ctx}: end of input at {pos} reported, but the input goes wrong at {vp} of {}", chars.len()),
                Err(e) => return Err(format!("{ctx}: {e:?}")),
            }
            any = true;
        }
        Ok(())
    })?;
    Ok(any)
}
