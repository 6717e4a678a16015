//! P01-P04, P09, P12, P13: grammar data and the LL(1) analysis.
use crate::check;
use crate::gram::*;
use crate::util::*;
use henriks_parsing_project::errors::GrammarError;
use henriks_parsing_project::first_sets::{first_set_of_partial, get_first_sets};
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::{Element, ElementType, ElementVerbose, ParserData, Production};
use henriks_parsing_project::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use henriks_parsing_project::vms::{NullVm, VM};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// The grammar as ParserData; ix[i]: element number of non-terminal i.
pub fn build<V: VM>(g: &Gram, rng: &mut Rng) -> (ParserData<V>, Vec<usize>) {
    let mut pd = ParserData::<V>::new();
    let mut ix = vec![usize::MAX; g.names.len()];
    let mut order: Vec<usize> = (0..g.names.len()).collect();
    rng.shuffle(&mut order);
    for i in order {
        if rng.chance(1, 3) { let _ = pd.get_or_add_terminal(&format!("junk{i}")); }
        ix[i] = pd.get_or_add_non_terminal(&g.names[i]);
    }
    let mut order: Vec<usize> = (0..g.names.len()).collect();
    rng.shuffle(&mut order);
    for i in order {
        if let Some(alts) = &g.rules[i] {
            for p in alts {
                let v: Vec<usize> = p.iter().map(|s| match s { Sym::T(t) => pd.get_or_add_terminal(t), Sym::N(n) => ix[*n] }).collect();
                pd.add_production(ix[i], v);
            }
        }
    }
    (pd, ix)
}
pub fn we(m: &SetMemberWithEmpty) -> Option<La> { match m { SetMemberWithEmpty::Char(c) => Some(La::C(*c)), SetMemberWithEmpty::Terminate => Some(La::End), SetMemberWithEmpty::Empty => None } }
pub fn ne(m: &SetMember) -> La { match m { SetMember::Char(c) => La::C(*c), SetMember::Terminate => La::End } }
fn to_ne(m: &La) -> SetMember { match m { La::C(c) => SetMember::Char(*c), La::End => SetMember::Terminate } }
pub fn oracle_first(g: &Gram, ix: &[usize]) -> NamedSets {
    let nl = g.nullable();
    let f = g.first();
    let mut r: NamedSets = HashMap::new();
    for i in 0..ix.len() {
        if g.rules[i].is_none() { continue; }
        let mut s: HashSet<SetMemberWithEmpty> = f[i].iter().map(|c| SetMemberWithEmpty::Char(*c)).collect();
        if nl[i] { s.insert(SetMemberWithEmpty::Empty); }
        r.insert(ix[i], s);
    }
    r
}
pub fn oracle_follow(g: &Gram, ix: &[usize], start: usize) -> NamedSetsNoEmpty {
    let f = g.follow(start);
    (0..ix.len()).filter(|i| g.rules[*i].is_some()).map(|i| (ix[i], f[i].iter().map(to_ne).collect())).collect()
}

pub fn p01(rng: &mut Rng, size: usize) -> Outcome {
    let g = if let Some(n) = rng.jumbo(3000) { long_gram(rng, n) } else if rng.chance(1, 3) { rand_ll1ish(rng, size, true) } else { rand_gram(rng, size, true, true) };
    let (pd, ix) = build::<NullVm>(&g, rng);
    let got = no_panic(|| get_first_sets(&pd)).map_err(|e| format!("grammar {}: FIRST sets panicked: {e}", g.show()))?;
    if g.left_recursive() || g.missing_at_left() {
        check!(got.is_err(), "grammar {}: FIRST sets computed although it is left recursive or lacks a rule", g.show());
        return Ok(false);
    }
    let got = got.map_err(|e| format!("grammar {}: FIRST sets failed: {e:?}", g.show()))?;
    let want = oracle_first(&g, &ix);
    for i in 0..ix.len() {
        check!(got.get(&ix[i]) == want.get(&ix[i]), "grammar {}: FIRST({}) = {:?}, expected {:?}", g.show(), g.names[i], got.get(&ix[i]), want.get(&ix[i]));
    }
    check!(got.len() == want.len(), "grammar {}: FIRST sets for {} symbols, expected {}", g.show(), got.len(), want.len());
    // FIRST of a part of a right side
    let nl = g.nullable();
    let f = g.first();
    for p in g.rules.iter().flatten().flatten() {
        for k in 0..=p.len() {
            let q = &p[k..if rng.chance(1, 2) { p.len() } else { k + rng.below(p.len() - k + 1) }];
            let v: Vec<usize> = q.iter().map(|s| match s { Sym::T(t) => pd.get_element_t_index(t).unwrap(), Sym::N(n) => ix[*n] }).collect();
            let need: Vec<bool> = (0..q.len()).map(|j| q[..j].iter().all(|s| g.sym_nullable(s, &nl))).collect();
            if q.iter().zip(&need).any(|(s, n)| *n && matches!(s, Sym::N(x) if g.rules[*x].is_none())) { continue; }
            let got = no_panic(|| first_set_of_partial(&v, &want, &pd)).map_err(|e| format!("grammar {}: FIRST of {q:?} panicked: {e}", g.show()))?
                .map_err(|e| format!("grammar {}: FIRST of {q:?} failed: {e:?}", g.show()))?;
            let mut w: HashSet<SetMemberWithEmpty> = g.first_of(q, &nl, &f).into_iter().map(SetMemberWithEmpty::Char).collect();
            if q.iter().all(|s| g.sym_nullable(s, &nl)) { w.insert(SetMemberWithEmpty::Empty); }
            check!(got == w, "grammar {}: FIRST of {q:?} = {got:?}, expected {w:?}", g.show());
        }
    }
    Ok(g.rules.len() > 1)
}
pub fn p02(rng: &mut Rng, size: usize) -> Outcome {
    let g = if let Some(n) = rng.jumbo(3000) { long_gram(rng, n) } else if rng.chance(1, 3) { rand_ll1ish(rng, size, true) } else { rand_gram(rng, size, false, true) };
    let (pd, ix) = build::<NullVm>(&g, rng);
    let start = rng.below(ix.len());
    let first = oracle_first(&g, &ix);
    let got = no_panic(|| get_follow_sets(ix[start], &first, &pd)).map_err(|e| format!("grammar {}: FOLLOW sets panicked: {e}", g.show()))?
        .map_err(|e| format!("grammar {}, start {}: FOLLOW sets failed: {e:?}", g.show(), g.names[start]))?;
    let want = oracle_follow(&g, &ix, start);
    for i in 0..ix.len() {
        check!(got.get(&ix[i]) == want.get(&ix[i]), "grammar {}, start {}: FOLLOW({}) = {:?}, expected {:?}", g.show(), g.names[start], g.names[i], got.get(&ix[i]), want.get(&ix[i]));
    }
    check!(got.len() == want.len(), "grammar {}: FOLLOW sets for {} symbols, expected {}", g.show(), got.len(), want.len());
    Ok(g.rules.len() > 1)
}
pub fn p03(rng: &mut Rng, size: usize) -> Outcome {
    let mut g = match rng.below(4) { 0 => rand_gram(rng, size, false, true), 1 => rand_ll1ish(rng, size, true), _ => match ll1_gram(rng, size, true) { Some(g) => g, None => return Ok(false) } };
    let (mut pd, ix) = build::<NullVm>(&g, rng);
    // one alternative given twice, as the same production
    if rng.chance(1, 6) {
        let i = rng.below(ix.len());
        if let (Some(r), Some(alts)) = (pd.parse_rules.rules.get_mut(&ix[i]), g.rules[i].as_mut()) {
            if !alts.is_empty() {
                let k = rng.below(alts.len());
                let p = r.possible_productions[k].clone();
                r.possible_productions.push(p);
                let p = alts[k].clone();
                alts.push(p);
            }
        }
    }
    let start = rng.below(ix.len());
    let first = oracle_first(&g, &ix);
    let follow = oracle_follow(&g, &ix, start);
    // instructions and ignores are carried along
    let mut instr: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut ign: BTreeMap<usize, Option<usize>> = BTreeMap::new();
    for i in 0..ix.len() {
        let v: Vec<usize> = (0..rng.jumbo(2000).unwrap_or(rng.count(3))).map(|_| rng.num().map_or_else(|| rng.below(100), |x| x as usize)).collect();
        pd.add_instructions(ix[i], v.clone());
        instr.insert(i, v);
        let ig = if rng.chance(1, 3) { Some(rng.count(8)) } else { None };
        pd.parse_rules.rules.get_mut(&ix[i]).unwrap().ignore = ig;
        ign.insert(i, ig);
    }
    let elt: Vec<Vec<Vec<usize>>> = (0..ix.len()).map(|i| g.rules[i].iter().flatten().map(|p| p.iter().map(|s| match s { Sym::T(t) => pd.get_element_t_index(t).unwrap(), Sym::N(n) => ix[*n] }).collect()).collect()).collect();
    let got = no_panic(|| get_steuermaps(&first, &follow, pd)).map_err(|e| format!("grammar {}: table construction panicked: {e}", g.show()))?;
    if g.conflict(start) {
        check!(matches!(got, Err(GrammarError::SteuerSetsNotDistinct { .. })), "grammar {}, start {}: two alternatives share a lookahead, but table construction gave {:?}", g.show(), g.names[start], got.map(|_| "a table"));
        return Ok(true);
    }
    let got = got.map_err(|e| format!("grammar {}, start {}: alternatives are disjoint, but table construction failed: {e:?}", g.show(), g.names[start]))?;
    check!(got.len() == ix.len(), "grammar {}: tables for {} symbols, expected {}", g.show(), got.len(), ix.len());
    let sel = g.select_all(&g.follow(start));
    for i in 0..ix.len() {
        let Some(r) = got.get(&ix[i]) else { return Err(format!("grammar {}: no table for {}", g.show(), g.names[i])) };
        check!(r.instruction == instr[&i] && r.ignore == ign[&i], "grammar {}: instructions or ignore of {} changed", g.show(), g.names[i]);
        let mut want: BTreeMap<La, Vec<usize>> = BTreeMap::new();
        for (k, s) in sel[i].iter().enumerate() { for m in s.iter().copied() { want.insert(m, elt[i][k].clone()); } }
        let have: BTreeMap<La, Vec<usize>> = r.steuermap.iter().map(|(m, p)| (ne(m), match &**p { Production::Empty => vec![], Production::NotEmpty(v) => v.clone() })).collect();
        check!(want == have, "grammar {}, start {}: table of {} is {have:?}, expected {want:?}", g.show(), g.names[start], g.names[i]);
    }
    Ok(true)
}
pub fn p04(rng: &mut Rng, size: usize) -> Outcome {
    let n = rng.jumbo(2000).unwrap_or(rng.count(2 + size));
    let mut first: NamedSets = HashMap::new();
    let mut follow: NamedSetsNoEmpty = HashMap::new();
    let mut want: BTreeMap<usize, BTreeSet<La>> = BTreeMap::new();
    let mut missing = false;
    for k in 0..n {
        let key = if rng.chance(1, 8) { 1000 * (k + 1) } else { k * 3 + rng.below(3) };
        let mut s = HashSet::new();
        for _ in 0..rng.count(3 + size) { s.insert(SetMemberWithEmpty::Char(rng.ch(ALPHA))); }
        if rng.chance(1, 6) { s.insert(SetMemberWithEmpty::Terminate); }
        let e = rng.chance(1, 2);
        if e { s.insert(SetMemberWithEmpty::Empty); }
        let mut f: HashSet<SetMember> = HashSet::new();
        for _ in 0..rng.count(3 + size) { f.insert(SetMember::Char(rng.ch(ALPHA))); }
        if rng.chance(1, 3) { f.insert(SetMember::Terminate); }
        let mut w: BTreeSet<La> = s.iter().filter_map(we).collect();
        if e { w.extend(f.iter().map(ne)); }
        if rng.chance(1, 12) { if e { missing = true; } } else { follow.insert(key, f); }
        first.insert(key, s);
        want.insert(key, w);
    }
    let got = no_panic(|| get_steuer_sets(&first, &follow)).map_err(|e| format!("selection sets of FIRST {first:?} FOLLOW {follow:?} panicked: {e}"))?;
    if missing {
        check!(got.is_err(), "FIRST {first:?} FOLLOW {follow:?}: a needed FOLLOW set is missing, but {got:?}");
        return Ok(false);
    }
    let got = got.map_err(|e| format!("FIRST {first:?} FOLLOW {follow:?}: failed: {e:?}"))?;
    let got: BTreeMap<usize, BTreeSet<La>> = got.iter().map(|(k, s)| (*k, s.iter().map(ne).collect())).collect();
    check!(got == want, "FIRST {first:?} FOLLOW {follow:?}: selection sets {got:?}, expected {want:?}");
    Ok(n > 0)
}
pub fn p09(rng: &mut Rng, size: usize) -> Outcome {
    let missing = rng.chance(1, 3);
    let g = if let Some(n) = rng.jumbo(3000) { let mut g = long_gram(rng, n); if rng.chance(1, 3) { let k = g.rules.len(); g.rules[k - 1] = Some(vec![vec![Sym::N(rng.below(k))]]); } g } else if rng.chance(1, 3) { rand_ll1ish(rng, size, true) } else { rand_gram(rng, size, missing, true) };
    let (pd, ix) = build::<NullVm>(&g, rng);
    let got = no_panic(|| get_first_sets(&pd)).map_err(|e| format!("grammar {}: analysis panicked: {e}", g.show()))?;
    if g.missing_used() {
        // nothing but an end without panic is promised, apart from left recursion where it is reported
        if let Err(GrammarError::LeftRecursion { .. }) = got { check!(g.left_recursive(), "grammar {}: left recursion reported, but there is none", g.show()); return Ok(true); }
        check!(got.is_err() || !g.left_recursive(), "grammar {}: left recursive, but the analysis gave {:?}", g.show(), got);
        let first = if let Ok(f) = got { f } else { oracle_first(&g, &ix) };
        let start = rng.below(ix.len());
        let follow = match no_panic(|| get_follow_sets(ix[start], &first, &pd)).map_err(|e| format!("grammar {}: FOLLOW panicked: {e}", g.show()))? { Ok(f) => f, Err(_) => return Ok(true) };
        let _ = no_panic(|| get_steuermaps(&first, &follow, pd).is_ok()).map_err(|e| format!("grammar {}: table construction panicked: {e}", g.show()))?;
        return Ok(true);
    }
    if g.left_recursive() {
        check!(matches!(got, Err(GrammarError::LeftRecursion { .. })), "grammar {}: left recursive, but the analysis gave {:?}", g.show(), got);
        if let Err(GrammarError::LeftRecursion { index }) = got {
            let st = g.left_step();
            let i = ix.iter().position(|x| *x == index).ok_or_else(|| format!("grammar {}: unknown symbol {index} reported", g.show()))?;
            let mut seen = vec![false; st.len()];
            let mut todo: Vec<usize> = st[i].iter().copied().collect();
            let mut hit = false;
            while let Some(x) = todo.pop() { if x == i { hit = true; } if !seen[x] { seen[x] = true; todo.extend(st[x].iter().copied()); } }
            check!(hit, "grammar {}: {} reported as left recursive, but it is not", g.show(), g.names[i]);
        }
        return Ok(true);
    }
    check!(got.is_ok(), "grammar {}: not left recursive, but the analysis failed: {:?}", g.show(), got);
    let first = got.unwrap();
    let start = rng.below(ix.len());
    if g.rules[start].is_none() {
        let _ = no_panic(|| get_follow_sets(ix[start], &first, &pd).is_ok()).map_err(|e| format!("grammar {}: FOLLOW panicked: {e}", g.show()))?;
        return Ok(false);
    }
    let follow = no_panic(|| get_follow_sets(ix[start], &first, &pd)).map_err(|e| format!("grammar {}: FOLLOW panicked: {e}", g.show()))?;
    let follow = follow.map_err(|e| format!("grammar {}: FOLLOW failed: {e:?}", g.show()))?;
    let t = no_panic(|| get_steuermaps(&first, &follow, pd)).map_err(|e| format!("grammar {}: table construction panicked: {e}", g.show()))?;
    check!(matches!(t, Ok(_) | Err(GrammarError::SteuerSetsNotDistinct { .. })), "grammar {}: table construction failed for another reason than a conflict", g.show());
    Ok(g.rules.len() > 1)
}
fn kind(t: bool) -> ElementType { if t { ElementType::Terminal } else { ElementType::NonTerminal } }
pub fn p12(rng: &mut Rng, size: usize) -> Outcome {
    let mut pd = ParserData::<NullVm>::new();
    let mut model: Vec<(String, bool)> = vec![];
    let mut hist = vec![];
    let names = ["a", "b", "", "start", "ä", "a b", "\"", "x", "y", "aa"];
    let jumbo = rng.jumbo(1500);
    for step in 0..1 + jumbo.unwrap_or(rng.count(3 + 3 * size)) {
        let mut t = rng.chance(1, 2);
        let mut name = if let Some(w) = rng.word() { w.to_string() } else if rng.chance(3, 4) { rng.pick(&names).to_string() } else { let k = if rng.chance(1, 20) { 40 } else { 3 }; rng.string(ALPHA, k) };
        if jumbo.is_some() && rng.chance(3, 4) { name = format!("{name}{}", rng.below(step + 1)); }
        // close to one that is there
        if !model.is_empty() && rng.chance(1, 3) {
            let m = rng.pick(&model).clone();
            let mut v: Vec<char> = m.0.chars().collect();
            if rng.chance(1, 4) { t = m.1; }
            for _ in 0..rng.range(1, 2) {
                let at = rng.below(v.len() + 1);
                match rng.below(6) { 0 => v.push(rng.ch(ALPHA)), 1 => v.insert(0, rng.ch(ALPHA)), 2 if at < v.len() => { v.remove(at); } 3 if at < v.len() => v[at] = crate::gram::look_alike(v[at], rng), 4 => { v.pop(); } _ => v.insert(at, rng.ch(ALPHA)) }
            }
            name = v.into_iter().collect();
        }
        let pos = model.iter().position(|m| m.0 == name && m.1 == t);
        let what = rng.below(4);
        hist.push(format!("{what}:{name:?}{}", if t { "t" } else { "n" }));
        let ev = ElementVerbose::new(name.clone(), kind(t));
        if what < 2 {
            let ix = if what == 0 { pd.get_or_add_element_key(&ev) } else if t { pd.get_or_add_terminal(&name) } else { pd.get_or_add_non_terminal(&name) };
            match pos {
                Some(p) => check!(ix == p, "history {hist:?}: {name:?} has number {p}, but adding it again gave {ix}"),
                None => {
                    check!(ix == model.len(), "history {hist:?}: new element got number {ix}, expected {}", model.len());
                    model.push((name.clone(), t));
                }
            }
        } else {
            check!(pd.get_element_index(&ev) == pos, "history {hist:?}: lookup of {name:?} gave {:?}, expected {pos:?}", pd.get_element_index(&ev));
            let got = if t { pd.get_element_t_index(&name) } else { pd.get_element_nt_index(&name) };
            check!(got == pos, "history {hist:?}: lookup of {name:?} by name gave {got:?}, expected {pos:?}");
        }
        if jumbo.is_some_and(|n| step != n && step > 30 && rng.chance(19, 20)) { continue; }
        for (i, (n, t)) in model.iter().enumerate() {
            let v = pd.get_element_verbose(i);
            check!(v == Some(ElementVerbose::new(n.clone(), kind(*t))), "history {hist:?}: element {i} is {v:?}, expected {n:?} terminal={t}");
            let e = pd.get_element(i).map(|e| (e.ix, e.et));
            check!(e == Some((i, kind(*t))), "history {hist:?}: element {i} is {e:?}");
            let made = if *t { Element::new_t(i) } else { Element::new_nt(i) };
            check!((made.ix, made.et) == (i, kind(*t)), "Element::new_{} gives number {} and another kind", if *t { "t" } else { "nt" }, made.ix);
            check!(pd.get_element_data(i).map(|d| d.name.clone()) == Some(n.clone()), "history {hist:?}: data of element {i} wrong");
        }
        for far in [model.len(), rng.far(model.len())] {
            check!(pd.get_element(far).is_none() && pd.get_element_verbose(far).is_none() && pd.get_element_data(far).is_none() && pd.get_rule_by_key(far).is_none(), "history {hist:?}: element {far} exists");
        }
        let all: Vec<ElementVerbose> = model.iter().map(|(n, t)| ElementVerbose::new(n.clone(), kind(*t))).collect();
        check!(pd.get_elements_verbose() == all, "history {hist:?}: list of elements is {:?}", pd.get_elements_verbose());
    }
    Ok(model.len() > 2)
}
pub fn p13(rng: &mut Rng, size: usize) -> Outcome {
    let mut pd = ParserData::<NullVm>::new();
    let k = 2 + rng.count(3);
    let ids: Vec<usize> = (0..k).map(|i| pd.get_or_add_non_terminal(&format!("n{i}"))).collect();
    let el: Vec<usize> = (0..3).map(|i| pd.get_or_add_terminal(&format!("t{i}"))).chain(ids.iter().copied()).collect();
    let mut model: BTreeMap<usize, (Vec<Vec<usize>>, Vec<usize>, Option<usize>)> = BTreeMap::new();
    let mut hist = vec![];
    let ignore = if rng.below(2) == 0 { None } else { Some(*rng.pick(&ids)) };
    pd.parse_rules.ignore = ignore;
    let elements = pd.get_elements_verbose();
    for _ in 0..1 + rng.count(3 + 2 * size) {
        let i = *rng.pick(&ids);
        match rng.below(5) {
            4 => {
                if let Some(r) = pd.parse_rules.rules.get_mut(&i) {
                    let v = if rng.below(3) == 0 { None } else { Some(*rng.pick(&ids)) };
                    hist.push(format!("default of {i} := {v:?}"));
                    r.ignore = v;
                    model.get_mut(&i).unwrap().2 = v;
                }
            }
            0 | 1 => {
                let p: Vec<usize> = (0..rng.jumbo(2000).unwrap_or(rng.count(3))).map(|_| *rng.pick(&el)).collect();
                hist.push(format!("add {i} {p:?}"));
                pd.add_production(i, p.clone());
                model.entry(i).or_default().0.push(p);
            }
            2 => {
                let ps: Vec<Vec<usize>> = (0..rng.jumbo(2000).unwrap_or(rng.count(3))).map(|_| (0..rng.count(2)).map(|_| *rng.pick(&el)).collect()).collect();
                hist.push(format!("set {i} {ps:?}"));
                pd.set_productions(i, ps.clone());
                if !ps.is_empty() || model.contains_key(&i) { model.entry(i).or_default().0 = ps; }
            }
            _ => {
                let v: Vec<usize> = (0..rng.jumbo(2000).unwrap_or(rng.count(3))).map(|_| rng.num().map_or_else(|| rng.below(50), |x| x as usize)).collect();
                hist.push(format!("instr {i} {v:?}"));
                pd.add_instructions(i, v.clone());
                model.entry(i).or_default().1 = v;
            }
        }
        for i in &ids {
            let got = pd.get_rule_by_key(*i).map(|r| (r.possible_productions.iter().map(|p| match &**p { Production::Empty => vec![], Production::NotEmpty(v) => { if v.is_empty() { vec![usize::MAX] } else { v.clone() } } }).collect::<Vec<_>>(), r.instruction.clone(), r.ignore));
            check!(got == model.get(i).cloned(), "history {hist:?}: rule {i} is {got:?}, expected {:?}", model.get(i));
            let name = pd.get_element_data(*i).unwrap().name.clone();
            check!(pd.get_rule_by_element_verbose(&name).map(|r| r as *const _) == pd.get_rule_by_key(*i).map(|r| r as *const _), "history {hist:?}: lookup of rule {name} by name");
            check!(pd.get_rule_by_element(pd.get_element(*i).unwrap()).map(|r| r as *const _) == pd.get_rule_by_key(*i).map(|r| r as *const _), "history {hist:?}: lookup of rule {name} by element");
        }
        check!(pd.get_elements_verbose() == elements, "history {hist:?}: elements changed");
        check!(pd.parse_rules.ignore == ignore, "history {hist:?}: default of the grammar is {:?}, was {ignore:?}", pd.parse_rules.ignore);
        check!(pd.parse_rules.rules.len() == model.len(), "history {hist:?}: {} rules, expected {}", pd.parse_rules.rules.len(), model.len());
        check!(pd.get_rule_by_element_verbose("t0").is_none(), "a terminal has a rule");
    }
    Ok(true)
}
