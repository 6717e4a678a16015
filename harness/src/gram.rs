//! Grammars and what is true of them, computed independently of /repo.
use crate::util::{dict, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym { T(String), N(usize) }
use Sym::*;
/// rules[i]: alternatives of non-terminal i (None: it is used but has no rule)
#[derive(Clone, Debug)]
pub struct Gram { pub names: Vec<String>, pub rules: Vec<Option<Vec<Vec<Sym>>>> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum La { C(char), End }

pub const ALPHA: &[char] = &['a', 'b', 'c', 'd', 'e', 'f', 'ä', '€', '0', '7', '+', ' ', '_', '#', '{', '}', '😀', 'A', 'Ä', 'B', '\u{a0}', 'ａ', '-', '1', '\t', 'é', '\0', '\n', '\\', '"'];
/// A char that is easily taken for this one.
pub fn look_alike(c: char, rng: &mut Rng) -> char {
    let mut v: Vec<char> = c.to_lowercase().chain(c.to_uppercase()).filter(|x| *x != c).collect();
    match c { ' ' => v.extend(['\t', '\n', '\u{a0}']), 'a' => v.push('ａ'), '_' => v.push('-'), '0'..='9' => v.push(char::from_u32(c as u32 - 0x30 + 0x660).unwrap()), 'é' => v.push('e'), _ => {} }
    if let Some(x) = char::from_u32(c as u32 + 1) { v.push(x); }
    if let Some(x) = char::from_u32(c as u32 ^ 0x100) { v.push(x); }
    if let Some(x) = char::from_u32((c as u32 & 0xff) | 0x300) { v.push(x); }
    if v.is_empty() { c } else { *rng.pick(&v) }
}

impl Gram {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, r) in self.rules.iter().enumerate() {
            match r {
                None => s += &format!("{} has no rule; ", self.names[i]),
                Some(alts) => {
                    let a: Vec<String> = alts.iter().map(|p| {
                        if p.is_empty() { "#".into() } else {
                            p.iter().map(|x| match x { T(t) => format!("{:?}", t), N(n) => self.names[*n].clone() }).collect::<Vec<_>>().join(" ")
                        }
                    }).collect();
                    s += &format!("{} -> {}; ", self.names[i], a.join(" | "));
                }
            }
        }
        s
    }
    pub fn nullable(&self) -> Vec<bool> {
        let mut nl = vec![false; self.rules.len()];
        loop {
            let mut ch = false;
            for i in (0..nl.len()).rev() {
                if nl[i] { continue; }
                if let Some(a) = &self.rules[i] {
                    if a.iter().any(|p| p.iter().all(|x| self.sym_nullable(x, &nl))) { nl[i] = true; ch = true; }
                }
            }
            if !ch { return nl; }
        }
    }
    pub fn sym_nullable(&self, x: &Sym, nl: &[bool]) -> bool { match x { T(t) => t.is_empty(), N(n) => nl[*n] } }
    pub fn first(&self) -> Vec<BTreeSet<char>> {
        let nl = self.nullable();
        let mut f = vec![BTreeSet::new(); self.rules.len()];
        loop {
            let mut ch = false;
            for i in (0..f.len()).rev() {
                if let Some(a) = self.rules[i].clone() {
                    for p in a {
                        let add = self.first_of(&p, &nl, &f);
                        for c in add { ch |= f[i].insert(c); }
                    }
                }
            }
            if !ch { return f; }
        }
    }
    pub fn first_of(&self, p: &[Sym], nl: &[bool], f: &[BTreeSet<char>]) -> BTreeSet<char> {
        let mut s = BTreeSet::new();
        for x in p {
            match x { T(t) => { if let Some(c) = t.chars().next() { s.insert(c); } } N(n) => s.extend(f[*n].iter().copied()) }
            if !self.sym_nullable(x, nl) { break; }
        }
        s
    }
    pub fn follow(&self, start: usize) -> Vec<BTreeSet<La>> {
        let nl = self.nullable();
        let f = self.first();
        let mut fo: Vec<BTreeSet<La>> = vec![BTreeSet::new(); self.rules.len()];
        fo[start].insert(La::End);
        loop {
            let mut ch = false;
            for a in 0..self.rules.len() {
                if let Some(alts) = &self.rules[a] {
                    for p in alts {
                        for i in 0..p.len() {
                            if let N(b) = p[i] {
                                let rest = &p[i + 1..];
                                for c in self.first_of(rest, &nl, &f) { ch |= fo[b].insert(La::C(c)); }
                                if rest.iter().all(|x| self.sym_nullable(x, &nl)) {
                                    for m in fo[a].clone() { ch |= fo[b].insert(m); }
                                }
                            }
                        }
                    }
                }
            }
            if !ch { return fo; }
        }
    }
    pub fn select_all(&self, follow: &[BTreeSet<La>]) -> Vec<Vec<BTreeSet<La>>> {
        let (nl, f) = (self.nullable(), self.first());
        (0..self.rules.len()).map(|a| self.rules[a].iter().flatten().map(|p| self.select_with(a, p, follow, &nl, &f)).collect()).collect()
    }
    pub fn select(&self, a: usize, p: &[Sym], follow: &[BTreeSet<La>]) -> BTreeSet<La> {
        self.select_with(a, p, follow, &self.nullable(), &self.first())
    }
    fn select_with(&self, a: usize, p: &[Sym], follow: &[BTreeSet<La>], nl: &[bool], f: &[BTreeSet<char>]) -> BTreeSet<La> {
        let mut s: BTreeSet<La> = self.first_of(p, nl, f).into_iter().map(La::C).collect();
        if p.iter().all(|x| self.sym_nullable(x, nl)) { s.extend(follow[a].iter().copied()); }
        s
    }
    /// non-terminals that can start what x derives, in one step
    pub fn left_step(&self) -> Vec<BTreeSet<usize>> {
        let nl = self.nullable();
        self.rules.iter().map(|r| {
            let mut s = BTreeSet::new();
            if let Some(a) = r { for p in a { for x in p {
                if let N(n) = x { s.insert(*n); }
                if !self.sym_nullable(x, &nl) { break; }
            } } }
            s
        }).collect()
    }
    pub fn left_recursive(&self) -> bool {
        let st = self.left_step();
        let n = st.len();
        (0..n).any(|i| {
            let mut seen = vec![false; n];
            let mut todo: Vec<usize> = st[i].iter().copied().collect();
            while let Some(x) = todo.pop() {
                if x == i { return true; }
                if !seen[x] { seen[x] = true; todo.extend(st[x].iter().copied()); }
            }
            false
        })
    }
    /// a non-terminal without a rule can start what a rule derives
    pub fn missing_at_left(&self) -> bool {
        let st = self.left_step();
        (0..st.len()).any(|i| self.rules[i].is_some() && st[i].iter().any(|y| self.rules[*y].is_none()))
    }
    pub fn missing_used(&self) -> bool {
        self.rules.iter().flatten().flatten().flatten().any(|x| matches!(x, N(n) if self.rules[*n].is_none()))
    }
    pub fn conflict(&self, start: usize) -> bool {
        let fo = self.follow(start);
        let (nl, f) = (self.nullable(), self.first());
        (0..self.rules.len()).any(|a| {
            let mut seen = BTreeSet::new();
            self.rules[a].iter().flatten().any(|p| self.select_with(a, p, &fo, &nl, &f).into_iter().any(|m| !seen.insert(m)))
        })
    }
    pub fn ll1(&self, start: usize) -> bool { !self.missing_used() && self.rules[start].is_some() && !self.left_recursive() && !self.conflict(start) }
    pub fn productive(&self) -> Vec<bool> {
        let mut g = vec![false; self.rules.len()];
        loop {
            let mut ch = false;
            for i in (0..g.len()).rev() {
                if !g[i] && self.rules[i].iter().flatten().any(|p| p.iter().all(|x| match x { T(_) => true, N(n) => g[*n] })) { g[i] = true; ch = true; }
            }
            if !ch { return g; }
        }
    }
    pub fn reachable(&self, start: usize) -> Vec<bool> {
        let mut r = vec![false; self.rules.len()];
        let mut todo = vec![start];
        while let Some(x) = todo.pop() {
            if r[x] { continue; }
            r[x] = true;
            for p in self.rules[x].iter().flatten() { for s in p { if let N(n) = s { todo.push(*n) } } }
        }
        r
    }
    /// random sentence of x (None: gave up)
    pub fn sentence(&self, x: usize, rng: &mut Rng, depth: usize, out: &mut String, prod: &[usize], limit: usize) -> bool {
        if out.chars().count() > limit { return false; }
        let alts = match &self.rules[x] { Some(a) if !a.is_empty() => a, _ => return false };
        // out of depth: take an alternative of least height
        let i = if depth == 0 {
            let Some(i) = (0..alts.len()).min_by_key(|i| self.alt_height(&alts[*i], prod)) else { return false };
            i
        } else if limit > 60 && rng.chance(9, 10) {
            (0..alts.len()).max_by_key(|i| alts[*i].iter().filter(|s| matches!(s, N(_))).count()).unwrap()
        } else { rng.below(alts.len()) };
        if self.alt_height(&alts[i], prod) >= usize::MAX / 2 { return false; }
        for s in &alts[i] {
            match s { T(t) => out.push_str(t), N(n) => if !self.sentence(*n, rng, depth.saturating_sub(1), out, prod, limit) { return false; } }
        }
        true
    }
    fn alt_height(&self, p: &[Sym], h: &[usize]) -> usize { p.iter().map(|s| match s { T(_) => 0, N(n) => h[*n] }).max().unwrap_or(0) }
    pub fn heights(&self) -> Vec<usize> {
        let mut h = vec![usize::MAX / 2; self.rules.len()];
        loop {
            let mut ch = false;
            for i in 0..h.len() {
                for p in self.rules[i].iter().flatten() {
                    let v = self.alt_height(p, &h).saturating_add(1);
                    if v < h[i] { h[i] = v; ch = true; }
                }
            }
            if !ch { return h; }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pt { Leaf(String), Node(usize, Vec<Pt>) }

/// General recognizer (no lookahead, no LL(1)): chart of which spans each non-terminal derives.
pub struct Chart<'g> { g: &'g Gram, s: Vec<char>, ends: HashMap<(usize, usize), BTreeSet<usize>> }
impl<'g> Chart<'g> {
    pub fn new(g: &'g Gram, s: &str) -> Chart<'g> {
        let mut c = Chart { g, s: s.chars().collect(), ends: HashMap::new() };
        loop {
            let mut ch = false;
            for i in (0..=c.s.len()).rev() {
                for x in (0..g.rules.len()).rev() {
                    for p in g.rules[x].iter().flatten() {
                        for e in c.seq(p, i) { ch |= c.ends.entry((x, i)).or_default().insert(e); }
                    }
                }
            }
            if !ch { return c; }
        }
    }
    fn sym(&self, x: &Sym, i: usize) -> Vec<usize> {
        match x {
            T(t) => {
                let t: Vec<char> = t.chars().collect();
                if self.s[i..].starts_with(&t) { vec![i + t.len()] } else { vec![] }
            }
            N(n) => self.ends.get(&(*n, i)).map(|s| s.iter().copied().collect()).unwrap_or_default(),
        }
    }
    fn seq(&self, p: &[Sym], i: usize) -> BTreeSet<usize> {
        let mut cur = BTreeSet::from([i]);
        for x in p {
            let mut nx = BTreeSet::new();
            for i in cur { nx.extend(self.sym(x, i)); }
            cur = nx;
        }
        cur
    }
    pub fn accepts(&self, x: usize) -> bool { self.ends.get(&(x, 0)).map_or(false, |s| s.contains(&self.s.len())) }
    /// the derivation of span i..e from x (unambiguous, not left recursive grammars)
    pub fn tree(&self, x: usize, i: usize, e: usize) -> Option<Pt> {
        for p in self.g.rules[x].iter().flatten() {
            if let Some(k) = self.kids(p, i, e) { return Some(Pt::Node(x, k)); }
        }
        None
    }
    fn kids(&self, p: &[Sym], i: usize, e: usize) -> Option<Vec<Pt>> {
        if p.is_empty() { return if i == e { Some(vec![]) } else { None }; }
        for m in self.sym(&p[0], i) {
            if m > e || !self.seq(&p[1..], m).contains(&e) { continue; }
            let k0 = match &p[0] { T(t) => Pt::Leaf(t.clone()), N(n) => match self.tree(*n, i, m) { Some(t) => t, None => continue } };
            if let Some(mut r) = self.kids(&p[1..], m, e) { r.insert(0, k0); return Some(r); }
        }
        None
    }
}
/// Length of the longest prefix of s that is a prefix of a sentence of `start` (all non-terminals productive);
/// Earley items over single chars.
pub fn viable_prefix(g: &Gram, start: usize, s: &str) -> usize {
    let s: Vec<char> = s.chars().collect();
    // expand terminals into chars
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    enum S { C(char), N(usize) }
    let rules: Vec<Vec<Vec<S>>> = g.rules.iter().map(|r| r.iter().flatten().map(|p| p.iter().flat_map(|x| match x {
        T(t) => t.chars().map(S::C).collect::<Vec<_>>(), N(n) => vec![S::N(*n)] }).collect()).collect()).collect();
    type It = (usize, usize, usize, usize); // nt, alt, dot, origin
    let mut sets: Vec<BTreeSet<It>> = vec![BTreeSet::new()];
    for a in 0..rules[start].len() { sets[0].insert((start, a, 0, 0)); }
    for i in 0..=s.len() {
        loop {
            let mut add: Vec<It> = vec![];
            for &(x, a, d, o) in &sets[i] {
                let p = &rules[x][a];
                if d < p.len() {
                    if let S::N(n) = p[d] {
                        for b in 0..rules[n].len() { add.push((n, b, 0, i)); }
                        // completed empties
                        if sets[i].iter().any(|&(y, b, e, oo)| y == n && oo == i && e == rules[y][b].len()) { add.push((x, a, d + 1, o)); }
                    }
                } else {
                    for &(y, b, e, oo) in &sets[o] {
                        if e < rules[y][b].len() && rules[y][b][e] == S::N(x) { add.push((y, b, e + 1, oo)); }
                    }
                }
            }
            let n = sets[i].len();
            sets[i].extend(add);
            if sets[i].len() == n { break; }
        }
        if i == s.len() { return i; }
        let nx: BTreeSet<It> = sets[i].iter().filter(|&&(x, a, d, _)| d < rules[x][a].len() && rules[x][a][d] == S::C(s[i])).map(|&(x, a, d, o)| (x, a, d + 1, o)).collect();
        if nx.is_empty() { return i; }
        sets.push(nx);
    }
    s.len()
}

pub fn rand_name(rng: &mut Rng, i: usize) -> String {
    match rng.below(5) { 4 => { let w: String = rng.word().unwrap_or("N").chars().filter(|c| c.is_alphanumeric() || *c == '_').collect(); format!("x{w}_{i}") } 0 => format!("n{i}"), 1 => format!("rule_{i}"), 2 => format!("ü{i}x"), _ => format!("A{i}_") }
}
pub fn rand_terminal(rng: &mut Rng, alpha: &[char], empty: bool) -> String {
    if empty && rng.chance(1, 20) { return String::new(); }
    if let Some(w) = rng.word() { return w.into(); }
    let n = if let Some(n) = rng.jumbo(1000) { n } else if rng.chance(2, 3) { 1 } else { rng.count(3).max(1) };
    (0..n).map(|_| rng.ch(alpha)).collect()
}
/// Any grammar; size grows with `size`.
pub fn rand_gram(rng: &mut Rng, size: usize, missing: bool, empty_t: bool) -> Gram {
    let n = (1 + rng.count(1 + size.min(10))).min(14);
    let nalpha = rng.range(1, 3 + size.min(20));
    let alpha = &ALPHA[..nalpha.min(ALPHA.len())];
    let mut g = Gram { names: (0..n).map(|i| if i == 0 { "start".into() } else { rand_name(rng, i) }).collect(), rules: vec![] };
    let eps = rng.range(0, 3);
    let maxlen = rng.range(1, 3 + size.min(2));
    for _ in 0..n {
        if missing && rng.chance(1, 12) { g.rules.push(None); continue; }
        let na = 1 + rng.count(2 + size.min(1)).min(8);
        let mut alts = vec![];
        for _ in 0..na {
            if rng.below(6) < eps { alts.push(vec![]); continue; }
            let l = 1 + rng.count(maxlen - 1).min(9);
            alts.push((0..l).map(|_| if rng.chance(1, 2) { N(rng.below(n)) } else { T(rand_terminal(rng, alpha, empty_t)) }).collect());
        }
        g.rules.push(Some(alts));
    }
    if g.rules[0].is_none() { g.rules[0] = Some(vec![vec![]]); }
    g
}
/// A grammar shaped so that it is likely LL(1).
pub fn rand_ll1ish(rng: &mut Rng, size: usize, empty_t: bool) -> Gram {
    let n = (1 + rng.count(2 + size.min(9))).min(14);
    let mut alpha: Vec<char> = ALPHA.to_vec();
    for c in &dict().chars[1] { if !alpha.contains(c) { alpha.push(*c); } }
    rng.shuffle(&mut alpha);
    let mut g = Gram { names: (0..n).map(|i| if i == 0 { "start".into() } else { rand_name(rng, i) }).collect(), rules: vec![] };
    for i in 0..n {
        let na = 1 + rng.count(2).min(8);
        let mut lead = alpha.clone();
        rng.shuffle(&mut lead);
        let mut alts: Vec<Vec<Sym>> = vec![];
        let mut used_eps = false;
        for k in 0..na {
            if !used_eps && rng.chance(1, 4) { used_eps = true; alts.push(vec![]); continue; }
            let mut p = vec![];
            let later = |rng: &mut Rng| if i + 1 < n { N(rng.range(i + 1, n - 1)) } else { T("z".into()) };
            if rng.chance(2, 5) { p.push(later(rng)); if rng.chance(1, 2) { p.push(later(rng)); } }
            else { let mut t = String::from(lead[k]); for _ in 0..rng.count(2).min(9) { t.push(rng.ch(&alpha)); } p.push(T(t)); }
            if empty_t && rng.chance(1, 25) { let at = rng.below(p.len() + 1); p.insert(at, T(String::new())); }
            for _ in 0..rng.count(2).min(9) { p.push(if rng.chance(1, 2) { N(rng.below(n)) } else { T(rand_terminal(rng, &alpha, empty_t)) }); }
            alts.push(p);
        }
        rng.shuffle(&mut alts);
        g.rules.push(Some(alts));
    }
    g
}
/// One long chain of rules, or one rule with many alternatives or elements.
pub fn long_gram(rng: &mut Rng, n: usize) -> Gram {
    let n = n.min(400);
    let c = |rng: &mut Rng| T(rng.ch(&ALPHA[..6]).to_string());
    if rng.chance(1, 3) {
        let mut g = Gram { names: vec!["start".into(), "n1".into()], rules: vec![] };
        let many = rng.chance(1, 2);
        let alts = if many { (0..n).map(|i| vec![T(char::from_u32(0x4e00 + i as u32).unwrap().to_string())]).collect() }
            else { vec![(0..n).map(|_| if rng.chance(1, 2) { N(1) } else { c(rng) }).collect()] };
        g.rules.push(Some(alts));
        g.rules.push(Some(match rng.below(4) { 0 => vec![vec![c(rng)], vec![]], 1 => vec![vec![]], _ => vec![vec![c(rng)]] }));
        return g;
    }
    let mut g = Gram { names: (0..n).map(|i| if i == 0 { "start".into() } else { format!("n{i}") }).collect(), rules: vec![] };
    let kind = rng.below(4);
    for i in 0..n {
        if i + 1 == n { g.rules.push(Some(if rng.chance(1, 3) { vec![vec![]] } else { vec![vec![c(rng)]] })); continue; }
        let mut p = vec![N(i + 1)];
        if kind == 1 && rng.chance(1, 4) || kind > 1 && rng.chance(1, 2) { p.push(c(rng)); }
        if kind > 1 && rng.chance(1, 3) { p.insert(0, c(rng)); }
        let mut alts = vec![p];
        if kind == 3 && rng.chance(1, 4) { alts.push(vec![T("z".into())]); }
        if kind == 3 && rng.chance(1, 30) { alts.push(vec![]); }
        g.rules.push(Some(alts));
    }
    g
}
pub fn ll1_gram(rng: &mut Rng, size: usize, empty_t: bool) -> Option<Gram> {
    if let Some(n) = rng.jumbo(1500) { let g = long_gram(rng, n); if g.ll1(0) && g.productive()[0] { return Some(g); } }
    for _ in 0..400 {
        let g = if rng.chance(4, 5) { rand_ll1ish(rng, size, empty_t) } else { rand_gram(rng, size.min(2), false, empty_t) };
        if g.ll1(0) && g.productive()[0] { return Some(g); }
    }
    None
}
pub type Sets<M> = BTreeMap<usize, BTreeSet<M>>;
