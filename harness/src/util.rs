//! Deterministic random numbers and a few text helpers.
use std::sync::OnceLock;
/// Literals of the code under test (tools/dictionary.py), the fresh ones apart.
#[derive(Default)]
pub struct Dict { pub chars: [Vec<char>; 2], pub strs: [Vec<String>; 2], pub nums: [Vec<u64>; 2] }
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let Some(t) = std::env::var("VERIF_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()) else { return d };
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() < 3 { continue; }
            let k = (w[0] == "f") as usize;
            let ns: Vec<u64> = w[2..].iter().filter_map(|x| x.parse().ok()).collect();
            let cs: Vec<char> = ns.iter().filter_map(|x| char::from_u32(*x as u32)).collect();
            match w[1] { "c" => d.chars[k].extend(cs), "s" => d.strs[k].push(cs.into_iter().collect()), _ => d.nums[k].extend(ns) }
        }
        d
    })
}
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_add(0x9E3779B97F4A7C15));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b + 1 - a) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
    pub fn string(&mut self, alphabet: &[char], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| self.ch(alphabet)).collect()
    }
    fn from_dict<'a, T>(&mut self, v: &'a [Vec<T>; 2], old: usize, fresh: usize) -> Option<&'a T> {
        if !v[1].is_empty() && self.chance(1, fresh) { return Some(self.pick(&v[1])); }
        if !v[0].is_empty() && self.chance(1, old) { return Some(self.pick(&v[0])); }
        None
    }
    /// a char of the alphabet, now and then one that the code mentions
    pub fn ch(&mut self, alphabet: &[char]) -> char {
        match self.from_dict(&dict().chars, 60, 10) { Some(c) => *c, None => *self.pick(alphabet) }
    }
    /// now and then a text that the code mentions
    pub fn word(&mut self) -> Option<&'static str> { self.from_dict(&dict().strs, 40, 8).map(|s| s.as_str()) }
    /// now and then a number that the code mentions, or one next to it
    pub fn num(&mut self) -> Option<u64> {
        let n = *self.from_dict(&dict().nums, 40, 8)?;
        Some(match self.below(4) { 0 => n.wrapping_add(1), 1 => n.saturating_sub(1), _ => n })
    }
    /// now and then a size beyond the usual ones: next to a number that is new in the code, or a bit over 256
    pub fn jumbo(&mut self, den: usize) -> Option<usize> { self.jumbo_to(den, 2000) }
    /// the same where larger ones do not take long
    pub fn jumbo_to(&mut self, den: usize, cap: usize) -> Option<usize> {
        let big: Vec<usize> = dict().nums[1].iter().filter(|n| (25..=cap as u64).contains(*n)).map(|n| *n as usize).collect();
        if !big.is_empty() && self.chance(1, (den / 40).max(3)) {
            let n = *self.pick(&big);
            if n < 3000 || self.chance(1, 20) { return Some(n - 1 + self.below(4)); }
        }
        if self.chance(1, den) { return Some(if self.chance(1, 2) { 25 + self.below(60) } else { 254 + self.below(40) }); }
        None
    }
    /// a number that is at least n: far away, or one that looks like a smaller one when cut off
    pub fn far(&mut self, n: usize) -> usize {
        let k = self.below(n + 2);
        let f = match self.below(9) {
            0 => usize::MAX - self.below(2), 1 => isize::MAX as usize + self.below(2), 2 => k + (1 << 8), 3 => k + (1 << 16), 4 => k + (1 << 32), 5 => k + (1 << 31), 6 => k + (1 << 63),
            7 => self.num().map_or(n, |x| (x as usize).saturating_add(k)), _ => n + self.below(3),
        };
        f.max(n)
    }
    /// how many of something: mostly up to max
    pub fn count(&mut self, max: usize) -> usize {
        match self.num() { Some(n) if n <= 24 => n as usize, _ => self.below(max + 1) }
    }
}
/// What a case found: Ok(nontrivial?) or the violation.
pub type Outcome = Result<bool, String>;
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
/// Runs f; a panic of the code under test is a value.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
    })
}
