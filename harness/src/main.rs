//! harness search PROP SEED SECONDS STATE_FILE   |   harness case PROP SEED SIZE   |   harness list
#![allow(dead_code, unused_imports)]
mod gram; mod util;
#[cfg(feature = "parse")] mod p_parse;
#[cfg(feature = "sets")] mod p_sets;
#[cfg(feature = "structs")] mod p_struct;
#[cfg(feature = "text")] mod p_text;
#[cfg(feature = "view")] mod p_view;
#[cfg(feature = "vm")] mod p_vm;
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};
use util::*;

type F = fn(&mut Rng, usize) -> Outcome;
#[cfg(feature = "structs")]
fn p17(rng: &mut Rng, size: usize) -> Outcome { p_struct::tree_error_kinds()?; p_struct::p17(rng, size) }
const PROPS: &[(&str, F, &str)] = &[
    #[cfg(feature = "sets")]
    ("P01", p_sets::p01, "random grammar (any shape); non-trivial: more than one rule and FIRST sets exist"),
    #[cfg(feature = "sets")]
    ("P02", p_sets::p02, "random grammar and start symbol; non-trivial: more than one rule"),
    #[cfg(feature = "sets")]
    ("P03", p_sets::p03, "random grammar, with and without conflicts; non-trivial: every one"),
    #[cfg(feature = "sets")]
    ("P04", p_sets::p04, "random FIRST and FOLLOW sets; non-trivial: at least one symbol, nothing missing"),
    #[cfg(feature = "parse")]
    ("P05", p_parse::p05, "random LL(1) grammar with sentences and near-sentences; non-trivial: a non-empty sentence among them"),
    #[cfg(feature = "parse")]
    ("P06", p_parse::p06, "random LL(1) grammar with sentences; non-trivial: a tree of more than two nodes"),
    #[cfg(feature = "parse")]
    ("P07", p_parse::p07, "random LL(1) grammar with sentences and instructions; non-trivial: more than one executed"),
    #[cfg(feature = "parse")]
    ("P08", p_parse::p08, "random LL(1) grammar with non-sentences; non-trivial: at least one rejected input"),
    #[cfg(feature = "sets")]
    ("P09", p_sets::p09, "random grammar, half of them left recursive; non-trivial: more than one rule"),
    #[cfg(feature = "view")]
    ("P10", p_view::p10, "random text and operations through up to three nested views; non-trivial: more than three operations"),
    #[cfg(feature = "view")]
    ("P11", p_view::p11, "random text, lexical function, stop char and start; non-trivial: more than one visible char"),
    #[cfg(feature = "sets")]
    ("P12", p_sets::p12, "random history of adding and looking up elements; non-trivial: more than two elements"),
    #[cfg(feature = "sets")]
    ("P13", p_sets::p13, "random history of adding and replacing productions and instructions; non-trivial: every one"),
    #[cfg(feature = "text")]
    ("P14", p_text::p14, "random grammar text, a third damaged; non-trivial: accepted"),
    #[cfg(feature = "text")]
    ("P15", p_text::p15, "random grammar text with ignore settings; non-trivial: a rule with an ignored symbol"),
    #[cfg(feature = "structs")]
    ("P16", p_struct::p16, "random history of adding nodes; non-trivial: more than two nodes"),
    #[cfg(feature = "structs")]
    ("P17", p17, "random history of adding and removing nodes; non-trivial: something removed"),
    #[cfg(feature = "structs")]
    ("P18", p_struct::p18, "random history of nodes and edges; non-trivial: more than one edge"),
    #[cfg(feature = "structs")]
    ("P19", p_struct::p19, "random graphs embedded into each other; non-trivial: every one"),
    #[cfg(feature = "structs")]
    ("P20", p_struct::p20, "random history on a named graph; non-trivial: more than one node"),
    #[cfg(feature = "vm")]
    ("P21", p_vm::p21, "random machine state and instructions; non-trivial: every one"),
    #[cfg(feature = "text")]
    ("P22", p_text::p22, "random instruction section, rule name and machine; non-trivial: stack machine text with instructions"),
];
const LIMIT_MS: u64 = 20_000;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let find = |p: &str| PROPS.iter().find(|x| x.0 == p).expect("unknown property");
    match a[1].as_str() {
        #[cfg(feature = "vm")]
        "print" => p_vm::print_child(&a[2..]),
        "list" => for p in PROPS { println!("{}", p.0) },
        "case" => {
            let (_, f, _) = *find(&a[2]);
            let (seed, size): (u64, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let h = std::thread::Builder::new().stack_size(1 << 28).spawn(move || no_panic(|| f(&mut Rng::new(seed), size)).and_then(|x| x)).unwrap();
            let t = Instant::now();
            while !h.is_finished() {
                if t.elapsed() > Duration::from_millis(LIMIT_MS) { println!("HARNESS FAIL the call does not return"); std::process::exit(1); }
                std::thread::sleep(Duration::from_millis(2));
            }
            match h.join().unwrap() { Ok(_) => println!("HARNESS OK"), Err(e) => { println!("HARNESS FAIL {}", e.replace('\n', "\\n")); std::process::exit(1) } }
        }
        "search" => {
            let (name, f, rule) = *find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let state = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a[5]).unwrap();
            static CUR: AtomicU64 = AtomicU64::new(0);
            static SINCE: AtomicU64 = AtomicU64::new(0);
            let t0 = Instant::now();
            let h = std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
                let (mut n, mut nontriv, mut slow) = (0u64, 0u64, (Duration::ZERO, 0, 0));
                let mut distinct: HashSet<u64> = HashSet::new();
                let mut samples: Vec<String> = vec![];
                let end = Duration::from_secs_f64(secs);
                while t0.elapsed() < end {
                    // sizes 0.. grow with the number of cases, again and again
                    let size = [0, 1, 2, 3, 4, 5, 6, 7, 2, 12, 4, 20][((n / 200) % 12) as usize];
                    let cs = Rng::new(seed ^ (n << 20)).next();
                    CUR.store(n + 1, Relaxed);
                    SINCE.store(t0.elapsed().as_millis() as u64, Relaxed);
                    let _ = state.write_at(format!("{cs:020} {size:03}").as_bytes(), 0);
                    let t = Instant::now();
                    let r = no_panic(|| f(&mut Rng::new(cs), size)).and_then(|x| x);
                    if t.elapsed() > slow.0 { slow = (t.elapsed(), cs, size); }
                    match r {
                        Ok(nt) => { if nt { nontriv += 1; distinct.insert(cs ^ size as u64); if samples.len() < 3 { samples.push(format!("case {name} {cs} {size}")); } } }
                        Err(e) => { return (n + 1, nontriv, distinct.len(), samples, slow, Some((cs, size, e))); }
                    }
                    n += 1;
                }
                (n, nontriv, distinct.len(), samples, slow, None)
            }).unwrap();
            let mut last = (0, 0);
            loop {
                if h.is_finished() { break; }
                std::thread::sleep(Duration::from_millis(20));
                let c = CUR.load(Relaxed);
                let now = t0.elapsed().as_millis() as u64;
                if c != last.0 { last = (c, now); }
                if c > 0 && now.saturating_sub(last.1) > LIMIT_MS {
                    let s = std::fs::read_to_string(&a[5]).unwrap();
                    println!("HARNESS FAIL {} the call does not return within {} s", s.trim(), LIMIT_MS / 1000);
                    std::io::stdout().flush().unwrap();
                    std::process::exit(1);
                }
            }
            let (n, nontriv, distinct, samples, slow, fail) = h.join().unwrap();
            println!("HARNESS COUNT {n} {nontriv} {distinct}");
            println!("HARNESS SLOWEST {} ms: case {name} {} {}", slow.0.as_millis(), slow.1, slow.2);
            println!("HARNESS RULE {rule}");
            for s in samples { println!("HARNESS SAMPLE {s}"); }
            if let Some((cs, size, e)) = fail { println!("HARNESS FAIL {cs:020} {size:03} {}", e.replace('\n', "\\n")); std::process::exit(1); }
            println!("HARNESS OK");
        }
        _ => panic!("usage"),
    }
}
