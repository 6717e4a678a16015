//! P21: what the stack machines compute.
use crate::check;
use crate::util::*;
use henriks_parsing_project::tree::Tree;
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm as ssv;
use henriks_parsing_project::vms::stack_vm as sv;
use henriks_parsing_project::vms::VM;

#[derive(Clone, Debug, PartialEq)]
struct S { stack: Vec<i128>, reg: i128, reg2: i128, error: usize }
#[derive(Clone, Debug)]
enum I { Add, RegAddConst(i128), Sub, Digit, PopToReg, PopToReg2, PopDiscard, PushConst(i128), PushFromTree, PushReg, PushReg2, Pow(u64) }
fn value(rng: &mut Rng, signed: bool) -> i128 {
    let (lo, hi): (i128, i128) = if signed { (isize::MIN as i128, isize::MAX as i128) } else { (0, usize::MAX as i128) };
    if let Some(n) = rng.num() { let n = n as i128; return (if rng.chance(1, 4) { -n } else { n }).clamp(lo, hi); }
    let v = match rng.below(8) { 0 => lo, 1 => hi, 2 => hi - rng.below(4) as i128, 3 => lo + rng.below(4) as i128, 4 => rng.next() as i128, 5 => -(rng.below(30) as i128), _ => rng.below(30) as i128 };
    v.clamp(lo, hi)
}
fn step(s: &mut S, i: &I, leaf: Option<&str>, signed: bool) {
    let (lo, hi): (i128, i128) = if signed { (isize::MIN as i128, isize::MAX as i128) } else { (0, usize::MAX as i128) };
    let fits = |x: Option<i128>| x.filter(|v| lo <= *v && *v <= hi);
    let pop = |s: &mut S| { let v = s.stack.pop(); if v.is_none() { s.error = 1; } v };
    match i {
        I::Digit => {}
        I::PushConst(c) => s.stack.push(*c),
        I::PushReg => s.stack.push(s.reg),
        I::PushReg2 => s.stack.push(s.reg2),
        I::PopToReg => if let Some(v) = pop(s) { s.reg = v },
        I::PopToReg2 => if let Some(v) = pop(s) { s.reg2 = v },
        I::PopDiscard => { pop(s); }
        I::Add => if let Some(v) = pop(s) { match fits(v.checked_add(s.reg)) { Some(x) => s.stack.push(x), None => s.error = 3 } },
        I::Sub => if let Some(v) = pop(s) { match fits(v.checked_sub(s.reg)) { Some(x) => s.stack.push(x), None => s.error = 3 } },
        I::RegAddConst(c) => match fits(s.reg.checked_add(*c)) { Some(x) => s.reg = x, None => s.error = 3 },
        I::Pow(b) => if let Some(v) = pop(s) {
            // the power itself has to be a value of the machine; exponents are 32 bit numbers
            let p = if s.reg < 0 || s.reg > u32::MAX as i128 { None } else if *b <= 1 { Some(if *b == 1 || s.reg == 0 { 1i128 } else { 0 }) } else {
                let mut p: Option<i128> = Some(1);
                let mut k = 0;
                while k < s.reg && p.is_some() { p = p.and_then(|x| x.checked_mul(*b as i128)).filter(|x| *x <= hi); k += 1; }
                p
            };
            let r = fits(p.and_then(|p| v.checked_mul(p)));
            match fits(r.and_then(|x| x.checked_add(s.reg2))) { Some(x) => s.stack.push(x), None => s.error = 3 }
        },
        I::PushFromTree => match leaf {
            None => s.error = 1,
            Some(t) => {
                let v = if signed { t.parse::<isize>().ok().map(|x| x as i128) } else { t.parse::<usize>().ok().map(|x| x as i128) };
                match v { Some(v) => s.stack.push(v), None => s.error = 2 }
            }
        },
    }
}
/// child process: what the print instructions of one machine print
pub fn print_child(a: &[String]) {
    let mut t = Tree::<String>::new();
    let n = t.add_node(String::new(), None).unwrap();
    if a[0] == "signed" {
        let mut s = sv::StackVm::create_new_state();
        s.reg = a[1].parse().unwrap(); s.reg2 = a[2].parse().unwrap(); s.error = a[3].parse().unwrap(); s.stack = vec![5];
        for i in [sv::Instruction::PrintReg, sv::Instruction::PrintReg2, sv::Instruction::PrintError] { sv::StackVm {}.execute_instruction(&mut t, n, &i, &mut s); }
        println!("{} {} {} {:?}", s.reg, s.reg2, s.error, s.stack);
    } else {
        let mut s = ssv::SimpleStackVm::create_new_state();
        s.reg = a[1].parse().unwrap(); s.reg2 = a[2].parse().unwrap(); s.error = a[3].parse().unwrap(); s.stack = vec![5];
        for i in [ssv::Instruction::PrintReg, ssv::Instruction::PrintReg2, ssv::Instruction::PrintError] { ssv::SimpleStackVm {}.execute_instruction(&mut t, n, &i, &mut s); }
        println!("{} {} {} {:?}", s.reg, s.reg2, s.error, s.stack);
    }
}
fn print_case(rng: &mut Rng) -> Outcome {
    let signed = rng.chance(1, 2);
    let (r, r2, e) = (value(rng, signed).to_string(), value(rng, signed).to_string(), rng.below(4).to_string());
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe).args(["print", if signed { "signed" } else { "unsigned" }, &r, &r2, &e]).output().map_err(|e| e.to_string())?;
    let got = String::from_utf8_lossy(&out.stdout).into_owned();
    let want = format!("{r}\n{r2}\n{e}\n{r} {r2} {e} [5]\n");
    check!(got == want, "print instructions with registers {r}, {r2} and error {e} (signed: {signed}): printed {got:?}, expected {want:?}");
    Ok(true)
}
pub fn p21(rng: &mut Rng, size: usize) -> Outcome {
    if rng.chance(1, 2000) { return print_case(rng); }
    if rng.chance(1, 40) {
        let mut t = Tree::<String>::new();
        let n = t.add_node(String::new(), None).map_err(|e| e.to_string())?;
        let mut s = CountingVm::create_new_state();
        let k = rng.count(300);
        for _ in 0..k { CountingVm {}.execute_instruction(&mut t, n, &0, &mut s); }
        check!(s == k, "counting machine: {k} instructions counted as {s}");
        return Ok(true);
    }
    let signed = rng.chance(1, 2);
    let mut t = Tree::<String>::new();
    let root = t.add_node("5".into(), None).map_err(|e| e.to_string())?;
    let mid = t.add_node("44".into(), Some(root)).map_err(|e| e.to_string())?;
    let mut leaf: Option<String> = None;
    let nkids = rng.count(2).min(9);
    for k in 0..nkids {
        let d = match rng.below(9) { 7 => rng.string(&['+', '-', '0', '1', '9', ' ', '_', '+', '5', '.', '٣'], 4), 6 => (*rng.pick(&[" 7", "7 ", "+7", "-0", "007", "1_0", "٣", "0x1", "1.0", "+", "-", "7\n", "9223372036854775808", "18446744073709551616", "-9223372036854775809", "--1", "1e3"])).to_string(), 0 => rng.word().unwrap_or("x").to_string(), 5 => rng.num().unwrap_or(12).to_string(), 1 => String::new(), 2 => "-3".into(), 3 => rng.next().to_string(), _ => rng.below(10).to_string() };
        if k == 0 { leaf = Some(d.clone()); }
        t.add_node(d, Some(mid)).map_err(|e| e.to_string())?;
    }
    let stack: Vec<i128> = (0..rng.jumbo(3000).unwrap_or(rng.count(3))).map(|_| value(rng, signed)).collect();
    let mut m = S { stack, reg: value(rng, signed), reg2: value(rng, signed), error: 0 };
    let start = m.clone();
    let mut a = sv::StackVm::create_new_state();
    let mut b = ssv::SimpleStackVm::create_new_state();
    check!(a.stack.is_empty() && a.reg == 0 && a.reg2 == 0 && a.error == 0 && b.stack.is_empty() && b.reg == 0 && b.reg2 == 0 && b.error == 0, "a new state is not empty");
    if signed { a.stack = m.stack.iter().map(|x| *x as isize).collect(); a.reg = m.reg as isize; a.reg2 = m.reg2 as isize; }
    else { b.stack = m.stack.iter().map(|x| *x as usize).collect(); b.reg = m.reg as usize; b.reg2 = m.reg2 as usize; }
    let mut hist = vec![];
    for _ in 0..1 + rng.jumbo(3000).unwrap_or(rng.count(2 + size)) {
        let i = match rng.below(13) {
            0 => I::Add, 1 => I::Sub, 2 => I::Digit, 3 => I::PopToReg, 4 => I::PopToReg2, 5 => I::PopDiscard, 6 => I::PushFromTree, 7 => I::PushReg, 8 => I::PushReg2,
            9 => I::Pow(match rng.below(5) { 4 => rng.num().unwrap_or(2), 0 => rng.next(), 1 => u64::MAX, _ => rng.below(12) as u64 }),
            10 => I::PushConst(value(rng, signed)), 11 => I::RegAddConst(value(rng, signed)), _ => I::PushConst(rng.count(70) as i128),
        };
        hist.push(format!("{i:?}"));
        step(&mut m, &i, leaf.as_deref(), signed);
        let ctx = format!("{} machine, start {start:?}, children {leaf:?}, instructions {hist:?}", if signed { "stack" } else { "simple stack" });
        let got = no_panic(|| {
            if signed {
                use sv::Instruction as J;
                let j = match i { I::Add => J::Add, I::Sub => J::Sub, I::Digit => J::Digit, I::PopToReg => J::PopToReg, I::PopToReg2 => J::PopToReg2, I::PopDiscard => J::PopDiscard, I::PushFromTree => J::PushFromTree, I::PushReg => J::PushReg, I::PushReg2 => J::PushReg2, I::Pow(b) => J::Pow(b as usize), I::PushConst(c) => J::PushConst(c as isize), I::RegAddConst(c) => J::RegAddConst(c as isize) };
                sv::StackVm {}.execute_instruction(&mut t, mid, &j, &mut a);
                S { stack: a.stack.iter().map(|x| *x as i128).collect(), reg: a.reg as i128, reg2: a.reg2 as i128, error: a.error }
            } else {
                use ssv::Instruction as J;
                let j = match i { I::Add => J::Add, I::Sub => J::Sub, I::Digit => J::Digit, I::PopToReg => J::PopToReg, I::PopToReg2 => J::PopToReg2, I::PopDiscard => J::PopDiscard, I::PushFromTree => J::PushFromTree, I::PushReg => J::PushReg, I::PushReg2 => J::PushReg2, I::Pow(b) => J::Pow(b as usize), I::PushConst(c) => J::PushConst(c as usize), I::RegAddConst(c) => J::RegAddConst(c as usize) };
                ssv::SimpleStackVm {}.execute_instruction(&mut t, mid, &j, &mut b);
                S { stack: b.stack.iter().map(|x| *x as i128).collect(), reg: b.reg as i128, reg2: b.reg2 as i128, error: b.error }
            }
        }).map_err(|e| format!("{ctx}: panicked: {e}"))?;
        check!(got == m, "{ctx}: state {got:?}, expected {m:?}");
        check!(t.get_children(mid).len() == nkids && t.get_node(mid).map(|n| n.data == "44").unwrap_or(false), "{ctx}: the tree was changed");
    }
    Ok(true)
}
