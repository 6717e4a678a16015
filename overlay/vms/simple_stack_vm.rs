use crate::errors::ParserError;
use crate::peekables::{ParseProcess, TPeekable};
use crate::tree::{NodeId, Tree};
use crate::vms::VM;

pub struct SimpleStackVmState {
    pub stack: Vec<usize>,
    pub reg: usize,
    pub reg2: usize,
    pub error: usize,
}

pub enum Instruction {
    Add,
    RegAddConst(usize),
    Sub,
    Digit,
    PopToReg,
    PopToReg2,
    PopDiscard,
    PushConst(usize),
    PushFromTree,
    PushReg,
    PushReg2,
    PrintReg,
    PrintReg2,
    PrintError,
    Pow(usize),
}

pub struct SimpleStackVm {}
/*@
/// the instructions of the rules the machine knows
pub open spec fn table(name: Seq<char>) -> Seq<Instruction> {
    if name == "add"@ { seq![Instruction::PopToReg, Instruction::Add] } else if name == "sub"@ { seq![Instruction::PopToReg, Instruction::Sub] } else if name == "number"@ { seq![Instruction::PopDiscard] } else if name == "digit"@ { seq![Instruction::PushFromTree, Instruction::PushConst(1)] } else if name == "number_s_"@ { seq![Instruction::PopToReg, Instruction::PopToReg2, Instruction::PopDiscard, Instruction::Pow(10), Instruction::RegAddConst(1), Instruction::PushReg] } else if name == "print"@ { seq![Instruction::PopToReg, Instruction::PrintReg] } else { seq![] }
}
/// a match on a str compares its chars
pub proof fn lemma_names(w: &str)
    ensures
        w@ == "add"@ ==> w == "add",
        w@ == "sub"@ ==> w == "sub",
        w@ == "number"@ ==> w == "number",
        w@ == "digit"@ ==> w == "digit",
        w@ == "number_s_"@ ==> w == "number_s_",
        w@ == "print"@ ==> w == "print",
{ broadcast use axiom_str_ext; }
/// what a machine state holds
pub ghost struct St { pub stack: Seq<usize>, pub reg: usize, pub reg2: usize, pub error: usize }
pub open spec fn st(s: SimpleStackVmState) -> St { St { stack: s.stack@, reg: s.reg, reg2: s.reg2, error: s.error } }
pub open spec fn fits(x: int) -> bool { 0 <= x <= usize::MAX }
impl St {
    pub open spec fn fail(self, e: usize) -> St { St { error: e, ..self } }
    pub open spec fn top(self) -> usize { self.stack.last() }
    pub open spec fn pop(self) -> St { St { stack: self.stack.drop_last(), ..self } }
    pub open spec fn push(self, x: usize) -> St { St { stack: self.stack.push(x), ..self } }
    /// push the exact result, or report that it does not fit
    pub open spec fn result(self, x: int) -> St { if fits(x) { self.push(x as usize) } else { self.fail(3) } }
}
/// the text of the first child of node n
pub open spec fn child_text(t: Tree<String>, n: NodeId) -> Option<Seq<char>> {
    if t.valid(n) && t.kids(n.node_ptr as int).len() > 0 { Some(t.nodes@[t.kids(n.node_ptr as int)[0] as int].data@) } else { None }
}
/// val * base^exp + add, exactly; the exponent is a 32 bit number and every part of it a value of the machine
pub open spec fn pow_add(val: usize, base: usize, exp: usize, add: usize) -> Option<usize> {
    let p = to_power(base as int, exp as nat);
    if 0 <= exp <= u32::MAX && fits(p) && fits(val * p) && fits(val * p + add) { Some((val * p + add) as usize) } else { None }
}
/// the state after instruction i on node n
pub open spec fn step(t: Tree<String>, s: St, n: NodeId, i: Instruction) -> St {
    let empty = s.stack.len() == 0;
    match i {
        Instruction::Digit | Instruction::PrintReg | Instruction::PrintReg2 | Instruction::PrintError => s,
        Instruction::PushConst(c) => s.push(c),
        Instruction::PushReg => s.push(s.reg),
        Instruction::PushReg2 => s.push(s.reg2),
        Instruction::RegAddConst(c) => if fits(s.reg + c) { St { reg: (s.reg + c) as usize, ..s } } else { s.fail(3) },
        Instruction::PopToReg => if empty { s.fail(1) } else { St { reg: s.top(), ..s.pop() } },
        Instruction::PopToReg2 => if empty { s.fail(1) } else { St { reg2: s.top(), ..s.pop() } },
        Instruction::PopDiscard => if empty { s.fail(1) } else { s.pop() },
        Instruction::Add => if empty { s.fail(1) } else { s.pop().result(s.top() + s.reg) },
        Instruction::Sub => if empty { s.fail(1) } else { s.pop().result(s.top() - s.reg) },
        Instruction::Pow(base) => if empty { s.fail(1) } else {
            match pow_add(s.top(), base, s.reg, s.reg2) { Some(x) => s.pop().push(x), None => s.pop().fail(3) }
        },
        Instruction::PushFromTree => match child_text(t, n) {
            None => s.fail(1),
            Some(x) => match parses::<usize>(x) { Some(v) => s.push(v), None => s.fail(2) },
        },
    }
}
/// what instruction i prints
pub open spec fn prints(s: St, i: Instruction) -> Seq<int> {
    match i {
        Instruction::PrintReg => seq![s.reg as int],
        Instruction::PrintReg2 => seq![s.reg2 as int],
        Instruction::PrintError => seq![s.error as int],
        _ => seq![],
    }
}
@*/

/// val * base^exp + add, or None if it does not fit
fn checked_pow_add(val: usize, base: usize, exp: usize, add: usize) -> /*@ (r: @*/ Option<usize> /*@ ) ensures r == pow_add(val, base, exp, add) @*/ {
    /*@ proof { lemma_power(base as int, exp as nat, val as int); } @*/
    let power = base.checked_pow(u32::try_from(exp).ok()?)?;
    val.checked_mul(power)?.checked_add(add)
}

impl VM for SimpleStackVm {
    /*@
    open spec fn read(&self, name: Seq<char>, s: Seq<char>) -> Option<Seq<Instruction>> { Some(table(name)) }
    open spec fn does(&self, t0: Tree<String>, s0: SimpleStackVmState, n: NodeId, i: Instruction, t1: Tree<String>, s1: SimpleStackVmState) -> bool {
        t1 == t0 && st(s1) == step(t0, st(s0), n, i) 
    }
    open spec fn is_new(s: SimpleStackVmState) -> bool { st(s) == (St { stack: seq![], reg: 0, reg2: 0, error: 0 }) }
    @*/
    type Tstate = SimpleStackVmState;
    type Tinstrution = Instruction;
    fn parse_instructions<T>(
        &self,
        prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<Self::Tinstrution>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let mut c = to_parse.next();
        /*@ let ghost mut n: nat = if c.is_some() { 1 } else { 0 }; @*/
        while let Some(_cc) = c
            /*@ invariant
                    old(to_parse).inner_laws(), n <= old(to_parse).left(),
                    c is Some ==> (&*to_parse).moved(&*old(to_parse), n),
                    c is None ==> (&*to_parse).drained(&*old(to_parse), n) && n == old(to_parse).seen().len(),
                ensures c is None
                decreases old(to_parse).left() - n + (if c is Some { 1int } else { 0 }) @*/
        {
            /*@ let ghost tp0 = *to_parse; @*/ c = to_parse.next()
            /*@ ; proof { if c.is_some() { n = n + 1; } else { crate::peekables::lemma_drained(&*old(to_parse), &tp0, &*to_parse, n); } } @*/
        }
        /*@ proof { broadcast use axiom_str_ext; } @*/
        let instruction = match prod_name {
            "add" => vec![Instruction::PopToReg, Instruction::Add],
            "sub" => vec![Instruction::PopToReg, Instruction::Sub],
            "number" => vec![Instruction::PopDiscard],
            "digit" => vec![Instruction::PushFromTree, Instruction::PushConst(1)],
            "number_s_" => vec![
                Instruction::PopToReg,
                Instruction::PopToReg2,
                Instruction::PopDiscard,
                Instruction::Pow(10),
                Instruction::RegAddConst(1),
                Instruction::PushReg,
            ],
            "print" => vec![Instruction::PopToReg, Instruction::PrintReg],
            _ => vec![],
        };
        /*@ proof { assert(instruction@ =~= table(prod_name@)); } @*/
        Ok(instruction)
    }

    fn execute_instruction(
        &self,
        tree: &mut Tree<String>,
        cur_node: NodeId,
        instruction: &Self::Tinstrution,
        state: &mut Self::Tstate,
    ) {
        /*@ let ghost mut out: Seq<int> = seq![]; @*/
        match instruction {
            Instruction::Add => {
                if let Some(var) = state.stack.pop() {
                    if let Some(res) = state.reg.checked_add(var) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Arithmetic overflow
                    }
                } else {
                    state.error = 1
                }
            }
            Instruction::Sub => {
                if let Some(var) = state.stack.pop() {
                    if let Some(res) = var.checked_sub(state.reg) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Arithmetic overflow
                    }
                } else {
                    state.error = 1
                }
            }

            Instruction::Digit => {}
            Instruction::PopToReg => {
                if let Some(res) = state.stack.pop() {
                    state.reg = res;
                } else {
                    state.error = 1
                }
            }
            Instruction::PopToReg2 => {
                if let Some(res) = state.stack.pop() {
                    state.reg2 = res;
                } else {
                    state.error = 1
                }
            }
            Instruction::PushConst(c) => {
                state.stack.push(*c);
            }
            Instruction::PushFromTree => {
                /*@ proof { reveal_with_fuel(Tree::walk, 3); if tree.valid(cur_node) { tree.lemma_kids(cur_node.node_ptr as int); } } @*/
                if let Some(node) = tree
                    .get_by_path_or_none(cur_node, vec![0].into_iter())
                    .ok()
                    .flatten()
                {
                    if let Ok(value) = node.data.parse::<usize>() {
                        state.stack.push(value);
                    } else {
                        state.error = 2; // Parsing error
                    }
                } else {
                    state.error = 1; // Node not found or other error
                }
            }
            Instruction::PopDiscard => {
                if let Some(res) = state.stack.pop() {
                    _ = res;
                } else {
                    state.error = 1
                }
            }
            Instruction::PrintReg => {
                let reg = state.reg;
                println!("{reg}");
            }
            Instruction::PrintReg2 => {
                let reg = state.reg2;
                println!("{reg}");
            }
            Instruction::PrintError => {
                let reg = state.error;
                println!("{reg}");
            }
            Instruction::Pow(base) => {
                if let Some(val) = state.stack.pop() {
                    if let Some(res) = checked_pow_add(val, *base, state.reg, state.reg2) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Arithmetic overflow
                    }
                } else {
                    state.error = 1
                }
            }
            Instruction::PushReg => state.stack.push(state.reg),
            Instruction::PushReg2 => state.stack.push(state.reg2),
            Instruction::RegAddConst(c) => {
                if let Some(res) = state.reg.checked_add(*c) {
                    state.reg = res;
                } else {
                    state.error = 3; // Arithmetic overflow
                }
            }
        }
        /*@ proof {
            let e = step(*old(tree), st(*old(state)), cur_node, *instruction);
            assert(st(*state).stack =~= e.stack);
            assert(out =~= prints(st(*old(state)), *instruction));
        } @*/
    }

    fn create_new_state() -> Self::Tstate {
        /*@ let r = @*/ SimpleStackVmState {
            stack: vec![],
            reg: 0,
            reg2: 0,
            error: 0,
        } /*@ ;
        proof { assert(r.stack@ =~= seq![]); }
        r @*/
    }
}
