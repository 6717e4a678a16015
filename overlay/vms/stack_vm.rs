use crate::errors::ParserError;
use crate::parse_funcs::{parse_var_name, parse_whitespace};
use crate::peekables::{ParseProcess, TPeekable};
use crate::tree::{NodeId, Tree};
use crate::vms::VM;

use crate::parse_funcs::{parse_symbol, parse_usize};

pub enum Instruction {
    Add,
    RegAddConst(isize),
    Sub,
    Digit,
    PopToReg,
    PopToReg2,
    PopDiscard,
    PushConst(isize),
    PushFromTree,
    PushReg,
    PushReg2,
    PrintReg,
    PrintReg2,
    PrintError,
    Pow(usize),
}

pub struct StackVmState {
    pub stack: Vec<isize>,
    pub reg: isize,
    pub reg2: isize,
    pub error: usize,
    pub instruction_counter: usize,
    pub instructions: Vec<Instruction>,
}
pub struct StackVm {}
/*@
/// a match on a str compares its chars
pub proof fn lemma_names(w: &str)
    ensures
        w@ == "Add"@ ==> w == "Add",
        w@ == "RegAddConst"@ ==> w == "RegAddConst",
        w@ == "Sub"@ ==> w == "Sub",
        w@ == "Digit"@ ==> w == "Digit",
        w@ == "PopToReg"@ ==> w == "PopToReg",
        w@ == "PopToReg2"@ ==> w == "PopToReg2",
        w@ == "PopDiscard"@ ==> w == "PopDiscard",
        w@ == "PushConst"@ ==> w == "PushConst",
        w@ == "PushFromTree"@ ==> w == "PushFromTree",
        w@ == "PushReg"@ ==> w == "PushReg",
        w@ == "PushReg2"@ ==> w == "PushReg2",
        w@ == "PrintReg"@ ==> w == "PrintReg",
        w@ == "PrintReg2"@ ==> w == "PrintReg2",
        w@ == "PrintError"@ ==> w == "PrintError",
        w@ == "Pow"@ ==> w == "Pow",
{ broadcast use axiom_str_ext; }
/// the instructions without an argument
pub open spec fn plain(w: Seq<char>) -> Option<Instruction> {
    if w == "Add"@ { Some(Instruction::Add) } else if w == "Sub"@ { Some(Instruction::Sub) } else if w == "Digit"@ { Some(Instruction::Digit) } else if w == "PopToReg"@ { Some(Instruction::PopToReg) } else if w == "PopToReg2"@ { Some(Instruction::PopToReg2) } else if w == "PopDiscard"@ { Some(Instruction::PopDiscard) } else if w == "PushFromTree"@ { Some(Instruction::PushFromTree) } else if w == "PushReg"@ { Some(Instruction::PushReg) } else if w == "PushReg2"@ { Some(Instruction::PushReg2) } else if w == "PrintReg"@ { Some(Instruction::PrintReg) } else if w == "PrintReg2"@ { Some(Instruction::PrintReg2) } else if w == "PrintError"@ { Some(Instruction::PrintError) } else { None }
}
pub open spec fn takes_number(w: Seq<char>) -> bool { w == "RegAddConst"@ || w == "PushConst"@ || w == "Pow"@ }
/// the instruction w with argument v
pub open spec fn with_number(w: Seq<char>, v: nat) -> Option<Instruction> {
    if w == "Pow"@ { if v <= usize::MAX { Some(Instruction::Pow(v as usize)) } else { None } }
    else if v > isize::MAX { None }
    else if w == "PushConst"@ { Some(Instruction::PushConst(v as isize)) }
    else { Some(Instruction::RegAddConst(v as isize)) }
}
/// what the text s starts with: a name, an argument where one belongs to it, a semicolon, white space;
/// the instruction (names that mean nothing count for nothing) and the text behind, or None if it is malformed
pub open spec fn one(s: Seq<char>) -> Option<(Option<Instruction>, Seq<char>)> {
    if s.len() == 0 || !is_alpha(s[0]) { None }
    else {
        let n = 1 + name_len(s.skip(1));
        let w = s.take(n as int);
        let t = s.skip(n as int);
        behind_name(w, t)
    }
}
pub open spec fn behind_name(w: Seq<char>, t: Seq<char>) -> Option<(Option<Instruction>, Seq<char>)> {
        if takes_number(w) {
            let u = t.skip(ws_len(t) as int);
            let d = digit_len(u);
            match with_number(w, dec_value(u.take(d as int))) {
                Some(i) => if d > 0 { closed_by(Some(i), u.skip(d as int)) } else { None },
                None => None,
            }
        } else { closed_by(plain(w), t) }
}
pub open spec fn closed_by(i: Option<Instruction>, t: Seq<char>) -> Option<(Option<Instruction>, Seq<char>)> {
    if t.len() > 0 && t[0] == ';' { Some((i, t.skip(1).skip(ws_len(t.skip(1)) as int))) } else { None }
}
pub open spec fn and_also(done: Seq<Instruction>, i: Option<Instruction>) -> Seq<Instruction> {
    match i { Some(i) => done.push(i), None => done }
}
/// the instructions `done` followed by those the text s (which does not start with white space) holds
pub open spec fn reading(done: Seq<Instruction>, s: Seq<char>) -> Option<Seq<Instruction>>
    decreases s.len()
{
    if s.len() == 0 { Some(done) } else {
        match one(s) {
            None => None,
            Some((i, t)) => if t.len() < s.len() { reading(and_also(done, i), t) } else { None },
        }
    }
}
pub proof fn lemma_closed_by(i: Option<Instruction>, t: Seq<char>)
    ensures closed_by(i, t) matches Some((j, u)) ==> u.len() < t.len()
{ lemma_prefix_len(t.skip(1), |c: char| is_ws(c)); }
/// reading goes on behind the instruction the text starts with
pub proof fn lemma_reading(done: Seq<Instruction>, s: Seq<char>)
    requires s.len() > 0
    ensures ({
        let n = 1 + name_len(s.skip(1));
        reading(done, s) == if !is_alpha(s[0]) { None } else { match behind_name(s.take(n as int), s.skip(n as int)) { None => None, Some((i, u)) => reading(and_also(done, i), u) } }
    })
{
    if is_alpha(s[0]) {
        let n = 1 + name_len(s.skip(1)); let w = s.take(n as int); let t = s.skip(n as int);
        lemma_prefix_len(s.skip(1), |c: char| is_name_char(c));
        lemma_closed_by(plain(w), t);
        let u = t.skip(ws_len(t) as int); let d = digit_len(u);
        lemma_prefix_len(t, |c: char| is_ws(c)); lemma_digit_len(u);
        if let Some(i) = with_number(w, dec_value(u.take(d as int))) { lemma_closed_by(Some(i), u.skip(d as int)); }
    }
}
/// what a machine state holds
pub ghost struct St { pub stack: Seq<isize>, pub reg: isize, pub reg2: isize, pub error: usize }
pub open spec fn st(s: StackVmState) -> St { St { stack: s.stack@, reg: s.reg, reg2: s.reg2, error: s.error } }
pub open spec fn fits(x: int) -> bool { isize::MIN <= x <= isize::MAX }
impl St {
    pub open spec fn fail(self, e: usize) -> St { St { error: e, ..self } }
    pub open spec fn top(self) -> isize { self.stack.last() }
    pub open spec fn pop(self) -> St { St { stack: self.stack.drop_last(), ..self } }
    pub open spec fn push(self, x: isize) -> St { St { stack: self.stack.push(x), ..self } }
    /// push the exact result, or report that it does not fit
    pub open spec fn result(self, x: int) -> St { if fits(x) { self.push(x as isize) } else { self.fail(3) } }
}
/// the text of the first child of node n
pub open spec fn child_text(t: Tree<String>, n: NodeId) -> Option<Seq<char>> {
    if t.valid(n) && t.kids(n.node_ptr as int).len() > 0 { Some(t.nodes@[t.kids(n.node_ptr as int)[0] as int].data@) } else { None }
}
/// val * base^exp + add, exactly; the exponent is a 32 bit number and every part of it a value of the machine
pub open spec fn pow_add(val: isize, base: usize, exp: isize, add: isize) -> Option<isize> {
    let p = to_power(base as int, exp as nat);
    if 0 <= exp <= u32::MAX && fits(p) && fits(val * p) && fits(val * p + add) { Some((val * p + add) as isize) } else { None }
}
/// the state after instruction i on node n
pub open spec fn step(t: Tree<String>, s: St, n: NodeId, i: Instruction) -> St {
    let empty = s.stack.len() == 0;
    match i {
        Instruction::Digit | Instruction::PrintReg | Instruction::PrintReg2 | Instruction::PrintError => s,
        Instruction::PushConst(c) => s.push(c),
        Instruction::PushReg => s.push(s.reg),
        Instruction::PushReg2 => s.push(s.reg2),
        Instruction::RegAddConst(c) => if fits(s.reg + c) { St { reg: (s.reg + c) as isize, ..s } } else { s.fail(3) },
        Instruction::PopToReg => if empty { s.fail(1) } else { St { reg: s.top(), ..s.pop() } },
        Instruction::PopToReg2 => if empty { s.fail(1) } else { St { reg2: s.top(), ..s.pop() } },
        Instruction::PopDiscard => if empty { s.fail(1) } else { s.pop() },
        Instruction::Add => if empty { s.fail(1) } else { s.pop().result(s.top() + s.reg) },
        Instruction::Sub => if empty { s.fail(1) } else { s.pop().result(s.top() - s.reg) },
        Instruction::Pow(base) => if empty { s.fail(1) } else {
            match pow_add(s.top(), base, s.reg, s.reg2) { Some(x) => s.pop().push(x), None => s.pop().fail(3) }
        },
        Instruction::PushFromTree => match child_text(t, n) {
            None => s.fail(1),
            Some(x) => match parses::<isize>(x) { Some(v) => s.push(v), None => s.fail(2) },
        },
    }
}
/// what instruction i prints
pub open spec fn prints(s: St, i: Instruction) -> Seq<int> {
    match i {
        Instruction::PrintReg => seq![s.reg as int],
        Instruction::PrintReg2 => seq![s.reg2 as int],
        Instruction::PrintError => seq![s.error as int],
        _ => seq![],
    }
}
@*/

fn parse_const(val: usize) -> /*@ (r: @*/ Result<isize, ParserError> /*@ ) ensures r is Ok <==> val <= isize::MAX, r is Ok ==> r->Ok_0 == val @*/ {
    isize::try_from(val).map_err(|_| ParserError::Impossible)
}

/// val * base^exp + add, or None if it does not fit
fn checked_pow_add(val: isize, base: usize, exp: isize, add: isize) -> /*@ (r: @*/ Option<isize> /*@ ) ensures r == pow_add(val, base, exp, add) @*/ {
    /*@ proof { lemma_power(base as int, exp as nat, val as int); } @*/
    let power = base.checked_pow(u32::try_from(exp).ok()?)?;
    val.checked_mul(isize::try_from(power).ok()?)?.checked_add(add)
}

impl VM for StackVm {
    /*@
    open spec fn read(&self, name: Seq<char>, s: Seq<char>) -> Option<Seq<Instruction>> { reading(seq![], s.skip(ws_len(s) as int)) }
    open spec fn does(&self, t0: Tree<String>, s0: StackVmState, n: NodeId, i: Instruction, t1: Tree<String>, s1: StackVmState) -> bool {
        t1 == t0 && st(s1) == step(t0, st(s0), n, i) && s1.instruction_counter == s0.instruction_counter && s1.instructions == s0.instructions
    }
    open spec fn is_new(s: StackVmState) -> bool { st(s) == (St { stack: seq![], reg: 0, reg2: 0, error: 0 }) }
    @*/
    type Tstate = StackVmState;
    type Tinstrution = Instruction;

    fn parse_instructions<'a, T>(
        &'a self,
        _prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<Self::Tinstrution>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        /*@ hide(ParseProcess::moved); hide(ParseProcess::seen); hide(reading); hide(plain); @*/
        let mut instructions = Vec::new();
        parse_whitespace(to_parse);
        /*@ let ghost whole = self.read(_prod_name@, old(to_parse).seen()); proof { assert(instructions@ =~= seq![]); } @*/
        while to_parse.peek().is_some()
            /*@ invariant
                whole == self.read(_prod_name@, old(to_parse).seen()),
                old(to_parse).inner_laws(),
                (&*to_parse).moved(&*old(to_parse), (to_parse.pos() - old(to_parse).pos()) as nat),
                to_parse.pos() >= old(to_parse).pos(),
                reading(instructions@, to_parse.seen()) == whole,
                ensures to_parse.seen().len() == 0
                decreases to_parse.left() @*/
        {
            /*@ let ghost d0 = instructions@; let ghost l0 = to_parse.left(); proof { lemma_reading(d0, to_parse.seen()); } @*/
            let res = parse_var_name(to_parse)?;
            /*@ let ghost t = to_parse.seen(); proof { assert(to_parse.left() < l0); } @*/
            //match all instruction names to instructions
            match /*@ { let w = @*/ res.as_str() /*@ ; proof { lemma_names(w); } w } @*/ {
                "Add" => instructions.push(Instruction::Add),
                "RegAddConst" => {
                    parse_whitespace(to_parse);
                    let val = parse_usize(to_parse)?;
                    instructions.push(Instruction::RegAddConst(parse_const(val)?));
                }
                "Sub" => instructions.push(Instruction::Sub),
                "Digit" => instructions.push(Instruction::Digit),
                "PopToReg" => instructions.push(Instruction::PopToReg),
                "PopToReg2" => instructions.push(Instruction::PopToReg2),
                "PopDiscard" => instructions.push(Instruction::PopDiscard),
                "PushConst" => {
                    parse_whitespace(to_parse);
                    let val = parse_usize(to_parse)?;
                    instructions.push(Instruction::PushConst(parse_const(val)?));
                }
                "PushFromTree" => instructions.push(Instruction::PushFromTree),
                "PushReg" => instructions.push(Instruction::PushReg),
                "PushReg2" => instructions.push(Instruction::PushReg2),
                "PrintReg" => instructions.push(Instruction::PrintReg),
                "PrintReg2" => instructions.push(Instruction::PrintReg2),
                "PrintError" => instructions.push(Instruction::PrintError),
                "Pow" => {
                    parse_whitespace(to_parse);
                    let val = parse_usize(to_parse)?;
                    instructions.push(Instruction::Pow(val));
                }
                _ => {} // Handle unknown instructions if necessary
            }
            /*@ let ghost i = if takes_number(res@) { Some(instructions@.last()) } else { plain(res@) };
            proof {
                assert(!takes_number(res@) ==> i == plain(res@)) by { reveal(plain); }
                assert(instructions@ =~= and_also(d0, i)) by { reveal(plain); }
                assert(behind_name(res@, t) == closed_by(i, to_parse.seen()));
            } @*/
            parse_symbol(to_parse, ';')?;
            parse_whitespace(to_parse);
        }
        /*@ proof { reveal(ParseProcess::moved); reveal(reading); } @*/
        Ok(instructions)
    }

    fn execute_instruction(
        &self,
        tree: &mut Tree<String>,
        cur_node: NodeId,
        instruction: &Self::Tinstrution,
        state: &mut Self::Tstate,
    ) {
        /*@ let ghost mut out: Seq<int> = seq![]; @*/
        match instruction {
            Instruction::Add => {
                if let Some(var) = state.stack.pop() {
                    if let Some(res) = state.reg.checked_add(var) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Arithmetic overflow
                    }
                } else {
                    state.error = 1;
                }
            }
            Instruction::Sub => {
                if let Some(var) = state.stack.pop() {
                    if let Some(res) = var.checked_sub(state.reg) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Arithmetic overflow
                    }
                } else {
                    state.error = 1;
                }
            }

            Instruction::Digit => {}
            Instruction::PopToReg => {
                if let Some(res) = state.stack.pop() {
                    state.reg = res;
                } else {
                    state.error = 1;
                }
            }
            Instruction::PopToReg2 => {
                if let Some(res) = state.stack.pop() {
                    state.reg2 = res;
                } else {
                    state.error = 1;
                }
            }
            Instruction::PushConst(c) => {
                state.stack.push(*c);
            }
            Instruction::PushFromTree => {
                /*@ proof { reveal_with_fuel(Tree::walk, 3); if tree.valid(cur_node) { tree.lemma_kids(cur_node.node_ptr as int); } } @*/
                if let Some(node) = tree
                    .get_by_path_or_none(cur_node, vec![0].into_iter())
                    .ok()
                    .flatten()
                {
                    if let Ok(value) = node.data.parse::<isize>() {
                        state.stack.push(value);
                    } else {
                        state.error = 2; // Parsing error
                    }
                } else {
                    state.error = 1; // Node not found or other error
                }
            }
            Instruction::PopDiscard => {
                if let Some(res) = state.stack.pop() {
                    _ = res;
                } else {
                    state.error = 1
                }
            }
            Instruction::PrintReg => {
                let reg = state.reg;
                println!("{reg}");
            }
            Instruction::PrintReg2 => {
                let reg = state.reg2;
                println!("{reg}");
            }
            Instruction::PrintError => {
                let reg = state.error;
                println!("{reg}");
            }
            Instruction::Pow(base) => {
                if let Some(val) = state.stack.pop() {
                    if let Some(res) = checked_pow_add(val, *base, state.reg, state.reg2) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Arithmetic overflow
                    }
                } else {
                    state.error = 1;
                }
            }
            Instruction::PushReg => state.stack.push(state.reg),
            Instruction::PushReg2 => state.stack.push(state.reg2),
            Instruction::RegAddConst(c) => {
                if let Some(res) = state.reg.checked_add(*c) {
                    state.reg = res;
                } else {
                    state.error = 3; // Arithmetic overflow
                }
            }
        }
        /*@ proof {
            let e = step(*old(tree), st(*old(state)), cur_node, *instruction);
            assert(st(*state).stack =~= e.stack);
            assert(out =~= prints(st(*old(state)), *instruction));
        } @*/
    }

    fn create_new_state() -> Self::Tstate {
        /*@ let r = @*/ StackVmState {
            stack: vec![],
            reg: 0,
            reg2: 0,
            error: 0,
            instruction_counter: 0,
            instructions: vec![],
        } /*@ ;
        proof { assert(r.stack@ =~= seq![]); }
        r @*/
    }
}
