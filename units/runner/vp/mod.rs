//! Contracts of mozak-runner, as Kani proof harnesses: `assume(pre)`, call the
//! real function, `assert(post)`. Woven into a copy of /repo's current source.
#![allow(unused, static_mut_refs, clippy::all)]
pub mod spec;
mod r01;
mod r02;
mod r03;
mod r04;
mod r05;
mod r06;
mod r07;
mod r08;
mod r09;
mod r10;
mod r11;
mod r12;
mod r13;

use im::HashMap;
use plonky2::field::goldilocks_field::GoldilocksField;

use crate::code::Code;
use crate::elf::Program;
use crate::instruction::{Args, DecodingError, Instruction, Op};
use crate::state::{Aux, State, StateMemory};

pub type F = GoldilocksField;

/// Requires of every step contract: an arbitrary machine state with x0 = 0, a
/// clock that can be incremented, and no data in memory that matters beyond
/// `n` addresses.
pub fn any_state() -> State<F> {
    let mut s = State::<F>::default();
    s.clk = kani::any();
    kani::assume(s.clk < u64::MAX);
    s.registers = kani::any();
    s.registers[0] = 0;
    s.pc = kani::any();
    s.private_tape.read_index = kani::any();
    s.public_tape.read_index = kani::any();
    s.call_tape.read_index = kani::any();
    s.event_tape.read_index = kani::any();
    s
}
/// Arbitrary data memory (content visible through at most N distinct addresses).
pub fn any_memory<const N: usize>() -> HashMap<u32, u8> {
    let e: [(u32, u8); N] = core::array::from_fn(|_| (kani::any(), kani::any()));
    HashMap::arbitrary(e)
}
pub fn any_args() -> Args {
    let a = Args { rd: kani::any(), rs1: kani::any(), rs2: kani::any(), imm: kani::any() };
    kani::assume(a.rd < 32 && a.rs1 < 32 && a.rs2 < 32);
    a
}
/// A program whose code at `pc` is `inst` (fetching elsewhere fails an
/// obligation of the map stub).
pub fn program_at(pc: u32, inst: Instruction) -> Program {
    let mut p = Program::default();
    p.ro_code = Code(HashMap::only(pc, Ok(inst)));
    p
}
pub struct Step {
    pub s: State<F>,
    pub args: Args,
    pub aux: Aux<F>,
    pub t: State<F>,
}
/// One call of the real `execute_instruction` from `s`.
pub fn step_from(s: State<F>, op: Op, args: Args) -> Step {
    let inst = Instruction { op, args };
    let p = program_at(s.pc, inst);
    let r = s.clone().execute_instruction(&p);
    std::mem::forget(p);
    match r {
        Ok((aux, got, t)) => {
            kani::assert(got.op == op && got.args == args, "the executed instruction is the one at pc");
            Step { s, args, aux, t }
        }
        Err(_) => panic!("execution of a valid instruction is refused"),
    }
}
pub fn any_reg() -> usize {
    let k: usize = kani::any();
    kani::assume(k < 32);
    k
}
/// Frame: memory at an arbitrary address, tapes, halted.
pub fn same_memory(s: &State<F>, t: &State<F>) {
    let m: u32 = kani::any();
    kani::assert(s.memory.data.get(&m) == t.memory.data.get(&m), "memory unchanged");
    kani::assert(
        s.memory.is_read_only.contains(&m) == t.memory.is_read_only.contains(&m),
        "read-only set unchanged"
    );
}
pub fn same_io(s: &State<F>, t: &State<F>) {
    kani::assert(
        s.private_tape.read_index == t.private_tape.read_index
            && s.public_tape.read_index == t.public_tape.read_index
            && s.call_tape.read_index == t.call_tape.read_index
            && s.event_tape.read_index == t.event_tape.read_index,
        "tape positions unchanged"
    );
    kani::assert(s.halted == t.halted, "halted flag unchanged");
}
pub fn same_regs_but(s: &State<F>, t: &State<F>, rd: u8) {
    let k = any_reg();
    if k != rd as usize || k == 0 {
        kani::assert(t.registers[k] == s.registers[k], "other registers unchanged");
    }
}
pub fn done(s: Step) {
    kani::cover!(true, "end of the contract reached");
    std::mem::forget(s);
}
