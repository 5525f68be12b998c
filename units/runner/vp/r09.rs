//! Ecalls that do not read input: halt, panic, trace log, unknown numbers.
use super::*;

const A0: usize = 10;
const A1: usize = 11;
const A2: usize = 12;

fn ecall_step(mut s: State<F>) -> Step {
    let m: u32 = kani::any();
    s.memory.data = HashMap::watched(m, kani::any());
    step_from(s, Op::ECALL, crate::decode::ECALL.args)
}
fn only_control(x: Step, next: u32, halts: bool) {
    let k = any_reg();
    kani::assert(x.t.registers[k] == x.s.registers[k], "no register changes");
    kani::assert(x.t.pc == next, "next pc");
    kani::assert(x.t.clk == x.s.clk + 1, "clock advances by 1");
    kani::assert(x.t.halted == halts, "halted flag");
    kani::assert(x.aux.will_halt == halts, "halting recorded");
    kani::assert(x.aux.new_pc == next, "next pc recorded");
    kani::assert(
        x.aux.poseidon2.is_none() && x.aux.storage_device_entry.is_none() && x.aux.mem.is_none(),
        "no side effect recorded",
    );
    let (a, b) = (&x.s, &x.t);
    kani::assert(
        a.private_tape.read_index == b.private_tape.read_index
            && a.public_tape.read_index == b.public_tape.read_index
            && a.call_tape.read_index == b.call_tape.read_index
            && a.event_tape.read_index == b.event_tape.read_index,
        "tape positions unchanged",
    );
    done(x);
}
#[kani::proof]
#[kani::unwind(6)]
fn halt() {
    let mut s = any_state();
    s.registers[A0] = mozak_sdk::core::ecall::HALT;
    let x = ecall_step(s);
    let pc = x.s.pc;
    only_control(x, pc, true);
}
#[kani::proof]
#[kani::unwind(2)]
fn unknown() {
    let mut s = any_state();
    kani::assume(s.registers[A0] > 10);
    let x = ecall_step(s);
    let next = x.s.pc.wrapping_add(4);
    only_control(x, next, false);
}
/// (bounded: messages of at most 2 bytes; logging itself is compiled out)
#[kani::proof]
#[kani::unwind(4)]
fn trace_log() {
    let mut s = any_state();
    s.registers[A0] = mozak_sdk::core::ecall::VM_TRACE_LOG;
    kani::assume(s.registers[A2] <= 2 && s.registers[A1] <= u32::MAX - 2);
    s.memory.data = any_memory::<2>();
    let x = step_from(s, Op::ECALL, crate::decode::ECALL.args);
    let next = x.s.pc.wrapping_add(4);
    same_memory(&x.s, &x.t);
    only_control(x, next, false);
}
/// (bounded: messages of at most 2 bytes)
#[kani::proof]
#[kani::unwind(4)]
#[kani::should_panic]
fn panic() {
    let mut s = any_state();
    s.registers[A0] = mozak_sdk::core::ecall::PANIC;
    kani::assume(s.registers[A2] <= 2 && s.registers[A1] <= u32::MAX - 2);
    let p = program_at(s.pc, Instruction { op: Op::ECALL, args: crate::decode::ECALL.args });
    let _ = s.execute_instruction(&p);
    kani::cover!(true, "execution continues after a panic ecall");
}
