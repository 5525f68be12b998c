//! The machine a program starts with.
use super::*;
use crate::elf::Data;
use crate::state::RawTapes;

fn tape() -> Vec<u8> {
    let b: [u8; 2] = kani::any();
    b.to_vec()
}
fn data<const N: usize>(m: &[(u32, u8); N]) -> HashMap<u32, u8> { (*m).into() }
fn at<const N: usize>(m: &[(u32, u8); N], a: u32) -> Option<u8> {
    let mut r = None;
    for i in 0..N {
        if m[i].0 == a {
            r = Some(m[i].1);
        }
    }
    r
}
fn check<const A: usize, const B: usize>(s: &State<F>, ro: &[(u32, u8); A], rw: &[(u32, u8); B], pc: u32) {
    let a: u32 = kani::any();
    kani::assert(s.memory.data.get(&a).copied() == at(ro, a).or(at(rw, a)), "memory is the program's, read-only data first");
    kani::assert(s.memory.is_read_only.contains(&a) == at(ro, a).is_some(), "read-only is what the program says");
    kani::assert(s.pc == pc && s.clk == 2 && !s.halted, "at the entry point, at the first tick, running");
    kani::assert(s.registers[any_reg()] == 0, "registers are zero");
    kani::assert(s.private_tape.read_index == 0 && s.public_tape.read_index == 0 && s.call_tape.read_index == 0 && s.event_tape.read_index == 0, "nothing was read");
}
fn start<const A: usize, const B: usize>() {
    let (ro, rw): ([(u32, u8); A], [(u32, u8); B]) = (core::array::from_fn(|_| (kani::any(), kani::any())), core::array::from_fn(|_| (kani::any(), kani::any())));
    let pc: u32 = kani::any();
    let p = Program { entry_point: pc, ro_memory: Data(data(&ro)), rw_memory: Data(data(&rw)), ro_code: Code::default() };
    let s = State::<F>::new(p, RawTapes::default());
    check(&s, &ro, &rw, pc);
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
fn from<const A: usize, const B: usize>() {
    let (ro, rw): ([(u32, u8); A], [(u32, u8); B]) = (core::array::from_fn(|_| (kani::any(), kani::any())), core::array::from_fn(|_| (kani::any(), kani::any())));
    let pc: u32 = kani::any();
    let p = Program { entry_point: pc, ro_memory: Data(data(&ro)), rw_memory: Data(data(&rw)), ro_code: Code::default() };
    let s = State::<F>::from(p);
    check(&s, &ro, &rw, pc);
    kani::assert(s.private_tape.data.is_empty() && s.public_tape.data.is_empty() && s.call_tape.data.is_empty() && s.event_tape.data.is_empty(), "no input");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
#[kani::proof]
#[kani::unwind(6)]
fn tapes() {
    let t = RawTapes {
        private_tape: tape(), public_tape: tape(), call_tape: tape(), event_tape: tape(),
        events_commitment_tape: kani::any(), cast_list_commitment_tape: kani::any(), self_prog_id_tape: kani::any(),
    };
    let (a, b, c, d) = ([t.private_tape[0], t.private_tape[1]], [t.public_tape[0], t.public_tape[1]], [t.call_tape[0], t.call_tape[1]], [t.event_tape[0], t.event_tape[1]]);
    let (e, f, g) = (t.events_commitment_tape, t.cast_list_commitment_tape, t.self_prog_id_tape);
    let s = State::<F>::new(Program::default(), t);
    let i: usize = kani::any();
    kani::assume(i < 32);
    kani::assert(s.private_tape.data.len() == 2 && s.private_tape.data[i % 2] == a[i % 2], "the private input");
    kani::assert(s.public_tape.data.len() == 2 && s.public_tape.data[i % 2] == b[i % 2], "the public input");
    kani::assert(s.call_tape.data.len() == 2 && s.call_tape.data[i % 2] == c[i % 2], "the call tape");
    kani::assert(s.event_tape.data.len() == 2 && s.event_tape.data[i % 2] == d[i % 2], "the event tape");
    kani::assert(s.events_commitment_tape.0[i] == e[i] && s.cast_list_commitment_tape.0[i] == f[i] && s.self_prog_id_tape[i] == g[i], "commitments and identity");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
macro_rules! contracts_start { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::unwind(6)]
    fn $name() { $e }
)* } }
contracts_start! { start_0_1 = start::<0, 1>(), start_1_0 = start::<1, 0>(), start_1_1 = start::<1, 1>(), start_2_1 = start::<2, 1>(), start_2_2 = start::<2, 2>(), from_1_1 = from::<1, 1>() }
