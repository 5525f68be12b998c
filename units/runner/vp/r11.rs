//! A run is the chain of single steps from its start to the halt.
use super::*;
use crate::state::StateMemory;
use crate::vm::step;
use plonky2::hash::hash_types::RichField;

/// How many steps the program takes, and how it ends.
static mut STEPS: usize = 0;
static mut FAILS: bool = false;
static mut TAKEN: usize = 0;
/// What each step saw and gave.
static mut PC: [u32; 4] = [0; 4];
static mut GAVE: [u32; 4] = [0; 4];

/// Stands for one step (R02 to R10): any instruction, any details, any next state.
fn one_step<F: RichField>(s: State<F>, p: &Program) -> anyhow::Result<(Aux<F>, Instruction, State<F>)> {
    unsafe {
        kani::assert(!s.halted, "a halted machine takes no step");
        kani::assert(TAKEN < STEPS, "no step after the last");
        PC[TAKEN] = s.pc;
        if FAILS && TAKEN + 1 == STEPS {
            return Err(anyhow::anyhow!("no instruction"));
        }
        let g: u32 = kani::any();
        GAVE[TAKEN] = g;
        TAKEN += 1;
        let mut t = s;
        t.pc = g;
        t.clk += 1;
        t.halted = !FAILS && TAKEN == STEPS;
        Ok((Aux { dst_val: !g, ..Aux::default() }, Instruction { op: Op::ADD, args: Args { imm: g ^ 1, ..Args::default() } }, t))
    }
}
fn run<const N: usize, const FAIL: bool>() {
    unsafe {
        STEPS = N;
        FAILS = FAIL;
    }
    let mut s = State::<F>::default();
    s.pc = kani::any();
    s.clk = kani::any();
    kani::assume(s.clk < 1000);
    s.halted = N == 0;
    let (pc, clk) = (s.pc, s.clk);
    let p = Program::default();
    let r = step(&p, s);
    unsafe {
        match r {
            Err(_) => kani::assert(FAIL, "a program that halts has a record"),
            Ok(r) => {
                kani::assert(!FAIL, "a program that cannot go on is refused");
                kani::assert(TAKEN == N && r.executed.len() == N, "one row per step");
                for k in 0..N {
                    let row = &r.executed[k];
                    kani::assert(row.state.pc == if k == 0 { pc } else { GAVE[k - 1] }, "a row has the state before its step");
                    kani::assert(row.state.pc == PC[k], "which is the state the step was taken from");
                    kani::assert(row.state.clk == clk + k as u64 && !row.state.halted, "in order, none of them halted");
                    kani::assert(row.aux.dst_val == !GAVE[k] && row.instruction.args.imm == GAVE[k] ^ 1, "and the step's own instruction and details");
                }
                let end = if N == 0 { pc } else { GAVE[N - 1] };
                kani::assert(r.last_state.pc == end && r.last_state.halted && r.last_state.clk == clk + N as u64, "the last state is the one that halted");
                std::mem::forget(r);
            }
        }
    }
    kani::cover!(true, "reached");
    std::mem::forget(p);
}
macro_rules! contracts_run { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::stub(crate::state::State::execute_instruction, one_step)]
    #[kani::unwind(5)]
    fn $name() { $e }
)* } }
contracts_run! { halted = run::<0, false>(), one = run::<1, false>(), two = run::<2, false>(), three = run::<3, false>(), fails_first = run::<1, true>(), fails_third = run::<3, true>() }
