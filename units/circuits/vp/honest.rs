//! Real traces of real runs: the runner executes a generated program, the real
//! generation code builds every table, and the rows are printed (and checked
//! with the real `debug_traces`). Used as witnesses that the assumptions of the
//! proofs are satisfiable and to check that a repair keeps honest proofs valid.
use mozak_runner::code::execute_code_with_ro_memory;
use mozak_runner::decode::ECALL;
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::RawTapes;
use mozak_sdk::core::ecall;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::util::timing::TimingTree;
use serde_json::{json, Value};

use crate::generation::{debug_traces, generate_traces};
use crate::stark::mozak_stark::{all_kind, MozakStark, PublicInputs};

struct Lcg(u64);
impl Lcg {
    fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        (self.0 >> 32) as u32
    }
    fn val(&mut self) -> u32 {
        match self.next() % 8 {
            0 => 0,
            1 => 0x8000_0000,
            2 => 0xFFFF_FFFF,
            3 => self.next() & 0xFF,
            4 => 1,
            5 => 0x7FFF_FFFF,
            _ => self.next(),
        }
    }
}

fn inst(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }

pub fn program(seed: u64) -> (Vec<Instruction>, Vec<(u8, u32)>) {
    let mut r = Lcg(seed);
    let mut code: Vec<Instruction> = vec![];
    let regs: Vec<(u8, u32)> = (1..10).map(|i| (i, r.val())).collect();
    let alu = [Op::ADD, Op::SUB, Op::XOR, Op::OR, Op::AND, Op::SLL, Op::SRL, Op::SRA, Op::SLT, Op::SLTU, Op::MUL, Op::MULH, Op::MULHU,
        Op::MULHSU, Op::DIV, Op::DIVU, Op::REM, Op::REMU];
    let br = [Op::BEQ, Op::BNE, Op::BLT, Op::BLTU, Op::BGE, Op::BGEU];
    let mem = [Op::SB, Op::SH, Op::SW, Op::LB, Op::LBU, Op::LH, Op::LHU, Op::LW];
    for _ in 0..120 {
        let (a, b, d) = ((r.next() % 10) as u8, (r.next() % 10) as u8, (r.next() % 20) as u8);
        match r.next() % 6 {
            0..=2 => {
                let op = alu[r.next() as usize % alu.len()];
                if r.next() % 2 == 0 { code.push(inst(op, if d < 10 { 0 } else { d }, a, b, 0)) } else { let v = r.val(); code.push(inst(op, if d < 10 { 0 } else { d }, a, 0, v)) }
            }
            3 => {
                let op = br[r.next() as usize % br.len()];
                let to = 4 * (code.len() as u32 + 1 + r.next() % 2);
                code.push(inst(op, 0, a, b, to));
                code.push(inst(Op::ADD, 11, 11, 0, 1));
            }
            4 => {
                let op = mem[r.next() as usize % mem.len()];
                let addr = 0x10000 + r.next() % 64;
                let store = matches!(op, Op::SB | Op::SH | Op::SW);
                code.push(inst(op, if store { 0 } else { 12 }, a, 0, addr));
            }
            _ => {
                let to = 4 * (code.len() as u32 + 1);
                code.push(inst(Op::JALR, 13, 0, 0, to));
            }
        }
    }
    let set = |code: &mut Vec<Instruction>, rd: u8, v: u32| code.push(inst(Op::ADD, rd, 0, 0, v));
    for (call, n) in [(ecall::PRIVATE_TAPE, 3), (ecall::PUBLIC_TAPE, 2), (ecall::CALL_TAPE, 4), (ecall::EVENT_TAPE, 5),
        (ecall::EVENTS_COMMITMENT_TAPE, 32), (ecall::CAST_LIST_COMMITMENT_TAPE, 32), (ecall::SELF_PROG_ID_TAPE, 32),
        (ecall::PRIVATE_TAPE, 0), (ecall::PRIVATE_TAPE, 2)] {
        set(&mut code, 10, call);
        set(&mut code, 11, 0x20000 + call * 0x100);
        set(&mut code, 12, n);
        code.push(ECALL);
    }
    set(&mut code, 10, ecall::POSEIDON2);
    set(&mut code, 11, 0x10000);
    set(&mut code, 12, 16);
    set(&mut code, 13, 0x30000);
    code.push(ECALL);
    (code, regs)
}

pub fn dump(seed: u64, check: bool) -> Value {
    let (code, regs) = program(seed);
    let rw: Vec<(u32, u8)> = (0..80).map(|i| (0x10000 + i, (i * 37 + 5 + seed as u32) as u8)).collect();
    let ro: Vec<(u32, u8)> = (0..8).map(|i| (0x9000 + i, i as u8)).collect();
    let tapes = RawTapes {
        private_tape: (1..40).collect(), public_tape: (2..30).collect(), call_tape: (3..30).collect(), event_tape: (4..30).collect(),
        events_commitment_tape: core::array::from_fn(|i| i as u8), cast_list_commitment_tape: core::array::from_fn(|i| 2 * i as u8),
        self_prog_id_tape: core::array::from_fn(|i| 3 * i as u8),
    };
    let (program, record) = execute_code_with_ro_memory(code, &ro, &rw, &regs, tapes);
    let mut timing = TimingTree::default();
    let traces = generate_traces::<F, 1>(&program, &record, &mut timing);
    let stark = MozakStark::<F, 1>::default();
    let public_inputs = PublicInputs { entry_point: F::from_canonical_u32(program.entry_point) };
    if check { debug_traces::<F, 1>(&traces, &stark, &public_inputs); }
    let t = all_kind!(|kind| {
        let cols = &traces[kind];
        let n = cols.first().map_or(0, |c| c.values.len());
        let rows: Vec<Vec<u64>> = (0..n).map(|i| cols.iter().map(|c| c.values[i].to_canonical_u64()).collect()).collect();
        (format!("{kind:?}"), json!(rows))
    });
    let mut m = serde_json::Map::new();
    for (k, v) in t.iter() { m.insert(k.clone(), v.clone()); }
    json!({"tables": m, "public": {"CpuSkeleton": [program.entry_point]}})
}

/// Everything one real run's tables get wrong: `None` if the real constraints
/// hold on every row and every lookup is balanced.
fn refused(code: Vec<Instruction>, regs: &[(u8, u32)], rw: &[(u32, u8)], tapes: RawTapes) -> Option<String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (program, record) = execute_code_with_ro_memory(code, &[(0x9000, 1)], rw, regs, tapes);
        let traces = generate_traces::<F, 1>(&program, &record, &mut TimingTree::default());
        let stark = MozakStark::<F, 1>::default();
        let public_inputs = PublicInputs { entry_point: F::from_canonical_u32(program.entry_point) };
        debug_traces::<F, 1>(&traces, &stark, &public_inputs);
        for (n, ctl) in stark.cross_table_lookups.iter().enumerate() {
            let mut sum = std::collections::BTreeMap::<Vec<u64>, F>::new();
            for t in &ctl.looking_tables {
                let trace = &traces[t.kind];
                let filter = t.filter_column.to_field();
                let columns: Vec<_> = t.columns.iter().map(|c| c.to_field()).collect();
                for i in 0..trace[0].values.len() {
                    let m = filter.eval_table(trace, i);
                    if m != F::ZERO {
                        let key = columns.iter().map(|c| c.eval_table(trace, i).to_canonical_u64()).collect();
                        *sum.entry(key).or_insert(F::ZERO) += m;
                    }
                }
            }
            if let Some((k, m)) = sum.iter().find(|(_, m)| **m != F::ZERO) {
                return Some(format!("lookup {n} is unbalanced at {k:?} by {m:?}"));
            }
        }
        None
    }));
    r.unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()));
        Some(m.unwrap_or_else(|| "panic".into()))
    })
}

const ALU: [Op; 18] = [Op::ADD, Op::SUB, Op::XOR, Op::OR, Op::AND, Op::SLL, Op::SRL, Op::SRA, Op::SLT, Op::SLTU, Op::MUL, Op::MULH, Op::MULHU,
    Op::MULHSU, Op::DIV, Op::DIVU, Op::REM, Op::REMU];
const BRANCH: [Op; 6] = [Op::BEQ, Op::BNE, Op::BLT, Op::BLTU, Op::BGE, Op::BGEU];
const LOAD: [Op; 5] = [Op::LB, Op::LBU, Op::LH, Op::LHU, Op::LW];
const STORE: [Op; 3] = [Op::SB, Op::SH, Op::SW];

/// The instructions of one case: operands `a` (x1) and `b`; `form` 0: `b` is
/// the immediate, 1: `b` is in x2, 2: `a` is both.
fn case(at: u32, op: Op, form: u32, a: u32, b: u32) -> Vec<Instruction> {
    let set = |rd, v| inst(Op::ADD, rd, 0, 0, v);
    if BRANCH.contains(&op) {
        // taken branches skip nothing, or go over one instruction
        let to = at + 4 * (2 + form);
        return vec![set(2, b), inst(op, 0, 1, 2, to), set(6, 1), set(6, 2)];
    }
    if LOAD.contains(&op) || STORE.contains(&op) {
        let addr = 0x1_0000 + b % 4;
        let (r1, imm) = if form == 0 { (0, addr) } else { (3, addr.wrapping_sub(a)) };
        let i = if LOAD.contains(&op) { inst(op, 5, 0, r1, imm) } else { inst(op, 0, 1, r1, imm) };
        return vec![set(3, a), inst(Op::SW, 0, 1, 0, 0x1_0000), i];
    }
    match form {
        0 => vec![inst(op, 5, 1, 0, b)],
        1 => vec![set(2, b), inst(op, 5, 1, 2, 0)],
        _ => vec![inst(op, 5, 1, 1, 0)],
    }
}

fn code(cases: &[(Op, u32, u32, u32)]) -> Vec<Instruction> {
    let mut c = vec![];
    for &(op, form, a, b) in cases {
        c.push(inst(Op::ADD, 1, 0, 0, a));
        let at = 4 * c.len() as u32;
        c.extend(case(at, op, form, a, b));
    }
    c
}

/// Programs for what one operation does not show.
fn programs() -> Vec<(String, Vec<Instruction>, RawTapes)> {
    let set = |rd, v| inst(Op::ADD, rd, 0, 0, v);
    let mut out = vec![];
    // the same register as source and destination, and x0 as destination
    for (a, b) in [(5, 7), (0x8000_0000, 0xffff_ffff), (0xffff_fff9, 2), (0, 0)] {
        let mut c = vec![];
        for op in ALU {
            for (rd, rs1, rs2) in [(1, 1, 2), (2, 1, 2), (1, 1, 1), (0, 1, 2), (0, 0, 0), (3, 0, 2), (3, 1, 0)] {
                c.extend([set(1, a), set(2, b), inst(op, rd, rs1, rs2, 0)]);
            }
        }
        for (rd, rs1) in [(1, 1), (0, 1), (2, 0)] {
            let to = 4 * (c.len() as u32 + 2);
            c.push(set(1, if rs1 == 0 { 0 } else { to - 8 }));
            c.push(inst(Op::JALR, rd, rs1, 0, if rs1 == 0 { to } else { 8 }));
        }
        out.push((format!("aliased registers, {a:#x} and {b:#x}"), c, RawTapes::default()));
    }
    // a loop: the same instructions, registers and addresses many times
    for n in [0u32, 1, 2, 3, 14, 15, 16, 100] {
        let c = vec![
            set(1, n), set(2, 0x1_0000),
            inst(Op::BEQ, 0, 1, 0, 4 * 10),
            inst(Op::LW, 3, 0, 2, 0), inst(Op::MUL, 3, 3, 0, 3), inst(Op::SH, 0, 3, 2, 0), inst(Op::SB, 0, 1, 2, 5),
            inst(Op::SUB, 1, 1, 0, 1), inst(Op::XOR, 4, 4, 3, 0), inst(Op::BNE, 0, 1, 0, 4 * 3),
        ];
        out.push((format!("a loop of {n} turns"), c, RawTapes::default()));
    }
    // every tape: requests of every size around what is there
    let tapes = |n: u8| RawTapes {
        private_tape: (0..n).collect(), public_tape: (0..n).map(|i| i ^ 0x5a).collect(), call_tape: (0..n).map(|i| i.wrapping_mul(7)).collect(),
        event_tape: (0..n).map(|i| 255 - i).collect(), events_commitment_tape: core::array::from_fn(|i| i as u8),
        cast_list_commitment_tape: core::array::from_fn(|i| 2 * i as u8), self_prog_id_tape: core::array::from_fn(|i| 200 - i as u8),
    };
    let halt = |mut c: Vec<Instruction>| { c.extend([set(10, ecall::HALT), ECALL]); c };
    for sizes in [vec![0u32], vec![1], vec![0, 1, 0], vec![3, 4, 1], vec![5, 5, 5], vec![1, 2, 3, 4, 5], vec![16], vec![4, 12]] {
        for call in [ecall::PRIVATE_TAPE, ecall::PUBLIC_TAPE, ecall::CALL_TAPE, ecall::EVENT_TAPE] {
            let mut c = vec![];
            for (k, n) in sizes.iter().enumerate() {
                c.extend([set(10, call), set(11, 0x2_0000 + 3 * k as u32), set(12, *n), ECALL]);
            }
            out.push((format!("tape {call} read {sizes:?}"), halt(c), tapes(16)));
        }
    }
    for call in [ecall::EVENTS_COMMITMENT_TAPE, ecall::CAST_LIST_COMMITMENT_TAPE, ecall::SELF_PROG_ID_TAPE] {
        out.push((format!("tape {call}"), halt(vec![set(10, call), set(11, 0x2_0000), set(12, 32), ECALL]), tapes(0)));
    }
    // hashes of one to several blocks, at different places, read again
    for n in [8u32, 16, 24, 32, 64, 128] {
        let c = vec![
            set(10, ecall::POSEIDON2), set(11, 0x1_0000), set(12, n), set(13, 0x3_0000), ECALL,
            inst(Op::LW, 3, 0, 0, 0x3_0000), inst(Op::SW, 0, 3, 0, 0x1_0000),
            set(10, ecall::POSEIDON2), set(13, 0x3_0001), ECALL, inst(Op::LBU, 4, 0, 0, 0x3_0001),
        ];
        out.push((format!("hashes of {n} bytes"), halt(c), RawTapes::default()));
    }
    // addresses around the end of the address space
    for at in [0xffff_fff8u32, 0xffff_fffc, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff] {
        for op in LOAD.iter().chain(&STORE) {
            let i = if STORE.contains(op) { inst(*op, 0, 1, 0, at) } else { inst(*op, 5, 0, 0, at) };
            out.push((format!("{op:?} at {at:#x}"), vec![set(1, 0x8183_8587), i, inst(Op::LBU, 6, 0, 0, at)], RawTapes::default()));
        }
        out.push((format!("tape read to {at:#x}"), halt(vec![set(10, ecall::PRIVATE_TAPE), set(11, at), set(12, 6), ECALL]), tapes(16)));
    }
    // no instruction but the last, and padding of every length
    for n in 0..20 {
        out.push((format!("{n} instructions"), (0..n).map(|k| inst(Op::ADD, 1, 1, 0, k)).collect(), RawTapes::default()));
    }
    out
}

/// Runs of every operation on a grid of operands; returns what is refused.
pub fn grid(parts: usize) -> Value {
    std::panic::set_hook(Box::new(|_| {}));
    let mut v: Vec<u32> = vec![0, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7fff_ffff, 0x7fff_fffe, 0x8000_0001, 0xaaaa_aaaa,
        0x5555_5555, 0x1234_5678, 0xffff_0000, 0xffff_8000, 0xffff_ff80, 0xffff_ff7f];
    v.extend((0..32).map(|k| 1 << k));
    v.extend((1..=40).map(|k: u32| k.wrapping_neg()));
    v.extend([3, 5, 6, 7, 9, 10, 12, 15, 17, 30, 31, 33, 40, 63]);
    v.sort_unstable();
    v.dedup();
    let mut runs: Vec<Vec<(Op, u32, u32, u32)>> = vec![];
    let ops: Vec<Op> = ALU.iter().chain(&BRANCH).chain(&LOAD).chain(&STORE).copied().collect();
    for (i, &a) in v.iter().enumerate() {
        let mut run = vec![];
        for (j, &b) in v.iter().enumerate() {
            for (k, &op) in ops.iter().enumerate() {
                let form = if ALU.contains(&op) && j == 0 { 2 } else { ((i + j + k) % 2) as u32 };
                if BRANCH.contains(&op) || ALU.contains(&op) || j < 8 { run.push((op, form, a, b)) }
            }
        }
        runs.push(run);
    }
    let mut total: usize = runs.iter().map(Vec::len).sum();
    let all: Vec<(u32, u8)> = (0..160).map(|i| (0x1_0000 + i, (i * 29) as u8)).collect();
    let mut first = vec![];
    for (name, code, tapes) in programs() {
        total += 1;
        if let Some(why) = refused(code.clone(), &[], &all, tapes) {
            first.push(json!({"case": [name], "cases": 1, "why": why, "code": format!("{code:?}")}));
        }
    }
    let runs = std::sync::Mutex::new(runs);
    let bad = std::sync::Mutex::new(first);
    let rw: Vec<(u32, u8)> = (0..16).map(|i| (0x1_0000 + i, i as u8)).collect();
    std::thread::scope(|s| {
        for _ in 0..parts {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let Some(mut run) = runs.lock().unwrap().pop() else { return };
                if bad.lock().unwrap().len() > 4 { return }
                let Some(mut why) = refused(code(&run), &[], &rw, RawTapes::default()) else { continue };
                // halve the run while one half is refused
                while run.len() > 1 {
                    let (l, r) = run.split_at(run.len() / 2);
                    let Some((half, w)) = [l.to_vec(), r.to_vec()].into_iter().find_map(|h| refused(code(&h), &[], &rw, RawTapes::default()).map(|w| (h, w))) else { break };
                    run = half;
                    why = w;
                }
                let what: Vec<String> = run.iter().take(3).map(|(op, form, a, b)| format!("{op:?} of {a:#x} and {b:#x}, form {form}")).collect();
                bad.lock().unwrap().push(json!({"case": what, "cases": run.len(), "why": why, "code": format!("{:?}", code(&run[..1]))}));
            }).unwrap();
        }
    });
    json!({"cases": total, "refused": bad.into_inner().unwrap()})
}
