//! Bounded checks of the runner by running it.
#![allow(unused, clippy::all)]
use std::collections::{BTreeMap, BTreeSet};

use elf::abi;
use elf::endian::LittleEndian;
use elf::file::{Class, FileHeader};
use elf::segment::{ProgramHeader, SegmentTable};
use elf::ElfBytes;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hashing::PlonkyPermutation;
use plonky2::hash::poseidon2::Poseidon2Permutation;

mod rng;
use rng::*;

use crate::code::{execute_code_with_ro_memory, Code};
use crate::decode::{decode_instruction, ECALL};
use crate::elf::{Data, Program};
use crate::instruction::{Args, DecodingError, Instruction, Op};
use crate::state::{RawTapes, State};
use crate::vm::{step, ExecutionRecord};

const OPS: [Op; 27] = [
    Op::ADD, Op::SUB, Op::XOR, Op::OR, Op::AND, Op::SLL, Op::SRL, Op::SRA, Op::SLT, Op::SLTU, Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU, Op::SB, Op::SH,
    Op::SW, Op::BEQ, Op::BNE, Op::BLT, Op::BGE, Op::JALR, Op::MUL, Op::DIV, Op::REMU, Op::ECALL,
];

/// All of a state there is to see; memory as its contents.
fn seen(s: &State<F>) -> String {
    let mut m: Vec<(u32, u8)> = s.memory.data.iter().map(|(k, v)| (*k, *v)).collect();
    m.sort_unstable();
    let mut ro: Vec<u32> = s.memory.is_read_only.iter().copied().collect();
    ro.sort_unstable();
    format!("{s:?}\n{m:?}\n{ro:?}")
}

// ---- R11
#[derive(Debug, Clone)]
struct Case { code: Vec<(u32, Result<Instruction, DecodingError>)>, regs: Vec<(u8, u32)>, pc: u32, halted: bool }
fn instruction(r: &mut Rng, pc: u32, n: u64) -> Instruction {
    let op = OPS[r.below(OPS.len() as u64) as usize];
    let reg = |r: &mut Rng| (r.below(6) + if r.below(4) == 0 { 6 } else { 0 }) as u8;
    let (rd, rs1, rs2) = (reg(r), reg(r), reg(r));
    // branches and jumps go forward, mostly to code
    let to = pc + 4 * (1 + r.below(4)) as u32;
    match op {
        Op::BEQ | Op::BNE | Op::BLT | Op::BGE => Instruction { op, args: Args { rd: 0, rs1, rs2, imm: to } },
        Op::JALR => Instruction { op, args: Args { rd, rs1: 0, rs2: 0, imm: to } },
        Op::ECALL => match r.below(3) {
            0 => ECALL,
            _ => Instruction { op: Op::ADD, args: Args { rd: 10, imm: r.below(10) as u32, ..Args::default() } },
        },
        _ => Instruction { op, args: Args { rd, rs1, rs2, imm: if r.below(2) == 0 { 0 } else { r.next() as u32 } } },
    }
}
fn case_of(r: &mut Rng) -> Case {
    let n = r.below(25);
    let pc = 4 * r.below(1000) as u32;
    let mut code = vec![];
    for i in 0..n {
        let at = pc + 4 * i as u32;
        code.push((at, match r.below(40) {
            0 => Err(DecodingError { pc: at, instruction: r.next() as u32 }),
            // a counted loop of a few rounds
            1 if i > 3 => Ok(Instruction { op: Op::BLT, args: Args { rd: 0, rs1: 7, rs2: 8, imm: at - 8 } }),
            2 => continue,
            _ => Ok(instruction(r, at, n)),
        }));
    }
    if r.below(5) != 0 {
        // ends by halting
        let at = pc + 4 * n as u32;
        code.push((at, Ok(Instruction { op: Op::ADD, args: Args { rd: 10, ..Args::default() } })));
        code.push((at + 4, Ok(ECALL)));
    }
    let regs = (1..16).map(|k| (k as u8, if k == 7 { 0 } else if k == 10 { r.below(11) as u32 } else if k == 12 { r.below(25) as u32 } else { r.next() as u32 >> (8 * r.below(4)) })).collect();
    Case { code, regs, pc, halted: r.below(50) == 0 }
}
const LIMIT: usize = 80;
fn run(seed: u64) -> u64 {
    let mut r = Rng(seed);
    let (mut n, mut halts, mut fails) = (0, 0, 0);
    while n < 10000 {
        let c = case_of(&mut r);
        let mut program = Program::default();
        program.ro_code = Code(c.code.iter().cloned().collect());
        let (a, b, d) = (r.below(9) as usize, r.below(9) as usize, r.below(9) as usize);
        let mut s = State::<F>::new(program.clone(), RawTapes { private_tape: r.bytes(a), public_tape: r.bytes(b), call_tape: r.bytes(d), ..RawTapes::default() });
        for (k, v) in &c.regs {
            s = s.set_register_value(*k, *v);
        }
        s.pc = c.pc;
        s.halted = c.halted;
        s.clk = r.below(1 << 19) + 2;
        // the same, one instruction at a time
        enum End { Halted, Error, Panic, Long }
        let mut rows = vec![];
        let mut at = s.clone();
        let end = loop {
            if at.halted {
                break End::Halted;
            }
            if rows.len() > LIMIT {
                break End::Long;
            }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| at.clone().execute_instruction(&program))) {
                Ok(Ok((aux, i, t))) => {
                    rows.push((seen(&at), i, format!("{aux:?}")));
                    at = t;
                }
                Ok(Err(_)) => break End::Error,
                Err(_) => break End::Panic,
            }
        };
        if matches!(end, End::Long) {
            continue;
        }
        n += 1;
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&program, s.clone())));
        let what = || format!("{c:?} with tapes of {a}, {b}, {d} bytes");
        case(&what, || match (end, got) {
            (End::Halted, Ok(Ok(x))) => {
                halts += 1;
                eq("steps", x.executed.len(), rows.len())?;
                for (k, (row, want)) in x.executed.iter().zip(&rows).enumerate() {
                    eq(&format!("state before step {k}"), seen(&row.state), want.0.clone())?;
                    eq(&format!("instruction of step {k}"), row.instruction, want.1)?;
                    eq(&format!("details of step {k}"), format!("{:?}", row.aux), want.2.clone())?;
                }
                eq("last state", seen(&x.last_state), seen(&at))
            }
            (End::Error, Ok(Err(_))) => { fails += 1; Ok(()) }
            (End::Panic, Err(_)) => { fails += 1; Ok(()) }
            (End::Halted, Ok(Err(e))) => Err(format!("a program that halts is refused: {e}")),
            (End::Halted, Err(_)) => Err("a program that halts panics".into()),
            (_, Ok(Ok(x))) => Err(format!("a program that cannot go on is given a record of {} steps", x.executed.len())),
            _ => Err("the run ends differently from its steps".into()),
        });
    }
    assert!(halts > 500 && fails > 100, "{halts} halting, {fails} failing");
    n
}

// ---- R12
#[derive(Debug, Clone)]
struct Elf { class: u8, machine: u16, kind: u16, entry: u64, segments: Option<Vec<ProgramHeader>>, count: Option<usize>, file: Vec<u8> }
fn offer(e: &Elf) {
    let headers: &'static [ProgramHeader] = Box::leak(e.segments.clone().unwrap_or_default().into_boxed_slice());
    elf::script::set(Some(ElfBytes {
        ehdr: FileHeader { class: if e.class == 1 { Class::ELF32 } else { Class::ELF64 }, endianness: LittleEndian, e_type: e.kind, e_machine: e.machine, e_entry: e.entry, e_flags: 0 },
        segments: e.segments.as_ref().map(|_| SegmentTable { headers, len_override: e.count, endian: LittleEndian }),
    }));
}
fn words(r: &mut Rng, n: usize) -> Vec<u8> {
    // mostly instructions
    (0..n).map(|i| if i % 4 == 0 && r.below(2) == 0 { [0x13, 0x33, 0x03, 0x23, 0x63, 0x67, 0x6f, 0x37][r.below(8) as usize] } else { r.next() as u8 }).collect()
}
fn an_elf(r: &mut Rng) -> Elf {
    let file = { let n = 40 + r.below(80) as usize; words(r, n) };
    let mut at = match r.below(4) { 0 => 0, 1 => r.below(64), 2 => 0x10000 + r.below(8), _ => 0xffff_f000 + r.below(16) };
    let n = r.below(5);
    let mut segments = vec![];
    for _ in 0..n {
        let filesz = r.below(17);
        let memsz = filesz + if r.below(2) == 0 { 0 } else { r.below(12) };
        let p_offset = r.below(file.len() as u64 - filesz + 1);
        at += if r.below(2) == 0 { 0 } else { r.below(9) };
        segments.push(ProgramHeader {
            p_type: match r.below(6) { 0 => [0, 2, 3, 4, 6, 7, 0x6474_e551, 0x6474_e552, 0x7000_0003][r.below(9) as usize], _ => abi::PT_LOAD },
            p_offset, p_vaddr: at, p_paddr: r.below(1 << 32), p_filesz: filesz, p_memsz: memsz,
            p_flags: r.below(8) as u32 | if r.below(16) == 0 { 0x0010_0000 } else { 0 }, p_align: 1,
        });
        at += memsz;
    }
    Elf { class: 1, machine: abi::EM_RISCV, kind: abi::ET_EXEC, entry: 4 * r.below(1 << 30), segments: Some(segments), count: None, file }
}
fn image(e: &Elf, f: impl Fn(u32) -> bool) -> BTreeMap<u32, u8> {
    let mut m = BTreeMap::new();
    for s in e.segments.as_ref().unwrap() {
        if s.p_type == abi::PT_LOAD && f(s.p_flags) {
            for i in 0..s.p_memsz {
                m.insert((s.p_vaddr + i) as u32, if i < s.p_filesz { e.file[(s.p_offset + i) as usize] } else { 0 });
            }
        }
    }
    m
}
fn load(vanilla: bool, file: &[u8]) -> Result<Program, ()> {
    if vanilla { Program::vanilla_load_elf(file) } else { Program::mozak_load_program(file) }.map_err(|_| ())
}
fn same(what: &str, got: &Data, want: &BTreeMap<u32, u8>) -> Result<(), String> {
    eq(what, got.iter().map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>(), want.clone())
}
fn elfs(seed: u64) -> u64 {
    let mut r = Rng(seed);
    for k in 0..4000 {
        let e = an_elf(&mut r);
        offer(&e);
        case(&|| format!("{e:?}"), || {
            let p = load(k % 2 == 0, &e.file).map_err(|_| "a valid file is refused".to_string())?;
            eq("entry point", u64::from(p.entry_point), e.entry)?;
            same("read-only memory", &p.ro_memory, &image(&e, |f| f & (abi::PF_R | abi::PF_W) == abi::PF_R))?;
            same("read-write memory", &p.rw_memory, &image(&e, |f| f & (abi::PF_R | abi::PF_W) == abi::PF_R | abi::PF_W))?;
            let code = image(&e, |f| f & abi::PF_X != 0);
            let at: BTreeSet<u32> = code.keys().map(|a| a & !3).collect();
            eq("code addresses", p.ro_code.iter().map(|(a, _)| *a).collect::<BTreeSet<_>>(), at.clone())?;
            for a in at {
                let byte = |i: u32| code.get(&(a + i)).copied().unwrap_or(0);
                let w = u32::from_le_bytes([byte(0), byte(1), byte(2), byte(3)]);
                eq(&format!("code at {a:#x}"), format!("{:?}", p.ro_code.get_instruction(a)), format!("{:?}", Some(decode_instruction(a, w))))?;
            }
            Ok(())
        });
        // one thing wrong with it
        let mut bad = e.clone();
        match k % 6 {
            0 => bad.class = 2,
            1 => bad.machine = [0, 3, 0xf2, 0xf4, 0xf3 << 8][r.below(5) as usize],
            2 => bad.kind = [0, 1, 3, 4][r.below(4) as usize],
            3 => bad.entry += 1 + r.below(3),
            4 => bad.segments = None,
            _ => if r.below(2) == 0 { bad.entry += 4 << 30 } else { bad.count = Some(257 + r.below(1000) as usize) },
        }
        offer(&bad);
        case(&|| format!("{bad:?}"), || eq("refused", load(k % 4 < 2, &bad.file).is_err(), true));
        elf::script::set(None);
        case(&|| "a file that is no ELF".into(), || eq("refused", load(k % 2 == 0, &bad.file).is_err(), true));
    }
    12000
}

// ---- R13
fn start(seed: u64) -> u64 {
    let mut r = Rng(seed);
    for _ in 0..3000 {
        let mem = |r: &mut Rng| { let n = r.below(7); (0..n).map(|_| (if r.below(2) == 0 { r.below(6) as u32 } else { (r.below(6) as u32).wrapping_sub(3) }, r.next() as u8)).collect::<BTreeMap<u32, u8>>() };
        let (ro, rw) = (mem(&mut r), mem(&mut r));
        let pairs = |m: &BTreeMap<u32, u8>| m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>();
        let tape = |r: &mut Rng| { let n = r.below(40) as usize; r.bytes(n) };
        let tapes = RawTapes {
            private_tape: tape(&mut r), public_tape: tape(&mut r), call_tape: tape(&mut r), event_tape: tape(&mut r),
            events_commitment_tape: r.bytes(32).try_into().unwrap(), cast_list_commitment_tape: r.bytes(32).try_into().unwrap(), self_prog_id_tape: r.bytes(32).try_into().unwrap(),
        };
        let regs: Vec<(u8, u32)> = (0..4).map(|_| (r.below(32) as u8, r.next() as u32)).collect();
        let entry = 4 * r.below(1 << 30) as u32;
        let code: Vec<Instruction> = (0..r.below(5)).map(|_| Instruction { op: Op::ADD, args: Args { rd: 1, rs1: 2, rs2: 3, imm: r.next() as u32 } }).collect();
        let all = {
            let mut m = rw.clone();
            m.extend(ro.clone());
            m
        };
        let check = |s: &State<F>, pc: u32, regs: &[(u8, u32)], t: &RawTapes| {
            eq("program counter", s.pc, pc)?;
            eq("clock", s.clk, 2)?;
            eq("halted", s.halted, false)?;
            let mut want = [0; 32];
            for (k, v) in regs {
                if *k != 0 {
                    want[*k as usize] = *v;
                }
            }
            eq("registers", s.registers, want)?;
            eq("memory", s.memory.data.iter().map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>(), all.clone())?;
            eq("read-only addresses", s.memory.is_read_only.iter().copied().collect::<BTreeSet<_>>(), ro.keys().copied().collect())?;
            eq("private tape", (s.private_tape.data.to_vec(), s.private_tape.read_index), (t.private_tape.clone(), 0))?;
            eq("public tape", (s.public_tape.data.to_vec(), s.public_tape.read_index), (t.public_tape.clone(), 0))?;
            eq("call tape", (s.call_tape.data.to_vec(), s.call_tape.read_index), (t.call_tape.clone(), 0))?;
            eq("event tape", (s.event_tape.data.to_vec(), s.event_tape.read_index), (t.event_tape.clone(), 0))?;
            eq("events commitment", s.events_commitment_tape.0, t.events_commitment_tape)?;
            eq("cast list commitment", s.cast_list_commitment_tape.0, t.cast_list_commitment_tape)?;
            eq("own identity", s.self_prog_id_tape, t.self_prog_id_tape)
        };
        let what = || format!("read-only {ro:?}, read-write {rw:?}, entry {entry:#x}, registers {regs:?}");
        case(&what, || {
            let mut p = Program::create(&pairs(&ro), &pairs(&rw), Code::default());
            p.entry_point = entry;
            check(&State::from(p.clone()), entry, &[], &RawTapes::default())?;
            check(&State::new(p, tapes.clone()), entry, &[], &tapes)?;
            let (p, x) = execute_code_with_ro_memory(code.clone(), &pairs(&ro), &pairs(&rw), &regs, tapes.clone());
            check(&x.executed[0].state, 0, &regs, &tapes)?;
            eq("steps", x.executed.len(), code.len() + 2)?;
            for (k, i) in code.iter().enumerate() {
                eq("instruction", x.executed[k].instruction, *i)?;
            }
            eq("halts", x.last_state.halted, true)
        });
    }
    3000
}

// ---- R10: the hash call
/// The sponge, from its definition: (state before and after each permutation).
fn sponge(bytes: &[u8]) -> Vec<([F; 12], [F; 12])> {
    let mut s = [F::ZERO; 12];
    let mut all = vec![];
    for b in bytes.chunks(8) {
        for (i, x) in b.iter().enumerate() {
            s[i] = F::from_canonical_u8(*x);
        }
        let mut p = Poseidon2Permutation::<F>::new(s);
        p.permute();
        let out: [F; 12] = p.as_ref().try_into().unwrap();
        all.push((s, out));
        s = out;
    }
    all
}
fn hash(seed: u64) -> u64 {
    let mut r = Rng(seed);
    let n = 3000;
    for _ in 0..n {
        let len = 8 * (1 + r.below(6)) as u32;
        let from = match r.below(4) {
            0 => 0u32.wrapping_sub(r.below(u64::from(len) + 4) as u32),
            1 => r.below(64) as u32,
            _ => r.next() as u32,
        };
        let to = match r.below(4) {
            0 => 0u32.wrapping_sub(r.below(36) as u32),
            1 => from.wrapping_add(r.below(80) as u32).wrapping_sub(40),
            _ => r.next() as u32,
        };
        let mut m: BTreeMap<u32, u8> = BTreeMap::new();
        for i in 0..len + 16 {
            if r.below(8) != 0 {
                m.insert(from.wrapping_sub(8).wrapping_add(i), r.next() as u8);
            }
        }
        for _ in 0..8 {
            m.insert(to.wrapping_sub(8).wrapping_add(r.below(48) as u32), r.next() as u8);
        }
        let mut s = State::<F>::default();
        for k in 1..32 {
            s.registers[k] = r.next() as u32;
        }
        (s.registers[10], s.registers[11], s.registers[12], s.registers[13]) = (mozak_sdk::core::ecall::POSEIDON2, from, len, to);
        s.pc = r.next() as u32;
        s.clk = r.below(1000);
        s.memory.data = m.clone().into_iter().collect();
        let say = || format!("hash call: {len} bytes at {from:#x}, digest to {to:#x}, memory {m:x?}");
        case(&say, || {
            let input: Vec<u8> = (0..len).map(|i| m.get(&from.wrapping_add(i)).copied().unwrap_or(0)).collect();
            let rounds = sponge(&input);
            let digest: Vec<u8> = rounds.last().unwrap().1[..4].iter().flat_map(|x| x.to_canonical_u64().to_le_bytes()).collect();
            let mut want = m.clone();
            for (i, b) in digest.iter().enumerate() {
                want.insert(to.wrapping_add(i as u32), *b);
            }
            let (before, tapes) = (s.clone(), format!("{:?}{:?}{:?}{:?}", s.private_tape, s.public_tape, s.call_tape, s.event_tape));
            let (aux, t) = s.clone().ecall();
            eq("memory", t.memory.data.iter().map(|(k, v)| (*k, *v)).collect::<BTreeMap<u32, u8>>(), want)?;
            eq("registers", t.registers, before.registers)?;
            eq("pc, clk, halted", (t.pc, t.clk, t.halted), (before.pc.wrapping_add(4), before.clk, false))?;
            eq("tapes", format!("{:?}{:?}{:?}{:?}", t.private_tape, t.public_tape, t.call_tape, t.event_tape), tapes)?;
            let used: Vec<u32> = (0..len).map(|i| from.wrapping_add(i)).chain((0..32).map(|i| to.wrapping_add(i))).collect();
            eq("addresses recorded", aux.mem_addresses_used.clone(), used)?;
            let e = aux.poseidon2.as_ref().ok_or("the hash is not recorded")?;
            eq("recorded", (e.addr, e.output_addr, e.len, e.sponge_data.len()), (from, to, len, rounds.len()))?;
            for (i, (d, (x, y))) in e.sponge_data.iter().zip(&rounds).enumerate() {
                eq("permutation recorded", (d.preimage, d.output, d.gen_output), (*x, *y, F::from_bool(i + 1 == rounds.len())))?;
            }
            Ok(())
        });
    }
    n
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let seed = a[2].parse().unwrap();
    let n = match a[1].as_str() {
        "run" => run(seed),
        "elf" => elfs(seed),
        "start" => start(seed),
        "hash" => hash(seed),
        x => panic!("{x}"),
    };
    println!("OK {n}");
}
