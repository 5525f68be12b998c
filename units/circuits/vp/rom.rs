//! The program ROM: the real conversion of a decoded instruction into its
//! instruction columns and into its encoding, for every opcode and every choice
//! of registers (each encoding compared with the affine form printed), and the
//! real program table of a sample program.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::{Args, DecodingError, Instruction, Op};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use serde_json::{json, Value};

use crate::cpu::columns::Instruction as Columns;
use crate::memoryinit::generation::generate_elf_memory_init_trace;
use crate::program::columns::ProgramRom;
use crate::program::generation::generate_program_rom_trace;

const OPS: [Op; 31] = [
    Op::ADD, Op::SUB, Op::XOR, Op::OR, Op::AND, Op::SLL, Op::SRL, Op::SRA, Op::SLT, Op::SLTU, Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU,
    Op::SB, Op::SH, Op::SW, Op::BEQ, Op::BNE, Op::BLT, Op::BGE, Op::BLTU, Op::BGEU, Op::JALR, Op::ECALL, Op::MUL, Op::MULH, Op::MULHU,
    Op::MULHSU, Op::DIV,
];
const MORE: [Op; 3] = [Op::DIVU, Op::REM, Op::REMU];

fn columns(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32, pc: u32) -> Columns<u32> {
    Columns::<u32>::from((pc, Instruction { op, args: Args { rd, rs1, rs2, imm } }))
}

fn rom(c: Columns<u32>) -> [u64; 3] {
    let r = ProgramRom::<F>::from(c.map(F::from_canonical_u32));
    [r.pc, r.inst_data, r.imm_value].map(|x| x.to_canonical_u64())
}

pub fn dump() -> Value {
    let mut out = vec![];
    for op in OPS.into_iter().chain(MORE) {
        let at = |rd, rs1, rs2| rom(columns(op, rd, rs1, rs2, 0, 0))[1];
        let base = at(0, 0, 0);
        let k = [at(1, 0, 0).wrapping_sub(base), at(0, 1, 0).wrapping_sub(base), at(0, 0, 1).wrapping_sub(base)];
        let mut bad: Vec<Value> = vec![];
        for rd in 0..32u8 { for rs1 in 0..32u8 { for rs2 in 0..32u8 {
            for (imm, pc) in [(0u32, 0u32), (1, 4), (u32::MAX, u32::MAX - 3), (0x8000_0000, 0x7fff_fffc), (0x1234_5678 ^ (u32::from(rd) << 9), u32::from(rs1) << 20)] {
                let c = columns(op, rd, rs1, rs2, imm, pc);
                let want = base + k[0] * u64::from(rd) + k[1] * u64::from(rs1) + k[2] * u64::from(rs2);
                let got = rom(c);
                let fields = c.rd_selected == u32::from(rd) && c.rs1_selected == u32::from(rs1) && c.rs2_selected == u32::from(rs2)
                    && c.imm_value == imm && c.pc == pc;
                if (got != [u64::from(pc), want, u64::from(imm)] || !fields) && bad.len() < 3 {
                    bad.push(json!({"rd": rd, "rs1": rs1, "rs2": rs2, "imm": imm, "pc": pc, "encoded": got, "affine": want}));
                }
            }
        } } }
        let c = columns(op, 0, 0, 0, 0, 0);
        out.push(json!({"op": format!("{op:?}"), "base": base, "rd": k[0], "rs1": k[1], "rs2": k[2], "bad": bad, "columns": format!("{:?}", c)}));
    }
    json!({"ops": out, "image": image()})
}

/// The public tables of a sample program hold exactly its instructions and bytes.
fn image() -> Value {
    let mut bad: Vec<String> = vec![];
    for n in [1u32, 2, 5, 16] {
        let code: BTreeMap<u32, Result<Instruction, DecodingError>> = (0..n).map(|i| (0x1000 + 4 * i, Ok(Instruction {
            op: OPS[i as usize % OPS.len()], args: Args { rd: (i % 32) as u8, rs1: 1, rs2: (31 - i % 32) as u8, imm: i.wrapping_mul(0x9e37_79b9) },
        }))).chain([(0x9000, Err(DecodingError { pc: 0x9000, instruction: 0 }))]).collect();
        let ro: HashMap<u32, u8> = (0..3 * n).map(|i| (0x2000 + 5 * i, i as u8)).collect();
        let rw: HashMap<u32, u8> = (0..n).map(|i| (0x8000 + i, 255 - i as u8)).collect();
        let program = Program { ro_code: Code(code.clone().into_iter().collect()), ro_memory: Data(ro.clone().into_iter().collect()), rw_memory: Data(rw.clone().into_iter().collect()), ..Program::default() };
        let want: BTreeSet<[u64; 3]> = code.iter().filter_map(|(pc, i)| Some(rom(Columns::<u32>::from((*pc, i.clone().ok()?))))).collect();
        let rows: Vec<[u64; 3]> = generate_program_rom_trace::<F>(&program).iter().map(|r| [r.pc, r.inst_data, r.imm_value].map(|x| x.to_canonical_u64())).collect();
        let got: BTreeSet<[u64; 3]> = rows.iter().copied().collect();
        if got != want || !rows.len().is_power_of_two() { bad.push(format!("program table of {n} instructions: {rows:?}")); }
        let want: BTreeSet<[u64; 3]> = ro.iter().map(|(a, v)| [u64::from(*a), u64::from(*v), 0]).chain(rw.iter().map(|(a, v)| [u64::from(*a), u64::from(*v), 1])).collect();
        let rows: Vec<[u64; 3]> = generate_elf_memory_init_trace::<F>(&program).iter().filter(|r| r.filter == F::ONE)
            .map(|r| [r.address, r.value, r.is_writable].map(|x| x.to_canonical_u64())).collect();
        let got: BTreeSet<[u64; 3]> = rows.iter().copied().collect();
        if got != want || rows.len() != want.len() { bad.push(format!("initial memory table of {n}: {rows:?}")); }
    }
    json!(bad)
}
