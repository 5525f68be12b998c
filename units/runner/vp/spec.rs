//! Specification functions: RV32IM semantics of 32-bit words (`riscv`), and
//! the meaning of a decoded instruction (`sem`). Written from the RISC-V
//! unprivileged ISA manual; nothing here calls the code under proof.
use crate::instruction::{Args, Op};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mem {
    None,
    Load,
    Store,
    Ecall,
}

/// Multiply/divide operations are kept as (operation, operands): `mop`'s value
/// is given by `mval`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    None,
    Mul,
    Mulh,
    Mulhsu,
    Mulhu,
    Div,
    Divu,
    Rem,
    Remu,
}

/// What one instruction does.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Eff {
    /// destination register; 0 for "none"
    pub rd: u8,
    /// value for `rd` (0 if `mop` or a load determines it)
    pub val: u32,
    pub mop: M,
    pub a: u32,
    pub b: u32,
    pub next: u32,
    pub mem: Mem,
    pub width: u8,
    pub signed: bool,
    pub addr: u32,
    /// value stored, truncated to `width` bytes
    pub data: u32,
}

pub const fn nop(pc: u32) -> Eff {
    Eff {
        rd: 0,
        val: 0,
        mop: M::None,
        a: 0,
        b: 0,
        next: pc.wrapping_add(4),
        mem: Mem::None,
        width: 0,
        signed: false,
        addr: 0,
        data: 0,
    }
}

fn alu(pc: u32, rd: u8, val: u32) -> Eff {
    if rd == 0 {
        nop(pc)
    } else {
        Eff { rd, val, ..nop(pc) }
    }
}
fn mop(pc: u32, rd: u8, mop: M, a: u32, b: u32) -> Eff {
    if rd == 0 {
        nop(pc)
    } else {
        Eff { rd, mop, a, b, ..nop(pc) }
    }
}
fn jump(rd: u8, link: u32, target: u32) -> Eff {
    Eff { rd, val: if rd == 0 { 0 } else { link }, next: target, ..nop(0) }
}
fn load(pc: u32, rd: u8, width: u8, signed: bool, addr: u32) -> Eff {
    Eff { rd, mem: Mem::Load, width, signed, addr, ..nop(pc) }
}
fn trunc(v: u32, width: u8) -> u32 {
    match width {
        1 => v & 0xFF,
        2 => v & 0xFFFF,
        _ => v,
    }
}
fn store(pc: u32, width: u8, addr: u32, v: u32) -> Eff {
    Eff { mem: Mem::Store, width, addr, data: trunc(v, width), ..nop(pc) }
}
pub fn slt(a: u32, b: u32) -> u32 { u32::from((a ^ 0x8000_0000) < (b ^ 0x8000_0000)) }
pub fn sra(a: u32, s: u32) -> u32 {
    let l = a >> s;
    if a & 0x8000_0000 != 0 && s != 0 {
        l | !(u32::MAX >> s)
    } else {
        l
    }
}

/// Meaning of a decoded instruction (the contract of `execute_instruction`).
pub fn sem(op: Op, a: Args, regs: &[u32; 32], pc: u32) -> Eff {
    let x = regs[a.rs1 as usize & 31];
    let y = regs[a.rs2 as usize & 31];
    let yi = y.wrapping_add(a.imm);
    let br = |t: bool| Eff { next: if t { a.imm } else { pc.wrapping_add(4) }, ..nop(pc) };
    match op {
        Op::ADD => alu(pc, a.rd, x.wrapping_add(yi)),
        Op::SUB => alu(pc, a.rd, x.wrapping_sub(yi)),
        Op::XOR => alu(pc, a.rd, x ^ yi),
        Op::OR => alu(pc, a.rd, x | yi),
        Op::AND => alu(pc, a.rd, x & yi),
        Op::SLL => alu(pc, a.rd, x << (yi & 31)),
        Op::SRL => alu(pc, a.rd, x >> (yi & 31)),
        Op::SRA => alu(pc, a.rd, sra(x, yi & 31)),
        Op::SLT => alu(pc, a.rd, slt(x, yi)),
        Op::SLTU => alu(pc, a.rd, u32::from(x < yi)),
        Op::LB => load(pc, a.rd, 1, true, yi),
        Op::LH => load(pc, a.rd, 2, true, yi),
        Op::LW => load(pc, a.rd, 4, false, yi),
        Op::LBU => load(pc, a.rd, 1, false, yi),
        Op::LHU => load(pc, a.rd, 2, false, yi),
        Op::SB => store(pc, 1, yi, x),
        Op::SH => store(pc, 2, yi, x),
        Op::SW => store(pc, 4, yi, x),
        Op::BEQ => br(x == y),
        Op::BNE => br(x != y),
        Op::BLT => br(slt(x, y) == 1),
        Op::BGE => br(slt(x, y) == 0),
        Op::BLTU => br(x < y),
        Op::BGEU => br(x >= y),
        Op::JALR => jump(a.rd, pc.wrapping_add(4), x.wrapping_add(a.imm) & !1),
        Op::ECALL => Eff { mem: Mem::Ecall, ..nop(pc) },
        Op::MUL => mop(pc, a.rd, M::Mul, x, yi),
        Op::MULH => mop(pc, a.rd, M::Mulh, x, yi),
        Op::MULHSU => mop(pc, a.rd, M::Mulhsu, x, yi),
        Op::MULHU => mop(pc, a.rd, M::Mulhu, x, yi),
        Op::DIV => mop(pc, a.rd, M::Div, x, yi),
        Op::DIVU => mop(pc, a.rd, M::Divu, x, yi),
        Op::REM => mop(pc, a.rd, M::Rem, x, yi),
        Op::REMU => mop(pc, a.rd, M::Remu, x, yi),
    }
}

/// `sem`, with multiplication and unsigned division by a constant power of two
/// (no second source register) rewritten to the shift they equal:
/// x * 2^k = x << k (mod 2^32) and x / 2^k = x >> k.
pub fn sem_shift(op: Op, a: Args, regs: &[u32; 32], pc: u32) -> Eff {
    let x = regs[a.rs1 as usize & 31];
    if a.rs2 == 0 && a.imm.is_power_of_two() {
        if op == Op::MUL {
            return alu(pc, a.rd, x << a.imm.trailing_zeros());
        }
        if op == Op::DIVU {
            return alu(pc, a.rd, x >> a.imm.trailing_zeros());
        }
    }
    sem(op, a, regs, pc)
}

fn sext(v: u32, bits: u32) -> u32 {
    let s = 1u32 << (bits - 1);
    (v ^ s).wrapping_sub(s)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Decoded {
    /// must decode, with this effect
    Is(Eff),
    /// must be rejected
    Illegal,
    /// reserved encoding, or an instruction outside RV32IM that the machine
    /// may accept as a no-op or reject
    NopOrIllegal,
    /// reserved encoding of ECALL
    Unspecified,
}

/// RV32IM: the meaning of `word` at `pc`.
pub fn riscv(word: u32, regs: &[u32; 32], pc: u32) -> Decoded {
    use Decoded::{Illegal, Is, NopOrIllegal, Unspecified};
    let opcode = word & 0x7F;
    let rd = ((word / 0x80) & 31) as u8;
    let f3 = (word >> 12) & 7;
    let i1 = ((word >> 15) & 31) as usize;
    let i2 = ((word >> 20) & 31) as usize;
    let (x, y) = (regs[i1], regs[i2]);
    let f7 = word >> 25;
    let imm_i = sext(word >> 20, 12);
    let imm_s = sext((f7 << 5) | u32::from(rd), 12);
    let b = |i: u32| (word >> i) & 1;
    let imm_b = sext((b(31) << 12) | (b(7) << 11) | (((word >> 25) & 0x3F) << 5) | (((word >> 8) & 0xF) << 1), 13);
    let imm_u = word & 0xFFFF_F000;
    let imm_j = sext((b(31) << 20) | (((word >> 12) & 0xFF) << 12) | (b(20) << 11) | (((word >> 21) & 0x3FF) << 1), 21);
    let shamt = i2 as u32;
    match opcode {
        0b011_0111 => Is(alu(pc, rd, imm_u)),
        0b001_0111 => Is(alu(pc, rd, pc.wrapping_add(imm_u))),
        0b110_1111 => Is(jump(rd, pc.wrapping_add(4), pc.wrapping_add(imm_j))),
        0b110_0111 if f3 == 0 => Is(jump(rd, pc.wrapping_add(4), x.wrapping_add(imm_i) & !1)),
        0b110_0011 => {
            let t = match f3 {
                0 => x == y,
                1 => x != y,
                4 => slt(x, y) == 1,
                5 => slt(x, y) == 0,
                6 => x < y,
                7 => x >= y,
                _ => return Illegal,
            };
            Is(Eff { next: pc.wrapping_add(if t { imm_b } else { 4 }), ..nop(pc) })
        }
        0b000_0011 => {
            let (w, s) = match f3 {
                0 => (1, true),
                1 => (2, true),
                2 => (4, false),
                4 => (1, false),
                5 => (2, false),
                _ => return Illegal,
            };
            Is(load(pc, rd, w, s, x.wrapping_add(imm_i)))
        }
        0b010_0011 => {
            let w = match f3 {
                0 => 1,
                1 => 2,
                2 => 4,
                _ => return Illegal,
            };
            Is(store(pc, w, x.wrapping_add(imm_s), y))
        }
        0b001_0011 => {
            let v = match (f3, f7) {
                (0, _) => x.wrapping_add(imm_i),
                (2, _) => slt(x, imm_i),
                (3, _) => u32::from(x < imm_i),
                (4, _) => x ^ imm_i,
                (6, _) => x | imm_i,
                (7, _) => x & imm_i,
                (1, 0) => x << shamt,
                (5, 0) => x >> shamt,
                (5, 0x20) => sra(x, shamt),
                _ => return Illegal,
            };
            Is(alu(pc, rd, v))
        }
        0b011_0011 => {
            let v = match (f3, f7) {
                (0, 0) => x.wrapping_add(y),
                (0, 0x20) => x.wrapping_sub(y),
                (1, 0) => x << (y & 31),
                (2, 0) => slt(x, y),
                (3, 0) => u32::from(x < y),
                (4, 0) => x ^ y,
                (5, 0) => x >> (y & 31),
                (5, 0x20) => sra(x, y & 31),
                (6, 0) => x | y,
                (7, 0) => x & y,
                (_, 1) => {
                    let m = match f3 {
                        0 => M::Mul,
                        1 => M::Mulh,
                        2 => M::Mulhsu,
                        3 => M::Mulhu,
                        4 => M::Div,
                        5 => M::Divu,
                        6 => M::Rem,
                        _ => M::Remu,
                    };
                    return Is(mop(pc, rd, m, x, y));
                }
                _ => return Illegal,
            };
            Is(alu(pc, rd, v))
        }
        // FENCE/FENCE.I: ordering only, single hart
        0b000_1111 => {
            if f3 == 0 {
                Is(nop(pc))
            } else {
                NopOrIllegal
            }
        }
        0b111_0011 => {
            if word == 0x0000_0073 {
                Is(Eff { mem: Mem::Ecall, ..nop(pc) })
            } else if f3 == 0 && word >> 20 == 0 {
                Unspecified
            } else {
                NopOrIllegal
            }
        }
        _ => Illegal,
    }
}

/// RV32M results, relationally where that is what a SAT back end can decide.
pub fn mul_ok(m: M, a: u32, b: u32, r: u32) -> bool {
    let s = |v: u32| i64::from(v as i32);
    match m {
        M::Mul => r == a.wrapping_mul(b),
        M::Mulh => r == (s(a).wrapping_mul(s(b)) >> 32) as u32,
        M::Mulhsu => r == (s(a).wrapping_mul(i64::from(b)) >> 32) as u32,
        M::Mulhu => r == (u64::from(a).wrapping_mul(u64::from(b)) >> 32) as u32,
        _ => false,
    }
}
/// RV32M division, as the ISA manual's table defines it.
pub fn divide(m: M, a: u32, b: u32) -> u32 {
    let over = a == 0x8000_0000 && b == u32::MAX;
    match m {
        M::Divu => {
            if b == 0 {
                u32::MAX
            } else {
                a / b
            }
        }
        M::Remu => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        M::Div => {
            if b == 0 {
                u32::MAX
            } else if over {
                a
            } else {
                ((a as i32) / (b as i32)) as u32
            }
        }
        M::Rem => {
            if b == 0 {
                a
            } else if over {
                0
            } else {
                ((a as i32) % (b as i32)) as u32
            }
        }
        _ => 0,
    }
}
/// The same, as a relation (Euclid), for back ends without division theory.
pub fn div_rel(m: M, a: u32, b: u32, r: u32) -> bool {
    let abs = |v: u32| if v & 0x8000_0000 != 0 { v.wrapping_neg() } else { v };
    let neg = |v: u32| v & 0x8000_0000 != 0;
    if b == 0 {
        return r == if m == M::Div || m == M::Divu { u32::MAX } else { a };
    }
    match m {
        M::Divu => {
            let p = r.wrapping_mul(b);
            r <= a && p <= a && a - p < b
        }
        M::Div => {
            if a == 0x8000_0000 && b == u32::MAX {
                return r == a;
            }
            let (ua, ub, ur) = (abs(a), abs(b), abs(r));
            let p = ur.wrapping_mul(ub);
            ur <= ua && p <= ua && ua - p < ub && (ur == 0 || neg(r) == (neg(a) != neg(b)))
        }
        _ => r == divide(m, a, b),
    }
}
