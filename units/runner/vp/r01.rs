//! decode_instruction refines RV32IM.
use super::spec::{riscv, sem_shift, Decoded};
use crate::decode::decode_instruction;

fn decode_refines(opcode: Option<u32>) {
    let word: u32 = kani::any();
    if let Some(o) = opcode {
        kani::assume(word & 0x7F == o);
    }
    let pc: u32 = kani::any();
    kani::assume(pc & 3 == 0);
    let mut regs: [u32; 32] = kani::any();
    regs[0] = 0;
    let d = decode_instruction(pc, word);
    match riscv(word, &regs, pc) {
        Decoded::Is(want) => match d {
            Ok(i) => {
                kani::cover!(true, "a legal word is decoded");
                kani::assert(i.args.rd < 32 && i.args.rs1 < 32 && i.args.rs2 < 32, "register numbers in range");
                kani::assert(sem_shift(i.op, i.args, &regs, pc) == want, "decoded effect = RV32IM effect");
            }
            Err(_) => kani::assert(false, "a legal RV32IM word is rejected"),
        },
        Decoded::Illegal => kani::assert(d.is_err(), "an illegal word is decoded"),
        Decoded::NopOrIllegal =>
            if let Ok(i) = d {
                kani::assert(sem_shift(i.op, i.args, &regs, pc) == super::spec::nop(pc), "accepted no-op has an effect");
            },
        Decoded::Unspecified => {}
    }
    if let Err(e) = d {
        kani::assert(e.pc == pc && e.instruction == word, "decoding error names the word and its address");
    }
}
macro_rules! by_opcode { ($($n:ident = $o:expr;)*) => {$(
    #[kani::proof] #[kani::unwind(34)] fn $n() { decode_refines(Some($o)); }
)*}}
by_opcode! {
    op = 0b011_0011; op_imm = 0b001_0011; load = 0b000_0011; store = 0b010_0011;
    branch = 0b110_0011; jal = 0b110_1111; jalr = 0b110_0111; lui = 0b011_0111;
    auipc = 0b001_0111; system = 0b111_0011; fence = 0b000_1111;
}
/// Every remaining opcode (all words outside the eleven above).
#[kani::proof]
#[kani::unwind(34)]
fn other_opcodes() {
    let word: u32 = kani::any();
    let pc: u32 = kani::any();
    let o = word & 0x7F;
    kani::assume(!matches!(o, 0b011_0011 | 0b001_0011 | 0b000_0011 | 0b010_0011 | 0b110_0011 | 0b110_1111
        | 0b110_0111 | 0b011_0111 | 0b001_0111 | 0b111_0011 | 0b000_1111));
    kani::cover!(true, "there are such words");
    kani::assert(decode_instruction(pc, word).is_err(), "a word with an undefined opcode is decoded");
}
/// The rewriting used by `sem_shift`.
#[kani::proof]
fn lemma_shift() {
    let (x, k): (u32, u32) = kani::any();
    kani::assume(k < 32);
    kani::assert(x.wrapping_mul(1 << k) == x << k, "x * 2^k = x << k");
    kani::assert(x / (1 << k) == x >> k, "x / 2^k = x >> k");
    kani::cover!(true, "lemma not vacuous");
}
