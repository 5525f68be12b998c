//! The execution record: what one step reports to the prover.
use super::spec::{sem, Mem};
use super::*;

fn is_branch(op: Op) -> bool {
    matches!(op, Op::BEQ | Op::BNE | Op::BLT | Op::BGE | Op::BLTU | Op::BGEU)
}

fn record(op: Op) {
    let mut s = any_state();
    if matches!(op, Op::LB | Op::LH | Op::LW | Op::LBU | Op::LHU) {
        s.memory.data = any_memory::<4>();
    }
    let x = step_from(s, op, any_args());
    let (s, t, a, aux) = (&x.s, &x.t, &x.args, &x.aux);
    let want = sem(op, *a, &s.registers, s.pc);
    let (r1, r2) = (s.registers[a.rs1 as usize], s.registers[a.rs2 as usize]);
    kani::assert(aux.op1 == r1, "first operand recorded");
    kani::assert(aux.op2_raw == r2, "raw second operand recorded");
    let op2 = if is_branch(op) {
        r2
    } else if matches!(op, Op::SLL | Op::SRL | Op::SRA) {
        1 << (r2.wrapping_add(a.imm) & 31)
    } else {
        r2.wrapping_add(a.imm)
    };
    kani::assert(aux.op2 == op2, "second operand recorded: immediate added; a shift amount as its power of two");
    kani::assert(aux.new_pc == t.pc, "next pc recorded");
    kani::assert(!aux.will_halt && !t.halted, "only ecall halts");
    match want.mem {
        Mem::Store => kani::assert(aux.dst_val == want.data, "stored value recorded"),
        _ => {
            if !is_branch(op) && a.rd != 0 {
                kani::assert(aux.dst_val == t.registers[a.rd as usize], "value written to rd recorded");
            }
        }
    }
    kani::assert(aux.poseidon2.is_none() && aux.storage_device_entry.is_none(), "no ecall recorded");
    let n = aux.mem_addresses_used.len();
    if matches!(want.mem, Mem::Load | Mem::Store) {
        kani::assert(n == want.width as usize, "one address per byte accessed");
        let i: usize = kani::any();
        kani::assume(i < n);
        kani::assert(aux.mem_addresses_used[i] == want.addr.wrapping_add(i as u32), "the addresses accessed");
        match aux.mem {
            Some(e) => kani::assert(e.addr == want.addr, "address of the access recorded"),
            None => kani::assert(false, "the access is recorded"),
        }
    } else {
        kani::assert(n == 0 && aux.mem.is_none(), "no memory access recorded");
    }
    done(x);
}
macro_rules! contracts_record { ($($n:ident = $o:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] fn $n() { record(Op::$o); }
)*}}
contracts_record! {
    add = ADD; sub = SUB; xor = XOR; or = OR; and = AND; sll = SLL; srl = SRL; sra = SRA; slt = SLT; sltu = SLTU;
    mul = MUL; mulh = MULH; mulhu = MULHU; mulhsu = MULHSU; div = DIV; divu = DIVU; rem = REM; remu = REMU;
    lb = LB; lh = LH; lw = LW; lbu = LBU; lhu = LHU; sb = SB; sh = SH; sw = SW;
    beq = BEQ; bne = BNE; blt = BLT; bge = BGE; bltu = BLTU; bgeu = BGEU; jalr = JALR;
}

/// No instruction at pc: the step is refused, whatever the state.
#[kani::proof]
#[kani::unwind(6)]
fn no_code() {
    let s = any_state();
    let p = Program::default();
    kani::assert(s.execute_instruction(&p).is_err(), "no instruction at pc: the step is refused");
    kani::cover!(true, "end of the contract reached");
    std::mem::forget(p);
}
/// An undecodable word at pc: the step is refused, whatever the state.
#[kani::proof]
#[kani::unwind(6)]
fn undecodable() {
    let s = any_state();
    let mut p = Program::default();
    let e = DecodingError { pc: s.pc, instruction: kani::any() };
    p.ro_code = Code(HashMap::only(s.pc, Err(e)));
    kani::assert(s.execute_instruction(&p).is_err(), "an undecodable word is never executed");
    kani::cover!(true, "end of the contract reached");
    std::mem::forget(p);
}
