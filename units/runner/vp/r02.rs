//! execute_instruction: register-register / register-immediate integer ops.
use super::spec::{sem, Mem, M};
use super::*;

fn alu_step(op: Op) {
    let x = step_from(any_state(), op, any_args());
    let want = sem(op, x.args, &x.s.registers, x.s.pc);
    let k = any_reg();
    let expect = if k == want.rd as usize && k != 0 { want.val } else { x.s.registers[k] };
    kani::assert(x.t.registers[k] == expect, "rd receives the RV32I result; all other registers keep their value");
    kani::assert(x.t.registers[0] == 0, "x0 reads zero");
    kani::assert(x.t.pc == x.s.pc.wrapping_add(4), "pc advances by 4");
    kani::assert(x.t.clk == x.s.clk + 1, "clock advances by 1");
    same_memory(&x.s, &x.t);
    same_io(&x.s, &x.t);
    done(x);
}
macro_rules! contracts_alu { ($($n:ident = $o:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] fn $n() { alu_step(Op::$o); }
)*}}
contracts_alu! {
    add = ADD; sub = SUB; xor = XOR; or = OR; and = AND; sll = SLL; srl = SRL;
    sra = SRA; slt = SLT; sltu = SLTU;
}
