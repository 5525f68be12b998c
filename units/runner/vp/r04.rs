//! execute_instruction: branches and JALR.
use super::spec::sem;
use super::*;

fn flow_step(op: Op) {
    let mut s = any_state();
    kani::assume(s.pc & 1 == 0);
    let x = step_from(s, op, any_args());
    let want = sem(op, x.args, &x.s.registers, x.s.pc);
    kani::assert(x.t.pc == want.next, "pc = branch/jump target when taken, pc + 4 otherwise");
    let k = any_reg();
    let expect = if k == want.rd as usize && k != 0 { want.val } else { x.s.registers[k] };
    kani::assert(x.t.registers[k] == expect, "link register receives pc + 4; no other register changes");
    kani::assert(x.t.registers[0] == 0, "x0 reads zero");
    kani::assert(x.t.clk == x.s.clk + 1, "clock advances by 1");
    kani::assert(x.aux.new_pc == x.t.pc, "the recorded next pc is the next pc");
    kani::cover!(x.t.pc != x.s.pc.wrapping_add(4), "taken");
    same_memory(&x.s, &x.t);
    same_io(&x.s, &x.t);
    done(x);
}
macro_rules! contracts_flow { ($($n:ident = $o:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] fn $n() { flow_step(Op::$o); }
)*}}
contracts_flow! {
    beq = BEQ; bne = BNE; blt = BLT; bge = BGE; bltu = BLTU; bgeu = BGEU; jalr = JALR;
}
