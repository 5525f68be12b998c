//! execute_instruction: the M extension.
//!
//! Modular: the step's contract is proved against the leaf functions' contracts
//! (the leaf is replaced by a recorder that returns an arbitrary value), and
//! each leaf is proved against the ISA table. `whole_*` checks the step
//! without the leaf contract, for code that no longer calls the leaf.
use super::spec::{div_rel, mul_ok, sem, M};
use super::*;

fn m_step(op: Op) -> (Step, super::spec::Eff, u32) {
    let mut s = any_state();
    let mut args = any_args();
    args.rd = 1 + (args.rd % 31);
    let x = step_from(s, op, args);
    let want = sem(op, x.args, &x.s.registers, x.s.pc);
    let k = any_reg();
    if k != want.rd as usize {
        kani::assert(x.t.registers[k] == x.s.registers[k], "all other registers keep their value");
    }
    kani::assert(x.t.pc == x.s.pc.wrapping_add(4), "pc advances by 4");
    kani::assert(x.t.clk == x.s.clk + 1, "clock advances by 1");
    same_memory(&x.s, &x.t);
    same_io(&x.s, &x.t);
    let got = x.t.registers[want.rd as usize];
    (x, want, got)
}
/// rd = x0: nothing is written
fn x0_step(op: Op) {
    let mut args = any_args();
    args.rd = 0;
    let x = step_from(any_state(), op, args);
    let k = any_reg();
    kani::assert(x.t.registers[k] == x.s.registers[k], "a multiply/divide into x0 writes nothing");
    kani::assert(x.t.pc == x.s.pc.wrapping_add(4), "pc advances by 4");
    done(x);
}

static mut CALL: Option<(M, u32, u32, u32)> = None;
fn rec(m: M, a: u32, b: u32) -> u32 {
    let r = kani::any();
    unsafe { CALL = Some((m, a, b, r)) };
    r
}
macro_rules! recorders { ($($f:ident $m:ident;)*) => {$(
    pub fn $f(a: u32, b: u32) -> u32 { rec(M::$m, a, b) }
)*}}
recorders! { r_mulh Mulh; r_mulhu Mulhu; r_mulhsu Mulhsu; r_div Div; r_divu Divu; r_rem Rem; r_remu Remu; }

fn modular(op: Op) {
    let (x, want, got) = m_step(op);
    match unsafe { CALL } {
        Some((m, a, b, r)) => {
            kani::assert(m == want.mop && a == want.a && b == want.b, "the operation is applied to the right operands");
            kani::assert(got == r, "rd receives the operation's result");
        }
        None => kani::assert(false, "the operation's function is called"),
    }
    done(x);
}
macro_rules! contracts_step { ($($n:ident = $o:ident, $leaf:ident, $rec:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::vm::$leaf, $rec)] fn $n() { modular(Op::$o); }
)*}}
contracts_step! {
    step_mulh = MULH, mulh, r_mulh;
    step_mulhu = MULHU, mulhu, r_mulhu;
    step_mulhsu = MULHSU, mulhsu, r_mulhsu;
    step_div = DIV, div, r_div;
    step_divu = DIVU, divu, r_divu;
    step_rem = REM, rem, r_rem;
    step_remu = REMU, remu, r_remu;
}
#[kani::proof]
#[kani::unwind(6)]
fn step_mul() {
    let (x, want, got) = m_step(Op::MUL);
    kani::assert(mul_ok(want.mop, want.a, want.b, got), "rd receives the low 32 bits of the product");
    done(x);
}
macro_rules! contracts_whole { ($($n:ident = $o:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] fn $n() {
        let (x, want, got) = m_step(Op::$o);
        let ok = match want.mop {
            M::Mul | M::Mulh | M::Mulhsu | M::Mulhu => mul_ok(want.mop, want.a, want.b, got),
            _ => div_rel(want.mop, want.a, want.b, got),
        };
        kani::assert(ok, "rd receives the RV32M result");
        done(x);
    }
)*}}
contracts_whole! {
    whole_mulh = MULH; whole_mulhu = MULHU; whole_mulhsu = MULHSU; whole_div = DIV;
    whole_divu = DIVU; whole_rem = REM; whole_remu = REMU;
}
macro_rules! contracts_xzero { ($($n:ident = $o:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] fn $n() { x0_step(Op::$o); }
)*}}
contracts_xzero! {
    x0_mul = MUL; x0_mulh = MULH; x0_mulhu = MULHU; x0_mulhsu = MULHSU; x0_div = DIV;
    x0_divu = DIVU; x0_rem = REM; x0_remu = REMU;
}
macro_rules! contracts_leaf { ($($n:ident = $leaf:ident, $m:ident;)*) => {$(
    #[kani::proof] fn $n() {
        let (a, b): (u32, u32) = (kani::any(), kani::any());
        let r = crate::vm::$leaf(a, b);
        kani::assert(mul_ok(M::$m, a, b, r), "high word of the product");
        kani::cover!(true, "end of the contract reached");
    }
)*}}
contracts_leaf! {
    leaf_mulh = mulh, Mulh;
    leaf_mulhu = mulhu, Mulhu;
    leaf_mulhsu = mulhsu, Mulhsu;
}
/// The ISA manual's table: division by zero and overflow first, then the
/// quotient/remainder rounding towards zero. (No precondition, so no cover; a
/// cover would make z3 build a model first.)
macro_rules! contracts_divleaf { ($($n:ident = $leaf:ident, $op:tt, $t:ty, $zero:expr, $over:expr;)*) => {$(
    #[kani::proof] #[kani::solver(z3)] fn $n() {
        let (a, b): (u32, u32) = (kani::any(), kani::any());
        let r = crate::vm::$leaf(a, b);
        let over: Option<u32> = $over;
        if b == 0 {
            let zero: fn(u32) -> u32 = $zero;
            kani::assert(r == zero(a), "division by zero: quotient all ones, remainder the dividend");
        } else if over.is_some() && a == 0x8000_0000 && b == u32::MAX {
            kani::assert(Some(r) == over, "overflow: quotient the dividend, remainder zero");
        } else {
            kani::assert(r == (a as $t $op b as $t) as u32, "quotient/remainder rounding towards zero");
        }
    }
)*}}
contracts_divleaf! {
    leaf_div = div, /, i32, |_| u32::MAX, Some(0x8000_0000);
    leaf_divu = divu, /, u32, |_| u32::MAX, None;
    leaf_rem = rem, %, i32, |a| a, Some(0);
    leaf_remu = remu, %, u32, |a| a, None;
}
