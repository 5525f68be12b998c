//! execute_instruction: loads.
use super::spec::sem;
use super::*;

fn load_step(op: Op) {
    let mut s = any_state();
    s.memory.data = any_memory::<5>();
    let x = step_from(s, op, any_args());
    let want = sem(op, x.args, &x.s.registers, x.s.pc);
    // little-endian, wrapping around the end of the address space, absent = 0
    let byte = |i: u32| u32::from(x.s.memory.data.get(&want.addr.wrapping_add(i)).copied().unwrap_or(0));
    let raw = match want.width {
        1 => byte(0),
        2 => byte(0) | (byte(1) << 8),
        _ => byte(0) | (byte(1) << 8) | (byte(2) << 16) | (byte(3) << 24),
    };
    let val = match (want.width, want.signed) {
        (1, true) => raw as u8 as i8 as i32 as u32,
        (2, true) => raw as u16 as i16 as i32 as u32,
        _ => raw,
    };
    let k = any_reg();
    let expect = if k == want.rd as usize && k != 0 { val } else { x.s.registers[k] };
    kani::assert(x.t.registers[k] == expect, "rd receives the addressed bytes, extended as the opcode says");
    kani::assert(x.t.registers[0] == 0, "x0 reads zero");
    kani::assert(x.t.pc == x.s.pc.wrapping_add(4), "pc advances by 4");
    kani::assert(x.t.clk == x.s.clk + 1, "clock advances by 1");
    same_memory(&x.s, &x.t);
    same_io(&x.s, &x.t);
    match x.aux.mem {
        Some(e) => kani::assert(e.addr == want.addr && e.raw_value == raw, "the recorded access is the access made"),
        None => kani::assert(false, "the access is recorded"),
    }
    done(x);
}
macro_rules! contracts_load { ($($n:ident = $o:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] fn $n() { load_step(Op::$o); }
)*}}
contracts_load! { lb = LB; lbu = LBU; lh = LH; lhu = LHU; lw = LW; }
