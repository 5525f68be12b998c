//! Stores, and the read-only set.
use super::spec::sem;
use super::*;

/// No address of the store is read-only (here: none at all; `store_u8` carries
/// the general case).
fn store_step(op: Op) {
    let mut s = any_state();
    s.memory.data = any_memory::<1>();
    let x = step_from(s, op, any_args());
    let want = sem(op, x.args, &x.s.registers, x.s.pc);
    let m: u32 = kani::any();
    let off = m.wrapping_sub(want.addr);
    if off < u32::from(want.width) {
        kani::assert(
            x.t.memory.data.get(&m).copied() == Some((want.data >> (8 * off)) as u8),
            "the addressed bytes hold the value, little-endian",
        );
    } else {
        kani::assert(x.t.memory.data.get(&m) == x.s.memory.data.get(&m), "no other byte of memory changes");
    }
    kani::assert(!x.t.memory.is_read_only.contains(&m), "read-only set unchanged");
    let k = any_reg();
    kani::assert(x.t.registers[k] == x.s.registers[k], "no register changes");
    kani::assert(x.t.pc == x.s.pc.wrapping_add(4), "pc advances by 4");
    kani::assert(x.t.clk == x.s.clk + 1, "clock advances by 1");
    same_io(&x.s, &x.t);
    match x.aux.mem {
        Some(e) => kani::assert(e.addr == want.addr && e.raw_value == want.data, "the recorded access is the access made"),
        None => kani::assert(false, "the access is recorded"),
    }
    done(x);
}
macro_rules! contracts_store { ($($n:ident = $o:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] fn $n() { store_step(Op::$o); }
)*}}
contracts_store! { sb = SB; sh = SH; sw = SW; }

/// Some address of the store is read-only: the step does not complete.
fn store_to_read_only(op: Op) {
    let mut s = any_state();
    let args = any_args();
    let want = sem(op, args, &s.registers, s.pc);
    let k: u32 = kani::any();
    kani::assume(k.wrapping_sub(want.addr) < u32::from(want.width));
    s.memory.is_read_only = im::HashSet(HashMap::arbitrary([(k, 1u8)]));
    let p = program_at(s.pc, Instruction { op, args });
    let ok = s.execute_instruction(&p).is_ok();
    kani::cover!(ok, "a store to a read-only address completes");
}
macro_rules! contracts_ro { ($($n:ident = $o:ident;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] #[kani::should_panic] fn $n() { store_to_read_only(Op::$o); }
)*}}
contracts_ro! { ro_sb = SB; ro_sh = SH; ro_sw = SW; }

/// `store_u8`: the single point every memory write goes through.
#[kani::proof]
#[kani::unwind(6)]
fn store_byte() {
    let mut s = any_state();
    s.memory.data = any_memory::<3>();
    let e: [(u32, u8); 3] = core::array::from_fn(|_| (kani::any(), 1));
    s.memory.is_read_only = im::HashSet(HashMap::arbitrary(e));
    let (a, v): (u32, u8) = (kani::any(), kani::any());
    let m: u32 = kani::any();
    match s.clone().store_u8(a, v) {
        Ok(t) => {
            kani::cover!(true, "a store can succeed");
            kani::assert(!s.memory.is_read_only.contains(&a), "a read-only byte is never written");
            let expect = if m == a { Some(v) } else { s.memory.data.get(&m).copied() };
            kani::assert(t.memory.data.get(&m).copied() == expect, "exactly the addressed byte changes");
            kani::assert(
                s.memory.is_read_only.contains(&m) == t.memory.is_read_only.contains(&m),
                "read-only set unchanged",
            );
            let k = any_reg();
            kani::assert(t.registers[k] == s.registers[k] && t.pc == s.pc && t.clk == s.clk, "frame");
            same_io(&s, &t);
            std::mem::forget(t);
        }
        Err(_) => {
            kani::cover!(true, "a store can be refused");
            kani::assert(s.memory.is_read_only.contains(&a), "a writable byte is never refused");
        }
    }
    std::mem::forget(s);
}
/// `load_u8`/`load_u32`: reads.
#[kani::proof]
#[kani::unwind(6)]
fn load_word() {
    let mut s = any_state();
    s.memory.data = any_memory::<4>();
    let a: u32 = kani::any();
    kani::assume(a <= u32::MAX - 3);
    let b = |i: u32| s.memory.data.get(&(a + i)).copied().unwrap_or(0);
    kani::assert(s.load_u8(a) == b(0), "load_u8 returns the byte, 0 when absent");
    kani::assert(s.load_u32(a) == u32::from_le_bytes([b(0), b(1), b(2), b(3)]), "load_u32 is little-endian");
    kani::cover!(true, "end of the contract reached");
}
