//! Which registers an environment call passes.
use super::*;
use crate::core::{ecall as e, env};

/// The call's number, where the buffer is and how long it is.
fn passes(code: usize, ptr: *const u8, len: usize) {
    unsafe {
        kani::assert(CALLS == 1 && USED == 3, "one environment call of three registers");
        kani::assert(REGS[0] == code, "a0: the call's number");
        kani::assert(REGS[1] == ptr as usize, "a1: where the buffer is");
        kani::assert(REGS[2] == len, "a2: how long it is");
    }
    kani::cover!(true, "reached");
}
fn reads(code: usize, f: fn(&mut [u8])) {
    let mut b = [0u8; 40];
    let (i, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i <= n && n <= 40);
    let s = &mut b[i..n];
    let (p, l) = (s.as_ptr(), s.len());
    f(s);
    passes(code, p, l);
}
fn digest(code: usize, f: fn(&mut [u8])) {
    let mut b = [0u8; 40];
    let i: usize = kani::any();
    kani::assume(i <= 8);
    let s = &mut b[i..i + 32];
    let p = s.as_ptr();
    f(s);
    passes(code, p, 32);
}
fn not_digest(f: fn(&mut [u8])) {
    let mut b = [0u8; 40];
    let n: usize = kani::any();
    kani::assume(n <= 40 && n != 32);
    f(&mut b[..n]);
    kani::cover!(true, "returned");
}
fn message(code: usize, f: fn(&str)) {
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let s = &"abc"[..n];
    let p = s.as_ptr();
    f(s);
    passes(code, p, n);
}
#[kani::proof]
fn poseidon2() {
    let (i, n, o): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    e::poseidon2(i as *const u8, n, o as *mut u8);
    unsafe {
        kani::assert(CALLS == 1 && USED == 4, "one environment call of four registers");
        kani::assert(REGS == [3, i, n, o], "number, where the input is, how long it is, where the digest goes");
    }
    kani::cover!(true, "reached");
}
macro_rules! contracts_abi { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::unwind(6)]
    fn $name() { $e }
)* } }
contracts_abi! {
    private_tape = reads(2, e::ioread_private),
    public_tape = reads(4, e::ioread_public),
    call_tape = reads(5, e::call_tape_read),
    event_tape = reads(6, e::event_tape_read),
    events_commitment = digest(7, e::events_commitment_tape_read),
    cast_list_commitment = digest(8, e::cast_list_commitment_tape_read),
    self_prog_id = digest(9, e::self_prog_id_tape_read),
    panic = message(1, e::panic),
    refuse_events_commitment = not_digest(e::events_commitment_tape_read),
    refuse_cast_list_commitment = not_digest(e::cast_list_commitment_tape_read),
    refuse_self_prog_id = not_digest(e::self_prog_id_tape_read),
}

static mut WANT: usize = 0;
fn halts() {
    unsafe {
        kani::assert(USED == 2 && REGS[0] == 0, "a0: halt");
        kani::assert(REGS[1] == WANT, "a1: the first byte of all output, or zero");
    }
    kani::cover!(true, "halted");
    kani::assume(false);
}
/// Halting passes the output byte and does not return.
#[kani::proof]
#[kani::unwind(4)]
fn halt() {
    let b: u8 = kani::any();
    unsafe {
        WANT = b as usize;
        MACHINE = halts;
    }
    e::halt(b);
    kani::assert(false, "halting does not return");
}
/// The program's output is the first byte written, over any number of writes.
fn output<const A: usize, const B: usize>() {
    let (a, b): ([u8; A], [u8; B]) = (kani::any(), kani::any());
    unsafe {
        WANT = if A > 0 { a[0] as usize } else if B > 0 { b[0] as usize } else { 0 };
        MACHINE = halts;
    }
    env::init();
    env::write(&a);
    env::write(&b);
    env::finalize();
    kani::assert(false, "halting does not return");
}
contracts_abi! { output_none = output::<0, 0>(), output_one = output::<1, 1>(), output_late = output::<0, 2>(), output_more = output::<2, 1>() }

/// Every allocation is aligned and starts where the previous one ended, or
/// after: allocations do not overlap, and lie behind the program.
#[kani::proof]
fn allocations() {
    let pow = |n: u8| { kani::assume(n < 13); 1usize << n };
    let (n1, n2, n3): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(n1 <= 1 << 32 && n2 <= 1 << 32 && n3 <= 1 << 32);
    let (a2, a3) = (pow(kani::any()), pow(kani::any()));
    // any position of the heap
    let first = crate::core::alloc::alloc_aligned(n1, 1) as usize;
    let p = crate::core::alloc::alloc_aligned(n2, a2) as usize;
    let q = crate::core::alloc::alloc_aligned(n3, a3) as usize;
    kani::assert(first == core::ptr::addr_of!(_end) as usize, "the heap starts at the end of the program");
    kani::assert(p % a2 == 0 && q % a3 == 0, "aligned as asked");
    kani::assert(p >= first + n1 && q >= p + n2, "behind everything allocated before");
    kani::assert(q - (p + n2) < a3, "wasting no more than alignment needs");
    kani::cover!(true, "reached");
}
