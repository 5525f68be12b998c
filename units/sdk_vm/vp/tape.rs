//! Input tapes as readers: a cursor over the bytes the machine hands out.
use std::io::{Read, Seek, SeekFrom};

use super::*;
use crate::mozakvm::inputtape::RandomAccessEcallTape;

const MAX: usize = 4;
static mut TAPE: [u8; MAX] = [0; MAX];
static mut CODE: usize = 0;
static mut SIZE: usize = 0;
/// How much of the tape the machine has handed out.
static mut TAKEN: usize = 0;
/// The machine hands out the next bytes of the tape.
fn serve() {
    unsafe {
        kani::assert(REGS[0] == CODE && USED == 3, "a read of this tape");
        kani::assert(REGS[2] <= SIZE - TAKEN, "no more than the tape has");
        let mut i = 0;
        while i < REGS[2] {
            *(REGS[1] as *mut u8).add(i) = TAPE[TAKEN];
            TAKEN += 1;
            i += 1;
        }
    }
}
/// The tape's first `n` bytes.
fn fetched(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(MAX);
    for i in 0..n {
        v.push(unsafe { TAPE[i] });
    }
    v
}
/// A tape of which any prefix was fetched already, positioned anywhere.
fn any_tape<const SIZE_: usize, const FETCHED: usize>() -> RandomAccessEcallTape {
    unsafe {
        TAPE = kani::any();
        SIZE = SIZE_;
        TAKEN = FETCHED;
        CODE = kani::any::<u32>() as usize;
        MACHINE = serve;
        let at: usize = kani::any();
        kani::assume(at <= SIZE);
        RandomAccessEcallTape { ecall_id: CODE as u32, read_offset: at, size_hint: SIZE, internal_buf: fetched(FETCHED) }
    }
}
/// What was fetched is the tape's beginning, and nothing was lost.
fn consistent(t: &RandomAccessEcallTape) {
    unsafe {
        kani::assert(t.internal_buf.len() == TAKEN && TAKEN <= SIZE, "everything handed out is kept");
        let mut i = 0;
        while i < TAKEN {
            kani::assert(t.internal_buf[i] == TAPE[i], "as it was");
            i += 1;
        }
        kani::assert(t.size_hint == SIZE && t.ecall_id as usize == CODE && t.read_offset <= SIZE, "the tape stays what it is");
    }
}
fn read<const S: usize, const F: usize, const N: usize>() {
    let mut t = any_tape::<S, F>();
    let at = t.read_offset;
    let mut b: [u8; N] = kani::any();
    let old = b;
    let got = t.read(&mut b).unwrap();
    kani::assert(got == if S - at < N { S - at } else { N }, "as much as fits and remains");
    let mut i = 0;
    while i < N {
        kani::assert(b[i] == if i < got { unsafe { TAPE[at + i] } } else { old[i] }, "the bytes at the position; the rest of the buffer stays");
        i += 1;
    }
    kani::assert(t.read_offset == at + got, "the position moves past what was read");
    consistent(&t);
    kani::cover!(true, "reached");
    std::mem::forget(t);
}
fn seek<const S: usize, const F: usize>() {
    let mut t = any_tape::<S, F>();
    let at = t.read_offset;
    let (k, u, i): (u8, u64, i64) = (kani::any(), kani::any(), kani::any());
    kani::assume(k < 3);
    let (pos, want) = match k {
        0 => (SeekFrom::Start(u), u as i128),
        1 => (SeekFrom::Current(i), at as i128 + i as i128),
        _ => (SeekFrom::End(i), S as i128 + i as i128),
    };
    let r = t.seek(pos);
    if want < 0 {
        kani::assert(r.is_err() && t.read_offset == at, "there is nothing before the start");
    } else {
        let want = if want > S as i128 { S } else { want as usize };
        kani::assert(t.read_offset == want, "the position asked for, at most the end");
        kani::assert(r.unwrap() == want as u64, "and it says so");
    }
    unsafe { kani::assert(CALLS == 0, "seeking reads nothing") };
    consistent(&t);
    kani::cover!(true, "reached");
    std::mem::forget(t);
}
macro_rules! contracts_tape { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::unwind(6)]
    fn $name() { $e }
)* } }
contracts_tape! {
    read_empty = read::<0, 0, 2>(), read_none = read::<3, 1, 0>(), read_4_0_2 = read::<4, 0, 2>(), read_4_0_4 = read::<4, 0, 4>(), read_4_2_2 = read::<4, 2, 2>(),
    read_4_1_3 = read::<4, 1, 3>(), read_4_4_3 = read::<4, 4, 3>(), read_3_2_4 = read::<3, 2, 4>(), read_2_0_4 = read::<2, 0, 4>(),
    seek_0 = seek::<0, 0>(), seek_1 = seek::<1, 0>(), seek_4 = seek::<4, 2>(),
}
/// The two tapes are the machine's private and public tape, from the start.
#[kani::proof]
#[kani::unwind(4)]
fn kinds() {
    use crate::mozakvm::inputtape::{PrivateInputTape, PublicInputTape};
    let n: usize = kani::any();
    let (a, b) = (PrivateInputTape::with_size_hint(n), PublicInputTape::with_size_hint(n));
    kani::assert(a.ecall_id == 2 && b.ecall_id == 4, "their numbers");
    kani::assert(a.size_hint == n && b.size_hint == n && a.len() == n && b.len() == n, "their sizes");
    kani::assert(a.read_offset == 0 && b.read_offset == 0 && a.internal_buf.is_empty() && b.internal_buf.is_empty(), "nothing read yet");
    kani::cover!(true, "reached");
}
