//! What the hash functions in the VM have the machine hash.
use super::hasher::{poseidon2_hash_no_pad, poseidon2_hash_with_pad};
use super::*;

static mut OUT: [u8; 32] = [0; 32];
static mut DATA: [u8; 32] = [0; 32];
static mut N: usize = 0;
/// The machine: checks what it is given, and writes the digest.
fn hash() {
    unsafe {
        kani::assert(CALLS == 1 && REGS[0] == 3 && USED == 4, "one hash call");
        let len = REGS[2];
        kani::assert(len == N, "as many bytes as expected");
        for i in 0..N {
            kani::assert(*(REGS[1] as *const u8).add(i) == DATA[i], "the expected bytes");
        }
        for i in 0..32 {
            *(REGS[3] as *mut u8).add(i) = OUT[i];
        }
    }
}
fn given(f: impl Fn() -> crate::common::types::Poseidon2Hash) {
    unsafe {
        OUT = kani::any();
        MACHINE = hash;
        let h = f();
        kani::assert(CALLS == 1, "hashed");
        for i in 0..32 {
            kani::assert(h.0[i] == OUT[i], "the digest is the machine's");
        }
    }
    kani::cover!(true, "reached");
}
/// The data, a one, zeros up to a whole block.
fn with_pad<const L: usize>() {
    let data: [u8; 20] = kani::any();
    let data = &data[..L];
    unsafe {
        N = (L / 8 + 1) * 8;
        for i in 0..L {
            DATA[i] = data[i];
        }
        DATA[L] = 1;
    }
    given(|| poseidon2_hash_with_pad(data));
}
fn no_pad<const L: usize>() {
    let data: [u8; L] = kani::any();
    unsafe {
        N = L;
        for i in 0..L {
            DATA[i] = data[i];
        }
    }
    given(|| poseidon2_hash_no_pad(&data));
}
/// Data that is not a whole number of blocks is refused.
#[kani::proof]
#[kani::unwind(34)]
fn no_pad_refused() {
    let data: [u8; 24] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 24 && n % 8 != 0);
    let _ = poseidon2_hash_no_pad(&data[..n]);
    kani::cover!(true, "returned");
}
macro_rules! contracts_hash { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::unwind(34)]
    fn $name() { $e }
)* } }
contracts_hash! {
    with_pad_1 = with_pad::<1>(), with_pad_6 = with_pad::<6>(), with_pad_7 = with_pad::<7>(),
    with_pad_8 = with_pad::<8>(), with_pad_9 = with_pad::<9>(), with_pad_15 = with_pad::<15>(), with_pad_16 = with_pad::<16>(),
    no_pad_8 = no_pad::<8>(), no_pad_16 = no_pad::<16>(), no_pad_24 = no_pad::<24>(),
}
