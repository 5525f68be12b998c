//! What the native hash functions absorb.
use plonky2::hash::poseidon2::{ABSORBED, CALLS, NEXT};

use super::hasher::{poseidon2_hash_no_pad, poseidon2_hash_with_pad};

/// Every byte is one element, then a one, then zeros up to a whole block.
fn with_pad<const N: usize>() {
    let data: [u8; N] = kani::any();
    unsafe { NEXT = kani::any() };
    let h = poseidon2_hash_with_pad(&data);
    unsafe {
        kani::assert(CALLS == 1, "hashed once");
        kani::assert(ABSORBED.len() == (N / 8 + 1) * 8, "whole blocks, as few as hold the data and a one");
        for i in 0..N {
            kani::assert(ABSORBED[i].0 == u64::from(data[i]), "the data");
        }
        for i in N..(N / 8 + 1) * 8 {
            kani::assert(ABSORBED[i].0 == u64::from(i == N), "a one, then zeros");
        }
        for i in 0..32 {
            kani::assert(h.0[i] == NEXT[i], "the digest is the hash's");
        }
    }
    kani::cover!(true, "reached");
}

/// Without padding every byte is one element.
fn no_pad<const N: usize>() {
    let data: [u8; N] = kani::any();
    unsafe { NEXT = kani::any() };
    let h = poseidon2_hash_no_pad(&data);
    unsafe {
        kani::assert(CALLS == 1 && ABSORBED.len() == N, "one element per byte");
        for i in 0..N {
            kani::assert(ABSORBED[i].0 == u64::from(data[i]), "the data");
        }
        for i in 0..32 {
            kani::assert(h.0[i] == NEXT[i], "the digest is the hash's");
        }
    }
    kani::cover!(true, "reached");
}

/// Data that is not a whole number of blocks is refused.
#[kani::proof]
#[kani::unwind(34)]
fn no_pad_refused() {
    let data: [u8; 24] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 24 && n % 8 != 0);
    let _ = poseidon2_hash_no_pad(&data[..n]);
    kani::cover!(true, "returned");
}

macro_rules! contracts_hash { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::unwind(34)]
    fn $name() { $e }
)* } }
contracts_hash! {
    with_pad_0 = with_pad::<0>(), with_pad_1 = with_pad::<1>(), with_pad_6 = with_pad::<6>(), with_pad_7 = with_pad::<7>(),
    with_pad_8 = with_pad::<8>(), with_pad_9 = with_pad::<9>(), with_pad_15 = with_pad::<15>(), with_pad_16 = with_pad::<16>(),
    no_pad_0 = no_pad::<0>(), no_pad_8 = no_pad::<8>(), no_pad_16 = no_pad::<16>(), no_pad_24 = no_pad::<24>(),
}
