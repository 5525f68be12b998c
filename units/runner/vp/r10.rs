//! The Poseidon2 sponge of the runner. The permutation itself is uninterpreted
//! (an arbitrary function of its 12-element state).
use plonky2::field::types::Field;
use plonky2::hash::hashing::PlonkyPermutation;

use super::*;
use crate::poseidon2::hash_n_to_m_no_pad;

const RATE: usize = 8;
const WIDTH: usize = 12;
const MAX: usize = 3;

/// An arbitrary permutation that records its calls.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Rec([F; WIDTH]);
impl Default for Rec {
    fn default() -> Self { Rec([F::ZERO; WIDTH]) }
}
static mut CALLS: usize = 0;
static mut IN: [[F; WIDTH]; MAX] = [[GoldilocksField(0); WIDTH]; MAX];
static mut OUT: [[F; WIDTH]; MAX] = [[GoldilocksField(0); WIDTH]; MAX];
impl AsRef<[F]> for Rec {
    fn as_ref(&self) -> &[F] { &self.0 }
}
impl PlonkyPermutation<F> for Rec {
    const RATE: usize = RATE;
    const WIDTH: usize = WIDTH;

    fn new<I: IntoIterator<Item = F>>(it: I) -> Self {
        let mut p = Rec::default();
        p.set_from_iter(it, 0);
        p
    }
    fn set_elt(&mut self, elt: F, idx: usize) { self.0[idx] = elt; }
    fn set_from_iter<I: IntoIterator<Item = F>>(&mut self, elts: I, at: usize) {
        for (s, e) in self.0[at..].iter_mut().zip(elts) {
            *s = e;
        }
    }
    fn set_from_slice(&mut self, elts: &[F], at: usize) { self.0[at..at + elts.len()].copy_from_slice(elts); }
    fn permute(&mut self) {
        unsafe {
            kani::assert(CALLS < MAX, "one permutation per block");
            IN[CALLS] = self.0;
            OUT[CALLS] = kani::any();
            self.0 = OUT[CALLS];
            CALLS += 1;
        }
    }
    fn squeeze(&self) -> &[F] { &self.0[..RATE] }
}

fn sponge<const LEN: usize>() {
    let blocks = LEN / RATE;
    let input: [F; LEN] = kani::any();
    let (hash, data) = hash_n_to_m_no_pad::<F, Rec>(&input);
    kani::assert(unsafe { CALLS } == blocks && data.len() == blocks, "one permutation per block of 8 elements");
    for b in 0..blocks {
        let (i, o) = unsafe { (IN[b], OUT[b]) };
        let j: usize = kani::any();
        kani::assume(j < WIDTH);
        let want = if j < RATE {
            input[b * RATE + j]
        } else if b == 0 {
            F::ZERO
        } else {
            unsafe { OUT[b - 1][j] }
        };
        kani::assert(i[j] == want, "the block overwrites the rate; the capacity is carried (initially zero)");
        kani::assert(data[b].preimage[j] == i[j] && data[b].output[j] == o[j], "the permutation's input and output are recorded");
        kani::assert((data[b].gen_output == F::ONE) == (b + 1 == blocks) && (data[b].gen_output == F::ZERO) == (b + 1 != blocks), "exactly the last block is marked as output");
    }
    let j: usize = kani::any();
    kani::assume(j < 4);
    kani::assert(hash.elements[j] == unsafe { OUT[blocks - 1][j] }, "the digest is the first four elements of the last output");
    kani::cover!(true, "end of the contract reached");
}
/// (bounded: 1, 2, 3 blocks; the loop body is the same for every block)
#[kani::proof]
#[kani::unwind(14)]
fn sponge_1() { sponge::<8>(); }
#[kani::proof]
#[kani::unwind(26)]
fn sponge_2() { sponge::<16>(); }
#[kani::proof]
#[kani::unwind(26)]
fn sponge_3() { sponge::<24>(); }
