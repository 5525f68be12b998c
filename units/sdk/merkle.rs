//! The Merkle root of leaves sorted by address.
use super::*;
use crate::common::merkle::merkleize;

/// Trees over numbered leaves as prefix-notation strings of nibbles: leaf i is
/// i + 1, an inner node is 15 followed by its children. (Stands for the hash:
/// a free binary operation.)
pub type T = (u64, u32);
pub fn enc(t: T) -> Poseidon2Hash {
    let mut h = Poseidon2Hash([0; 32]);
    h.0[..8].copy_from_slice(&t.0.to_le_bytes());
    h.0[8] = t.1 as u8;
    h
}
pub fn dec(h: &Poseidon2Hash) -> T {
    let b = &h.0;
    (u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]), b[8] as u32)
}
pub fn node(l: T, r: T) -> T { ((15 << (4 * (l.1 + r.1))) | (l.0 << (4 * r.1)) | r.0, l.1 + r.1 + 1) }
pub fn leaf(i: usize) -> T { (i as u64 + 1, 1) }
pub fn two_to_one(l: Poseidon2Hash, r: Poseidon2Hash) -> Poseidon2Hash { enc(node(dec(&l), dec(&r))) }

/// Leaves i..j, all at the same address: pairs are joined until one is left.
fn same(i: usize, j: usize) -> T {
    match j - i {
        1 => leaf(i),
        2 => node(leaf(i), leaf(i + 1)),
        3 => node(node(leaf(i), leaf(i + 1)), leaf(i + 2)),
        _ => node(node(leaf(i), leaf(i + 1)), node(leaf(i + 2), leaf(i + 3))),
    }
}
/// The contract: leaves split at the highest bit in which their addresses
/// differ; leaves at one address are joined pairwise.
fn spec<const N: usize>(a: &[u64; N], i: usize, j: usize) -> T {
    if a[i] == a[j - 1] {
        return same(i, j);
    }
    let bit = 63 - (a[i] ^ a[j - 1]).leading_zeros();
    let mut k = i + 1;
    while (a[k] >> bit) & 1 == 0 {
        k += 1;
    }
    node(spec(a, i, k), spec(a, k, j))
}

fn leaves<const N: usize>() {
    let a: [u64; N] = kani::any();
    let mut i = 1;
    while i < N {
        kani::assume(a[i - 1] <= a[i]);
        i += 1;
    }
    let v: Vec<(u64, Poseidon2Hash)> = (0..N).map(|i| (a[i], enc(leaf(i)))).collect();
    let root = dec(&merkleize(v));
    let want = spec(&a, 0, N);
    kani::assert(root == want, "the root is that of the tree over the leaves' addresses");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(6)]
fn none() {
    let h = merkleize(Vec::new());
    let i: usize = kani::any();
    kani::assume(i < 32);
    kani::assert(h.0[i] == 0, "the root of no leaves is zero");
    kani::cover!(true, "reached");
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(crate::common::types::Poseidon2Hash::two_to_one, two_to_one)]
fn leaves_1() { leaves::<1>() }
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(crate::common::types::Poseidon2Hash::two_to_one, two_to_one)]
fn leaves_2() { leaves::<2>() }
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(crate::common::types::Poseidon2Hash::two_to_one, two_to_one)]
fn leaves_3() { leaves::<3>() }
