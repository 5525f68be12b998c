//! Digests, program identifiers and messages keep their bytes in conversions.
use super::*;

fn idx(n: usize) -> usize {
    let i: usize = kani::any();
    kani::assume(i < n);
    i
}

#[kani::proof]
#[kani::unwind(34)]
fn words_to_digest() {
    let v: [u64; 4] = kani::any();
    let h = Poseidon2Hash::from_u64s(v);
    let i = idx(32);
    kani::assert(h.0[i] == (v[i / 8] >> (8 * (i % 8))) as u8, "words are little-endian, in order");
    kani::assert(h.to_u64s()[i / 8] == v[i / 8], "to_u64s inverts from_u64s");
    kani::assert(h.inner()[i] == h.0[i] && h[i] == h.0[i], "inner is the digest");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(34)]
fn words_into_digest() {
    let v: [u64; 4] = kani::any();
    let h = Poseidon2Hash::from(v);
    let i = idx(32);
    kani::assert(h.0[i] == (v[i / 8] >> (8 * (i % 8))) as u8, "From<[u64; 4]> is little-endian, in order");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(34)]
fn digest_to_words() {
    let b: [u8; 32] = kani::any();
    let h = Poseidon2Hash::from(b);
    let i = idx(32);
    kani::assert(h.0[i] == b[i], "From<[u8; 32]> keeps the bytes");
    kani::assert(Poseidon2Hash::from_u64s(h.to_u64s()).0[i] == b[i], "from_u64s inverts to_u64s");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(34)]
fn bytes_to_digest() {
    let b: [u8; 32] = kani::any();
    let h = Poseidon2Hash::from(b.to_vec());
    let i = idx(32);
    kani::assert(h.0[i] == b[i], "From<Vec<u8>> keeps the bytes");
    let a = StateAddress::from([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
    let k = idx(8);
    kani::assert(a.inner()[k] == b[k] && a[k] == b[k], "StateAddress keeps the bytes");
    let p = ProgramIdentifier(h);
    kani::assert(p.inner()[i] == b[i], "ProgramIdentifier keeps the bytes");
    kani::cover!(true, "reached");
}

/// Digests are made of exactly 32 bytes.
#[kani::proof]
#[kani::unwind(68)]
fn other_lengths_to_digest() {
    let n: usize = kani::any();
    kani::assume(n <= 66 && n != 32);
    let v = vec![0u8; n];
    let h = Poseidon2Hash::from(v);
    kani::cover!(true, "returned");
}

#[kani::proof]
#[kani::unwind(34)]
fn null_program() {
    let p = any_program();
    let i = idx(32);
    let null = p.is_null_program();
    kani::assert(!null || p.0.0[i] == 0, "only the zero identifier is the null program");
    kani::assert(ProgramIdentifier::default().is_null_program(), "the zero identifier is the null program");
    kani::assert(!(p == ProgramIdentifier::default()) || null, "the null program is recognized");
    kani::cover!(null, "null");
    kani::cover!(!null, "not null");
}

fn owned(p: ProgramIdentifier) -> StateObject { StateObject { address: StateAddress(kani::any()), constraint_owner: p, data: Vec::new() } }

#[kani::proof]
#[kani::unwind(34)]
fn same_owner() {
    let p = any_program();
    let os = [owned(p), owned(p), owned(p)];
    p.ensure_constraint_owner_similarity(os.iter());
    kani::cover!(true, "objects of the program are accepted");
}

#[kani::proof]
#[kani::unwind(34)]
fn other_owner() {
    let p = any_program();
    let os = [owned(any_program()), owned(any_program()), owned(any_program())];
    kani::assume(os[0].constraint_owner != p || os[1].constraint_owner != p || os[2].constraint_owner != p);
    p.ensure_constraint_owner_similarity(os.iter());
    kani::cover!(true, "returned");
}
