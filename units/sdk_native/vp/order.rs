//! Events in canonical order with hints for the order of emission.
use super::common::*;
use crate::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, Event, Poseidon2Hash, StateAddress, StateObject};
use crate::native::OrderedEvents;

/// Stands for the padded hash: a digest of (here: is) the first byte.
pub fn hash_with_pad(input: &[u8]) -> Poseidon2Hash {
    let mut h = Poseidon2Hash([0; 32]);
    h.0[31] = input[0];
    h
}
/// Stands for the hash of a canonical event.
pub fn hash_no_pad(input: &[u8]) -> Poseidon2Hash {
    let mut h = Poseidon2Hash([0; 32]);
    h.0[0] = input[0];
    h.0[1] = input[8];
    h.0[2] = input[15];
    h.0[3] = input[47];
    h
}
pub static mut LEAVES: [(u64, [u8; 4]); 4] = [(0, [0; 4]); 4];
pub static mut N: usize = 0;
pub fn merkleize(v: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Hash {
    unsafe {
        N = v.len();
        for (i, x) in v.iter().enumerate() {
            LEAVES[i] = (x.0, [x.1.0[0], x.1.0[1], x.1.0[2], x.1.0[3]]);
        }
    }
    std::mem::forget(v);
    Poseidon2Hash([7; 32])
}

fn any_event() -> Event {
    let mut a = [0u8; 8];
    a[0] = kani::any();
    a[7] = kani::any();
    Event {
        object: StateObject { address: StateAddress(a), constraint_owner: Default::default(), data: vec![kani::any()] },
        type_: any_type(),
    }
}
/// (address, type, value) of an event, as ordered (addresses as the numbers
/// that place them in the tree).
fn key(e: &Event) -> (u8, u8, u8, u8) { (e.object.address.0[7], e.object.address.0[0], e.type_ as u8, e.object.data[0]) }
fn ckey(c: &CanonicalEvent) -> (u8, u8, u8, u8) { (c.address.0[7], c.address.0[0], c.type_ as u8, c.value.0[31]) }

fn ordering<const K: usize>() {
    let es: Vec<Event> = (0..K).map(|_| any_event()).collect();
    let keys: [(u8, u8, u8, u8); K] = core::array::from_fn(|i| key(&es[i]));
    let o = OrderedEvents::new(es);
    let r = o.get_canonical_order_temporal_hints();
    kani::assert(r.len() == K, "one entry per event");
    let mut seen = [false; K];
    for i in 0..K {
        if i > 0 {
            kani::assert(ckey(&r[i - 1].0) <= ckey(&r[i].0), "ordered by address, type and value");
        }
        let at = r[i].1 as usize;
        kani::assert(at < K && !seen[at], "the hints are a permutation");
        seen[at] = true;
        kani::assert(ckey(&r[at].0) == keys[i], "hint i leads to the canonical form of event i");
    }
    kani::cover!(true, "reached");
    std::mem::forget((o, r));
}
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(crate::vp::hasher::poseidon2_hash_with_pad, hash_with_pad)]
fn ordering_1() { ordering::<1>() }
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(crate::vp::hasher::poseidon2_hash_with_pad, hash_with_pad)]
fn ordering_2() { ordering::<2>() }
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(crate::vp::hasher::poseidon2_hash_with_pad, hash_with_pad)]
fn ordering_3() { ordering::<3>() }

/// The documented temporal view: the events as emitted, each next to the
/// position (in emission order) of the canonically i-th.
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(crate::vp::hasher::poseidon2_hash_with_pad, hash_with_pad)]
fn temporal_3() {
    const K: usize = 3;
    let mut o = OrderedEvents::default();
    let mut keys = [(0, 0, 0, 0); K];
    for i in 0..K {
        let e = any_event();
        keys[i] = key(&e);
        o.push_temporal(e);
    }
    let r = o.get_temporal_order_canonical_hints();
    kani::assert(r.len() == K, "one entry per event");
    let mut seen = [false; K];
    for i in 0..K {
        kani::assert(key(&r[i].0) == keys[i], "the events come as they were pushed");
        let at = r[i].1 as usize;
        kani::assert(at < K && !seen[at], "the hints are a permutation");
        seen[at] = true;
        if i > 0 {
            kani::assert(keys[r[i - 1].1 as usize] <= keys[at], "following the hints visits the events in canonical order");
        }
    }
    kani::cover!(true, "reached");
    std::mem::forget((o, r));
}

/// The commitment is the Merkle root over (address, hash) in canonical order.
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(crate::vp::hasher::poseidon2_hash_with_pad, hash_with_pad)]
#[kani::stub(crate::vp::hasher::poseidon2_hash_no_pad, hash_no_pad)]
#[kani::stub(crate::common::merkle::merkleize, merkleize)]
fn commitment_2() {
    const K: usize = 2;
    let es: Vec<Event> = (0..K).map(|_| any_event()).collect();
    let mut k = [key(&es[0]), key(&es[1])];
    if k[1] < k[0] {
        k.swap(0, 1);
    }
    let o = OrderedEvents::new(es);
    let h = o.canonical_hash();
    kani::assert(h.0 == [7; 32], "the Merkle root is returned");
    unsafe {
        kani::assert(N == K, "one leaf per event");
        for i in 0..K {
            kani::assert(LEAVES[i].0 == u64::from(k[i].1) | u64::from(k[i].0) << 56, "at the event's address (little-endian)");
            kani::assert(i == 0 || LEAVES[i - 1].0 <= LEAVES[i].0, "sorted as the tree needs them");
            kani::assert(LEAVES[i].1 == [k[i].2, k[i].1, k[i].0, k[i].3], "with the event's canonical hash, in canonical order");
        }
    }
    kani::cover!(true, "reached");
    std::mem::forget(o);
}
