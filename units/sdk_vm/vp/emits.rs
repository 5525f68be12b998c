//! Events a program emits in the VM, checked against its event tape.
use super::common::*;
use super::*;
use crate::common::traits::EventEmit;
use crate::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, Event, Poseidon2Hash, StateAddress, StateObject};
use crate::mozakvm::eventtape::EventTape;

type Archived = <Vec<CanonicalOrderedTemporalHints> as rkyv::Archive>::Archived;

static mut OUT: [u8; 32] = [0; 32];
/// `poseidon2_hash_with_pad` (its own contract says what it hashes).
pub fn hash_with_pad(_: &[u8]) -> Poseidon2Hash { Poseidon2Hash(unsafe { OUT }) }

fn archived(v: CanonicalOrderedTemporalHints) -> <CanonicalOrderedTemporalHints as rkyv::Archive>::Archived {
    rkyv::Serialize::<()>::to_archived(&v)
}
fn same(a: &CanonicalEvent, b: &CanonicalEvent) -> bool {
    a.address.0 == b.address.0 && a.type_ as u8 == b.type_ as u8 && a.value.0 == b.value.0
}

/// An event tape of K events in any state.
struct Any<const K: usize> { tape: EventTape, events: [CanonicalEvent; K], hints: [u32; K], seen: [bool; K], index: usize }
fn any_tape<const K: usize>() -> Any<K> {
    let events: [CanonicalEvent; K] = core::array::from_fn(|_| any_canonical());
    let hints: [u32; K] = kani::any();
    let mut v = Vec::with_capacity(K);
    for i in 0..K {
        v.push(archived(CanonicalOrderedTemporalHints(events[i], hints[i])));
    }
    let reader: &'static Archived = Box::leak(Box::new(rkyv::vec::ArchivedVec(v)));
    let seen: [bool; K] = kani::any();
    let index: usize = kani::any();
    kani::assume(index <= K);
    Any { tape: EventTape { self_prog_id: Default::default(), reader: Some(reader), seen: seen.to_vec(), index }, events, hints, seen, index }
}
fn any_event() -> Event {
    Event { object: StateObject { address: StateAddress(kani::any()), constraint_owner: Default::default(), data: Vec::new() }, type_: any_type() }
}
/// The tape's next event, by its hint, is this one and was not emitted before.
fn acceptable<const K: usize>(t: &Any<K>, c: &CanonicalEvent) -> bool {
    let mut ok = false;
    for i in 0..K {
        for j in 0..K {
            if t.index == i && t.hints[i] as usize == j {
                ok = !t.seen[j] && same(&t.events[j], c);
            }
        }
    }
    ok
}
fn accept<const K: usize>() {
    unsafe { OUT = kani::any() };
    let mut t = any_tape::<K>();
    let e = any_event();
    let c = CanonicalEvent { address: e.object.address, type_: e.type_, value: Poseidon2Hash(unsafe { OUT }) };
    kani::assume(acceptable(&t, &c));
    t.tape.emit(e);
    kani::assert(t.tape.index == t.index + 1, "on to the next event");
    kani::assert(t.tape.seen.len() == K, "as many events");
    for j in 0..K {
        let mut hinted = false;
        for i in 0..K {
            hinted |= t.index == i && t.hints[i] as usize == j;
        }
        kani::assert(t.tape.seen[j] == (t.seen[j] || hinted), "exactly this event is marked as seen");
    }
    kani::cover!(true, "reached");
    std::mem::forget(t);
}
fn refuse<const K: usize>() {
    unsafe { OUT = kani::any() };
    let mut t = any_tape::<K>();
    let e = any_event();
    let c = CanonicalEvent { address: e.object.address, type_: e.type_, value: Poseidon2Hash(unsafe { OUT }) };
    kani::assume(!acceptable(&t, &c));
    t.tape.emit(e);
    kani::cover!(true, "accepted");
    std::mem::forget(t);
}
macro_rules! contracts_emit { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::stub(crate::vp::hasher::poseidon2_hash_with_pad, hash_with_pad)]
    #[kani::unwind(34)]
    fn $name() { $e }
)* } }
contracts_emit! { accept_1 = accept::<1>(), accept_2 = accept::<2>(), accept_3 = accept::<3>(),
    refuse_0 = refuse::<0>(), refuse_1 = refuse::<1>(), refuse_2 = refuse::<2>(), refuse_3 = refuse::<3>() }
