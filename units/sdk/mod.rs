//! Contracts that hold for both the host and the VM build.
use crate::common::types::{CanonicalEvent, Event, EventType, Poseidon2Hash, ProgramIdentifier, RawMessage, StateAddress, StateObject};
pub mod codecs;
pub mod events;
pub mod merkle;

pub fn any_type() -> EventType {
    match kani::any::<u8>() % 5 {
        0 => EventType::Write,
        1 => EventType::Ensure,
        2 => EventType::Read,
        3 => EventType::GiveOwner,
        _ => EventType::TakeOwner,
    }
}
pub fn any_hash() -> Poseidon2Hash { Poseidon2Hash(kani::any()) }
pub fn any_program() -> ProgramIdentifier { ProgramIdentifier(any_hash()) }
pub fn any_canonical() -> CanonicalEvent {
    CanonicalEvent { address: StateAddress(kani::any()), type_: any_type(), value: any_hash() }
}
pub fn same32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let i: usize = kani::any();
    kani::assume(i < 32);
    a[i] == b[i]
}
