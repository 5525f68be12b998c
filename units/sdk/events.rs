//! What a canonical event is, and what its hash covers.
use super::*;

pub static mut SEEN: (*const u8, usize) = (core::ptr::null(), 0);
pub static mut INPUT: [u8; 64] = [0; 64];
pub static mut LEN: usize = 0;
pub static mut OUT: [u8; 32] = [0; 32];
pub static mut CALLS: usize = 0;

/// `poseidon2_hash_with_pad`: remembers which bytes it is to hash.
pub fn hash_with_pad(input: &[u8]) -> Poseidon2Hash {
    unsafe {
        SEEN = (input.as_ptr(), input.len());
        CALLS += 1;
        Poseidon2Hash(OUT)
    }
}
/// `poseidon2_hash_no_pad`: copies the bytes it is to hash.
pub fn hash_no_pad(input: &[u8]) -> Poseidon2Hash {
    unsafe {
        LEN = input.len();
        let mut i = 0;
        while i < input.len() && i < 64 {
            INPUT[i] = input[i];
            i += 1;
        }
        CALLS += 1;
        Poseidon2Hash(OUT)
    }
}

/// The canonical event has the object's address, the event's type and the
/// padded hash of all of the object's data.
#[kani::proof]
#[kani::stub(crate::vp::hasher::poseidon2_hash_with_pad, hash_with_pad)]
#[kani::unwind(34)]
fn canonical_event() {
    unsafe { OUT = kani::any() };
    let data: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let e = Event {
        object: StateObject { address: StateAddress(kani::any()), constraint_owner: any_program(), data: data[..n].to_vec() },
        type_: any_type(),
    };
    let c = CanonicalEvent::from_event(&e);
    let i: usize = kani::any();
    kani::assume(i < 32);
    kani::assert(c.address.0[i % 8] == e.object.address.0[i % 8], "the address is the object's");
    kani::assert(c.type_ as u8 == e.type_ as u8, "the type is the event's");
    unsafe {
        kani::assert(CALLS == 1 && SEEN == (e.object.data.as_ptr(), e.object.data.len()), "the hash is taken over all of the object's data");
        kani::assert(c.value.0[i] == OUT[i], "the value is the padded hash");
    }
    kani::cover!(true, "reached");
    std::mem::forget(e);
}

/// The hash of a canonical event covers its type, address and value: 48 bytes
/// in which each has its own place.
#[kani::proof]
#[kani::stub(crate::vp::hasher::poseidon2_hash_no_pad, hash_no_pad)]
#[kani::unwind(66)]
fn canonical_hash() {
    unsafe { OUT = kani::any() };
    let c = any_canonical();
    let h = c.canonical_hash();
    let i: usize = kani::any();
    kani::assume(i < 48);
    unsafe {
        let want = if i == 0 { c.type_ as u8 } else if i < 8 { 0 } else if i < 16 { c.address.0[i - 8] } else { c.value.0[i - 16] };
        kani::assert(CALLS == 1 && LEN == 48, "48 bytes are hashed");
        kani::assert(INPUT[i] == want, "type (8 bytes), address (8), value (32)");
        kani::assert(h.0[i % 32] == OUT[i % 32], "the result is their hash");
    }
    kani::assert(EventType::Write as u8 == 0 && EventType::Ensure as u8 == 1 && EventType::Read as u8 == 2
        && EventType::GiveOwner as u8 == 3 && EventType::TakeOwner as u8 == 4, "every type has its own number");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::stub(crate::vp::hasher::poseidon2_hash_no_pad, hash_no_pad)]
#[kani::unwind(66)]
fn two_to_one() {
    unsafe { OUT = kani::any() };
    let (l, r) = (any_hash(), any_hash());
    let h = Poseidon2Hash::two_to_one(l, r);
    let i: usize = kani::any();
    kani::assume(i < 64);
    unsafe {
        kani::assert(CALLS == 1 && LEN == 64, "64 bytes are hashed");
        kani::assert(INPUT[i] == if i < 32 { l.0[i] } else { r.0[i - 32] }, "left then right");
        kani::assert(h.0[i % 32] == OUT[i % 32], "the result is their hash");
    }
    kani::cover!(true, "reached");
}
