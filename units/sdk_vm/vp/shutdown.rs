//! A program that ends has consumed its tapes, and the commitments match.
use once_cell::unsync::Lazy;

use super::common::*;
use super::*;
use crate::common::system::{ensure_clean_shutdown, SYSTEM_TAPE};
use crate::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, Poseidon2Hash, ProgramIdentifier, StateAddress, SystemTape};
use crate::mozakvm::calltape::CallTape;
use crate::mozakvm::eventtape::EventTape;
use crate::mozakvm::inputtape::{PrivateInputTape, PublicInputTape};

type Calls = <Vec<CrossProgramCall> as rkyv::Archive>::Archived;
type Events = <Vec<CanonicalOrderedTemporalHints> as rkyv::Archive>::Archived;

/// Stand-ins: a digest remembers what it is of.
const PAD: u64 = u64::MAX;
fn canonical_hash(c: &CanonicalEvent) -> Poseidon2Hash { c.value }
static mut ROOTS: [u8; 2] = [0; 2];
static mut LEAVES: [[(u64, u8); 2]; 2] = [[(PAD, 0); 2]; 2];
static mut LENS: [usize; 2] = [0; 2];
static mut TREES: usize = 0;
pub fn merkleize(v: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Hash {
    unsafe {
        let n = TREES;
        LENS[n] = v.len();
        for i in 0..2 {
            if i < v.len() {
                LEAVES[n][i] = (v[i].0, v[i].1.0[0]);
            }
        }
        TREES += 1;
        std::mem::forget(v);
        let mut h = Poseidon2Hash([0; 32]);
        h.0[31] = ROOTS[n];
        h
    }
}
static mut CLAIMS: [u8; 2] = [0; 2];
/// Where in the digest the claim may differ.
static mut AT: usize = 31;
/// The machine hands out the commitments.
fn serve() {
    unsafe {
        kani::assert(REGS[0] == 7 || REGS[0] == 8, "a commitment is read");
        kani::assert(REGS[2] == 32, "all of it");
        *(REGS[1] as *mut u8).add(AT) = CLAIMS[REGS[0] - 7];
    }
}
static mut READY: Option<SystemTape> = None;
struct Any { calls: (usize, usize), events: (usize, usize), address: [u8; 8], value: u8, cast: [u8; 2] }
fn any<const E: usize, const C: usize>() -> Any {
    let s = Any { calls: (kani::any(), 1), events: (kani::any(), E), address: kani::any(), value: kani::any(), cast: kani::any() };
    unsafe {
        MACHINE = serve;
        ROOTS = kani::any();
        CLAIMS = kani::any();
        let mut v = Vec::with_capacity(2);
        for i in 0..E {
            let mut e = CanonicalEvent { address: StateAddress(s.address), ..Default::default() };
            e.value.0[0] = s.value;
            v.push(rkyv::Serialize::<()>::to_archived(&CanonicalOrderedTemporalHints(e, 0)));
        }
        let events: &'static Events = Box::leak(Box::new(rkyv::vec::ArchivedVec(v)));
        let mut v = Vec::with_capacity(2);
        v.push(rkyv::Serialize::<()>::to_archived(&CrossProgramCall::default()));
        let calls: &'static Calls = Box::leak(Box::new(rkyv::vec::ArchivedVec(v)));
        let mut cast_list = Vec::with_capacity(2);
        for i in 0..C {
            let mut p = ProgramIdentifier::default();
            p.0.0[0] = s.cast[i];
            cast_list.push(p);
        }
        let t = SystemTape {
            private_input_tape: PrivateInputTape::default(),
            public_input_tape: PublicInputTape::default(),
            call_tape: CallTape { cast_list, self_prog_id: Default::default(), reader: Some(calls), index: s.calls.0 },
            event_tape: EventTape { self_prog_id: Default::default(), reader: Some(events), seen: Vec::new(), index: s.events.0 },
        };
        READY = Some(t);
        SYSTEM_TAPE = Lazy::new(|| READY.take().unwrap());
    }
    s
}
fn clean(s: &Any) -> bool { unsafe { s.calls.0 == s.calls.1 && s.events.0 == s.events.1 && AT == 31 && CLAIMS == ROOTS } }
fn accept<const E: usize, const C: usize>() {
    let s = any::<E, C>();
    kani::assume(clean(&s));
    ensure_clean_shutdown();
    unsafe {
        kani::assert(TREES == 2 && CALLS == 2, "two commitments");
        kani::assert(LENS[0] == E && LENS[1] == C, "over all events, over the whole cast list");
        for i in 0..E {
            kani::assert(LEAVES[0][i] == (u64::from_le_bytes(s.address), s.value), "an event is at its address");
        }
        for i in 0..C {
            kani::assert(LEAVES[1][i] == (i as u64, s.cast[i]), "a program is at its place in the list");
        }
    }
    kani::cover!(true, "reached");
}
/// Anything left unread, or any byte of a commitment that differs.
fn refuse<const E: usize, const C: usize>() {
    unsafe {
        AT = kani::any();
        kani::assume(AT < 32);
    }
    let s = any::<E, C>();
    kani::assume(!clean(&s));
    unsafe { kani::assume(AT == 31 || CLAIMS != [0, 0] || ROOTS != [0, 0]) };
    ensure_clean_shutdown();
    kani::cover!(true, "accepted");
}
macro_rules! contracts_shutdown { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::stub(crate::common::merkle::merkleize, merkleize)]
    #[kani::stub(crate::common::types::CanonicalEvent::canonical_hash, canonical_hash)]
    #[kani::unwind(4)]
    fn $name() { $e }
)* } }
contracts_shutdown! { accept_0 = accept::<0, 0>(), accept_1 = accept::<1, 2>(), refuse_0 = refuse::<0, 1>(), refuse_1 = refuse::<1, 1>() }
