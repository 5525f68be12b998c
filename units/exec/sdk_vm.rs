//! Bounded checks of the VM build by running it against a machine.
#![allow(unused, static_mut_refs, clippy::all)]
use once_cell::unsync::Lazy;

mod rng;
use rng::*;

use crate::common::system::*;
use crate::common::types::*;
use crate::vp::{CALLS, MACHINE, REGS};

fn pid(k: u8) -> ProgramIdentifier {
    let mut p = ProgramIdentifier::default();
    p.0.0[0] = k / 16;
    p.0.0[31] = k % 16;
    p
}
/// The machine's tapes by number, and how much of each was read.
static mut TAPES: [(Vec<u8>, usize); 10] = [const { (Vec::new(), 0) }; 10];
static mut HASHED: Vec<u8> = Vec::new();
fn machine() {
    unsafe {
        let [code, ptr, len, out] = REGS;
        match code {
            3 => {
                HASHED = std::slice::from_raw_parts(ptr as *const u8, len).to_vec();
                // any function of the bytes
                let mut d = [[0u8; 8]; 4];
                for (k, x) in d.iter_mut().enumerate() {
                    let mut r = Rng(k as u64 + 1);
                    let mut acc = 0u64;
                    for b in &HASHED {
                        acc = (acc ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3) ^ r.next();
                    }
                    *x = acc.to_le_bytes();
                }
                std::ptr::copy_nonoverlapping(d.as_ptr() as *const u8, out as *mut u8, 32);
            }
            2 | 4..=9 => {
                let t = &mut TAPES[code];
                let n = len.min(t.0.len() - t.1);
                assert!(n == len, "tape {code} is read past its end");
                std::ptr::copy_nonoverlapping(t.0[t.1..].as_ptr(), ptr as *mut u8, n);
                t.1 += n;
            }
            x => panic!("environment call {x}"),
        }
    }
}
fn archive<T: rkyv::Serialize<rkyv::rancor::Strategy<rkyv::ser::AllocSerializer<256>, rkyv::rancor::Panic>>>(x: &T) -> Vec<u8> {
    rkyv::to_bytes::<_, 256, rkyv::rancor::Panic>(x).unwrap().into_vec()
}
fn with_len(b: Vec<u8>) -> Vec<u8> { [(b.len() as u32).to_le_bytes().to_vec(), b].concat() }

#[derive(Debug, Clone)]
struct World { me: u8, calls: Vec<(u8, u8, u32, u64)>, events: Vec<(u64, u8, Vec<u8>)>, private: Vec<u8>, public: Vec<u8> }
fn event(e: &(u64, u8, Vec<u8>)) -> Event {
    Event {
        object: StateObject { address: StateAddress(e.0.to_le_bytes()), constraint_owner: pid(1), data: e.2.clone() },
        type_: [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][e.1 as usize],
    }
}
fn message<T: rkyv::Serialize<rkyv::rancor::Strategy<rkyv::ser::AllocSerializer<256>, rkyv::rancor::Panic>>>(x: &T) -> RawMessage { archive(x).into() }
/// Canonical order of events and, for each in order of emission, where it is.
fn ordered(w: &World) -> Vec<CanonicalOrderedTemporalHints> {
    let es: Vec<CanonicalEvent> = w.events.iter().map(|e| CanonicalEvent::from_event(&event(e))).collect();
    let mut ix: Vec<usize> = (0..es.len()).collect();
    ix.sort_by_key(|&i| (u64::from_le_bytes(es[i].address.0), es[i].type_ as u8, es[i].value.0, i));
    (0..es.len()).map(|k| CanonicalOrderedTemporalHints(es[ix[k]], ix.iter().position(|&i| i == k).unwrap() as u32)).collect()
}
fn cast(w: &World) -> Vec<ProgramIdentifier> {
    let mut v: Vec<_> = w.calls.iter().map(|c| pid(c.1)).collect();
    v.sort_by_key(|p| p.0.0);
    v.dedup();
    v
}
/// A program's start in the VM, on the tapes of this world.
fn load(w: &World) {
    unsafe {
        MACHINE = machine;
        let calls: Vec<CrossProgramCall> = w.calls.iter().map(|c| CrossProgramCall { caller: pid(c.0), callee: pid(c.1), argument: message(&c.2), return_: message(&c.3) }).collect();
        let events = ordered(w);
        let root = crate::common::merkle::merkleize(events.iter().map(|x| (u64::from_le_bytes(x.0.address.0), x.0.canonical_hash())).collect());
        let cast = crate::common::merkle::merkleize(cast(w).iter().zip(0..).map(|(p, i)| (i, p.0)).collect());
        let t = [vec![], vec![], with_len(w.private.clone()), vec![], with_len(w.public.clone()), with_len(archive(&calls)), with_len(archive(&events)),
            root.0.to_vec(), cast.0.to_vec(), pid(w.me).0.0.to_vec()];
        TAPES = t.map(|b| (b, 0));
        // the tape as the program first sees it
        let init = std::mem::replace(&mut SYSTEM_TAPE, Lazy::new(|| unreachable!()));
        SYSTEM_TAPE = Lazy::new(INIT.unwrap_or_else(|| panic!("no initializer")));
    }
}
/// How `SYSTEM_TAPE` is set up: what its `Lazy` holds at the start.
static mut INIT: Option<fn() -> SystemTape> = None;
fn initializer() {
    // Lazy is a cell for the value followed by one for the initializer; a copy
    // of the untouched static is as good as the static
    unsafe {
        let l: Lazy<SystemTape> = std::ptr::read(&SYSTEM_TAPE);
        INIT = match Lazy::into_value(l) { Err(f) => Some(f), Ok(_) => None };
    }
}
fn world(r: &mut Rng) -> World {
    let (k, m) = (r.below(4) as usize, r.below(5) as usize);
    let me = 1 + r.below(40) as u8;
    let mut calls: Vec<(u8, u8, u32, u64)> = Vec::new();
    for _ in 0..k {
        // somebody is called by nobody or by somebody called before
        let from = if calls.is_empty() || r.below(3) == 0 { 0 } else { calls[r.below(calls.len() as u64) as usize].1 };
        let to = if r.below(3) == 0 { me } else { 1 + r.below(40) as u8 };
        if from != to {
            calls.push((from, to, r.next() as u32, r.next()));
        }
    }
    let (a, b) = (r.below(6) as usize, r.below(6) as usize);
    World { me, calls, events: (0..m).map(|_| { let n = r.below(10) as usize; (r.below(3) << (8 * r.below(8)), r.below(5) as u8, r.bytes(n)) }).collect(), private: r.bytes(a), public: r.bytes(b) }
}
/// The program does what the tapes say.
fn play(w: &World) -> Result<(), String> {
    for c in &w.calls {
        if c.0 == w.me {
            eq("return value", crate::call_send(pid(c.1), c.2, |_: u32| -> u64 { unreachable!() }), c.3)?;
        } else if c.1 == w.me {
            eq("received", crate::call_receive::<u32, u64>().map(|x| (x.0.0.0, x.1, x.2)), Some((pid(c.0).0.0, c.2, c.3)))?;
        }
    }
    eq("no call left", crate::call_receive::<u32, u64>().is_none(), true)?;
    w.events.iter().for_each(|e| crate::event_emit(event(e)));
    Ok(())
}
fn run(seed: u64) -> u64 {
    use std::io::Read;
    let mut r = Rng(seed);
    for n in 0..1500 {
        let w = world(&mut r);
        let what = || format!("{w:?}");
        load(&w);
        case(&what, || {
            let t = unsafe { &mut *SYSTEM_TAPE };
            eq("own identity", (t.call_tape.self_prog_id.0.0, t.event_tape.self_prog_id.0.0), (pid(w.me).0.0, pid(w.me).0.0))?;
            eq("cast list", t.call_tape.cast_list.iter().map(|p| p.0.0).collect(), cast(&w).iter().map(|p| p.0.0).collect::<Vec<_>>())?;
            eq("calls and events", (t.call_tape.reader.unwrap().len(), t.event_tape.reader.unwrap().len(), t.event_tape.seen.len()), (w.calls.len(), w.events.len(), w.events.len()))?;
            eq("input lengths", (crate::input_tape_len(&crate::InputTapeType::PrivateTape), crate::input_tape_len(&crate::InputTapeType::PublicTape)), (w.private.len(), w.public.len()))?;
            for (kind, want) in [(crate::InputTapeType::PrivateTape, &w.private), (crate::InputTapeType::PublicTape, &w.public)] {
                let mut b = vec![0; want.len()];
                eq("input read", crate::read(&kind, &mut b).unwrap(), want.len())?;
                eq("input", &b, want)?;
            }
            // the calls between others are skipped only by receiving
            let foreign_tail = w.calls.iter().rposition(|c| c.0 == w.me).map_or(false, |i| w.calls[..i].iter().any(|c| c.0 != w.me && c.1 != w.me));
            if foreign_tail {
                return Ok(());
            }
            play(&w)?;
            ensure_clean_shutdown();
            Ok(())
        });
        // the commitment differs, or something is left
        for k in 0..3 {
            if (k == 2 && w.events.is_empty()) || w.calls.iter().any(|c| c.0 == w.me) {
                continue;
            }
            load(&w);
            refused(&|| format!("{w:?} with {}", ["another events commitment", "another cast list commitment", "an event left out"][k]), || unsafe {
                let at = (r.next() % 32) as usize;
                if k < 2 {
                    TAPES[7 + k].0[at] ^= 1 << r.below(8);
                }
                let mut v = w.clone();
                if k == 2 {
                    v.events.pop();
                }
                let _ = play(&v);
                ensure_clean_shutdown();
            });
        }
    }
    1500
}
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    initializer();
    let n = match a[1].as_str() {
        "run" => run(a[2].parse().unwrap()),
        x => panic!("{x}"),
    };
    println!("OK {n}");
}
