//! Bounded checks of the host build by running it.
#![allow(unused, static_mut_refs, clippy::all)]
use std::collections::HashMap;

mod rng;
use rng::*;

use crate::common::merkle::merkleize;
use crate::common::system::SYSTEM_TAPE;
use crate::common::types::*;
use crate::native::OrderedEvents;

fn h(x: u64) -> Poseidon2Hash {
    let mut r = Poseidon2Hash([0; 32]);
    r.0[..8].copy_from_slice(&x.to_le_bytes());
    r
}
fn pid(k: u64) -> ProgramIdentifier { if k == 0 { ProgramIdentifier::default() } else { ProgramIdentifier(h(k)) } }

/// The root of leaves in address order: split at the highest differing bit;
/// leaves at one address are joined pairwise.
fn tree(v: &[(u64, Poseidon2Hash)]) -> Poseidon2Hash {
    let (a, b) = (v[0].0, v[v.len() - 1].0);
    if a == b {
        let mut l: Vec<Poseidon2Hash> = v.iter().map(|x| x.1).collect();
        while l.len() > 1 {
            l = l.chunks(2).map(|c| if c.len() == 2 { Poseidon2Hash::two_to_one(c[0], c[1]) } else { c[0] }).collect();
        }
        return l[0];
    }
    let bit = 63 - (a ^ b).leading_zeros();
    let k = v.iter().position(|x| (x.0 >> bit) & 1 == 1).unwrap();
    Poseidon2Hash::two_to_one(tree(&v[..k]), tree(&v[k..]))
}
fn merkle_case(addrs: &[u64]) {
    let v: Vec<_> = addrs.iter().zip(1..).map(|(&a, i)| (a, h(i))).collect();
    case(&|| format!("merkleize over addresses {addrs:#x?}"), || eq("root", merkleize(v.clone()), tree(&v)));
}
/// Every sequence of highest differing bits of up to four leaves, and random
/// sets of up to ten.
fn merkle(seed: u64) -> u64 {
    let mut r = Rng(seed);
    let mut n = 1;
    case(&|| "merkleize of nothing".into(), || eq("root", merkleize(vec![]), Poseidon2Hash::default()));
    fn grow(r: &mut Rng, addrs: &mut Vec<u64>, left: usize, n: &mut u64) {
        merkle_case(addrs);
        *n += 1;
        if left == 0 {
            return;
        }
        let last = *addrs.last().unwrap();
        // the next address: equal, or first differing at bit b
        for b in 0..=64u32 {
            let next = if b == 64 { last } else if (last >> b) & 1 == 1 { continue } else { ((last >> b) | 1) << b | (r.next() & ((1u64 << b) - 1)) };
            addrs.push(next);
            grow(r, addrs, left - 1, n);
            addrs.pop();
        }
    }
    for first in [0, 1, 0x5555_5555_5555_5555, 0x7fff_ffff_ffff_ffff, r.next() >> 1] {
        grow(&mut r, &mut vec![first], 2, &mut n);
    }
    grow(&mut r, &mut vec![0], 3, &mut n);
    for _ in 0..20_000 {
        let k = 2 + r.below(9) as usize;
        let m = r.next() & r.next() | 1 << 63 | 3;
        let mut a: Vec<u64> = (0..k).map(|_| r.next() & m & (u64::MAX << r.below(64))).collect();
        a.sort();
        merkle_case(&a);
        n += 1;
    }
    n
}

fn event(r: &mut Rng) -> Event {
    let n = r.below(3) as usize;
    Event {
        object: StateObject { address: StateAddress([r.below(3) as u8, 0, 0, 0, 0, 0, 0, r.below(2) as u8]), constraint_owner: pid(r.below(3)), data: r.bytes(n).iter().map(|x| x % 2).collect() },
        type_: [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][r.below(5) as usize],
    }
}
/// Events in canonical order with hints: the hints lead a reader through the
/// events in the order they were emitted; the commitment is the tree over them.
fn order(seed: u64) -> u64 {
    let mut r = Rng(seed);
    for n in 0..4000u64 {
        let es: Vec<Event> = (0..n % 9).map(|_| event(&mut r)).collect();
        case(&|| format!("events {es:?}"), || {
            let mut o = OrderedEvents::new(vec![]);
            es.iter().for_each(|e| o.push_temporal(e.clone()));
            eq("the same events", serde_json::to_string(&o).unwrap(), serde_json::to_string(&OrderedEvents::new(es.clone())).unwrap())?;
            let c = o.get_canonical_order_temporal_hints();
            let at = |e: &CanonicalEvent| u64::from_le_bytes(e.address.0);
            let key = |e: &CanonicalEvent| (at(e), e.type_ as u8, e.value.0);
            eq("in canonical order", c.windows(2).all(|w| key(&w[0].0) <= key(&w[1].0)), true)?;
            let mut seen = vec![false; es.len()];
            eq("as many", c.len(), es.len())?;
            for (i, e) in es.iter().enumerate() {
                let k = c[i].1 as usize;
                eq("a hint is taken once", core::mem::replace(&mut seen[k], true), false)?;
                eq("the hinted event is the emitted one", c[k].0, CanonicalEvent::from_event(e))?;
            }
            let leaves: Vec<_> = c.iter().map(|x| (at(&x.0), x.0.canonical_hash())).collect();
            eq("the commitment is the tree's root", o.canonical_hash(), if es.is_empty() { Poseidon2Hash::default() } else { tree(&leaves) })?;
            let t = o.get_temporal_order_canonical_hints();
            for (k, (e, hint)) in t.iter().enumerate() {
                eq("in the order of emission", e == &es[k], true)?;
                eq("each hint leads to the canonical event", CanonicalEvent::from_event(&es[*hint as usize]), c[k].0)?;
            }
            Ok(())
        });
    }
    4000
}

fn nibble(c: u8) -> u8 { b"0123456789abcdef".iter().position(|x| *x == c).unwrap() as u8 }
/// The text form of identifiers and digests.
fn text(seed: u64) -> u64 {
    let mut r = Rng(seed);
    for n in 0..4000usize {
        let mut p = ProgramIdentifier::default();
        if n < 256 * 4 {
            p.0.0[n / 256 * 10] = n as u8;
        } else {
            p.0.0.copy_from_slice(&r.bytes(32));
        }
        case(&|| format!("program identifier of bytes {:?}", p.0.0), || {
            let s = format!("{p:?}");
            eq("length of the text form", s.len(), 4 + 64)?;
            eq("prefix", &s[..4], "MZK-")?;
            let digits: Vec<u8> = s.as_bytes()[4..].chunks(2).map(|c| nibble(c[0]) * 16 + nibble(c[1])).collect();
            eq("two hex digits per byte", digits, p.0.0.to_vec())?;
            eq("read back", ProgramIdentifier::from(s), p)?;
            let j = serde_json::to_string(&p).unwrap();
            eq("read back from a file", serde_json::from_str::<ProgramIdentifier>(&j).unwrap(), p)?;
            let m = HashMap::from([(p, RawMessage(p.0.0[..n % 33].to_vec()))]);
            let j = serde_json::to_string(&m).map_err(|e| e.to_string())?;
            eq("read back as a key, with a message", serde_json::from_str::<HashMap<ProgramIdentifier, RawMessage>>(&j).unwrap() == m, true)
        });
        for bad in [format!("{p:?}0"), format!("{p:?}00"), format!("{p:?}")[..66].to_string(), format!("{p:?}")[4..].to_string(), format!("MZK-{p:?}"), format!("{p:?}").replace("MZK", "mzk"), format!("{p:?}")[..67].to_string() + "g"] {
            refused(&|| format!("program identifier {bad:?}"), || { let _ = ProgramIdentifier::from(bad.clone()); });
        }
    }
    4000 * 8
}

/// What a run of programs did, as recorded by the programs themselves.
#[derive(Default)]
struct Log { calls: Vec<(u64, u64, u64, u64)>, events: HashMap<u64, Vec<Event>>, raw: [HashMap<u64, Vec<u8>>; 2], n: u64 }
static mut LOG: Option<Log> = None;
static mut RNG: Rng = Rng(0);
fn log() -> &'static mut Log { unsafe { LOG.as_mut().unwrap() } }
fn rng() -> &'static mut Rng { unsafe { &mut RNG } }

/// A program: emits events, writes to its tapes, calls others, in any order.
fn program(me: u64, depth: u64) {
    for _ in 0..rng().below(4) {
        match rng().below(4) {
            0 if me != 0 => {
                let e = event(rng());
                log().events.entry(me).or_default().push(e.clone());
                crate::event_emit(e);
            }
            1 if me != 0 => {
                let n = rng().below(4) as usize;
                let b = rng().bytes(n);
                let k = rng().below(2) as usize;
                log().raw[k].entry(me).or_default().extend(&b);
                let kind = if k == 0 { crate::InputTapeType::PrivateTape } else { crate::InputTapeType::PublicTape };
                assert_eq!(crate::write(&kind, &b).unwrap(), b.len(), "everything is written");
            }
            2 if depth > 0 => {
                let (to, arg, ret) = (1 + rng().below(3), rng().next(), rng().next());
                let i = log().calls.len();
                log().calls.push((me, to, arg, ret));
                let got: u64 = crate::call_send(pid(to), arg, |a: u64| {
                    assert_eq!(a, arg, "the resolver gets the argument");
                    program(to, depth - 1);
                    ret
                });
                assert_eq!(got, ret, "the call returns what its resolver returned");
            }
            3 if depth > 0 => {
                let other = 1 + rng().below(3);
                crate::add_identity(pid(other));
                program(other, depth - 1);
                crate::rm_identity();
            }
            _ => (),
        }
        log().n += 1;
    }
}
fn message(x: u64) -> Vec<u8> { rkyv::to_bytes::<_, 256, rkyv::rancor::Panic>(&x).unwrap().into_vec() }
/// Call trees of programs: the tapes are what the programs did.
fn calls(seed: u64) -> u64 {
    for n in 0..2000u64 {
        unsafe {
            RNG = Rng(seed.wrapping_mul(1_000_003).wrapping_add(n));
            LOG = Some(Log::default());
            SYSTEM_TAPE.call_tape.writer.clear();
            SYSTEM_TAPE.event_tape.writer.clear();
            SYSTEM_TAPE.private_input_tape.writer.clear();
            SYSTEM_TAPE.public_input_tape.writer.clear();
        }
        case(&|| format!("run {n} with seed {seed}: calls (from, to, argument, return) {:?}", log().calls), || {
            program(0, 4);
            let t = unsafe { SYSTEM_TAPE.clone() };
            let got: Vec<_> = t.call_tape.writer.iter().map(|c| (c.caller, c.callee, c.argument.0.clone(), c.return_.0.clone())).collect();
            let want: Vec<_> = log().calls.iter().map(|c| (pid(c.0), pid(c.1), message(c.2), message(c.3))).collect();
            eq("calls", got, want)?;
            for p in 0..4 {
                let got = t.event_tape.writer.get(&pid(p)).map(|o| serde_json::to_string(o).unwrap());
                let want = log().events.get(&p).map(|v| serde_json::to_string(&OrderedEvents::new(v.clone())).unwrap());
                eq("events of a program", got, want)?;
                for (k, w) in [&t.private_input_tape, &t.public_input_tape].iter().enumerate() {
                    eq("input tape of a program", w.writer.get(&pid(p)).map(|m| m.0.clone()), log().raw[k].get(&p).cloned())?;
                }
            }
            // the file the prover reads
            let back: SystemTape = serde_json::from_str(&serde_json::to_string_pretty(&t).unwrap()).map_err(|e| e.to_string())?;
            eq("calls read back from the tape file", back.call_tape.writer == t.call_tape.writer, true)?;
            eq("programs with events read back", back.event_tape.writer.len(), t.event_tape.writer.len())?;
            for (p, o) in &t.event_tape.writer {
                let b = back.event_tape.writer.get(p).ok_or("a program with events is lost")?;
                eq("events read back", serde_json::to_string(b).unwrap(), serde_json::to_string(o).unwrap())?;
                eq("their order and hints", b.get_canonical_order_temporal_hints(), o.get_canonical_order_temporal_hints())?;
            }
            for (a, b) in [(&t.private_input_tape, &back.private_input_tape), (&t.public_input_tape, &back.public_input_tape)] {
                eq("inputs read back", b.writer == a.writer, true)?;
            }
            let top = t.call_tape.identity_stack.borrow().top_identity();
            eq("no identity is left", top, ProgramIdentifier::default())
        });
    }
    // the null program neither emits nor writes
    refused(&|| "an event of the null program".into(), || crate::event_emit(event(&mut Rng(1))));
    refused(&|| "input of the null program".into(), || { let _ = crate::write(&crate::InputTapeType::PublicTape, &[1]); });
    2002
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let n = match a[1].as_str() {
        "merkle" => merkle(seed),
        "order" => order(seed),
        "calls" => calls(seed),
        "text" => text(seed),
        x => panic!("{x}"),
    };
    println!("OK {n}");
}
