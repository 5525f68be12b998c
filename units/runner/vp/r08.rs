//! Input tapes: `read_bytes`, and the read ecalls.
use std::rc::Rc;

use super::*;
use crate::state::{read_bytes, StorageDeviceOpcode, StorageDeviceTape};

const A0: usize = 10;
const A1: usize = 11;
const A2: usize = 12;
const N: usize = 3;

/// (bounded: tapes of at most 64 bytes; Verus proves it without the bound)
#[kani::proof]
#[kani::unwind(6)]
fn read() {
    const N: usize = 64;
    let buf: [u8; N] = kani::any();
    let len: usize = kani::any();
    let start: usize = kani::any();
    kani::assume(start <= len && len <= N);
    let n: usize = kani::any();
    let mut index = start;
    let r = read_bytes(&buf[..len], &mut index, n);
    let take = if n < len - start { n } else { len - start };
    kani::assert(r.len() == take, "as many bytes as requested, or all that remain");
    kani::assert(index == start + take, "the position advances by the bytes returned");
    let i: usize = kani::any();
    kani::assume(i < take);
    kani::assert(r[i] == buf[start + i], "the bytes are the next bytes of the tape, in order");
    kani::cover!(true, "end of the contract reached");
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum T {
    Private,
    Public,
    Call,
    Event,
    Events,
    Casts,
    Id,
}
fn tape(b: &[u8], at: usize) -> StorageDeviceTape { StorageDeviceTape { data: Rc::from(b), read_index: at } }

fn ecall_read<const L: usize>(which: T, id: u32, want_op: StorageDeviceOpcode) {
    let mut s = any_state();
    let m: u32 = kani::any();
    let before: Option<u8> = kani::any();
    s.memory.data = HashMap::watched(m, before);
    s.registers[A0] = id;
    let bytes: [u8; L] = kani::any();
    let mut at = 0usize;
    let tapes = matches!(which, T::Private | T::Public | T::Call | T::Event);
    if tapes {
        at = kani::any();
        kani::assume(at <= L);
    }
    match which {
        T::Private => s.private_tape = tape(&bytes, at),
        T::Public => s.public_tape = tape(&bytes, at),
        T::Call => s.call_tape = tape(&bytes, at),
        T::Event => s.event_tape = tape(&bytes, at),
        T::Events => s.events_commitment_tape.0 = bytes[..].try_into().unwrap(),
        T::Casts => s.cast_list_commitment_tape.0 = bytes[..].try_into().unwrap(),
        T::Id => s.self_prog_id_tape = bytes[..].try_into().unwrap(),
    }
    let (a1, a2) = (s.registers[A1], s.registers[A2]);
    if !tapes {
        kani::assume(a2 <= N as u32);
    }
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let idx = [s.private_tape.read_index, s.public_tape.read_index, s.call_tape.read_index, s.event_tape.read_index];
    let (aux, t) = s.ecall();
    let left = (L - at) as u32;
    let take = if a2 < left { a2 } else { left };
    let off = m.wrapping_sub(a1);
    let expect = if off < take { Some(bytes[at + off as usize]) } else { before };
    kani::assert(
        t.memory.data.get(&m).copied() == expect,
        "the bytes read are copied to the buffer, in order; no other byte of memory changes",
    );
    let adv = |w: T, i: usize| if w == which { i.wrapping_add(take as usize) } else { i };
    kani::assert(t.private_tape.read_index == adv(T::Private, idx[0]), "private tape position");
    kani::assert(t.public_tape.read_index == adv(T::Public, idx[1]), "public tape position");
    kani::assert(t.call_tape.read_index == adv(T::Call, idx[2]), "call tape position");
    kani::assert(t.event_tape.read_index == adv(T::Event, idx[3]), "event tape position");
    let k = any_reg();
    kani::assert(t.registers[k] == regs[k], "no register changes");
    kani::assert(t.pc == pc.wrapping_add(4) && t.clk == clk && !t.halted, "execution continues at the next instruction");
    kani::assert(aux.dst_val == take, "number of bytes recorded");
    kani::assert(aux.mem_addresses_used.len() == take as usize, "one address per byte recorded");
    match &aux.storage_device_entry {
        Some(e) => {
            kani::assert(e.op == want_op && e.addr == a1 && e.data.len() == take as usize, "the read is recorded");
            let i: usize = kani::any();
            if i < take as usize {
                kani::assert(e.data[i] == bytes[at + i], "the bytes read are recorded");
                kani::assert(aux.mem_addresses_used[i] == a1.wrapping_add(i as u32), "the addresses are recorded");
            }
        }
        None => kani::assert(false, "the read is recorded"),
    }
    kani::cover!(take > 0, "something is read");
    kani::cover!(true, "end of the contract reached");
    std::mem::forget((aux, t));
}
/// Bounded: tapes of at most N bytes (any position, any request); for the
/// 32-byte commitment tapes, requests of at most N bytes.
macro_rules! contracts_tape { ($($n:ident = $w:ident, $id:ident, $op:ident, $len:expr;)*) => {$(
    #[kani::proof] #[kani::unwind(6)] fn $n() {
        ecall_read::<{ $len }>(T::$w, mozak_sdk::core::ecall::$id, StorageDeviceOpcode::$op);
    }
)*}}
contracts_tape! {
    private = Private, PRIVATE_TAPE, StorePrivate, N;
    public = Public, PUBLIC_TAPE, StorePublic, N;
    call = Call, CALL_TAPE, StoreCallTape, N;
    event = Event, EVENT_TAPE, StoreEventTape, N;
    events_commitment = Events, EVENTS_COMMITMENT_TAPE, StoreEventsCommitmentTape, 32;
    cast_list_commitment = Casts, CAST_LIST_COMMITMENT_TAPE, StoreCastListCommitmentTape, 32;
    self_prog_id = Id, SELF_PROG_ID_TAPE, StoreSelfProgIdTape, 32;
}
