// Contract of runner/src/ecall.rs: ecall_read, for tapes and requests of any size
use vstd::prelude::*;
//@regex &this\.(\w+)\.data\b ==> this.\1.data.as_slice()
//@regex \.expect\("[^"]*"\) ==> .unwrap()
//@replace ..Default::default() ==> ..Aux::blank()
//@regex \(0\.\.(\w+)\)\s*\.map\(\|(\w+)\| (\w+)\.wrapping_add\(\2\)\)\s*\.collect\(\) ==> collect_to(\1, Ghost(|j: int| wadd(\3, j as u32)), |\2: u32| -> (r: u32) ensures r == wadd(\3, \2) { \3.wrapping_add(\2) })
//@regex (\w+)\s*\.iter\(\)\s*\.enumerate\(\)\s*\.fold\((\w+), \|(\w+), \((\w+), (\w+)\)\| \{ ==> fold(&\1, \2, Ghost(|a: State<F>, n: int| a == stored(\2, buffer_start, \1@, n) && a.pc == \2.pc && a.memory.is_read_only@ == Set::<u32>::empty()), |\3: State<F>, \4: usize, \5: &u8| -> (r: State<F>) requires \4 <= u32::MAX, \3.memory.is_read_only@ == Set::<u32>::empty(), ensures r == store(\3, wadd(buffer_start, \4 as u32), *\5) {
verus! {
pub trait RichField: Sized {}
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]);
//@include machine.inc
/// The next n bytes of a tape, or as many as there are.
pub open spec fn next(t: Seq<u8>, at: int, n: int) -> Seq<u8> { t.subrange(at, if at + n <= t.len() { at + n } else { t.len() as int }) }
/// What an operation reads.
pub open spec fn source<F>(s: State<F>, op: StorageDeviceOpcode, n: int) -> Seq<u8> {
    match op {
        StorageDeviceOpcode::None => seq![],
        StorageDeviceOpcode::StorePrivate => next(s.private_tape.data@, s.private_tape.read_index as int, n),
        StorageDeviceOpcode::StorePublic => next(s.public_tape.data@, s.public_tape.read_index as int, n),
        StorageDeviceOpcode::StoreCallTape => next(s.call_tape.data@, s.call_tape.read_index as int, n),
        StorageDeviceOpcode::StoreEventTape => next(s.event_tape.data@, s.event_tape.read_index as int, n),
        StorageDeviceOpcode::StoreEventsCommitmentTape => next(s.events_commitment_tape.0@, 0, n),
        StorageDeviceOpcode::StoreCastListCommitmentTape => next(s.cast_list_commitment_tape.0@, 0, n),
        StorageDeviceOpcode::StoreSelfProgIdTape => next(s.self_prog_id_tape@, 0, n),
    }
}
/// The state with the position of the tape an operation reads moved.
pub open spec fn moved<F>(s: State<F>, op: StorageDeviceOpcode, n: int) -> State<F> {
    match op {
        StorageDeviceOpcode::StorePrivate => State { private_tape: StorageDeviceTape { read_index: (s.private_tape.read_index + n) as usize, ..s.private_tape }, ..s },
        StorageDeviceOpcode::StorePublic => State { public_tape: StorageDeviceTape { read_index: (s.public_tape.read_index + n) as usize, ..s.public_tape }, ..s },
        StorageDeviceOpcode::StoreCallTape => State { call_tape: StorageDeviceTape { read_index: (s.call_tape.read_index + n) as usize, ..s.call_tape }, ..s },
        StorageDeviceOpcode::StoreEventTape => State { event_tape: StorageDeviceTape { read_index: (s.event_tape.read_index + n) as usize, ..s.event_tape }, ..s },
        _ => s,
    }
}
pub open spec fn tape_ok(t: StorageDeviceTape) -> bool { t.read_index <= t.data@.len() }

//@fn runner/src/state.rs read_bytes (read)
    requires *old($2) <= $1@.len(),
    ensures
        *final($2) == if *old($2) + $3 <= $1@.len() { *old($2) + $3 } else { $1@.len() as int },
        read@ =~= $1@.subrange(*old($2) as int, *final($2) as int),
//@end
impl<F: RichField> State<F> {
//@fn runner/src/ecall.rs ecall_read (r)
        requires
            !($1 is None), tape_ok(self.private_tape), tape_ok(self.public_tape), tape_ok(self.call_tape), tape_ok(self.event_tape),
            self.memory.is_read_only@ == Set::<u32>::empty(),
        ensures
            ({
                let (a, n) = (self.registers@[11], self.registers@[12]);
                let bytes = source(self, $1, n as int);
                let t = stored(moved(self, $1, bytes.len() as int), a, bytes, bytes.len() as int);
                &&& r.1 == (State { pc: wadd(self.pc, 4), ..t })
                &&& r.0.dst_val == bytes.len()
                &&& r.0.others == blank::<F>() && r.0.poseidon2 is None
                &&& r.0.mem_addresses_used@ =~= Seq::new(bytes.len(), |i: int| wadd(a, i as u32))
                &&& r.0.storage_device_entry is Some
                &&& r.0.storage_device_entry->Some_0.addr == a && r.0.storage_device_entry->Some_0.op == $1 && r.0.storage_device_entry->Some_0.data@ == bytes
            }),
//@end
}
}
fn main() {}
