pub open spec fn wadd(a: u32, b: u32) -> u32 { ((a + b) % 0x1_0000_0000) as u32 }
/// A call of `f` for each number below n, in order.
pub fn collect_to<T, G: Fn(u32) -> T>(n: u32, Ghost(v): Ghost<spec_fn(int) -> T>, f: G) -> (r: Vec<T>)
    requires forall|i: u32| f.requires((i,)), forall|i: u32, x: T| f.ensures((i,), x) ==> x == v(i as int),
    ensures r@ == Seq::new(n as nat, v),
{
    let mut all: Vec<T> = Vec::new();
    let mut i: u32 = 0;
    while i < n
        invariant i <= n, all@ =~= Seq::new(i as nat, v), forall|i: u32| f.requires((i,)), forall|i: u32, x: T| f.ensures((i,), x) ==> x == v(i as int),
        decreases n - i,
    {
        all.push(f(i));
        i = i + 1;
    }
    all
}
/// A call of `f` for each byte, in order, each with the result of the one before.
pub fn fold<A, G: Fn(A, usize, &u8) -> A>(data: &Vec<u8>, init: A, Ghost(at): Ghost<spec_fn(A, int) -> bool>, f: G) -> (r: A)
    requires
        at(init, 0),
        forall|a: A, i: usize| i < data@.len() && at(a, i as int) ==> #[trigger] f.requires((a, i, &data@[i as int])),
        forall|a: A, i: usize, b: A| i < data@.len() && at(a, i as int) && #[trigger] f.ensures((a, i, &data@[i as int]), b) ==> at(b, i + 1),
    ensures at(r, data@.len() as int),
{
    let mut a = init;
    let mut i: usize = 0;
    while i < data.len()
        invariant
            i <= data@.len(), at(a, i as int),
            forall|a: A, i: usize| i < data@.len() && at(a, i as int) ==> #[trigger] f.requires((a, i, &data@[i as int])),
            forall|a: A, i: usize, b: A| i < data@.len() && at(a, i as int) && #[trigger] f.ensures((a, i, &data@[i as int]), b) ==> at(b, i + 1),
        decreases data@.len() - i,
    {
        a = f(a, i, &data[i]);
        i = i + 1;
    }
    a
}
//@const sdk/src/core/reg_abi.rs REG_A1
//@const sdk/src/core/reg_abi.rs REG_A2
//@const sdk/src/core/reg_abi.rs REG_A3
pub enum StorageDeviceOpcode { None, StorePrivate, StorePublic, StoreCallTape, StoreEventTape, StoreEventsCommitmentTape, StoreCastListCommitmentTape, StoreSelfProgIdTape }
pub struct StorageDeviceEntry { pub addr: u32, pub op: StorageDeviceOpcode, pub data: Vec<u8> }
#[verifier::external_body] #[verifier::reject_recursive_types(F)] pub struct Others<F> { p: core::marker::PhantomData<F> }
#[verifier::reject_recursive_types(F)]
pub struct Entry<F> { pub addr: u32, pub output_addr: u32, pub len: u32, pub sponge_data: Vec<SpongeData<F>> }
pub struct SpongeData<F> { pub preimage: [F; 12], pub output: [F; 12], pub gen_output: F }
#[verifier::reject_recursive_types(F)]
pub struct Aux<F> { pub dst_val: u32, pub mem_addresses_used: Vec<u32>, pub poseidon2: Option<Entry<F>>, pub storage_device_entry: Option<StorageDeviceEntry>, pub others: Others<F> }
pub uninterp spec fn blank<F>() -> Others<F>;
impl<F> Aux<F> {
    #[verifier::external_body]
    pub fn blank() -> (r: Self) ensures r.others == blank::<F>(), r.poseidon2 is None, r.storage_device_entry is None, r.mem_addresses_used@.len() == 0, r.dst_val == 0 { unimplemented!() }
}
pub struct StateMemory { pub data: Ghost<Map<u32, u8>>, pub is_read_only: Ghost<Set<u32>> }
pub struct StorageDeviceTape { pub data: Vec<u8>, pub read_index: usize }
pub struct CommitmentTape(pub [u8; 32]);
#[verifier::reject_recursive_types(F)]
pub struct State<F> {
    pub registers: [u32; 32], pub pc: u32, pub memory: StateMemory,
    pub private_tape: StorageDeviceTape, pub public_tape: StorageDeviceTape, pub call_tape: StorageDeviceTape, pub event_tape: StorageDeviceTape,
    pub events_commitment_tape: CommitmentTape, pub cast_list_commitment_tape: CommitmentTape, pub self_prog_id_tape: [u8; 32],
    pub others: Others<F>,
}
#[derive(Debug)]
pub struct Error {}
pub open spec fn store<F>(s: State<F>, a: u32, b: u8) -> State<F> {
    State { memory: StateMemory { data: Ghost(s.memory.data@.insert(a, b)), ..s.memory }, ..s }
}
/// The bytes at consecutive addresses from `a`, the first one first.
pub open spec fn stored<F>(s: State<F>, a: u32, b: Seq<u8>, n: int) -> State<F> decreases n {
    if n <= 0 { s } else { store(stored(s, a, b, n - 1), wadd(a, (n - 1) as u32), b[n - 1]) }
}
impl<F: RichField> State<F> {
//@fn runner/src/state.rs get_register_value (r)
        requires $1 < 32,
        ensures r == self.registers@[$1 as int],
//@end
//@fn runner/src/state.rs get_pc (r)
        ensures r == self.pc,
//@end
//@fn runner/src/state.rs set_pc (r)
        ensures r == (State { pc: $1, ..self }),
//@end
//@fn runner/src/state.rs bump_pc_n (r)
        ensures r == (State { pc: wadd(self.pc, $1), ..self }),
//@end
//@fn runner/src/state.rs bump_pc (r)
        ensures r == (State { pc: wadd(self.pc, 4), ..self }),
//@end
    // checked by Kani (R06)
    #[verifier::external_body]
    pub fn store_u8(self, addr: u32, value: u8) -> (r: core::result::Result<Self, Error>)
        ensures if self.memory.is_read_only@.contains(addr) { r is Err } else { r == Ok::<Self, Error>(store(self, addr, value)) },
    { unimplemented!() }
}
