// Contract of runner/src/poseidon2.rs: ecall_poseidon2, for input of any number of blocks
use vstd::prelude::*;
//@replace ..Default::default() ==> ..Aux::blank()
//@replace assert!( ==> stop_unless(
//@regex u32::try_from\(Poseidon2Permutation::<F>::RATE\)\.expect\("[^"]*"\) ==> 8u32
//@regex \(0\.\.(\w+)\)\s*\.map\(\|(\w+)\| F::from_canonical_u8\(self\.load_u8\((\w+)\.wrapping_add\(\2\)\)\)\)\s*\.collect\(\) ==> collect_to(\1, Ghost(|j: int| F::of(loaded(self, wadd(\3, j as u32)))), |\2: u32| -> (r: F) ensures r == F::of(loaded(self, wadd(\3, \2))) { F::from_canonical_u8(self.load_u8(\3.wrapping_add(\2))) })
//@regex chain!\(\s*\(0\.\.(\w+)\)\.map\(\|(\w+)\| (\w+)\.wrapping_add\(\2\)\),\s*izip!\(0\.\., &(\w+)\)\.map\(\|\((\w+), _\)\| (\w+)\.wrapping_add\(\5\)\)\s*\)\s*\.collect\(\) ==> chain(collect_to(\1, Ghost(|j: int| wadd(\3, j as u32)), |\2: u32| -> (r: u32) ensures r == wadd(\3, \2) { \3.wrapping_add(\2) }), collect_to(\4.len() as u32, Ghost(|j: int| wadd(\6, j as u32)), |\5: u32| -> (r: u32) ensures r == wadd(\6, \5) { \6.wrapping_add(\5) }))
//@regex izip!\(0\.\., (\w+)\)\s*\.fold\(self, \|(\w+), \((\w+), (\w+)\)\| \{ ==> fold32(\1, self, Ghost(|a: State<F>, n: int| a == stored(self, output_ptr, \1@, n) && a.pc == self.pc && a.memory.is_read_only@ == Set::<u32>::empty()), |\2: State<F>, \3: u32, \4: u8| -> (r: State<F>) requires \2.memory.is_read_only@ == Set::<u32>::empty(), ensures r == store(\2, wadd(output_ptr, \3), \4) {
verus! {
pub trait RichField: Copy {
    spec fn of(b: u8) -> Self;
    fn from_canonical_u8(b: u8) -> (r: Self) ensures r == Self::of(b);
}
pub assume_specification [u32::next_multiple_of] (a: u32, b: u32) -> (r: u32)
    requires b > 0, a % b == 0,
    ensures r == a;
pub const DIGEST_BYTES: usize = 32;
pub fn stop_unless(b: bool) requires b {}
//@include machine.inc
pub fn chain(a: Vec<u32>, b: Vec<u32>) -> (r: Vec<u32>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
/// A call of `f` for each byte, in order, each with the result of the one before.
pub fn fold32<A, G: Fn(A, u32, u8) -> A>(data: Vec<u8>, init: A, Ghost(at): Ghost<spec_fn(A, int) -> bool>, f: G) -> (r: A)
    requires
        data@.len() < 0x1_0000_0000, at(init, 0),
        forall|a: A, i: u32| i < data@.len() && at(a, i as int) ==> #[trigger] f.requires((a, i, data@[i as int])),
        forall|a: A, i: u32, b: A| i < data@.len() && at(a, i as int) && #[trigger] f.ensures((a, i, data@[i as int]), b) ==> at(b, i + 1),
    ensures at(r, data@.len() as int),
{
    let mut a = init;
    let mut i: u32 = 0;
    while (i as usize) < data.len()
        invariant
            data@.len() < 0x1_0000_0000, i <= data@.len(), at(a, i as int),
            forall|a: A, i: u32| i < data@.len() && at(a, i as int) ==> #[trigger] f.requires((a, i, data@[i as int])),
            forall|a: A, i: u32, b: A| i < data@.len() && at(a, i as int) && #[trigger] f.ensures((a, i, data@[i as int]), b) ==> at(b, i + 1),
        decreases data@.len() - i,
    {
        a = f(a, i, data[i as usize]);
        i = i + 1;
    }
    a
}
/// What memory has at an address: zero where nothing was stored.
pub open spec fn loaded<F>(s: State<F>, a: u32) -> u8 { if s.memory.data@.contains_key(a) { s.memory.data@[a] } else { 0 } }
pub struct HashOut<F> { pub elements: [F; 4] }
/// The 32 bytes of a digest
pub uninterp spec fn bytes_of<F>(h: HashOut<F>) -> Seq<u8>;
impl<F> HashOut<F> {
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == bytes_of(*self), r@.len() == 32 { unimplemented!() }
}
pub struct Poseidon2Permutation<F> { pub p: core::marker::PhantomData<F> }
pub uninterp spec fn digest<F>(s: Seq<F>) -> HashOut<F>;
pub uninterp spec fn record<F>(s: Seq<F>) -> Seq<SpongeData<F>>;
// proved in sponge.rs, where digest and record are defined block by block
#[verifier::external_body]
pub fn hash_n_to_m_no_pad<F: RichField, P>(inputs: &[F]) -> (r: (HashOut<F>, Vec<SpongeData<F>>))
    requires inputs@.len() > 0, inputs@.len() % 8 == 0,
    ensures r.0 == digest(inputs@), r.1@ == record(inputs@),
{ unimplemented!() }
/// The bytes of memory at consecutive addresses from `a`, as field elements
pub open spec fn input<F: RichField>(s: State<F>, a: u32, n: int) -> Seq<F> { Seq::new(n as nat, |j: int| F::of(loaded(s, wadd(a, j as u32)))) }
impl<F: RichField> State<F> {
    // checked by Kani (R05)
    #[verifier::external_body]
    pub fn load_u8(&self, addr: u32) -> (r: u8) ensures r == loaded(*self, addr) { unimplemented!() }
//@fn runner/src/poseidon2.rs ecall_poseidon2 (r)
        requires
            self.registers@[12] > 0, self.registers@[12] % 8 == 0, self.memory.is_read_only@ == Set::<u32>::empty(),
        ensures
            ({
                let (a, n, to) = (self.registers@[11], self.registers@[12], self.registers@[13]);
                let inputs = input(self, a, n as int);
                let out = bytes_of(digest(inputs));
                &&& r.1 == (State { pc: wadd(self.pc, 4), ..stored(self, to, out, 32) })
                &&& r.0.others == blank::<F>() && r.0.dst_val == 0 && r.0.storage_device_entry is None
                &&& r.0.mem_addresses_used@ =~= Seq::new(n as nat, |i: int| wadd(a, i as u32)) + Seq::new(32, |i: int| wadd(to, i as u32))
                &&& r.0.poseidon2 is Some
                &&& r.0.poseidon2->Some_0.addr == a && r.0.poseidon2->Some_0.output_addr == to && r.0.poseidon2->Some_0.len == n
                &&& r.0.poseidon2->Some_0.sponge_data@ == record(inputs)
            }),
//@end
}
}
fn main() {}
