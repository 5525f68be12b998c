//@replace assert!( ==> stop_unless(
//@replace .resize( ==> .grow(
//@regex (\w+)\.as_mut_ptr\(\) ==> &mut \1
//@regex (\w+)\.as_ptr\(\) ==> slice_of(&\1)
//@replace crate::core::ecall::poseidon2( ==> machine_hash(
verus! {
//@include pad.inc
/// The hash call takes whole blocks, and no more than the data.
#[verifier::external_body]
pub fn machine_hash(data: &[u8], len: usize, out: &mut [u8; 32])
    requires len == data@.len(), len % 8 == 0,
    ensures forall|s: Seq<u8>| s =~= data@ ==> final(out)@ == #[trigger] sponge(s),
{ unimplemented!() }

