// Contracts of sdk/src/native/poseidon.rs: what the host hashes
use vstd::prelude::*;
//@include pad_native.inc
#[verifier::external_body]
pub fn stop_unless(b: bool) ensures b { unimplemented!() }

//@fn sdk/src/native/poseidon.rs poseidon2_hash_with_pad (r)
    requires $1@.len() + 9 <= usize::MAX,
    ensures r.0@ == sponge(padded($1@)),
//@end
//@fn sdk/src/native/poseidon.rs poseidon2_hash_no_pad (r)
    ensures $1@.len() % 8 == 0, forall|s: Seq<u8>| s =~= $1@ ==> r.0@ == #[trigger] sponge(s),
//@end
}
fn main() {}
