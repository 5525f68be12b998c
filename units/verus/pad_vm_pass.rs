// Contract of sdk/src/mozakvm/poseidon.rs: a whole number of blocks is never refused
use vstd::prelude::*;
//@include pad_vm.inc
#[verifier::external_body]
pub fn stop_unless(b: bool) requires b { unimplemented!() }

//@fn sdk/src/mozakvm/poseidon.rs poseidon2_hash_no_pad
    requires $1@.len() % 8 == 0,
//@end
}
fn main() {}
