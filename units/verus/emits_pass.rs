// Contract of sdk/src/mozakvm/eventtape.rs: emit never stops the program when the
// event is the one the tape's next hint points to, emitted for the first time
//@include sdk_vm.inc
#[verifier::external_body]
pub fn stop_unless(b: bool) requires b { unimplemented!() }
//@include emits.inc
impl EventTape {
//@fn sdk/src/mozakvm/eventtape.rs emit
        requires old(self).ready(), old(self).emittable($1),
//@end
}
}
fn main() {}
