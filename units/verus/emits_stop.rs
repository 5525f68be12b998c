// Contract of sdk/src/mozakvm/eventtape.rs: an event emit lets through is the one the
// tape's next hint points to, and no event is let through twice
//@include sdk_vm.inc
#[verifier::external_body]
pub fn stop_unless(b: bool) ensures b { unimplemented!() }
//@include emits.inc
impl EventTape {
//@fn sdk/src/mozakvm/eventtape.rs emit
        requires old(self).ready(),
        ensures
            old(self).emittable($1),
            final(self).ready(), final(self).reader == old(self).reader, final(self).self_prog_id == old(self).self_prog_id,
            final(self).index == old(self).index + 1,
            final(self).seen@ == old(self).seen@.update(old(self).tape()[old(self).index as int].1.v as int, true),
//@end
}
}
fn main() {}
