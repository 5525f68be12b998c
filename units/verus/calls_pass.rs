// Contracts of sdk/src/mozakvm/calltape.rs: send and receive never stop the program
// when the tape has what they are asked for
//@include sdk_vm.inc
#[verifier::external_body]
pub fn stop_unless(b: bool) requires b { unimplemented!() }
//@include calls.inc
impl CallTape {
//@fn sdk/src/mozakvm/calltape.rs send (r)
        requires old(self).ready(), A::obeys_eq_spec(), old(self).sendable($1, $2),
//@end
#[verifier::loop_isolation(false)]
//@fn sdk/src/mozakvm/calltape.rs receive (r)
        requires old(self).ready(), old(self).receivable(),
//@loop 0: invariant self.ready(), self.only_moved(old(self)), self.next(self.index as int) == old(self).next(old(self).index as int), decreases self.tape().len() - self.index,
//@end
}
}
fn main() {}
