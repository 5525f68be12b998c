// Contracts of sdk/src/mozakvm/calltape.rs: whatever send and receive let
// through is what the tape says (they stop the program otherwise)
//@include sdk_vm.inc
#[verifier::external_body]
pub fn stop_unless(b: bool) ensures b { unimplemented!() }
//@include calls.inc
impl CallTape {
//@fn sdk/src/mozakvm/calltape.rs send (r)
        requires old(self).ready(), A::obeys_eq_spec(),
        ensures
            old(self).sendable($1, $2),
            final(self).only_moved(old(self)), final(self).index == old(self).index + 1,
            r == rkyv::archived::<R>(old(self).tape()[old(self).index as int].return_.0@).value(),
//@end
#[verifier::loop_isolation(false)]
//@fn sdk/src/mozakvm/calltape.rs receive (r)
        requires old(self).ready(),
        ensures
            final(self).only_moved(old(self)), old(self).receivable(),
            match r {
                None => old(self).next(old(self).index as int) == old(self).tape().len() && final(self).index == old(self).tape().len(),
                Some(x) => {
                    let k = old(self).next(old(self).index as int);
                    &&& k < old(self).tape().len() && final(self).index == k + 1
                    &&& x.0 == old(self).tape()[k].caller.v
                    &&& x.1 == rkyv::archived::<A>(old(self).tape()[k].argument.0@).value()
                    &&& x.2 == rkyv::archived::<R>(old(self).tape()[k].return_.0@).value()
                },
            },
//@loop 0: invariant self.ready(), self.only_moved(old(self)), self.next(self.index as int) == old(self).next(old(self).index as int), decreases self.tape().len() - self.index,
//@end
}
}
fn main() {}
