pub struct RawMessage(pub Vec<u8>);
pub struct CrossProgramCall { pub caller: ProgramIdentifier, pub callee: ProgramIdentifier, pub argument: RawMessage, pub return_: RawMessage }
pub struct ArchivedCrossProgramCall { pub caller: ArchivedProgramIdentifier, pub callee: ArchivedProgramIdentifier, pub argument: RawMessage, pub return_: RawMessage }
impl Deserialize<CrossProgramCall, Strategy<(), Panic>> for ArchivedCrossProgramCall {
    open spec fn value(&self) -> CrossProgramCall { CrossProgramCall { caller: self.caller.v, callee: self.callee.v, argument: self.argument, return_: self.return_ } }
    #[verifier::external_body]
    fn deserialize(&self, s: Strategy<(), Panic>) -> (r: Result<CrossProgramCall, Panic>) { unimplemented!() }
}
pub struct CallTape { pub cast_list: Vec<ProgramIdentifier>, pub self_prog_id: ProgramIdentifier, pub reader: Option<&'static Vec<ArchivedCrossProgramCall>>, pub index: usize }

pub open spec fn first_to(tape: Seq<ArchivedCrossProgramCall>, id: ProgramIdentifier, i: int) -> int decreases tape.len() - i {
    if i >= tape.len() { tape.len() as int } else if tape[i].callee.v == id { i } else { first_to(tape, id, i + 1) }
}
impl CallTape {
    pub open spec fn tape(&self) -> Seq<ArchivedCrossProgramCall> { self.reader->Some_0@ }
    pub open spec fn casted(&self, p: ProgramIdentifier) -> bool { p == null_program() || self.cast_list@.contains(p) }
    /// Everything but the position is as it was.
    pub open spec fn only_moved(&self, o: &CallTape) -> bool { self.cast_list == o.cast_list && self.self_prog_id == o.self_prog_id && self.reader == o.reader }
    pub open spec fn ready(&self) -> bool { self.reader is Some && self.index <= self.tape().len() }
    /// The next entry is this program's call of `to` with an argument equal to `arg`.
    pub open spec fn sendable<A: Archive + PartialEq>(&self, to: ProgramIdentifier, arg: A) -> bool
        where A::Archived: Deserialize<A, Strategy<(), Panic>>
    {
        &&& self.index < self.tape().len()
        &&& self.tape()[self.index as int].caller.v == self.self_prog_id
        &&& self.tape()[self.index as int].callee.v == to
        &&& self.casted(to)
        &&& rkyv::archived::<A>(self.tape()[self.index as int].argument.0@).value().eq_spec(&arg)
    }
    /// The position of the next call to this program, if there is one.
    pub open spec fn next(&self, i: int) -> int { first_to(self.tape(), self.self_prog_id, i) }
    pub open spec fn receivable(&self) -> bool {
        let k = self.next(self.index as int);
        k < self.tape().len() ==> self.tape()[k].caller.v != self.self_prog_id && self.casted(self.tape()[k].caller.v)
    }

//@fn sdk/src/mozakvm/calltape.rs get_self_identity (r)
        ensures r == self.self_prog_id,
//@end
//@fn sdk/src/mozakvm/calltape.rs is_casted_actor (r)
        ensures r == self.casted(*$1),
//@end
}
