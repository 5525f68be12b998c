// The VM's event tape (sdk/src/mozakvm/eventtape.rs). Archives are stand-ins.
pub struct Event { pub id: u64 }
#[derive(Clone, Copy)]
pub struct CanonicalEvent { pub id: u64 }
impl PartialEq for CanonicalEvent {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for CanonicalEvent {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub uninterp spec fn canonical(e: Event) -> CanonicalEvent;
impl CanonicalEvent {
    #[verifier::external_body]
    pub fn from_event(e: &Event) -> (r: Self) ensures r == canonical(*e) { unimplemented!() }
}
pub struct ArchivedCanonicalEvent { pub v: CanonicalEvent }
impl Deserialize<CanonicalEvent, Strategy<(), Panic>> for ArchivedCanonicalEvent {
    open spec fn value(&self) -> CanonicalEvent { self.v }
    #[verifier::external_body]
    fn deserialize(&self, s: Strategy<(), Panic>) -> (r: Result<CanonicalEvent, Panic>) { unimplemented!() }
}
pub struct ArchivedU32 { pub v: u32 }
impl ArchivedU32 {
    #[verifier::external_body]
    pub fn to_native(&self) -> (r: u32) ensures r == self.v { unimplemented!() }
}
pub struct ArchivedHints(pub ArchivedCanonicalEvent, pub ArchivedU32);
pub struct EventTape { pub self_prog_id: ProgramIdentifier, pub reader: Option<&'static Vec<ArchivedHints>>, pub seen: Vec<bool>, pub index: usize }
impl EventTape {
    pub open spec fn tape(&self) -> Seq<ArchivedHints> { self.reader->Some_0@ }
    /// The tape is in place, and its hints are places in it.
    pub open spec fn ready(&self) -> bool {
        &&& self.reader is Some && self.index <= self.tape().len() && self.seen@.len() == self.tape().len()
        &&& forall|i: int| 0 <= i < self.tape().len() ==> (#[trigger] self.tape()[i]).1.v < self.tape().len()
    }
    /// The next hint points to an event not emitted before, which is `e`.
    pub open spec fn emittable(&self, e: Event) -> bool {
        &&& self.index < self.tape().len()
        &&& !self.seen@[self.tape()[self.index as int].1.v as int]
        &&& self.tape()[self.tape()[self.index as int].1.v as int].0.v == canonical(e)
    }
}
