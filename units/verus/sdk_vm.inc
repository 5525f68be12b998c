// The VM's tapes. Archives (rkyv) are stand-ins: reading one gives the value
// archived, a function of its bytes. `assert!` becomes `stop_unless`, and the
// Strategy arguments of deserialization are left out.
use vstd::prelude::*;
//@replace Strategy::<_, Panic>::wrap(&mut ()) ==> Strategy::wrap()
//@replace Strategy::wrap(&mut ()) ==> Strategy::wrap()
//@replace .0[..] ==> .0.as_slice()
//@replace assert!( ==> stop_unless(
//@replace unsafe { rkyv::access_unchecked ==> { rkyv::access_unchecked
use vstd::std_specs::cmp::PartialEqSpec;
verus! {
#[derive(Debug)]
pub struct Panic {}
pub struct Strategy<T, E> { p: core::marker::PhantomData<(T, E)> }
impl<T, E> Strategy<T, E> { #[verifier::external_body] pub fn wrap() -> Self { unimplemented!() } }
pub trait Deserialize<T, S>: Sized {
    spec fn value(&self) -> T;
    fn deserialize(&self, s: S) -> (r: Result<T, Panic>)
        ensures r == Ok::<T, Panic>(self.value());
}
pub mod rkyv {
    use super::*;
    pub trait Archive: Sized { type Archived; }
    pub uninterp spec fn archived<A: Archive>(bytes: Seq<u8>) -> A::Archived;
    #[verifier::external_body]
    pub fn access_unchecked<A: Archive>(bytes: &[u8]) -> (r: &A::Archived)
        ensures *r == archived::<A>(bytes@),
    { unimplemented!() }
}
pub use rkyv::Archive;
pub trait CallArgument: rkyv::Archive {}
pub trait CallReturn: rkyv::Archive {}

#[derive(Clone, Copy)]
pub struct ProgramIdentifier(pub [u8; 32]);
impl PartialEq for ProgramIdentifier {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ProgramIdentifier {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub uninterp spec fn null_program() -> ProgramIdentifier;
impl ProgramIdentifier {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == null_program() { unimplemented!() }
}
pub struct ArchivedProgramIdentifier { pub v: ProgramIdentifier }
impl Deserialize<ProgramIdentifier, Strategy<(), Panic>> for ArchivedProgramIdentifier {
    open spec fn value(&self) -> ProgramIdentifier { self.v }
    #[verifier::external_body]
    fn deserialize(&self, s: Strategy<(), Panic>) -> (r: Result<ProgramIdentifier, Panic>) { unimplemented!() }
}
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
