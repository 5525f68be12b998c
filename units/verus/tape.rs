// Contracts of sdk/src/mozakvm/inputtape.rs: an input tape reads like a file, although
// the machine hands out every byte only once and in order. The environment call
// becomes a call of `machine_read`, with the registers named in order.
use vstd::prelude::*;
use core::cmp::min;
//@regex core::arch::asm!\(\s*"ecall", ==> machine_read(
//@replace in ("a0") ==> &mut self.machine, A0,
//@replace in ("a1") ==> A1,
//@replace in ("a2") ==> A2,
//@regex ([\w.]+)\.as_mut_ptr\(\)\.add\(([\w.]+)\) ==> &mut \1, \2
//@regex (\w+)\[\.\.(\w+)\]\.(?:clone|copy)_from_slice\(&([\w.]+)\[([\w.]+)\.\.(\w+)\]\) ==> copy_part(\1, \2, &\3, \4, \5)
//@replace i128::from( ==> wide(
//@replace std::io:: ==> sio::
//@regex \b(\w+|[\w.]+\(\))\.min\(([^()]+)\) ==> least(\1, \2)
//@regex \|(\w)\| least\(\1, ([\w.]+)\) ==> |\1: usize| -> (m: usize) ensures m == smaller(\1, \2) { least(\1, \2) }
verus! {
pub mod sio {
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    pub enum ErrorKind { InvalidInput, Other }
    pub struct Error { pub kind: ErrorKind }
    impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: ErrorKind) -> Error { Error { kind: k } }
    }
    impl From<ErrorKind> for Error { fn from(k: ErrorKind) -> Error { Error { kind: k } } }
    pub type Result<T> = core::result::Result<T, Error>;
}
pub assume_specification<T, E, U, F: FnOnce(T) -> U> [core::result::Result::<T, E>::map_or] (s: core::result::Result<T, E>, d: U, f: F) -> (r: U)
    requires s is Ok ==> f.requires((s->Ok_0,)),
    ensures match s { Ok(x) => f.ensures((x,), r), Err(_) => r == d };
pub trait Wide: Sized { spec fn wide(self) -> i128; fn to_wide(self) -> (r: i128) ensures r == self.wide(); }
impl Wide for u64 { open spec fn wide(self) -> i128 { self as i128 } fn to_wide(self) -> i128 { self as i128 } }
impl Wide for i64 { open spec fn wide(self) -> i128 { self as i128 } fn to_wide(self) -> i128 { self as i128 } }
pub fn wide<T: Wide>(x: T) -> (r: i128) ensures r == x.wide() { x.to_wide() }
pub open spec fn smaller(a: usize, b: usize) -> usize { if a < b { a } else { b } }
pub fn least(a: usize, b: usize) -> (r: usize) ensures r == smaller(a, b) { if a < b { a } else { b } }
#[verifier::external_body]
pub fn copy_part(to: &mut [u8], n: usize, from: &Vec<u8>, a: usize, b: usize)
    requires n <= old(to)@.len(), a <= b <= from@.len(), b - a == n,
    ensures final(to)@ == from@.subrange(a as int, b as int) + old(to)@.subrange(n as int, old(to)@.len() as int),
{ unimplemented!() }

/// The machine hands out the bytes of its tapes in order, each once (R08).
pub struct Machine { pub given: usize }
pub uninterp spec fn tape(id: u32) -> Seq<u8>;
pub struct A0; pub struct A1; pub struct A2;
#[verifier::external_body]
pub fn machine_read(m: &mut Machine, a0: A0, id: u32, a1: A1, buf: &mut Vec<u8>, at: usize, a2: A2, n: usize)
    requires old(m).given + n <= tape(id).len(), at + n <= old(buf)@.len(),
    ensures
        final(m).given == old(m).given + n,
        final(buf)@ == old(buf)@.subrange(0, at as int) + tape(id).subrange(old(m).given as int, old(m).given + n)
            + old(buf)@.subrange(at + n, old(buf)@.len() as int),
{ unimplemented!() }

pub struct RandomAccessEcallTape { pub ecall_id: u32, pub read_offset: usize, pub size_hint: usize, pub internal_buf: Vec<u8>, pub machine: Machine }
impl RandomAccessEcallTape {
    pub open spec fn file(&self) -> Seq<u8> { tape(self.ecall_id) }
    /// What holds between any reads and seeks.
    pub open spec fn ready(&self) -> bool {
        &&& self.size_hint == self.file().len() && self.read_offset <= self.size_hint
        &&& self.machine.given == self.internal_buf@.len() && self.internal_buf@.len() <= self.size_hint
        &&& self.internal_buf@ =~= self.file().subrange(0, self.internal_buf@.len() as int)
    }
//@fn sdk/src/mozakvm/inputtape.rs .read (r)
        requires old(self).ready(),
        ensures
            final(self).ready(), final(self).ecall_id == old(self).ecall_id,
            r is Ok,
            r->Ok_0 == smaller(old($1)@.len() as usize, (old(self).size_hint - old(self).read_offset) as usize),
            final(self).read_offset == old(self).read_offset + r->Ok_0,
            final($1)@ =~= old(self).file().subrange(old(self).read_offset as int, final(self).read_offset as int)
                + old($1)@.subrange(r->Ok_0 as int, old($1)@.len() as int),
//@end
//@fn sdk/src/mozakvm/inputtape.rs seek (r)
        requires old(self).ready(),
        ensures
            final(self).ready(), final(self).ecall_id == old(self).ecall_id,
            ({
                let to = match $1 {
                    sio::SeekFrom::Start(x) => x as int,
                    sio::SeekFrom::End(x) => old(self).size_hint + x,
                    sio::SeekFrom::Current(x) => old(self).read_offset + x,
                };
                if to < 0 { r is Err && *final(self) == *old(self) }
                else { r is Ok && r->Ok_0 == final(self).read_offset && final(self).read_offset == if to < old(self).size_hint { to } else { old(self).size_hint as int } }
            }),
//@end
//@fn sdk/src/mozakvm/inputtape.rs len (r)
        ensures r == self.size_hint,
//@end
}
}
fn main() {}
