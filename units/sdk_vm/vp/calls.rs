//! Calls between programs in the VM, checked against the call tape.
use super::common::*;
use super::*;
use crate::common::traits::{Call, SelfIdentify};
use crate::common::types::{CrossProgramCall, ProgramIdentifier, RawMessage};
use crate::mozakvm::calltape::CallTape;

type Archived = <Vec<CrossProgramCall> as rkyv::Archive>::Archived;

fn id(k: u8) -> ProgramIdentifier {
    let mut p = ProgramIdentifier::default();
    p.0.0[0] = k;
    p
}
fn message<T: rkyv::Serialize<rkyv::rancor::Strategy<rkyv::ser::AllocSerializer<256>, rkyv::rancor::Panic>>>(x: &T) -> RawMessage {
    rkyv::to_bytes::<_, 256, rkyv::rancor::Panic>(x).unwrap().into()
}

/// A call tape of K calls in any state; programs go by one byte, 0 is the null program.
struct Any<const K: usize> { tape: CallTape, who: [(u8, u8); K], args: [u32; K], rets: [u16; K], cast: [u8; 2], me: u8, index: usize }
fn any_tape<const K: usize>() -> Any<K> {
    let (who, args, rets): ([(u8, u8); K], [u32; K], [u16; K]) = (core::array::from_fn(|_| (kani::any(), kani::any())), kani::any(), kani::any());
    let mut v = Vec::with_capacity(K);
    for i in 0..K {
        let c = CrossProgramCall { caller: id(who[i].0), callee: id(who[i].1), argument: message(&args[i]), return_: message(&rets[i]) };
        v.push(rkyv::Serialize::<()>::to_archived(&c));
        std::mem::forget(c);
    }
    let reader: &'static Archived = Box::leak(Box::new(rkyv::vec::ArchivedVec(v)));
    let cast: [u8; 2] = kani::any();
    let (me, index): (u8, usize) = (kani::any(), kani::any());
    kani::assume(index <= K);
    let mut cast_list = Vec::with_capacity(2);
    cast_list.push(id(cast[0]));
    cast_list.push(id(cast[1]));
    Any { tape: CallTape { cast_list, self_prog_id: id(me), reader: Some(reader), index }, who, args, rets, cast, me, index }
}
impl<const K: usize> Any<K> {
    fn casted(&self, p: u8) -> bool { p == 0 || p == self.cast[0] || p == self.cast[1] }
    /// The tape's next call is this one.
    fn sendable(&self, to: u8, arg: u32) -> bool {
        self.index < K && self.who[self.index] == (self.me, to) && self.casted(to) && self.args[self.index] == arg
    }
}
fn send_accept<const K: usize>() {
    let mut t = any_tape::<K>();
    let (to, arg): (u8, u32) = (kani::any(), kani::any());
    kani::assume(t.sendable(to, arg));
    let r: u16 = t.tape.send(id(to), arg, |_| { kani::assert(false, "the resolver is not run in the VM"); 0u16 });
    kani::assert(r == t.rets[t.index], "the call's return value is the tape's");
    kani::assert(t.tape.index == t.index + 1, "on to the next call");
    kani::cover!(true, "reached");
    std::mem::forget(t);
}
fn send_refuse<const K: usize>() {
    let mut t = any_tape::<K>();
    let (to, arg): (u8, u32) = (kani::any(), kani::any());
    kani::assume(!t.sendable(to, arg));
    let _: u16 = t.tape.send(id(to), arg, |_| 0u16);
    kani::cover!(true, "accepted");
    std::mem::forget(t);
}
/// The next call to this program, if any.
fn next<const K: usize>(t: &Any<K>) -> Option<usize> {
    let mut r = None;
    for i in (0..K).rev() {
        if i >= t.index && t.who[i].1 == t.me {
            r = Some(i);
        }
    }
    r
}
fn receive<const K: usize>() {
    let mut t = any_tape::<K>();
    let n = next(&t);
    if let Some(i) = n {
        kani::assume(t.who[i].0 != t.me && t.casted(t.who[i].0));
    }
    let r: Option<(ProgramIdentifier, u32, u16)> = t.tape.receive();
    match n {
        Some(i) => {
            let (from, a, b) = r.unwrap();
            kani::assert(from.0.0[0] == t.who[i].0 && a == t.args[i] && b == t.rets[i], "caller, argument and return value of the next call to this program");
            kani::assert(t.tape.index == i + 1, "on to what follows it");
        }
        None => {
            kani::assert(r.is_none(), "no more calls to this program");
            kani::assert(t.tape.index == K, "the whole tape is read");
        }
    }
    kani::cover!(n.is_some() == (K > 0), "a call");
    kani::cover!(n.is_none(), "none");
    std::mem::forget(t);
}
fn receive_refuse<const K: usize>() {
    let mut t = any_tape::<K>();
    let n = next(&t);
    kani::assume(n.is_some());
    let i = n.unwrap();
    kani::assume(t.who[i].0 == t.me || !t.casted(t.who[i].0));
    let _: Option<(ProgramIdentifier, u32, u16)> = t.tape.receive();
    kani::cover!(true, "accepted");
    std::mem::forget(t);
}
macro_rules! contracts_call { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::unwind(10)]
    fn $name() { $e }
)* } }
contracts_call! { send_accept_1 = send_accept::<1>(), send_accept_2 = send_accept::<2>(),
    send_refuse_0 = send_refuse::<0>(), send_refuse_1 = send_refuse::<1>(), send_refuse_2 = send_refuse::<2>() }
macro_rules! contracts_receive { ($($name:ident = $e:expr),* $(,)?) => { $(
    #[kani::proof]
    #[kani::unwind(4)]
    fn $name() { $e }
)* } }
contracts_receive! { receive_0 = receive::<0>(), receive_1 = receive::<1>(), receive_2 = receive::<2>(), receive_refuse_1 = receive_refuse::<1>(), receive_refuse_2 = receive_refuse::<2>() }
