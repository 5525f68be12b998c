//! Cross-program calls and identities during native execution.
use std::cell::RefCell;
use std::rc::Rc;

use super::common::*;
use crate::common::traits::{Call, EventEmit, SelfIdentify};
use crate::common::types::{CallTapeType, CrossProgramCall, Event, EventTapeType, ProgramIdentifier, RawMessage};
use crate::native::identity::IdentityStack;

fn id(k: u8) -> ProgramIdentifier {
    let mut p = ProgramIdentifier::default();
    p.0.0[0] = k;
    p
}
fn got<A: rkyv::Archive>(m: &RawMessage) -> &A::Archived { unsafe { rkyv::access_unchecked::<A>(&m.0[..]) } }

/// A stack of identities: the last added is on top, removing uncovers the one
/// below, the empty stack has the null program on top.
#[kani::proof]
#[kani::unwind(34)]
fn identity_stack() {
    let (a, b) = (any_program(), any_program());
    let mut s = IdentityStack::default();
    kani::assert(s.top_identity().is_null_program(), "nobody: the null program");
    s.rm_identity();
    s.add_identity(a);
    kani::assert(same32(&s.top_identity().0.0, &a.0.0), "the added identity is on top");
    s.add_identity(b);
    kani::assert(same32(&s.top_identity().0.0, &b.0.0), "the last added identity is on top");
    s.rm_identity();
    kani::assert(same32(&s.top_identity().0.0, &a.0.0), "removing uncovers the one below");
    s.rm_identity();
    kani::assert(s.top_identity().is_null_program(), "and then nobody");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}

/// Who a call is from or to, by a name (a program identifier of its own).
fn name(p: &ProgramIdentifier) -> u8 { p.0.0[0] }

/// One call: the tape lists its caller, callee, argument and return value.
#[kani::proof]
#[kani::unwind(4)]
fn send_once() {
    let (me, p): (u8, u8) = (1, kani::any());
    let a: u8 = kani::any();
    let mut t = CallTapeType::default();
    t.set_self_identity(id(me));
    let r: u8 = t.send(id(p), a, |x: u8| x ^ 1);
    kani::assert(r == a ^ 1, "the call returns what its resolver returned");
    kani::assert(t.writer.len() == 1, "one entry per call");
    let c = &t.writer[0];
    kani::assert(name(&c.caller) == me && name(&c.callee) == p, "caller and callee");
    kani::assert(*got::<u8>(&c.argument) == a && *got::<u8>(&c.return_) == r, "argument and return value");
    kani::assert(name(&t.get_self_identity()) == me, "back in the caller");
    kani::cover!(true, "reached");
    std::mem::forget(t);
}

/// A call recorded by nobody in particular has the null program as caller, and
/// the identity on top is the same before and after.
#[kani::proof]
#[kani::unwind(34)]
fn send_from_nobody() {
    let p: u8 = kani::any();
    let mut t = CallTapeType::default();
    let r: u8 = t.send(id(p), 5u8, |x: u8| x + 1);
    kani::assert(r == 6 && t.writer.len() == 1 && t.writer[0].caller.is_null_program() && name(&t.writer[0].callee) == p, "the null program is the caller");
    kani::assert(t.get_self_identity().is_null_program(), "nobody again");
    kani::cover!(true, "reached");
    std::mem::forget(t);
}
