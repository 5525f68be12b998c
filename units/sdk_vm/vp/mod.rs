//! Contracts of mozak-sdk as compiled for the VM.
#![allow(unused, static_mut_refs, clippy::all)]
#[cfg(kani)]
mod common;
#[cfg(kani)]
mod abi;
#[cfg(kani)]
mod calls;
#[cfg(kani)]
mod emits;
#[cfg(kani)]
mod hashes;
#[cfg(kani)]
mod shutdown;
#[cfg(kani)]
mod tape;
pub(crate) use crate::mozakvm::poseidon as hasher;

/// The last environment call: registers by number, and how many there were.
pub static mut REGS: [usize; 4] = [0; 4];
pub static mut USED: usize = 0;
pub static mut CALLS: usize = 0;
/// What the machine does with it.
pub static mut MACHINE: fn() = nothing;
pub fn nothing() {}

/// The environment call instruction: registers a0.. as named.
pub fn ecall(ops: &[(u8, usize)]) {
    unsafe {
        let mut i = 0;
        while i < ops.len() {
            REGS[ops[i].0 as usize] = ops[i].1;
            i += 1;
        }
        USED = ops.len();
        CALLS += 1;
        MACHINE();
    }
}
/// Where the linker puts the end of the program.
#[no_mangle]
pub static _end: u8 = 0;
