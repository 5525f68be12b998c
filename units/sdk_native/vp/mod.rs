//! Contracts of mozak-sdk as compiled for the host.
#![allow(unused, static_mut_refs, clippy::all)]
mod common;
mod order;
mod calls;
mod hashes;
pub use crate::native::poseidon as hasher;
