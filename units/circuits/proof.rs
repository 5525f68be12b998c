//! Stand-in for circuits/src/stark/proof.rs: the openings the cross-table
//! lookup code reads.
use core::marker::PhantomData;

use plonky2::field::extension::Extendable;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;

pub struct StarkOpeningSet<F: RichField + Extendable<D>, const D: usize> {
    pub ctl_zs: Vec<F::Extension>,
    pub ctl_zs_next: Vec<F::Extension>,
}
pub struct StarkProof<F: RichField + Extendable<D>, C, const D: usize> {
    pub openings: StarkOpeningSet<F, D>,
    pub _c: PhantomData<C>,
}
pub struct StarkOpeningSetTarget<const D: usize> {
    pub ctl_zs: Vec<ExtensionTarget<D>>,
    pub ctl_zs_next: Vec<ExtensionTarget<D>>,
}
pub struct StarkProofTarget<const D: usize> {
    pub openings: StarkOpeningSetTarget<D>,
}
