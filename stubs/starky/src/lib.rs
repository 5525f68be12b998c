//! Stand-in for starky: the row-constraint interface. A `ConstraintConsumer`
//! here records, per constraint, on which rows it is enforced (documented
//! meaning of the four methods); the alpha-combination, the Lagrange
//! polynomials and FRI are trusted.
#![allow(clippy::all)]
pub mod config { #[derive(Clone, Debug, Default)] pub struct StarkConfig { pub security_bits: usize, pub num_challenges: usize } }
pub mod lookup {
    pub struct Lookup<F> { pub _f: core::marker::PhantomData<F> }
}
pub mod constraint_consumer {
    use plonky2::field::packed::PackedField;
    use plonky2::hash::hash_types::RichField;
    use plonky2::field::extension::Extendable;
    use plonky2::iop::ext_target::ExtensionTarget;
    use plonky2::plonk::circuit_builder::CircuitBuilder;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Rows { First, All, Transition, Last }
    pub struct ConstraintConsumer<P: PackedField> { pub recorded: Vec<(Rows, P)>, pub row: (bool, bool) }
    impl<P: PackedField> ConstraintConsumer<P> {
        pub fn recording() -> Self { Self { recorded: Vec::new(), row: (false, false) } }
        pub fn new_debug_api(is_first_row: bool, is_last_row: bool) -> Self { Self { recorded: Vec::new(), row: (is_first_row, is_last_row) } }
        /// The documented meaning of the four kinds.
        pub fn debug_api_has_constraint_failed(&self) -> bool {
            let (first, last) = self.row;
            self.recorded.iter().any(|(k, c)| *c != P::ZEROS && match k { Rows::All => true, Rows::First => first, Rows::Last => last, Rows::Transition => !last })
        }
        pub fn constraint(&mut self, c: P) { self.recorded.push((Rows::All, c)); }
        pub fn constraint_transition(&mut self, c: P) { self.recorded.push((Rows::Transition, c)); }
        pub fn constraint_first_row(&mut self, c: P) { self.recorded.push((Rows::First, c)); }
        pub fn constraint_last_row(&mut self, c: P) { self.recorded.push((Rows::Last, c)); }
    }
    pub struct RecursiveConstraintConsumer<F: RichField + Extendable<D>, const D: usize> {
        pub recorded: Vec<(Rows, ExtensionTarget<D>)>,
        pub _f: core::marker::PhantomData<F>,
    }
    impl<F: RichField + Extendable<D>, const D: usize> RecursiveConstraintConsumer<F, D> {
        pub fn recording() -> Self { Self { recorded: Vec::new(), _f: core::marker::PhantomData } }
        pub fn constraint(&mut self, _b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.recorded.push((Rows::All, c)); }
        pub fn constraint_transition(&mut self, _b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.recorded.push((Rows::Transition, c)); }
        pub fn constraint_first_row(&mut self, _b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.recorded.push((Rows::First, c)); }
        pub fn constraint_last_row(&mut self, _b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.recorded.push((Rows::Last, c)); }
    }
}
pub mod evaluation_frame {
    pub trait StarkEvaluationFrame<T: Copy + Clone + Default, U: Copy + Clone + Default>: Sized {
        const COLUMNS: usize;
        const PUBLIC_INPUTS: usize;
        fn get_local_values(&self) -> &[T];
        fn get_next_values(&self) -> &[T];
        fn get_public_inputs(&self) -> &[U];
        fn from_values(lv: &[T], nv: &[T], pis: &[U]) -> Self;
    }
    #[derive(Debug)]
    pub struct StarkFrame<T, U, const N: usize, const N2: usize> { l: [T; N], n: [T; N], p: [U; N2] }
    impl<T: Copy + Clone + Default, U: Copy + Clone + Default, const N: usize, const N2: usize> StarkEvaluationFrame<T, U> for StarkFrame<T, U, N, N2> {
        const COLUMNS: usize = N;
        const PUBLIC_INPUTS: usize = N2;
        fn get_local_values(&self) -> &[T] { &self.l }
        fn get_next_values(&self) -> &[T] { &self.n }
        fn get_public_inputs(&self) -> &[U] { &self.p }
        fn from_values(lv: &[T], nv: &[T], pis: &[U]) -> Self {
            assert_eq!((lv.len(), nv.len(), pis.len()), (N, N, N2));
            Self { l: core::array::from_fn(|i| lv[i]), n: core::array::from_fn(|i| nv[i]), p: core::array::from_fn(|i| pis[i]) }
        }
    }
}
pub mod stark {
    use plonky2::field::extension::{Extendable, FieldExtension};
    use plonky2::field::packed::PackedField;
    use plonky2::hash::hash_types::RichField;
    use plonky2::iop::ext_target::ExtensionTarget;
    use plonky2::plonk::circuit_builder::CircuitBuilder;
    use crate::constraint_consumer::*;
    use crate::evaluation_frame::StarkEvaluationFrame;
    pub trait Stark<F: RichField + Extendable<D>, const D: usize>: Sync {
        type EvaluationFrame<FE, P, const D2: usize>: StarkEvaluationFrame<P, FE>
        where
            FE: FieldExtension<D2, BaseField = F>,
            P: PackedField<Scalar = FE>;
        type EvaluationFrameTarget: StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>;
        fn eval_packed_generic<FE, P, const D2: usize>(&self, vars: &Self::EvaluationFrame<FE, P, D2>, c: &mut ConstraintConsumer<P>)
        where
            FE: FieldExtension<D2, BaseField = F>,
            P: PackedField<Scalar = FE>;
        fn eval_ext_circuit(&self, builder: &mut CircuitBuilder<F, D>, vars: &Self::EvaluationFrameTarget, c: &mut RecursiveConstraintConsumer<F, D>);
        fn constraint_degree(&self) -> usize;
        fn lookups(&self) -> Vec<crate::lookup::Lookup<F>> { vec![] }
        fn uses_lookups(&self) -> bool { false }
        fn requires_ctls(&self) -> bool { false }
    }
}
