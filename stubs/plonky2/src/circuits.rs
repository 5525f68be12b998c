//! The circuit-builder side of the stand-in: a target is the polynomial it
//! carries (`Sym`), every gate is its documented arithmetic meaning.
pub mod target {
    use crate::symbolic::Sym;
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Target(pub Sym);
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub struct BoolTarget { pub target: Target }
}
pub mod ext_target {
    use super::target::Target;
    use crate::symbolic::Sym;
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub struct ExtensionTarget<const D: usize>(pub Sym);
    impl<const D: usize> Default for ExtensionTarget<D> { fn default() -> Self { Self(Sym::C(0)) } }
    impl<const D: usize> From<Target> for ExtensionTarget<D> { fn from(t: Target) -> Self { Self(t.0) } }
}
pub mod circuit_builder {
    use core::marker::PhantomData;
    use super::ext_target::ExtensionTarget;
    use super::target::Target;
    use crate::field::extension::{Extendable, FieldExtension};
    use crate::field::types::{Field, PrimeField64};
    use crate::hash::hash_types::RichField;
    use crate::symbolic::Sym;
    pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> {
        pub connected: Vec<(Sym, Sym)>,
        pub fresh: usize,
        _f: PhantomData<F>,
    }
    impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
        pub fn recording() -> Self { Self { connected: vec![], fresh: 0, _f: PhantomData } }
        fn k(c: F) -> Sym { Sym::C(c.to_canonical_u64()) }
        pub fn zero(&mut self) -> Target { Target(Sym::C(0)) }
        pub fn one(&mut self) -> Target { Target(Sym::C(1)) }
        pub fn two(&mut self) -> Target { Target(Sym::C(2)) }
        pub fn neg_one(&mut self) -> Target { Target(Sym::NEG_ONE) }
        pub fn constant(&mut self, c: F) -> Target { Target(Self::k(c)) }
        pub fn add_virtual_target(&mut self) -> Target { self.fresh += 1; Target(Sym::var(format!("virtual{}", self.fresh))) }
        pub fn add_virtual_targets(&mut self, n: usize) -> Vec<Target> { (0..n).map(|_| self.add_virtual_target()).collect() }
        pub fn add(&mut self, a: Target, b: Target) -> Target { Target(a.0 + b.0) }
        pub fn sub(&mut self, a: Target, b: Target) -> Target { Target(a.0 - b.0) }
        pub fn mul(&mut self, a: Target, b: Target) -> Target { Target(a.0 * b.0) }
        pub fn neg(&mut self, a: Target) -> Target { Target(-a.0) }
        pub fn mul_const(&mut self, c: F, a: Target) -> Target { Target(Self::k(c) * a.0) }
        pub fn add_const(&mut self, a: Target, c: F) -> Target { Target(a.0 + Self::k(c)) }
        pub fn mul_const_add(&mut self, c: F, a: Target, b: Target) -> Target { Target(Self::k(c) * a.0 + b.0) }
        pub fn mul_add(&mut self, a: Target, b: Target, c: Target) -> Target { Target(a.0 * b.0 + c.0) }
        pub fn mul_sub(&mut self, a: Target, b: Target, c: Target) -> Target { Target(a.0 * b.0 - c.0) }
        pub fn inverse(&mut self, a: Target) -> Target { Target(a.0.inverse()) }
        pub fn div(&mut self, a: Target, b: Target) -> Target { Target(a.0 / b.0) }
        pub fn add_many<T>(&mut self, ts: impl IntoIterator<Item = T>) -> Target where T: core::borrow::Borrow<Target> {
            Target(ts.into_iter().fold(Sym::ZERO, |s, t| s + t.borrow().0))
        }
        pub fn mul_many<T>(&mut self, ts: impl IntoIterator<Item = T>) -> Target where T: core::borrow::Borrow<Target> {
            Target(ts.into_iter().fold(Sym::ONE, |s, t| s * t.borrow().0))
        }
        pub fn connect(&mut self, a: Target, b: Target) { self.connected.push((a.0, b.0)); }
        pub fn assert_zero(&mut self, a: Target) { self.connected.push((a.0, Sym::ZERO)); }
        pub fn assert_one(&mut self, a: Target) { self.connected.push((a.0, Sym::ONE)); }
        pub fn connect_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) { self.connected.push((a.0, b.0)); }
        pub fn convert_to_ext(&mut self, t: Target) -> ExtensionTarget<D> { t.into() }
        pub fn zero_extension(&mut self) -> ExtensionTarget<D> { ExtensionTarget(Sym::ZERO) }
        pub fn one_extension(&mut self) -> ExtensionTarget<D> { ExtensionTarget(Sym::ONE) }
        pub fn two_extension(&mut self) -> ExtensionTarget<D> { ExtensionTarget(Sym::TWO) }
        pub fn neg_one_extension(&mut self) -> ExtensionTarget<D> { ExtensionTarget(Sym::NEG_ONE) }
        pub fn constant_extension(&mut self, c: F::Extension) -> ExtensionTarget<D> {
            let a = FieldExtension::<D>::to_basefield_array(&c);
            assert!(a[1..].iter().all(|x: &F| *x == F::ZERO), "constants of the base field only");
            ExtensionTarget(Self::k(a[0]))
        }
        pub fn add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 + b.0) }
        pub fn sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 - b.0) }
        pub fn mul_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 * b.0) }
        pub fn square_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 * a.0) }
        pub fn cube_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 * a.0 * a.0) }
        pub fn mul_add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 * b.0 + c.0) }
        pub fn mul_sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 * b.0 - c.0) }
        pub fn mul_const_extension(&mut self, c: F, a: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(Self::k(c) * a.0) }
        pub fn add_const_extension(&mut self, a: ExtensionTarget<D>, c: F) -> ExtensionTarget<D> { ExtensionTarget(a.0 + Self::k(c)) }
        pub fn scalar_mul_ext(&mut self, a: Target, b: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 * b.0) }
        pub fn scalar_mul_add_extension(&mut self, a: Target, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(a.0 * b.0 + c.0) }
        pub fn add_many_extension<T>(&mut self, ts: impl IntoIterator<Item = T>) -> ExtensionTarget<D> where T: core::borrow::Borrow<ExtensionTarget<D>> {
            ExtensionTarget(ts.into_iter().fold(Sym::ZERO, |s, t| s + t.borrow().0))
        }
        pub fn inner_product_extension(&mut self, c: F, starting_acc: ExtensionTarget<D>, pairs: Vec<(ExtensionTarget<D>, ExtensionTarget<D>)>) -> ExtensionTarget<D> {
            ExtensionTarget(pairs.into_iter().fold(starting_acc.0, |acc, (a, b)| acc + Self::k(c) * a.0 * b.0))
        }
    }
}
pub mod challenger {
    //! Fiat-Shamir: only the interface; challenges are trusted to be random.
    use core::marker::PhantomData;
    use super::circuit_builder::CircuitBuilder;
    use super::target::Target;
    use crate::field::extension::Extendable;
    use crate::hash::hash_types::RichField;
    pub struct Challenger<F, H> { _p: PhantomData<(F, H)> }
    impl<F: RichField, H> Challenger<F, H> { pub fn get_challenge(&mut self) -> F { unimplemented!("stand-in") } }
    pub struct RecursiveChallenger<F, H, const D: usize> { _p: PhantomData<(F, H)> }
    impl<F: RichField + Extendable<D>, H, const D: usize> RecursiveChallenger<F, H, D> {
        pub fn get_challenge(&mut self, _b: &mut CircuitBuilder<F, D>) -> Target { unimplemented!("stand-in") }
    }
}
pub mod plonk_common {
    use super::circuit_builder::CircuitBuilder;
    use super::ext_target::ExtensionTarget;
    use super::target::Target;
    use crate::field::extension::{Extendable, FieldExtension};
    use crate::field::packed::PackedField;
    use crate::hash::hash_types::RichField;
    pub fn reduce_with_powers<'a, P: PackedField, T: IntoIterator<Item = &'a P>>(terms: T, alpha: P::Scalar) -> P
    where T::IntoIter: DoubleEndedIterator {
        let mut sum = P::ZEROS;
        for &t in terms.into_iter().rev() { sum = sum * alpha + t; }
        sum
    }
    pub fn reduce_with_powers_circuit<F: RichField + Extendable<D>, const D: usize>(_b: &mut CircuitBuilder<F, D>, terms: &[Target], alpha: Target) -> Target {
        Target(terms.iter().rev().fold(crate::symbolic::Sym::C(0), |s, t| s * alpha.0 + t.0))
    }
    pub fn reduce_with_powers_ext_circuit<F: RichField + Extendable<D>, const D: usize>(_b: &mut CircuitBuilder<F, D>, terms: &[ExtensionTarget<D>], alpha: Target) -> ExtensionTarget<D> {
        ExtensionTarget(terms.iter().rev().fold(crate::symbolic::Sym::C(0), |s, t| s * alpha.0 + t.0))
    }
    #[allow(unused)] fn _x<const D: usize, T: FieldExtension<D>>() {}
}
pub mod util {
    pub mod timing {
        #[derive(Default, Debug)]
        pub struct TimingTree;
        impl TimingTree { pub fn new(_n: &str, _l: usize) -> Self { Self } pub fn push(&mut self, _: &str, _: usize) {} pub fn pop(&mut self) {} }
    }
    pub fn transpose<F: Copy>(m: &[Vec<F>]) -> Vec<Vec<F>> {
        if m.is_empty() { return vec![]; }
        (0..m[0].len()).map(|j| m.iter().map(|r| r[j]).collect()).collect()
    }
}
