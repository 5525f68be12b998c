//! Stand-in for plonky2 (not available offline): the field / hash traits the
//! verified code names, with the documented meaning of every method.
//! Everything here is *trusted* (assumed contracts on a dependency).
#![allow(clippy::all)]
pub mod field {
    pub mod types {
        use core::fmt::{Debug, Display};
        use core::hash::Hash;
        use core::iter::{Product, Sum};
        use core::ops::*;

        #[cfg(not(feature = "circuits"))]
        pub trait MaybeSerde {}
        #[cfg(not(feature = "circuits"))]
        impl<T> MaybeSerde for T {}
        #[cfg(feature = "circuits")]
        pub trait MaybeSerde: serde::Serialize + serde::de::DeserializeOwned {}
        #[cfg(feature = "circuits")]
        impl<T: serde::Serialize + serde::de::DeserializeOwned> MaybeSerde for T {}
        pub trait Field:
            'static + MaybeSerde + Copy + Eq + Hash + Debug + Display + Default + Send + Sync
            + Neg<Output = Self>
            + Add<Self, Output = Self> + AddAssign + Sub<Self, Output = Self> + SubAssign
            + Mul<Self, Output = Self> + MulAssign + Div<Self, Output = Self> + DivAssign
            + Sum + Product
        {
            const ZERO: Self;
            const ONE: Self;
            const TWO: Self;
            const NEG_ONE: Self;
            fn try_inverse(&self) -> Option<Self>;
            fn from_noncanonical_u64(n: u64) -> Self;
            fn from_canonical_u64(n: u64) -> Self { Self::from_noncanonical_u64(n) }
            fn from_noncanonical_i64(n: i64) -> Self {
                if n >= 0 { Self::from_noncanonical_u64(n as u64) } else { -Self::from_noncanonical_u64(n.unsigned_abs()) }
            }
            fn from_canonical_u32(n: u32) -> Self { Self::from_canonical_u64(u64::from(n)) }
            fn from_canonical_u16(n: u16) -> Self { Self::from_canonical_u64(u64::from(n)) }
            fn from_canonical_u8(n: u8) -> Self { Self::from_canonical_u64(u64::from(n)) }
            fn from_canonical_usize(n: usize) -> Self { Self::from_canonical_u64(n as u64) }
            fn from_bool(b: bool) -> Self { if b { Self::ONE } else { Self::ZERO } }
            fn is_zero(&self) -> bool { *self == Self::ZERO }
            fn is_nonzero(&self) -> bool { *self != Self::ZERO }
            fn is_one(&self) -> bool { *self == Self::ONE }
            fn inverse(&self) -> Self { self.try_inverse().expect("Tried to invert zero") }
            fn square(&self) -> Self { *self * *self }
            fn double(&self) -> Self { *self + *self }
            fn cube(&self) -> Self { *self * *self * *self }
            fn exp_u64(&self, power: u64) -> Self {
                let mut cur = *self;
                let mut product = Self::ONE;
                let mut p = power;
                while p != 0 {
                    if p & 1 == 1 { product *= cur; }
                    cur = cur.square();
                    p >>= 1;
                }
                product
            }
            fn batch_multiplicative_inverse(x: &[Self]) -> Vec<Self> { x.iter().map(|e| e.inverse()).collect() }
            fn multiply_accumulate(&self, x: Self, y: Self) -> Self { *self + x * y }
        }
        pub trait Field64: Field { const ORDER: u64; }
        pub trait PrimeField: Field {}
        pub trait PrimeField64: PrimeField + Field64 {
            fn to_canonical_u64(&self) -> u64;
            fn to_noncanonical_u64(&self) -> u64;
            fn to_canonical(&self) -> Self { Self::from_canonical_u64(self.to_canonical_u64()) }
            fn to_canonical_i64(&self) -> i64 {
                let (v, half) = (self.to_canonical_u64(), <Self as Field64>::ORDER >> 1);
                if v > half { -((<Self as Field64>::ORDER - v) as i64) } else { v as i64 }
            }
        }
        pub trait Sample: Sized {}
    }
    pub mod ops { pub use super::types::Field as Square; }
    pub mod extension {
        use super::types::Field;
        pub trait FieldExtension<const D: usize>: Field {
            type BaseField: Field;
            fn to_basefield_array(&self) -> [Self::BaseField; D];
            fn from_basefield(x: Self::BaseField) -> Self;
            fn from_basefield_array(a: [Self::BaseField; D]) -> Self;
        }
        pub trait OEF<const D: usize>: FieldExtension<D> {}
        pub trait Extendable<const D: usize>: Field + Sized {
            type Extension: Field + FieldExtension<D, BaseField = Self> + From<Self> + super::packed::PackedField<Scalar = Self::Extension>;
        }
        impl<F: Field> FieldExtension<1> for F {
            type BaseField = F;
            fn to_basefield_array(&self) -> [F; 1] { [*self] }
            fn from_basefield(x: F) -> Self { x }
            fn from_basefield_array(a: [F; 1]) -> Self { a[0] }
        }
    }
    pub mod packable {
        pub trait Packable: super::types::Field { type Packing: super::packed::PackedField<Scalar = Self>; }
    }
    pub mod packed {
        use core::fmt::Debug;
        use core::iter::{Product, Sum};
        use core::ops::*;
        use super::types::Field;
        pub trait PackedField:
            'static + Copy + PartialEq + Debug + Default + Send + Sync + From<Self::Scalar>
            + Neg<Output = Self>
            + Add<Self, Output = Self> + AddAssign<Self>
            + Add<Self::Scalar, Output = Self> + AddAssign<Self::Scalar>
            + Sub<Self, Output = Self> + SubAssign<Self>
            + Sub<Self::Scalar, Output = Self> + SubAssign<Self::Scalar>
            + Mul<Self, Output = Self> + MulAssign<Self>
            + Mul<Self::Scalar, Output = Self> + MulAssign<Self::Scalar>
            + Sum + Product
        {
            type Scalar: Field;
            const WIDTH: usize;
            const ZEROS: Self;
            const ONES: Self;
        }
        impl<F: Field> PackedField for F {
            type Scalar = F;
            const WIDTH: usize = 1;
            const ZEROS: F = F::ZERO;
            const ONES: F = F::ONE;
        }
    }
    pub mod polynomial {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct PolynomialValues<F> { pub values: Vec<F> }
        impl<F> PolynomialValues<F> {
            pub fn new(values: Vec<F>) -> Self { Self { values } }
            pub fn len(&self) -> usize { self.values.len() }
        }
        impl<F> From<Vec<F>> for PolynomialValues<F> { fn from(v: Vec<F>) -> Self { Self::new(v) } }
    }
    pub mod goldilocks_field {
        use core::fmt;
        use core::iter::{Product, Sum};
        use core::ops::*;
        use super::types::*;
        pub const P: u64 = 0xFFFF_FFFF_0000_0001;
        /// Always stored canonically.
        #[derive(Copy, Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
        #[cfg_attr(feature = "circuits", derive(serde::Serialize, serde::Deserialize))]
        #[repr(transparent)]
        pub struct GoldilocksField(pub u64);
        impl fmt::Debug for GoldilocksField { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
        impl fmt::Display for GoldilocksField { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
        type G = GoldilocksField;
        impl Neg for G { type Output = G; fn neg(self) -> G { if self.0 == 0 { self } else { GoldilocksField(P - self.0) } } }
        impl Add for G { type Output = G; fn add(self, o: G) -> G {
            let s = u128::from(self.0) + u128::from(o.0);
            GoldilocksField(if s >= u128::from(P) { (s - u128::from(P)) as u64 } else { s as u64 }) } }
        impl Sub for G { type Output = G; fn sub(self, o: G) -> G { self + (-o) } }
        impl Mul for G { type Output = G; fn mul(self, o: G) -> G { GoldilocksField(((u128::from(self.0) * u128::from(o.0)) % u128::from(P)) as u64) } }
        impl Div for G { type Output = G; fn div(self, o: G) -> G { self * o.inverse() } }
        impl AddAssign for G { fn add_assign(&mut self, o: G) { *self = *self + o; } }
        impl SubAssign for G { fn sub_assign(&mut self, o: G) { *self = *self - o; } }
        impl MulAssign for G { fn mul_assign(&mut self, o: G) { *self = *self * o; } }
        impl DivAssign for G { fn div_assign(&mut self, o: G) { *self = *self / o; } }
        impl Sum for G { fn sum<I: Iterator<Item = G>>(it: I) -> G { it.fold(G::ZERO, Add::add) } }
        impl Product for G { fn product<I: Iterator<Item = G>>(it: I) -> G { it.fold(G::ONE, Mul::mul) } }
        impl Field for G {
            const ZERO: G = GoldilocksField(0);
            const ONE: G = GoldilocksField(1);
            const TWO: G = GoldilocksField(2);
            const NEG_ONE: G = GoldilocksField(P - 1);
            fn try_inverse(&self) -> Option<G> { if self.0 == 0 { None } else { Some(self.exp_u64(P - 2)) } }
            fn from_noncanonical_u64(n: u64) -> G { GoldilocksField(if n >= P { n - P } else { n }) }
        }
        impl Field64 for G { const ORDER: u64 = P; }
        impl PrimeField for G {}
        impl PrimeField64 for G {
            fn to_canonical_u64(&self) -> u64 { self.0 }
            fn to_noncanonical_u64(&self) -> u64 { self.0 }
        }
        impl Sample for G {}
        impl crate::hash::poseidon2::Poseidon2 for G {}
        impl crate::hash::hash_types::RichField for G {}
        impl super::extension::Extendable<1> for G { type Extension = G; }
        #[cfg(kani)]
        impl kani::Arbitrary for G {
            fn any() -> Self { let x: u64 = kani::any(); kani::assume(x < P); GoldilocksField(x) }
        }
    }
}
pub mod hash {
    pub mod hash_types {
        use crate::field::types::{Field, PrimeField64};
        pub const NUM_HASH_OUT_ELTS: usize = 4;
        pub trait RichField: PrimeField64 + super::poseidon2::Poseidon2 {}
        #[derive(Copy, Clone, Debug, Eq, PartialEq)]
        pub struct HashOut<F: Field> { pub elements: [F; NUM_HASH_OUT_ELTS] }
        impl<F: Field> HashOut<F> {
            pub const ZERO: Self = Self { elements: [F::ZERO; NUM_HASH_OUT_ELTS] };
        }
        impl<F: Field> Default for HashOut<F> { fn default() -> Self { Self::ZERO } }
        impl<F: Field> From<[F; NUM_HASH_OUT_ELTS]> for HashOut<F> {
            fn from(elements: [F; NUM_HASH_OUT_ELTS]) -> Self { Self { elements } }
        }
        impl<F: RichField> crate::plonk::config::GenericHashOut<F> for HashOut<F> {
            fn to_bytes(&self) -> Vec<u8> {
                let mut out = Vec::with_capacity(32);
                for e in self.elements {
                    for b in e.to_canonical_u64().to_le_bytes() { out.push(b); }
                }
                out
            }
            fn from_bytes(bytes: &[u8]) -> Self {
                let mut elements = [F::ZERO; NUM_HASH_OUT_ELTS];
                for i in 0..NUM_HASH_OUT_ELTS {
                    let mut w = [0u8; 8];
                    w.copy_from_slice(&bytes[8 * i..8 * i + 8]);
                    elements[i] = F::from_canonical_u64(u64::from_le_bytes(w));
                }
                Self { elements }
            }
            fn to_vec(&self) -> Vec<F> { self.elements.to_vec() }
        }
    }
    pub mod hashing {
        use core::fmt::Debug;
        pub trait PlonkyPermutation<T: Copy + Default>: AsRef<[T]> + Copy + Debug + Default + Eq + Sync + Send {
            const RATE: usize;
            const WIDTH: usize;
            fn new<I: IntoIterator<Item = T>>(it: I) -> Self;
            fn set_elt(&mut self, elt: T, idx: usize);
            fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start_idx: usize);
            fn set_from_slice(&mut self, elts: &[T], start_idx: usize);
            fn permute(&mut self);
            fn squeeze(&self) -> &[T];
        }
    }
    pub mod poseidon2 {
        use crate::field::types::Field;
        use crate::hash::hash_types::{HashOut, RichField};
        use crate::hash::hashing::PlonkyPermutation;
        pub const WIDTH: usize = 12;
        pub const RATE: usize = 8;
        pub const ROUND_F_BEGIN: usize = 4;
        pub const ROUND_F_END: usize = 8;
        pub const ROUND_P: usize = 22;

        /// The permutation as an uninterpreted function: the implementation of
        /// the trait method decides; for GoldilocksField see `uninterpreted`.
        pub trait Poseidon2: Field + core::fmt::Debug {
            #[cfg(not(feature = "circuits"))]
            fn permute_uninterpreted(state: &[Self; WIDTH]) -> [Self; WIDTH] { uninterpreted::permute(state) }
            #[cfg(feature = "circuits")]
            fn permute_uninterpreted(state: &[Self; WIDTH]) -> [Self; WIDTH] { Self::poseidon2(*state) }
            /// Arbitrary stand-ins for the round constants and the diagonal.
            #[cfg(feature = "circuits")]
            const RC12: [u64; WIDTH * ROUND_F_END] = rounds::constants::<{ WIDTH * ROUND_F_END }>(1);
            #[cfg(feature = "circuits")]
            const RC12_MID: [u64; ROUND_P] = rounds::constants::<ROUND_P>(2);
            #[cfg(feature = "circuits")]
            const MAT_DIAG12_M_1: [u64; WIDTH] = rounds::constants::<WIDTH>(3);
            #[cfg(feature = "circuits")]
            fn constant_layer(state: &mut [Self; WIDTH], r: usize) {
                for i in 0..WIDTH { state[i] += Self::from_canonical_u64(Self::RC12[r + i]); }
            }
            #[cfg(feature = "circuits")]
            fn sbox_monomial(x: Self) -> Self { let c = x * x * x; c * c * x }
            #[cfg(feature = "circuits")]
            fn sbox_layer(state: &mut [Self; WIDTH]) { for x in state.iter_mut() { *x = Self::sbox_monomial(*x); } }
            #[cfg(feature = "circuits")]
            fn matmul_external(state: &mut [Self; WIDTH]) {
                const M4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
                let mut b = [Self::ZERO; WIDTH];
                for k in 0..WIDTH / 4 { for i in 0..4 { for j in 0..4 {
                    b[4 * k + i] += Self::from_canonical_u64(M4[i][j]) * state[4 * k + j];
                } } }
                for i in 0..WIDTH { state[i] = b[i]; for k in 0..WIDTH / 4 { state[i] += b[4 * k + i % 4]; } }
            }
            #[cfg(feature = "circuits")]
            fn matmul_internal(state: &mut [Self; WIDTH], diag: &[u64; WIDTH]) {
                let mut sum = Self::ZERO;
                for x in state.iter() { sum += *x; }
                for i in 0..WIDTH { state[i] = state[i] * (Self::from_canonical_u64(diag[i]) - Self::ONE) + sum; }
            }
            #[cfg(feature = "circuits")]
            fn poseidon2(mut s: [Self; WIDTH]) -> [Self; WIDTH] {
                Self::matmul_external(&mut s);
                for r in 0..ROUND_F_END / 2 { Self::constant_layer(&mut s, r); Self::sbox_layer(&mut s); Self::matmul_external(&mut s); }
                for r in 0..ROUND_P {
                    s[0] += Self::from_canonical_u64(Self::RC12_MID[r]);
                    s[0] = Self::sbox_monomial(s[0]);
                    Self::matmul_internal(&mut s, &Self::MAT_DIAG12_M_1);
                }
                for r in ROUND_F_END / 2..ROUND_F_END { Self::constant_layer(&mut s, r); Self::sbox_layer(&mut s); Self::matmul_external(&mut s); }
                s
            }
        }

        #[cfg(feature = "circuits")]
        pub mod rounds {
            /// Pairwise distinct, below 2^63, seeded.
            pub const fn constants<const N: usize>(seed: u64) -> [u64; N] {
                let mut out = [0; N];
                let mut i = 0;
                let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                while i < N {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    out[i] = x >> 1;
                    i += 1;
                }
                out
            }
        }

        pub mod uninterpreted {
            use super::WIDTH;
            use crate::field::types::Field;
            /// Native: a fixed bijective-looking mixing function (only used when
            /// replaying counterexamples).
            #[cfg(not(kani))]
            pub fn permute<F: Field>(s: &[F; WIDTH]) -> [F; WIDTH] {
                let mut st = *s;
                for r in 0..3u64 {
                    let mut acc = F::from_canonical_u64(r + 7);
                    for i in 0..WIDTH {
                        acc = acc * F::from_canonical_u64(31) + st[i] + F::from_canonical_u64(i as u64 + 1);
                        st[i] = acc.cube() + st[(i + 5) % WIDTH];
                    }
                }
                st
            }
            /// Under Kani: an arbitrary function (memoised so that it *is* a function).
            #[cfg(kani)]
            #[allow(static_mut_refs)]
            pub fn permute<F: Field>(s: &[F; WIDTH]) -> [F; WIDTH] {
                struct N<F> { i: [F; WIDTH], o: [F; WIDTH], next: *const N<F> }
                static mut HEAD: *const () = core::ptr::null();
                unsafe {
                    let mut cur = HEAD as *const N<F>;
                    while !cur.is_null() {
                        if (*cur).i == *s { return (*cur).o; }
                        cur = (*cur).next;
                    }
                    let mut o = [F::ZERO; WIDTH];
                    for e in o.iter_mut() { *e = F::from_noncanonical_u64(kani::any::<u64>()); }
                    let n = Box::leak(Box::new(N { i: *s, o, next: HEAD as *const N<F> }));
                    HEAD = n as *const N<F> as *const ();
                    o
                }
            }
        }

        #[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
        pub struct Poseidon2Permutation<T> { state: [T; WIDTH] }
        impl<T> AsRef<[T]> for Poseidon2Permutation<T> { fn as_ref(&self) -> &[T] { &self.state } }
        impl<F: RichField> PlonkyPermutation<F> for Poseidon2Permutation<F> {
            const RATE: usize = RATE;
            const WIDTH: usize = WIDTH;
            fn new<I: IntoIterator<Item = F>>(it: I) -> Self {
                let mut p = Self { state: [F::ZERO; WIDTH] };
                p.set_from_iter(it, 0);
                p
            }
            fn set_elt(&mut self, elt: F, idx: usize) { self.state[idx] = elt; }
            fn set_from_iter<I: IntoIterator<Item = F>>(&mut self, elts: I, start_idx: usize) {
                for (s, e) in self.state[start_idx..].iter_mut().zip(elts) { *s = e; }
            }
            fn set_from_slice(&mut self, elts: &[F], start_idx: usize) {
                self.state[start_idx..start_idx + elts.len()].copy_from_slice(elts);
            }
            fn permute(&mut self) { self.state = F::permute_uninterpreted(&self.state); }
            fn squeeze(&self) -> &[F] { &self.state[..RATE] }
        }

        #[derive(Copy, Clone, Debug, Eq, PartialEq)]
        pub struct Poseidon2Hash;
        impl<F: RichField> crate::plonk::config::Hasher<F> for Poseidon2Hash {
            type Hash = HashOut<F>;
            type Permutation = Poseidon2Permutation<F>;
            fn hash_no_pad(input: &[F]) -> HashOut<F> {
                let mut perm = Poseidon2Permutation::<F>::new(core::iter::repeat(F::ZERO));
                for chunk in input.chunks(RATE) {
                    perm.set_from_slice(chunk, 0);
                    perm.permute();
                }
                let s = perm.squeeze();
                HashOut { elements: [s[0], s[1], s[2], s[3]] }
            }
            fn two_to_one(l: HashOut<F>, r: HashOut<F>) -> HashOut<F> {
                let mut perm = Poseidon2Permutation::<F>::new(core::iter::repeat(F::ZERO));
                perm.set_from_slice(&l.elements, 0);
                perm.set_from_slice(&r.elements, 4);
                perm.permute();
                let s = perm.squeeze();
                HashOut { elements: [s[0], s[1], s[2], s[3]] }
            }
        }
    }
}
#[cfg(feature = "circuits")]
pub mod symbolic;
#[cfg(feature = "circuits")]
mod circuits;
#[cfg(feature = "circuits")]
pub mod iop { pub use crate::circuits::{challenger, ext_target, target}; }
#[cfg(feature = "circuits")]
pub use circuits::util;
pub mod plonk {
    #[cfg(feature = "circuits")]
    pub use crate::circuits::{circuit_builder, plonk_common};
    pub mod config {
        pub trait GenericConfig<const D: usize>: 'static + Sized + Send + Sync { type F: RichField; }
        pub trait AlgebraicHasher<F: RichField>: Hasher<F> {}
        use core::fmt::Debug;
        use crate::hash::hash_types::RichField;
        use crate::hash::hashing::PlonkyPermutation;
        pub trait GenericHashOut<F: RichField>: Copy + Clone + Debug + Eq + PartialEq + Send + Sync {
            fn to_bytes(&self) -> Vec<u8>;
            fn from_bytes(bytes: &[u8]) -> Self;
            fn to_vec(&self) -> Vec<F>;
        }
        pub trait Hasher<F: RichField>: Sized + Copy + Debug + Eq + PartialEq {
            type Hash: GenericHashOut<F>;
            type Permutation: PlonkyPermutation<F>;
            fn hash_no_pad(input: &[F]) -> Self::Hash;
            fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash;
        }
    }
}
