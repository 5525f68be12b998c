//! Stand-in for plonky2_maybe_rayon without the `parallel` feature: sequential iterators.
pub trait MaybeIntoParIter: Sized + IntoIterator { fn into_par_iter(self) -> Self::IntoIter { self.into_iter() } }
impl<I: IntoIterator> MaybeIntoParIter for I {}
pub trait MaybeParIter { type T; fn par_iter(&self) -> core::slice::Iter<'_, Self::T>; }
impl<T> MaybeParIter for [T] { type T = T; fn par_iter(&self) -> core::slice::Iter<'_, T> { self.iter() } }
