//! Stand-in for rkyv: every type has an archived form, and what was archived
//! is what is read back (assumed contract: `access` of what `to_bytes` wrote is
//! that value, `deserialize` inverts `serialize`). The real byte layout is not
//! modelled: the bytes of an archive are those of the archived value.
#![allow(clippy::all, static_mut_refs)]
pub use rkyv_derive::{Archive, Deserialize, Serialize};

pub trait Archive { type Archived; }
/// `to_archived` is the value the archived bytes denote.
pub trait Serialize<S: ?Sized>: Archive { fn to_archived(&self) -> Self::Archived; }
pub trait Deserialize<T, D: rancor::Fallible + ?Sized> { fn deserialize(&self, d: &mut D) -> Result<T, D::Error>; }

pub mod rancor {
    use core::marker::PhantomData;
    #[derive(Debug)]
    pub enum Panic {}
    pub trait Fallible { type Error: core::fmt::Debug; }
    #[repr(transparent)]
    pub struct Strategy<T: ?Sized, E>(PhantomData<E>, T);
    impl<T, E> Strategy<T, E> {
        pub fn wrap(t: &mut T) -> &mut Self { unsafe { &mut *(t as *mut T as *mut Self) } }
    }
    impl<T: ?Sized, E: core::fmt::Debug> Fallible for Strategy<T, E> { type Error = E; }
}
pub mod ser {
    pub mod allocator { pub struct AllocationTracker<T>(T); pub struct GlobalAllocator; }
    pub struct AllocSerializer<const N: usize>;
    pub struct Composite<W, A, E>(W, A, E);
}
pub mod util {
    #[derive(Debug, Clone, Default)]
    pub struct AlignedVec(pub Vec<u8>);
    impl AlignedVec { pub fn into_vec(self) -> Vec<u8> { self.0 } }
    impl core::ops::Deref for AlignedVec { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
}
pub mod vec {
    #[derive(Debug)]
    pub struct ArchivedVec<T>(pub Vec<T>);
    impl<T> ArchivedVec<T> {
        pub fn as_slice(&self) -> &[T] { &self.0 }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
    }
    impl<T> core::ops::Deref for ArchivedVec<T> { type Target = [T]; fn deref(&self) -> &[T] { &self.0 } }
}
pub mod primitive {
    macro_rules! prim { ($($a:ident $t:ty),*) => { $(
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct $a(pub $t);
        impl $a { pub const fn to_native(&self) -> $t { self.0 } }
        impl From<$a> for $t { fn from(x: $a) -> $t { x.0 } }
        impl crate::Archive for $t { type Archived = $a; }
        impl<S: ?Sized> crate::Serialize<S> for $t { fn to_archived(&self) -> $a { $a(*self) } }
        impl<D: crate::rancor::Fallible + ?Sized> crate::Deserialize<$t, D> for $a { fn deserialize(&self, _: &mut D) -> Result<$t, D::Error> { Ok(self.0) } }
    )* } }
    prim!(ArchivedU16 u16, ArchivedU32 u32, ArchivedU64 u64, ArchivedI16 i16, ArchivedI32 i32, ArchivedI64 i64);
    macro_rules! byte { ($($t:ty),*) => { $(
        impl crate::Archive for $t { type Archived = $t; }
        impl<S: ?Sized> crate::Serialize<S> for $t { fn to_archived(&self) -> $t { *self } }
        impl<D: crate::rancor::Fallible + ?Sized> crate::Deserialize<$t, D> for $t { fn deserialize(&self, _: &mut D) -> Result<$t, D::Error> { Ok(*self) } }
    )* } }
    byte!(u8, i8, bool, ());
}
impl<T: Archive, const N: usize> Archive for [T; N] { type Archived = [T::Archived; N]; }
impl<S: ?Sized, const N: usize> Serialize<S> for [u8; N] { fn to_archived(&self) -> [u8; N] { *self } }
impl<D: rancor::Fallible + ?Sized, const N: usize> Deserialize<[u8; N], D> for [u8; N] { fn deserialize(&self, _: &mut D) -> Result<[u8; N], D::Error> { Ok(*self) } }
impl<T: Archive> Archive for Vec<T> { type Archived = vec::ArchivedVec<T::Archived>; }
impl<S: ?Sized, T: Serialize<S>> Serialize<S> for Vec<T> {
    fn to_archived(&self) -> Self::Archived {
        #[cfg(kani)]
        {
            const LIMIT: usize = 8;
            let n = self.len();
            assert!(n <= LIMIT, "stub limit: vector too long");
            let mut v: Vec<T::Archived> = Vec::with_capacity(LIMIT);
            macro_rules! at { ($($i:literal)*) => { $(if $i < n {
                let x = self[$i].to_archived();
                unsafe { core::ptr::write(v.as_mut_ptr().add($i), x) };
            })* } }
            at!(0 1 2 3 4 5 6 7);
            unsafe { v.set_len(n) };
            return vec::ArchivedVec(v);
        }
        #[cfg(not(kani))]
        vec::ArchivedVec(self.iter().map(|x| x.to_archived()).collect())
    }
}
impl<T, A: Deserialize<T, D>, D: rancor::Fallible + ?Sized> Deserialize<Vec<T>, D> for vec::ArchivedVec<A> {
    fn deserialize(&self, d: &mut D) -> Result<Vec<T>, D::Error> {
        #[cfg(kani)]
        {
            // at most LIMIT elements, so that every bound is a constant
            const LIMIT: usize = 8;
            let n = self.0.len();
            assert!(n <= LIMIT, "stub limit: vector too long");
            let mut v: Vec<T> = Vec::with_capacity(LIMIT);
            macro_rules! at { ($($i:literal)*) => { $(if $i < n {
                let x = self.0[$i].deserialize(d)?;
                unsafe { core::ptr::write(v.as_mut_ptr().add($i), x) };
            })* } }
            at!(0 1 2 3 4 5 6 7);
            unsafe { v.set_len(n) };
            return Ok(v);
        }
        #[cfg(not(kani))]
        {
            let mut v = Vec::with_capacity(self.0.len());
            for x in self.0.iter() { v.push(x.deserialize(d)?); }
            Ok(v)
        }
    }
}

/// The bytes of an archive are those of the archived form.
pub fn to_bytes<T: Serialize<rancor::Strategy<ser::AllocSerializer<N>, E>>, const N: usize, E>(t: &T) -> Result<util::AlignedVec, E> {
    let a = core::mem::ManuallyDrop::new(t.to_archived());
    let n = core::mem::size_of::<T::Archived>();
    let mut v = Vec::with_capacity(n);
    unsafe {
        core::ptr::copy_nonoverlapping(&a as *const _ as *const u8, v.as_mut_ptr(), n);
        v.set_len(n);
    }
    Ok(util::AlignedVec(v))
}
/// # Safety
/// the bytes are those `to_bytes` gave for a `T` (the archive's root is at the end)
pub unsafe fn access_unchecked<T: Archive>(b: &[u8]) -> &T::Archived {
    let n = core::mem::size_of::<T::Archived>();
    unsafe { Box::leak(Box::new(core::ptr::read_unaligned(b[b.len() - n..].as_ptr() as *const T::Archived))) }
}
