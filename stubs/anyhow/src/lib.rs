//! Stand-in for anyhow: an opaque error (message and chain are dropped).
//! Assumed contract: constructing / converting an error has no other effect.
pub struct Error {
    pub msg: &'static str,
}
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl core::fmt::Debug for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.msg) }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.msg) }
}
impl<E: std::error::Error> From<E> for Error {
    fn from(_: E) -> Self { Error { msg: "converted error" } }
}
impl Error {
    pub fn msg<M>(_m: M) -> Self { Error { msg: "message" } }
    pub fn new<E>(_e: E) -> Self { Error { msg: "error" } }
    #[must_use]
    pub fn context<C>(self, _c: C) -> Self { self }
}
pub trait Context<T> {
    fn context<C>(self, c: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E> Context<T> for core::result::Result<T, E> {
    fn context<C>(self, _c: C) -> Result<T> { self.map_err(|_| Error { msg: "context" }) }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T> { self.map_err(|_| Error { msg: "context" }) }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _c: C) -> Result<T> { self.ok_or(Error { msg: "context" }) }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T> { self.ok_or(Error { msg: "context" }) }
}
#[macro_export]
macro_rules! anyhow {
    ($($t:tt)*) => {{ if false { let _ = ::std::format_args!($($t)*); } $crate::Error { msg: "anyhow!" } }};
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return ::core::result::Result::Err($crate::anyhow!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr $(, $($t:tt)*)?) => { if !$c { return ::core::result::Result::Err($crate::Error { msg: "ensure!" }); } };
}
