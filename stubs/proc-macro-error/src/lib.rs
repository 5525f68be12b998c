//! Stand-in for proc-macro-error: every error is a panic of the macro.
pub use proc_macro_error_attr::proc_macro_error;
#[macro_export]
macro_rules! abort { ($s:expr, $($t:tt)*) => { panic!($($t)*) }; }
#[macro_export]
macro_rules! emit_error { ($s:expr, $($t:tt)*) => {{ let _ = &$s; panic!($($t)*) }}; }
#[macro_export]
macro_rules! emit_warning { ($s:expr, $($t:tt)*) => {{ let _ = &$s; eprintln!($($t)*) }}; }
pub fn abort_if_dirty() {}
