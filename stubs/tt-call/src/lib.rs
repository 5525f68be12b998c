//! Stand-in for tt-call: the one calling form the repository uses.
#[macro_export]
macro_rules! tt_call {
    (macro = [{ $m:ident }] ~~> $h:ident) => { $m! { ($h) } };
}
#[macro_export]
macro_rules! tt_return {
    (($h:ident) $($rest:tt)*) => { $h! { $($rest)* } };
}
