// Contract of runner/src/state.rs: read_bytes
use vstd::prelude::*;
verus! {
// dependency: core's slice::to_vec copies every element
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]);

//@fn runner/src/state.rs read_bytes (read)
    requires *old($2) <= $1@.len(),
    ensures
        *final($2) == if *old($2) + $3 <= $1@.len() { *old($2) + $3 } else { $1@.len() as int },
        read@ =~= $1@.subrange(*old($2) as int, *final($2) as int),
//@end

// vacuity: the contract's precondition is satisfiable and the call returns
fn reach() {
    let b: [u8; 3] = [1, 2, 3];
    let mut i: usize = 1;
    let v = read_bytes(b.as_slice(), &mut i, 7);
    assert(v@ == b@.subrange(1, 3));
    assert(i == 3);
}
}
fn main() {}
