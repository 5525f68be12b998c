// Contract of runner/src/vm.rs: step, for runs of any length
use vstd::prelude::*;
verus! {
pub trait RichField: Sized {}

// what the run does not look into
#[verifier::external_body] pub struct Program { p: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(F)] pub struct Rest<F> { p: core::marker::PhantomData<F> }
#[verifier::external_body] #[verifier::reject_recursive_types(F)] pub struct Aux<F: RichField> { p: core::marker::PhantomData<F> }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Instruction { p: u8 }
#[verifier::external_body] pub struct Error { p: u8 }
pub type Result<T> = core::result::Result<T, Error>;

#[verifier::reject_recursive_types(F)]
pub struct State<F: RichField> { pub halted: bool, pub clk: u64, pub rest: Rest<F> }

//@struct runner/src/vm.rs Row
//@struct runner/src/vm.rs ExecutionRecord

// one step (R02 to R10): a function of program and state
pub uninterp spec fn exec<F: RichField>(p: Program, s: State<F>) -> core::result::Result<(Aux<F>, Instruction, State<F>), Error>;

impl<F: RichField> Clone for State<F> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl<F: RichField> State<F> {
    #[verifier::external_body]
    pub fn execute_instruction(self, program: &Program) -> (r: Result<(Aux<F>, Instruction, Self)>)
        ensures r == exec(*program, self),
    { unimplemented!() }

//@fn runner/src/state.rs has_halted (r)
        ensures r == self.halted,
//@end
}

/// The state after n steps, if the run gets that far.
pub open spec fn after<F: RichField>(p: Program, s: State<F>, n: nat) -> Option<State<F>>
    decreases n,
{
    if n == 0 { Some(s) } else {
        match after(p, s, (n - 1) as nat) {
            Some(t) if !t.halted => match exec(p, t) { Ok(x) => Some(x.2), Err(_) => None },
            _ => None,
        }
    }
}
/// Row k is the step taken from the state after k steps.
pub open spec fn row_ok<F: RichField>(p: Program, s: State<F>, row: Row<F>, k: int) -> bool {
    &&& after(p, s, k as nat) == Some(row.state)
    &&& !row.state.halted
    &&& exec(p, row.state) is Ok
    &&& exec(p, row.state)->Ok_0.0 == row.aux
    &&& exec(p, row.state)->Ok_0.1 == row.instruction
}

#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@fn runner/src/vm.rs step (r)
    ensures
        match r {
            Ok(x) => {
                &&& x.last_state.halted
                &&& after(*$1, $2, x.executed@.len()) == Some(x.last_state)
                &&& forall|k: int| 0 <= k < x.executed@.len() ==> row_ok(*$1, $2, #[trigger] x.executed@[k], k)
            },
            Err(_) => exists|n: nat| {
                &&& (#[trigger] after(*$1, $2, n)) is Some
                &&& !after(*$1, $2, n)->Some_0.halted
                &&& exec(*$1, after(*$1, $2, n)->Some_0) is Err
            },
        },
//@ghost let ghost start = $2;
//@loop 0: invariant after(*$1, start, executed@.len()) == Some($2), forall|k: int| 0 <= k < executed@.len() ==> row_ok(*$1, start, #[trigger] executed@[k], k),
//@end
}
fn main() {}
