// Contract of runner/src/poseidon2.rs: the sponge of the hash call
use vstd::prelude::*;
//@replace assert!( ==> stop_unless(
//@replace P::RATE ==> RATE
//@replace P::WIDTH ==> WIDTH
//@replace F::ZERO ==> F::zero()
//@regex \.as_ref\(\)\s*\.try_into\(\)\s*\.expect\("[^"]*"\) ==> .state()
//@regex \.squeeze\(\)\[\.\.NUM_HASH_OUT_ELTS\]\s*\.try_into\(\)\s*\.expect\("[^"]*"\) ==> .squeeze_4()
//@regex (\w+)\s*\.last_mut\(\)\s*\.expect\("[^"]*"\)\s*\.gen_output = ([^;]*); ==> mark_last(&mut \1, \2);
//@regex for (\w+) in (\w+)\.chunks\(([^()]*)\) ==> for \1 in blocks: chunks(\2, \3)
//@regex \|perm: &mut P, sponge_data: &mut Vec<SpongeData<F>>\| ==> |perm: &mut P, sponge_data: &mut Vec<SpongeData<F>>| requires perm.view().len() == 12, ensures permuted(*old(perm), old(sponge_data)@, *final(perm), final(sponge_data)@)
verus! {
pub const RATE: usize = 8;
pub const WIDTH: usize = 12;
pub const NUM_HASH_OUT_ELTS: usize = 4;
pub trait RichField: Copy {
    spec fn of(b: bool) -> Self;
    fn zero() -> (r: Self) ensures r == Self::of(false);
    fn from_bool(b: bool) -> (r: Self) ensures r == Self::of(b);
}
pub struct Repeat<F> { pub x: F }
pub fn repeat<F>(x: F) -> (r: Repeat<F>) ensures r.x == x { Repeat { x } }
pub uninterp spec fn permutation<F>(s: Seq<F>) -> Seq<F>;
pub trait PlonkyPermutation<F: RichField>: Sized {
    spec fn view(&self) -> Seq<F>;
    fn new(r: Repeat<F>) -> (p: Self) ensures p.view() == Seq::new(12, |i: int| r.x);
    fn set_from_slice(&mut self, elts: &[F], at: usize)
        requires at + elts@.len() <= 12, old(self).view().len() == 12,
        ensures final(self).view() == old(self).view().subrange(0, at as int) + elts@ + old(self).view().subrange(at + elts@.len(), 12);
    fn permute(&mut self) requires old(self).view().len() == 12, ensures final(self).view() == permutation::<F>(old(self).view()), final(self).view().len() == 12;
    fn state(&self) -> (r: [F; 12]) requires self.view().len() == 12, ensures r@ == self.view();
    fn squeeze_4(&self) -> (r: [F; 4]) requires self.view().len() == 12, ensures r@ == self.view().subrange(0, 4);
}
pub struct SpongeData<F> { pub preimage: [F; 12], pub output: [F; 12], pub gen_output: F }
pub struct HashOut<F> { pub elements: [F; 4] }
impl<F> HashOut<F> { pub fn from(e: [F; 4]) -> (r: Self) ensures r.elements == e { HashOut { elements: e } } }
#[verifier::external_body]
pub fn chunks<F>(s: &[F], n: usize) -> (r: Vec<&[F]>)
    requires n == 8, s@.len() % 8 == 0,
    ensures r@.len() == s@.len() / 8, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(8 * i, 8 * i + 8),
{ unimplemented!() }
pub fn mark_last<F>(v: &mut Vec<SpongeData<F>>, b: F)
    requires old(v)@.len() > 0,
    ensures final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() - 1 ==> final(v)@[i] == old(v)@[i],
        final(v)@.last() == (SpongeData { gen_output: b, ..old(v)@.last() }),
{ let i = v.len() - 1; v[i].gen_output = b; }
pub fn stop_unless(b: bool) requires b {}

/// One permutation of the state, recorded.
pub open spec fn permuted<F: RichField, P: PlonkyPermutation<F>>(p: P, d: Seq<SpongeData<F>>, q: P, e: Seq<SpongeData<F>>) -> bool {
    &&& q.view() == permutation::<F>(p.view()) && q.view().len() == 12
    &&& e.len() == d.len() + 1 && e.last().preimage@ == p.view() && e.last().output@ == q.view() && e.last().gen_output == F::of(false)
    &&& forall|i: int| 0 <= i < d.len() ==> e[i] == d[i]
}
/// The state after n blocks, by definition.
pub open spec fn absorbed<F: RichField>(s: Seq<F>, n: int) -> Seq<F> decreases n, 0int {
    if n <= 0 { Seq::new(12, |i: int| F::of(false)) } else { permutation::<F>(loaded(s, n - 1)) }
}
/// What is permuted for block n: the block, and the capacity carried over.
pub open spec fn loaded<F: RichField>(s: Seq<F>, n: int) -> Seq<F> decreases n, 1int {
    s.subrange(8 * n, 8 * n + 8) + absorbed(s, n).subrange(8, 12)
}
/// One record per block of the first n.
pub open spec fn recorded<F: RichField>(s: Seq<F>, d: Seq<SpongeData<F>>, n: int) -> bool {
    d.len() == n && forall|b: int| 0 <= b < n ==> (#[trigger] d[b]).preimage@ == loaded(s, b) && d[b].output@ == absorbed(s, b + 1) && d[b].gen_output == F::of(false)
}
#[verifier::loop_isolation(false)]
//@fn runner/src/poseidon2.rs hash_n_to_m_no_pad (r)
    requires $1@.len() > 0, $1@.len() % 8 == 0,
    ensures
        r.0.elements@ == absorbed($1@, ($1@.len() / 8) as int).subrange(0, 4),
        r.1@.len() == $1@.len() / 8,
        forall|b: int| 0 <= b < r.1@.len() ==> (#[trigger] r.1@[b]).preimage@ == loaded($1@, b) && r.1@[b].output@ == absorbed($1@, b + 1)
            && r.1@[b].gen_output == F::of(b == r.1@.len() - 1),
//@loop 0: invariant perm.view().len() == 12, perm.view() == absorbed($1@, blocks.index@), recorded($1@, sponge_data@, blocks.index@),
//@end
}
fn main() {}
