//@const sdk/src/core/mod.rs RATE
//@const sdk/src/core/mod.rs DIGEST_BYTES
// dependency: core's slice::to_vec copies every element
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]);
pub assume_specification [usize::next_multiple_of] (s: usize, m: usize) -> (r: usize)
    requires m > 0, s + m <= usize::MAX,
    ensures r % m == 0, s <= r < s + m, m == 8 ==> r == (s + 7) / 8 * 8;
pub struct Poseidon2Hash(pub [u8; 32]);
/// The hash of bytes that each make one field element (R10).
pub uninterp spec fn sponge(bytes: Seq<u8>) -> Seq<u8>;
/// Appends a one and zeros up to a whole number of blocks.
pub open spec fn padded(s: Seq<u8>) -> Seq<u8> {
    s.push(1) + Seq::new((7 - s.len() % 8) as nat, |i: int| 0u8)
}
/// Vec::resize, its contract said element by element.
pub trait Grow {
    spec fn all(&self) -> Seq<u8>;
    fn grow(&mut self, n: usize, v: u8)
        ensures n >= old(self).all().len() ==> final(self).all() == old(self).all() + Seq::new((n - old(self).all().len()) as nat, |i: int| v),
            n < old(self).all().len() ==> final(self).all() == old(self).all().subrange(0, n as int);
}
impl Grow for Vec<u8> {
    open spec fn all(&self) -> Seq<u8> { self@ }
    fn grow(&mut self, n: usize, v: u8) {
        let ghost was = self@;
        self.resize(n, v);
        proof {
            if n >= was.len() {
                assert(self@.len() == n && forall|i: int| 0 <= i < was.len() ==> self@[i] == was[i]);
                assert(self@ =~= was + Seq::new((n - was.len()) as nat, |i: int| v));
            } else {
                assert(self@ =~= was.subrange(0, n as int));
            }
        }
    }
}
pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; fn get(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }
impl Bytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } fn get(&self) -> &[u8] { self.as_slice() } }
impl Bytes for &[u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } fn get(&self) -> &[u8] { *self } }
pub fn slice_of<T: Bytes>(x: &T) -> (r: &[u8]) ensures r@ == x.bytes() { x.get() }
