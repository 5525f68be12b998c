//! A field whose elements are polynomials under construction: executing the
//! real constraint code over `Sym` extracts the constraint it yields.
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::*;
use std::cell::RefCell;
use std::collections::HashMap;

use crate::field::goldilocks_field::{GoldilocksField, P};
use crate::field::types::*;

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Sym {
    /// A constant, canonical modulo the Goldilocks prime.
    C(u64),
    /// A node of the arena.
    N(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(String),
    Add(Sym, Sym),
    Sub(Sym, Sym),
    Mul(Sym, Sym),
    Neg(Sym),
    Inv(Sym),
}
#[derive(Default)]
pub struct Arena { pub nodes: Vec<Node>, index: HashMap<Node, u32> }
thread_local! { pub static ARENA: RefCell<Arena> = RefCell::new(Arena::default()); }
fn mk(n: Node) -> Sym {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(i) = a.index.get(&n) { return Sym::N(*i); }
        let i = a.nodes.len() as u32;
        a.nodes.push(n.clone());
        a.index.insert(n, i);
        Sym::N(i)
    })
}
fn g(c: u64) -> GoldilocksField { GoldilocksField(c) }
impl Sym {
    pub fn var(n: impl Into<String>) -> Sym { mk(Node::Var(n.into())) }
    pub fn node(i: u32) -> Node { ARENA.with(|a| a.borrow().nodes[i as usize].clone()) }
}
impl Default for Sym { fn default() -> Self { Sym::C(0) } }
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self { Sym::C(c) => write!(f, "c{c}"), Sym::N(i) => write!(f, "n{i}") }
    }
}
impl fmt::Display for Sym { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }
impl Neg for Sym { type Output = Sym; fn neg(self) -> Sym { match self { Sym::C(c) => Sym::C((-g(c)).0), s => mk(Node::Neg(s)) } } }
impl Add for Sym { type Output = Sym; fn add(self, o: Sym) -> Sym { match (self, o) {
    (Sym::C(a), Sym::C(b)) => Sym::C((g(a) + g(b)).0), (Sym::C(0), x) | (x, Sym::C(0)) => x, (a, b) => mk(Node::Add(a, b)) } } }
impl Sub for Sym { type Output = Sym; fn sub(self, o: Sym) -> Sym { match (self, o) {
    (Sym::C(a), Sym::C(b)) => Sym::C((g(a) - g(b)).0), (x, Sym::C(0)) => x, (a, b) => mk(Node::Sub(a, b)) } } }
impl Mul for Sym { type Output = Sym; fn mul(self, o: Sym) -> Sym { match (self, o) {
    (Sym::C(a), Sym::C(b)) => Sym::C((g(a) * g(b)).0), (Sym::C(0), _) | (_, Sym::C(0)) => Sym::C(0),
    (Sym::C(1), x) | (x, Sym::C(1)) => x, (a, b) => mk(Node::Mul(a, b)) } } }
impl Div for Sym { type Output = Sym; fn div(self, o: Sym) -> Sym { self * o.inverse() } }
impl AddAssign for Sym { fn add_assign(&mut self, o: Sym) { *self = *self + o; } }
impl SubAssign for Sym { fn sub_assign(&mut self, o: Sym) { *self = *self - o; } }
impl MulAssign for Sym { fn mul_assign(&mut self, o: Sym) { *self = *self * o; } }
impl DivAssign for Sym { fn div_assign(&mut self, o: Sym) { *self = *self / o; } }
impl Sum for Sym { fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym { it.fold(Sym::ZERO, Add::add) } }
impl Product for Sym { fn product<I: Iterator<Item = Sym>>(it: I) -> Sym { it.fold(Sym::ONE, Mul::mul) } }
impl Field for Sym {
    const ZERO: Sym = Sym::C(0);
    const ONE: Sym = Sym::C(1);
    const TWO: Sym = Sym::C(2);
    const NEG_ONE: Sym = Sym::C(P - 1);
    fn try_inverse(&self) -> Option<Sym> { match self { Sym::C(0) => None, Sym::C(c) => Some(Sym::C(g(*c).inverse().0)), s => Some(mk(Node::Inv(*s))) } }
    fn from_noncanonical_u64(n: u64) -> Sym { Sym::C(GoldilocksField::from_noncanonical_u64(n).0) }
}
impl Field64 for Sym { const ORDER: u64 = P; }
impl PrimeField for Sym {}
impl PrimeField64 for Sym {
    fn to_canonical_u64(&self) -> u64 { match self { Sym::C(c) => *c, s => panic!("{s:?} is not a constant") } }
    fn to_noncanonical_u64(&self) -> u64 { self.to_canonical_u64() }
}
impl Sample for Sym {}
impl crate::hash::poseidon2::Poseidon2 for Sym {}
impl crate::hash::hash_types::RichField for Sym {}
impl crate::field::extension::Extendable<1> for Sym { type Extension = Sym; }
