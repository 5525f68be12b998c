//! Stand-in for the `im` persistent maps, for verification.
//!
//! Contract assumed of the real crate (trusted): `HashMap` is a finite partial
//! function, persistent under clone; `get`/`insert`/`extend`/`collect` have the
//! usual map semantics; iteration order is unspecified.
//!
//! A map here is (writes newest-first) over an optional *arbitrary* base: the
//! base is an uninterpreted partial function, materialised lazily and shared
//! between clones, so that a proof covers every possible initial content.
#![allow(static_mut_refs)]
use std::borrow::Borrow;
use std::hash::Hash;
use std::iter::FromIterator;

struct Node<K: 'static, V: 'static> {
    key: K,
    val: Option<V>,
    /// `*const Node<K, V>`, untyped: CBMC's SMT back end cannot translate a
    /// null constant of a recursive type.
    next: *const u8,
}
impl<K, V> Node<K, V> {
    fn at(p: *const u8) -> Option<&'static Self> {
        // SAFETY: only ever null or a leaked `Node<K, V>`
        unsafe { p.cast::<Self>().as_ref() }
    }
}

/// Eagerly materialised arbitrary finite map: N symbolic keys with symbolic
/// values. A program that touches at most N distinct keys cannot distinguish
/// this from an arbitrary map (small-model argument; N is per harness).
pub struct Base<K: 'static, V: 'static> {
    entries: &'static [(K, V)],
    /// `Some((k, v))`: a map known to send `k` to `v`; looking up any other
    /// key is an obligation failure ("query outside the contract").
    singleton: Option<(K, &'static V)>,
}

pub mod hashmap {
    pub use super::HashMap;
}

pub struct HashMap<K: 'static, V: 'static> {
    writes: *const u8,
    _k: std::marker::PhantomData<(K, V)>,
    base: Option<&'static Base<K, V>>,
    /// `Some((k, v))`: an arbitrary map of which only the content at `k` is
    /// observed; a lookup elsewhere is an obligation failure of the tool-limit
    /// kind. No heap, so that control-flow merges stay cheap.
    watch: Option<(K, Option<V>)>,
    /// number of (possibly shadowed) writes
    n: usize,
}

impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        HashMap { writes: self.writes, _k: std::marker::PhantomData, base: self.base, watch: self.watch.clone(), n: self.n }
    }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self { HashMap { writes: std::ptr::null(), _k: std::marker::PhantomData, base: None, watch: None, n: 0 } }
}
impl<K, V> std::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("HashMap{..}") }
}

fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
fn leak_mut<T>(t: T) -> &'static mut T { Box::leak(Box::new(t)) }
fn arbitrary_bool() -> bool {
    #[cfg(kani)]
    return kani::any();
    #[cfg(not(kani))]
    false
}

impl<K: Eq + Clone, V: Clone> HashMap<K, V> {
    #[must_use]
    pub fn new() -> Self { Self::default() }

    /// Verification only: an arbitrary map, as seen through at most
    /// `entries.len()` distinct keys.
    #[must_use]
    pub fn arbitrary<const N: usize>(entries: [(K, V); N]) -> Self {
        HashMap {
            writes: std::ptr::null(), _k: std::marker::PhantomData,
            base: Some(leak(Base { entries: leak(entries), singleton: None })),
            watch: None,
            n: 0,
        }
    }

    /// Verification only: an otherwise unconstrained map with `k -> v`, which
    /// the code under proof may query at `k` only.
    #[must_use]
    pub fn only(k: K, v: V) -> Self {
        HashMap {
            writes: std::ptr::null(), _k: std::marker::PhantomData,
            base: Some(leak(Base { entries: &[], singleton: Some((k, leak(v))) })),
            watch: None,
            n: 0,
        }
    }

    /// Verification only: an arbitrary map observed at `k` only, where it
    /// holds `v`.
    #[must_use]
    pub fn watched(k: K, v: Option<V>) -> Self {
        HashMap { writes: std::ptr::null(), _k: std::marker::PhantomData, base: None, watch: Some((k, v)), n: 0 }
    }

    fn lookup<Q: ?Sized + Eq>(&self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>, {
        let mut cur = self.writes;
        while let Some(n) = Node::<K, V>::at(cur) {
            if n.key.borrow() == k {
                return n.val.clone();
            }
            cur = n.next;
        }
        if let Some(b) = self.base {
            let mut i = 0;
            while i < b.entries.len() {
                if b.entries[i].0.borrow() == k {
                    return Some(b.entries[i].1.clone());
                }
                i += 1;
            }
        }
        None
    }

    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>, {
        if let Some((w, v)) = &self.watch {
            if w.borrow() == k {
                return v.as_ref();
            }
            // before any write, other keys may be read from the base
            assert!(self.n == 0 && self.base.is_some(), "map queried at another key");
        }
        if let Some(b) = self.base {
            if let Some((only, v)) = &b.singleton {
                assert!(only.borrow() == k, "map queried at another key");
                return Some(*v);
            }
        }
        match self.lookup(k) {
            Some(v) => Some(leak(v)),
            None => None,
        }
    }

    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>, {
        self.get(k).is_some()
    }

    /// Verification only: as `arbitrary`, with writes observed at `k` only.
    #[must_use]
    pub fn watched_over<const N: usize>(k: K, entries: [(K, V); N]) -> Self {
        let mut m = Self::arbitrary(entries);
        let v = m.lookup(&k);
        m.watch = Some((k, v));
        m
    }

    /// In `watched` mode the previous value at other keys is unknown: the
    /// return value is arbitrary there.
    pub fn insert(&mut self, k: K, v: V) -> Option<V>
    where
        V: Clone, {
        if let Some((w, old)) = &mut self.watch {
            self.n += 1;
            if *w == k {
                return old.replace(v);
            }
            return if arbitrary_bool() { Some(v) } else { None };
        }
        let old = self.get(&k).cloned();
        self.writes = (leak(Node { key: k, val: Some(v), next: self.writes }) as *const Node<K, V>).cast();
        self.n += 1;
        old
    }

    pub fn remove<Q: ?Sized + Eq + ToOwned<Owned = K>>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
        V: Clone, {
        if let Some((w, old)) = &mut self.watch {
            self.n += 1;
            return if (*w).borrow() == k { old.take() } else { None };
        }
        let old = self.get(k).cloned();
        self.writes = (leak(Node { key: k.to_owned(), val: None, next: self.writes }) as *const Node<K, V>).cast();
        self.n += 1;
        old
    }

    pub fn get_mut<Q: ?Sized + Eq + ToOwned<Owned = K>>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
        V: Clone, {
        if self.watch.is_some() {
            let (w, v) = self.watch.as_mut()?;
            assert!((*w).borrow() == k, "map queried at another key");
            return v.as_mut();
        }
        let old = self.get(k).cloned()?;
        let node = leak_mut(Node { key: k.to_owned(), val: Some(old), next: self.writes });
        self.writes = (node as *const Node<K, V>).cast();
        self.n += 1;
        node.val.as_mut()
    }

    #[must_use]
    pub fn update(&self, k: K, v: V) -> Self
    where
        V: Clone, {
        let mut m = self.clone();
        m.insert(k, v);
        m
    }

    #[must_use]
    pub fn without(&self, k: &K) -> Self
    where
        V: Clone, {
        let mut m = self.clone();
        m.remove(k);
        m
    }

    fn live(&self) -> Vec<(&'static K, &'static V)> {
        assert!(self.base.is_none() && self.watch.is_none(), "im stub: iteration over an arbitrary map");
        let mut out: Vec<(&'static K, &'static V)> = Vec::new();
        let mut cur = self.writes;
        while let Some(n) = Node::<K, V>::at(cur) {
            // is n the newest write to its key?
            let mut newer = self.writes;
            let mut shadowed = false;
            while let Some(m) = Node::<K, V>::at(newer) {
                if std::ptr::eq(m, n) {
                    break;
                }
                if m.key == n.key {
                    shadowed = true;
                    break;
                }
                newer = m.next;
            }
            if !shadowed {
                if let Some(v) = &n.val {
                    out.push((&n.key, v));
                }
            }
            cur = n.next;
        }
        out
    }

    #[must_use]
    pub fn len(&self) -> usize { self.live().len() }

    #[must_use]
    pub fn is_empty(&self) -> bool { self.len() == 0 }

    pub fn iter(&self) -> std::vec::IntoIter<(&'static K, &'static V)> { self.live().into_iter() }

    pub fn keys(&self) -> std::iter::Map<std::vec::IntoIter<(&'static K, &'static V)>, fn((&'static K, &'static V)) -> &'static K> {
        fn fst<A, B>(p: (A, B)) -> A { p.0 }
        self.live().into_iter().map(fst::<&'static K, &'static V>)
    }

    pub fn values(&self) -> std::iter::Map<std::vec::IntoIter<(&'static K, &'static V)>, fn((&'static K, &'static V)) -> &'static V> {
        fn snd<A, B>(p: (A, B)) -> B { p.1 }
        self.live().into_iter().map(snd::<&'static K, &'static V>)
    }

    /// im: left-biased union.
    #[must_use]
    pub fn union(self, other: Self) -> Self
    where
        V: Clone, {
        let mut out = other;
        out.extend(self);
        out
    }
}

impl<K: Eq + Clone, V: Clone> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            if self.watch.is_some() {
                self.insert(k, v);
                continue;
            }
            self.writes = (leak(Node { key: k, val: Some(v), next: self.writes }) as *const Node<K, V>).cast();
            self.n += 1;
        }
    }
}
impl<K: Eq + Clone, V: Clone> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<K: Eq + Clone, V: Clone, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() }
}
impl<K: Eq + Clone, V: Clone> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;

    fn into_iter(self) -> Self::IntoIter {
        self.live()
            .into_iter()
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect::<Vec<_>>()
            .into_iter()
    }
}
impl<'a, K: Eq + Clone, V: Clone> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;

    fn into_iter(self) -> Self::IntoIter { self.live().into_iter() }
}
impl<K: Eq + Clone, V: Clone + PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        let (a, b) = (self.live(), o.live());
        a.len() == b.len() && a.iter().all(|(k, v)| o.get(*k) == Some(v))
    }
}
impl<K: Eq + Clone, V: Clone + Eq> Eq for HashMap<K, V> {}
impl<K: Eq + Clone, V: Clone> std::ops::Index<&K> for HashMap<K, V> {
    type Output = V;

    fn index(&self, k: &K) -> &V { self.get(k).unwrap() }
}

#[cfg(feature = "serde")]
mod ser {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    impl<K: 'static + Serialize, V: 'static + Serialize> Serialize for super::HashMap<K, V> {
        fn serialize<S: Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() }
    }
    impl<'de, K: 'static, V: 'static> Deserialize<'de> for super::HashMap<K, V> {
        fn deserialize<D: Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() }
    }
}

pub struct HashSet<K: 'static>(pub HashMap<K, u8>);
impl<K: Clone> Clone for HashSet<K> {
    fn clone(&self) -> Self { HashSet(self.0.clone()) }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self { HashSet(HashMap::default()) }
}
impl<K> std::fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("HashSet{..}") }
}
impl<K: Eq + Clone> HashSet<K> {
    #[must_use]
    pub fn new() -> Self { Self::default() }

    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>, {
        self.0.contains_key(k)
    }

    pub fn insert(&mut self, k: K) -> Option<K> { self.0.insert(k.clone(), 1).map(|_| k) }

    pub fn remove(&mut self, k: &K) -> Option<K> { self.0.remove(k).map(|_| k.clone()) }

    #[must_use]
    pub fn len(&self) -> usize { self.0.len() }

    #[must_use]
    pub fn is_empty(&self) -> bool { self.0.is_empty() }

    pub fn iter(&self) -> impl Iterator<Item = &'static K> { self.0.keys() }
}
impl<K: Eq + Clone> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
        HashSet(it.into_iter().map(|k| (k, 1)).collect())
    }
}
impl<K: Eq + Clone> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
        self.0.extend(it.into_iter().map(|k| (k, 1)));
    }
}

/// `hash_map!`-style marker so `Hash` stays imported.
pub trait _Unused: Hash {}
