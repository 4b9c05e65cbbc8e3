//! Hash containers whose iteration order is an explicit, controlled choice (check C24). `collections` stands in for
//! `std::collections`: everything is the standard library's, except that each iteration over a HashMap or HashSet asks
//! the explorer which order to take. Alternative 0 is a fixed order; unlisted choice points take it.
#![allow(deprecated)]
use std::cell::RefCell;
thread_local!(static STATE: RefCell<(Vec<(usize, usize)>, Vec<usize>, bool)> = const { RefCell::new((Vec::new(), Vec::new(), false)) });

/// `plan`: "<point>:<alternative>;..." or "rev" (every point in reverse)
pub fn begin(plan: &str) {
    let p = plan.split(';').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
    STATE.with(|s| *s.borrow_mut() = (p, Vec::new(), plan == "rev"));
}
/// sizes of the containers iterated over, in order
pub fn end() -> String {
    STATE.with(|s| s.borrow().1.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(";"))
}
fn fact(n: usize) -> usize { (1..=n).product() }
/// number of orders offered for n elements: all up to 4, then identity, reverse, rotations and neighbour swaps
pub fn alternatives(n: usize) -> usize { if n < 2 { 1 } else if n <= 4 { fact(n) } else { 2 + 2 * (n - 1) } }
fn order(n: usize, mut alt: usize) -> Vec<usize> {
    let mut l: Vec<usize> = (0..n).collect();
    if n < 2 { return l; }
    if n <= 4 {
        let mut r = Vec::new();
        while !l.is_empty() { let f = fact(l.len() - 1); r.push(l.remove(alt / f)); alt %= f; }
        return r;
    }
    match alt {
        0 => {}
        1 => l.reverse(),
        a if a < n + 1 => l.rotate_left(a - 1),
        a => l.swap(a - n - 1, a - n),
    }
    l
}
fn choose(n: usize) -> Option<Vec<usize>> {
    if n < 2 { return None; }
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let at = s.1.len();
        s.1.push(n);
        if s.2 { return Some((0..n).rev().collect()); }
        let alt = s.0.iter().find(|p| p.0 == at).map_or(0, |p| p.1);
        if alt == 0 { None } else { Some(order(n, alt)) }
    })
}
fn arrange<T>(v: Vec<T>) -> std::vec::IntoIter<T> {
    match choose(v.len()) {
        None => v.into_iter(),
        Some(o) => {
            let mut v: Vec<Option<T>> = v.into_iter().map(Some).collect();
            o.into_iter().map(|i| v[i].take().unwrap()).collect::<Vec<_>>().into_iter()
        }
    }
}

pub mod collections {
    pub use std::collections::*;
    use super::arrange;
    use std::borrow::Borrow;
    use std::collections::hash_map::DefaultHasher;
    use std::fmt;
    use std::hash::{BuildHasherDefault, Hash};
    use std::ops::{Deref, DerefMut, Index};
    use std::vec::IntoIter;
    type Fixed = BuildHasherDefault<DefaultHasher>;

    pub struct HashMap<K, V>(std::collections::HashMap<K, V, Fixed>);
    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self { Self::default() }
        pub fn with_capacity(_: usize) -> Self { Self::default() }
        pub fn iter(&self) -> IntoIter<(&K, &V)> { arrange(self.0.iter().collect()) }
        pub fn iter_mut(&mut self) -> IntoIter<(&K, &mut V)> { arrange(self.0.iter_mut().collect()) }
        pub fn keys(&self) -> IntoIter<&K> { arrange(self.0.keys().collect()) }
        pub fn values(&self) -> IntoIter<&V> { arrange(self.0.values().collect()) }
        pub fn values_mut(&mut self) -> IntoIter<&mut V> { arrange(self.0.values_mut().collect()) }
        pub fn into_keys(self) -> IntoIter<K> { arrange(self.0.into_keys().collect()) }
        pub fn into_values(self) -> IntoIter<V> { arrange(self.0.into_values().collect()) }
        pub fn drain(&mut self) -> IntoIter<(K, V)> { arrange(self.0.drain().collect()) }
    }
    impl<K: Eq + Hash, V> HashMap<K, V> {
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            let all: Vec<(K, V)> = self.drain().collect();
            for (k, mut v) in all { if f(&k, &mut v) { self.0.insert(k, v); } }
        }
    }
    impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self(Default::default()) } }
    impl<K: Clone, V: Clone> Clone for HashMap<K, V> { fn clone(&self) -> Self { Self(self.0.clone()) } }
    impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
    impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
    impl<K, V> Deref for HashMap<K, V> { type Target = std::collections::HashMap<K, V, Fixed>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<K, V> DerefMut for HashMap<K, V> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
    impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V> Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { &self.0[k] } }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<T: IntoIterator<Item = (K, V)>>(t: T) -> Self { Self(t.into_iter().collect()) } }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> { fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, t: T) { self.0.extend(t) } }
    impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { arrange(self.0.into_iter().collect()) } }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = IntoIter<(&'a K, &'a V)>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
    impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = IntoIter<(&'a K, &'a mut V)>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }

    pub struct HashSet<T>(std::collections::HashSet<T, Fixed>);
    impl<T> HashSet<T> {
        pub fn new() -> Self { Self::default() }
        pub fn with_capacity(_: usize) -> Self { Self::default() }
        pub fn iter(&self) -> IntoIter<&T> { arrange(self.0.iter().collect()) }
        pub fn drain(&mut self) -> IntoIter<T> { arrange(self.0.drain().collect()) }
    }
    impl<T: Eq + Hash> HashSet<T> {
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            let all: Vec<T> = self.drain().collect();
            for x in all { if f(&x) { self.0.insert(x); } }
        }
        pub fn union<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> { arrange(self.0.union(&o.0).collect()) }
        pub fn intersection<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> { arrange(self.0.intersection(&o.0).collect()) }
        pub fn difference<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> { arrange(self.0.difference(&o.0).collect()) }
        pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> { arrange(self.0.symmetric_difference(&o.0).collect()) }
        pub fn is_subset(&self, o: &Self) -> bool { self.0.is_subset(&o.0) }
        pub fn is_superset(&self, o: &Self) -> bool { self.0.is_superset(&o.0) }
        pub fn is_disjoint(&self, o: &Self) -> bool { self.0.is_disjoint(&o.0) }
    }
    impl<T> Default for HashSet<T> { fn default() -> Self { Self(Default::default()) } }
    impl<T: Clone> Clone for HashSet<T> { fn clone(&self) -> Self { Self(self.0.clone()) } }
    impl<T: fmt::Debug> fmt::Debug for HashSet<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
    impl<T: Eq + Hash> PartialEq for HashSet<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<T: Eq + Hash> Eq for HashSet<T> {}
    impl<T> Deref for HashSet<T> { type Target = std::collections::HashSet<T, Fixed>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<T> DerefMut for HashSet<T> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
    impl<T: Eq + Hash> FromIterator<T> for HashSet<T> { fn from_iter<I: IntoIterator<Item = T>>(t: I) -> Self { Self(t.into_iter().collect()) } }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
    impl<T: Eq + Hash> Extend<T> for HashSet<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, t: I) { self.0.extend(t) } }
    impl<T> IntoIterator for HashSet<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> Self::IntoIter { arrange(self.0.into_iter().collect()) } }
    impl<'a, T> IntoIterator for &'a HashSet<T> { type Item = &'a T; type IntoIter = IntoIter<&'a T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
}
