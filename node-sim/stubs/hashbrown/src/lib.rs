//! Stand-in for hashbrown: std is hashbrown. The order of iteration, random in hashbrown, follows from a seed
//! that the simulator gives.
use std::hash::{BuildHasher, DefaultHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut};
pub use std::collections::{hash_map, hash_set};

/// where the seed of a new map comes from
pub static SIM_SEED: std::sync::OnceLock<fn() -> u64> = std::sync::OnceLock::new();

#[derive(Clone, Debug)]
pub struct State(u64);
impl Default for State {
    fn default() -> Self {
        State(SIM_SEED.get().map(|f| f()).unwrap_or(0))
    }
}
impl BuildHasher for State {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        let mut h = DefaultHasher::new();
        h.write_u64(self.0);
        h
    }
}
type S<T> = std::collections::HashSet<T, State>;
type M<K, V> = std::collections::HashMap<K, V, State>;

#[derive(Clone)]
pub struct HashSet<T>(S<T>);
#[derive(Clone)]
pub struct HashMap<K, V>(M<K, V>);
macro_rules! common {
    ($name:ident, $inner:ty, [$($g:ident),*], $item:ty, $key:ident) => {
        impl<$($g),*> Default for $name<$($g),*> {
            fn default() -> Self { $name(Default::default()) }
        }
        impl<$($g),*> $name<$($g),*> {
            pub fn new() -> Self { Self::default() }
            pub fn with_capacity(n: usize) -> Self { $name(<$inner>::with_capacity_and_hasher(n, State::default())) }
        }
        impl<$($g),*> Deref for $name<$($g),*> {
            type Target = $inner;
            fn deref(&self) -> &$inner { &self.0 }
        }
        impl<$($g),*> DerefMut for $name<$($g),*> {
            fn deref_mut(&mut self) -> &mut $inner { &mut self.0 }
        }
        impl<$($g),*> FromIterator<$item> for $name<$($g),*> where $key: Eq + Hash {
            fn from_iter<I: IntoIterator<Item = $item>>(i: I) -> Self { $name(i.into_iter().collect()) }
        }
        impl<$($g),*> Extend<$item> for $name<$($g),*> where $key: Eq + Hash {
            fn extend<I: IntoIterator<Item = $item>>(&mut self, i: I) { self.0.extend(i) }
        }
        impl<$($g),*> IntoIterator for $name<$($g),*> {
            type Item = $item;
            type IntoIter = <$inner as IntoIterator>::IntoIter;
            fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
        }
        impl<'a, $($g),*> IntoIterator for &'a $name<$($g),*> {
            type Item = <&'a $inner as IntoIterator>::Item;
            type IntoIter = <&'a $inner as IntoIterator>::IntoIter;
            fn into_iter(self) -> Self::IntoIter { self.0.iter() }
        }
    };
}
common!(HashSet, S<T>, [T], T, T);
common!(HashMap, M<K, V>, [K, V], (K, V), K);
impl<T: Eq + Hash> PartialEq for HashSet<T> {
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<T: Eq + Hash> Eq for HashSet<T> {}
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<T: std::fmt::Debug> std::fmt::Debug for HashSet<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self { a.into_iter().collect() }
}
