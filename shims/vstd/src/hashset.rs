use std::borrow::Borrow;
use std::fmt;
use crate::arr::{self, Arr};

#[derive(Clone)]
pub struct HashSet<T> { e: Arr<T> }

impl<T> HashSet<T> {
    pub fn new() -> Self { Self { e: Arr::new() } }
    pub fn with_capacity(_n: usize) -> Self { Self { e: Arr::new() } }
    pub fn len(&self) -> usize { self.e.len() }
    pub fn is_empty(&self) -> bool { self.e.len() == 0 }
    pub fn clear(&mut self) { self.e.clear() }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn iter(&self) -> arr::Iter<'_, T> { self.e.iter() }
    pub fn drain(&mut self) -> arr::IntoIter<T> { self.e.drain() }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.e.retain(|x| f(x)) }
}
impl<T: Eq> HashSet<T> {
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where T: Borrow<Q> {
        self.e.pos(|x| x.borrow() == k)
    }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where T: Borrow<Q> { self.pos(k).is_some() }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&T> where T: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(self.e.at(i)), None => None }
    }
    pub fn insert(&mut self, t: T) -> bool {
        if self.pos(&t).is_some() { false } else { self.e.push(t); true }
    }
    pub fn replace(&mut self, t: T) -> Option<T> {
        match self.pos(&t) { Some(i) => Some(::std::mem::replace(self.e.at_mut(i), t)), None => { self.e.push(t); None } }
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where T: Borrow<Q> {
        match self.pos(k) { Some(i) => { self.e.swap_remove(i); true } None => false }
    }
    pub fn take<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<T> where T: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(self.e.swap_remove(i)), None => None }
    }
    pub fn is_subset(&self, o: &HashSet<T>) -> bool { self.e.iter().all(|x| o.contains(x)) }
    pub fn is_disjoint(&self, o: &HashSet<T>) -> bool { self.e.iter().all(|x| !o.contains(x)) }
}
impl<T> Default for HashSet<T> { fn default() -> Self { Self::new() } }
impl<T: fmt::Debug> fmt::Debug for HashSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("HashSet") }
}
impl<T: Eq> PartialEq for HashSet<T> {
    fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) }
}
impl<T: Eq> Eq for HashSet<T> {}
impl<T: Eq> Extend<T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for t in it { self.insert(t); } }
}
impl<'a, T: Eq + Copy + 'a> Extend<&'a T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for t in it { self.insert(*t); } }
}
impl<T: Eq> FromIterator<T> for HashSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = Self::new(); m.extend(it); m }
}
impl<T: Eq, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self { a.into_iter().collect() }
}
impl<T> IntoIterator for HashSet<T> {
    type Item = T;
    type IntoIter = arr::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter { self.e.into_iter() }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
    type Item = &'a T;
    type IntoIter = arr::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter { self.e.iter() }
}
