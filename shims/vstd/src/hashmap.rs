use std::borrow::Borrow;
use std::fmt;
use std::ops::Index;
use crate::arr::{self, Arr};

#[derive(Clone)]
pub struct HashMap<K, V> {
    pub(crate) e: Arr<(K, V)>,
}

impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { Self { e: Arr::new() } }
    pub fn with_capacity(_n: usize) -> Self { Self { e: Arr::new() } }
    pub fn len(&self) -> usize { self.e.len() }
    pub fn is_empty(&self) -> bool { self.e.len() == 0 }
    pub fn clear(&mut self) { self.e.clear() }
    pub fn capacity(&self) -> usize { arr::CAP }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { i: self.e.iter() } }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { i: self.e.iter_mut() } }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys { i: self.e.iter() } }
    pub fn values(&self) -> Values<'_, K, V> { Values { i: self.e.iter() } }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut { i: self.e.iter_mut() } }
    pub fn into_keys(self) -> impl Iterator<Item = K> { self.e.into_iter().map(|x| x.0) }
    pub fn into_values(self) -> impl Iterator<Item = V> { self.e.into_iter().map(|x| x.1) }
    pub fn drain(&mut self) -> arr::IntoIter<(K, V)> { self.e.drain() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        self.e.retain(|(k, v)| f(k, v))
    }
}

impl<K: Eq, V> HashMap<K, V> {
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        self.e.pos(|x| x.0.borrow() == k)
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(&self.e.at(i).1), None => None }
    }
    pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some((&self.e.at(i).0, &self.e.at(i).1)), None => None }
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(&mut self.e.at_mut(i).1), None => None }
    }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
            Some(i) => Some(::std::mem::replace(&mut self.e.at_mut(i).1, v)),
            None => { self.e.push((k, v)); None }
        }
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(self.e.swap_remove(i).1), None => None }
    }
    pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(self.e.swap_remove(i)), None => None }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.pos(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { m: self, i, key: k }),
            None => Entry::Vacant(VacantEntry { m: self, k }),
        }
    }
}

impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("HashMap") }
}
impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.e.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w))
    }
}
impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
}
impl<'a, K: Eq + Copy, V: Copy> Extend<(&'a K, &'a V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) { for (k, v) in it { self.insert(*k, *v); } }
}
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::new(); m.extend(it); m }
}
impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self { let mut m = Self::new(); for (k, v) in a { m.insert(k, v); } m }
}
impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = arr::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter { self.e.into_iter() }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter { self.iter_mut() }
}

pub struct Iter<'a, K, V> { i: arr::Iter<'a, (K, V)> }
impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { i: self.i.clone() } } }
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> { match self.i.next() { Some(x) => Some((&x.0, &x.1)), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> { fn len(&self) -> usize { self.i.len() } }
pub struct IterMut<'a, K, V> { i: arr::IterMut<'a, (K, V)> }
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> { match self.i.next() { Some(x) => Some((&x.0, &mut x.1)), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> { fn len(&self) -> usize { self.i.len() } }
pub struct Keys<'a, K, V> { i: arr::Iter<'a, (K, V)> }
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> { match self.i.next() { Some(x) => Some(&x.0), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> { fn len(&self) -> usize { self.i.len() } }
pub struct Values<'a, K, V> { i: arr::Iter<'a, (K, V)> }
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    fn next(&mut self) -> Option<&'a V> { match self.i.next() { Some(x) => Some(&x.1), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
impl<'a, K, V> ExactSizeIterator for Values<'a, K, V> { fn len(&self) -> usize { self.i.len() } }
pub struct ValuesMut<'a, K, V> { i: arr::IterMut<'a, (K, V)> }
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    fn next(&mut self) -> Option<&'a mut V> { match self.i.next() { Some(x) => Some(&mut x.1), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
impl<'a, K, V> ExactSizeIterator for ValuesMut<'a, K, V> { fn len(&self) -> usize { self.i.len() } }

pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { m: &'a mut HashMap<K, V>, i: usize, key: K }
pub struct VacantEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V { &self.m.e.at(self.i).1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.m.e.at_mut(self.i).1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.m.e.at_mut(self.i).1 }
    pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(&mut self.m.e.at_mut(self.i).1, v) }
    pub fn remove(self) -> V { self.m.e.swap_remove(self.i).1 }
    pub fn remove_entry(self) -> (K, V) { self.m.e.swap_remove(self.i) }
    pub fn key(&self) -> &K { &self.key }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> &'a mut V {
        let i = self.m.e.push((self.k, v));
        &mut self.m.e.at_mut(i).1
    }
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v) }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => { let v = f(&e.k); e.insert(v) } }
    }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(e) = &mut self { f(e.get_mut()) }
        self
    }
    pub fn key(&self) -> &K { match self { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => e.key() } }
}
