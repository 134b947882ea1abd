//! Backing store of the map/set models: up to CAP elements held inline and contiguous, so that
//! the model checker needs no heap for them. Exceeding CAP is reported as "vp-model" and makes
//! the obligation undecided, never a violation.
#[cfg(feature = "cap2")]
pub const CAP: usize = 2;
#[cfg(feature = "cap3")]
pub const CAP: usize = 3;
#[cfg(feature = "cap4")]
pub const CAP: usize = 4;
#[cfg(feature = "cap6")]
pub const CAP: usize = 6;
#[cfg(feature = "cap8")]
pub const CAP: usize = 8;
#[cfg(feature = "cap12")]
pub const CAP: usize = 12;


#[derive(Clone)]
pub struct Arr<T> {
    a: [Option<T>; CAP],
    n: usize,
}

impl<T> Arr<T> {
    pub fn new() -> Self { Arr { a: [const { None }; CAP], n: 0 } }
    pub fn len(&self) -> usize { self.n }
    pub fn clear(&mut self) {
        let mut i = 0;
        while i < CAP { self.a[i] = None; i += 1; }
        self.n = 0;
    }
    pub fn at(&self, i: usize) -> &T {
        match &self.a[i] { Some(x) => x, None => unreachable!() }
    }
    pub fn at_mut(&mut self, i: usize) -> &mut T {
        match &mut self.a[i] { Some(x) => x, None => unreachable!() }
    }
    pub fn push(&mut self, t: T) -> usize {
        if self.n >= CAP { panic!("vp-model: capacity of the finite map model exceeded"); }
        let i = self.n;
        self.a[i] = Some(t);
        self.n += 1;
        i
    }
    pub fn swap_remove(&mut self, i: usize) -> T {
        let last = self.n - 1;
        let l = self.a[last].take();
        self.n = last;
        if i == last {
            match l { Some(x) => x, None => unreachable!() }
        } else {
            match ::std::mem::replace(&mut self.a[i], l) { Some(x) => x, None => unreachable!() }
        }
    }
    pub fn pos<F: Fn(&T) -> bool>(&self, f: F) -> Option<usize> {
        let mut i = 0;
        while i < CAP {
            match &self.a[i] {
                None => return None,
                Some(x) => if f(x) { return Some(i); }
            }
            i += 1;
        }
        None
    }
    pub fn iter(&self) -> Iter<'_, T> { Iter { i: self.a.iter(), left: self.n } }
    pub fn iter_mut(&mut self) -> IterMut<'_, T> { IterMut { left: self.n, i: self.a.iter_mut() } }
    pub fn into_iter(self) -> IntoIter<T> { IntoIter { left: self.n, i: self.a.into_iter() } }
    pub fn drain(&mut self) -> IntoIter<T> { ::std::mem::replace(self, Arr::new()).into_iter() }
    pub fn retain<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        let mut w = 0;
        while i < CAP {
            match self.a[i].take() {
                None => break,
                Some(mut x) => if f(&mut x) { self.a[w] = Some(x); w += 1; }
            }
            i += 1;
        }
        self.n = w;
    }
}

macro_rules! iter {
    ($name:ident, [$($g:tt)*], $inner:ty, $item:ty, $p:pat => $e:expr) => {
        pub struct $name<$($g)*> { i: $inner, left: usize }
        impl<$($g)*> Iterator for $name<$($g)*> {
            type Item = $item;
            fn next(&mut self) -> Option<$item> {
                match self.i.next() { Some($p) => { self.left -= 1; Some($e) } _ => None }
            }
            // The lower bound is 0 on purpose (allowed by the contract of size_hint): it keeps
            // the capacity of collections built from the iterator concrete.
            fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.left)) }
        }
        impl<$($g)*> ExactSizeIterator for $name<$($g)*> { fn len(&self) -> usize { self.left } }
    };
}
iter!(Iter, ['a, T], ::std::slice::Iter<'a, Option<T>>, &'a T, Some(x) => x);
iter!(IterMut, ['a, T], ::std::slice::IterMut<'a, Option<T>>, &'a mut T, Some(x) => x);
iter!(IntoIter, [T], ::std::array::IntoIter<Option<T>, CAP>, T, Some(x) => x);
impl<'a, T> Clone for Iter<'a, T> { fn clone(&self) -> Self { Iter { i: self.i.clone(), left: self.left } } }
