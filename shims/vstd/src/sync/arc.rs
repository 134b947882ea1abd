//! Arc without threads. Its contents are leaked. A harness may provide the storage: a typed
//! variable of the harness is cheaper for the model checker than a heap object.
use ::std::cell::Cell;
use ::std::ops::Deref;
pub struct Inner<T: ?Sized> { n: Cell<usize>, v: T }
impl<T> Inner<T> { pub const fn vp(v: T) -> Self { Inner { n: Cell::new(0), v } } }
pub struct Arc<T: ?Sized> { p: *const Inner<T> }
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}
impl<T> Arc<T> {
    pub fn new(v: T) -> Self { Self::vp_at(Box::leak(Box::new(Inner::vp(v)))) }
    pub fn vp_at(i: &Inner<T>) -> Self { i.n.set(i.n.get() + 1); Arc { p: i } }
    pub fn strong_count(t: &Self) -> usize { t.i().n.get() }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool { a.p == b.p }
}
impl<T: ?Sized> Arc<T> { fn i(&self) -> &Inner<T> { unsafe { &*self.p } } }
impl<T: ?Sized> Deref for Arc<T> { type Target = T; fn deref(&self) -> &T { &self.i().v } }
impl<T: ?Sized> Clone for Arc<T> { fn clone(&self) -> Self { self.i().n.set(self.i().n.get() + 1); Arc { p: self.p } } }
impl<T: ?Sized> Drop for Arc<T> { fn drop(&mut self) { self.i().n.set(self.i().n.get() - 1); } }
impl<T: Default> Default for Arc<T> { fn default() -> Self { Arc::new(T::default()) } }
impl<T> From<T> for Arc<T> { fn from(v: T) -> Self { Arc::new(v) } }
impl<T: ?Sized> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { &**self } }
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("Arc") }
}
