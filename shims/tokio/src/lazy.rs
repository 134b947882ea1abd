//! A future that does its work when polled (and nothing when dropped unpolled).
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
pub struct Lazy<F>(Option<F>);
impl<F> Unpin for Lazy<F> {}
impl<T, F: FnOnce() -> T> Future for Lazy<F> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<T> {
        match self.get_mut().0.take() { Some(f) => Poll::Ready(f()), None => panic!("polled after completion") }
    }
}
pub fn lazy<F>(f: F) -> Lazy<F> { Lazy(Some(f)) }
