use core::cell::UnsafeCell;
use core::pin::Pin;
use core::task::{Context, Poll};
use std::io;
use std::sync::Arc;
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};
pub struct ReadHalf<T> { s: Arc<UnsafeCell<T>> }
pub struct WriteHalf<T> { s: Arc<UnsafeCell<T>> }
unsafe impl<T: Send> Send for ReadHalf<T> {}
unsafe impl<T: Send> Send for WriteHalf<T> {}
unsafe impl<T: Send> Sync for ReadHalf<T> {}
unsafe impl<T: Send> Sync for WriteHalf<T> {}
pub fn split<T: AsyncRead + AsyncWrite>(t: T) -> (ReadHalf<T>, WriteHalf<T>) {
    let s = Arc::new(UnsafeCell::new(t));
    (ReadHalf { s: s.clone() }, WriteHalf { s })
}
impl<T: AsyncRead + Unpin> AsyncRead for ReadHalf<T> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(unsafe { &mut *self.s.get() }).poll_read(cx, b)
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for WriteHalf<T> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(unsafe { &mut *self.s.get() }).poll_write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(unsafe { &mut *self.s.get() }).poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(unsafe { &mut *self.s.get() }).poll_shutdown(cx)
    }
}
