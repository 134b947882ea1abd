//! Broadcast channel without threads: every receiver gets every message sent after it was
//! created; one that falls more than `cap` behind is told it lagged.
pub use tokio_real::sync::broadcast::error;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
use error::{RecvError, SendError, TryRecvError};
const QCAP: usize = 3;
struct Chan<T> { q: [Option<T>; QCAP], sent: usize, cap: usize, senders: usize, rxs: usize }
pub struct Sender<T> { c: *mut Chan<T> }
pub struct Receiver<T> { c: *mut Chan<T>, next: usize }
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> core::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Sender") } }
impl<T> core::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Receiver") } }
pub fn channel<T: Clone>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let c = Box::leak(Box::new(Chan { q: [const { None }; QCAP], sent: 0, cap, senders: 1, rxs: 1 }));
    (Sender { c }, Receiver { c, next: 0 })
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { unsafe { (*self.c).senders += 1 }; Sender { c: self.c } } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { unsafe { (*self.c).senders -= 1 } } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { unsafe { (*self.c).rxs -= 1 } } }
impl<T> Sender<T> {
    pub fn subscribe(&self) -> Receiver<T> { let c = unsafe { &mut *self.c }; c.rxs += 1; Receiver { c: self.c, next: c.sent } }
    pub fn receiver_count(&self) -> usize { unsafe { (*self.c).rxs } }
    pub fn send(&self, t: T) -> Result<usize, SendError<T>> {
        let c = unsafe { &mut *self.c };
        if c.rxs == 0 { return Err(SendError(t)); }
        if c.sent >= QCAP { panic!("vp-model: queue of the broadcast model exceeded"); }
        c.q[c.sent] = Some(t);
        c.sent += 1;
        Ok(c.rxs)
    }
}
impl<T: Clone> Receiver<T> {
    pub fn resubscribe(&self) -> Self { let c = unsafe { &mut *self.c }; c.rxs += 1; Receiver { c: self.c, next: c.sent } }
    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
        let c = unsafe { &mut *self.c };
        if self.next + c.cap < c.sent { let n = c.sent - c.cap - self.next; self.next += n; return Err(TryRecvError::Lagged(n as u64)); }
        if self.next == c.sent { return Err(if c.senders == 0 { TryRecvError::Closed } else { TryRecvError::Empty }); }
        let r = c.q[self.next].clone();
        self.next += 1;
        match r { Some(t) => Ok(t), None => unreachable!() }
    }
    pub fn recv(&mut self) -> RecvFut<'_, T> { RecvFut { r: self } }
}
pub struct RecvFut<'a, T> { r: &'a mut Receiver<T> }
impl<'a, T: Clone> Future for RecvFut<'a, T> {
    type Output = Result<T, RecvError>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match self.get_mut().r.try_recv() {
            Ok(t) => Poll::Ready(Ok(t)),
            Err(TryRecvError::Closed) => Poll::Ready(Err(RecvError::Closed)),
            Err(TryRecvError::Lagged(n)) => Poll::Ready(Err(RecvError::Lagged(n))),
            Err(TryRecvError::Empty) => Poll::Pending,
        }
    }
}
