//! Multi-producer channel without threads: FIFO, `capacity` slots, closed when either side is
//! gone. Up to QCAP queued messages are modelled. Messages still queued when the channel goes
//! away are leaked.
pub use tokio_real::sync::mpsc::error;
use core::future::Future;
use core::mem::MaybeUninit;
use core::pin::Pin;
use core::task::{Context, Poll};
use error::{SendError, TryRecvError, TrySendError};
pub const QCAP: usize = 4;
pub struct Chan<T> { q: [MaybeUninit<T>; QCAP], head: usize, n: usize, cap: usize, senders: usize, rx: bool }
pub struct Sender<T> { c: *mut Chan<T> }
pub struct Receiver<T> { c: *mut Chan<T> }
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> core::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Sender") } }
impl<T> core::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Receiver") } }
impl<T> Chan<T> {
    /// A channel living in a variable of the harness: a typed object is cheaper for the model
    /// checker than one on the heap.
    pub const fn vp() -> Self { Chan { q: [const { MaybeUninit::uninit() }; QCAP], head: 0, n: 0, cap: 0, senders: 1, rx: true } }
    pub fn ends(&mut self, cap: usize) -> (Sender<T>, Receiver<T>) { self.cap = cap; let c: *mut Self = self; (Sender { c }, Receiver { c }) }
    fn put(&mut self, t: *const T) {
        if self.n >= QCAP { panic!("vp-model: queue of the channel model exceeded"); }
        let mut i = self.head + self.n;
        if i >= QCAP { i -= QCAP; }
        unsafe { core::ptr::copy_nonoverlapping(t, self.q[i].as_mut_ptr(), 1); }
        self.n += 1;
    }
}
pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
    let c = Box::leak(Box::new(Chan::vp()));
    c.ends(cap)
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { unsafe { (*self.c).senders += 1 }; Sender { c: self.c } } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { unsafe { (*self.c).senders -= 1 } } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { unsafe { (*self.c).rx = false } } }

/// The future of `send`: sends when polled and there is room; dropped unpolled, nothing is sent.
#[must_use = "futures do nothing unless you `.await` or poll them"]
pub struct SendFut<'a, T> { c: *mut Chan<T>, t: MaybeUninit<T>, _s: core::marker::PhantomData<&'a Sender<T>> }
impl<'a, T> Unpin for SendFut<'a, T> {}
unsafe impl<'a, T: Send> Send for SendFut<'a, T> {}
impl<'a, T> Future for SendFut<'a, T> {
    type Output = Result<(), SendError<T>>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        let s = self.get_mut();
        let c = unsafe { &mut *s.c };
        if !c.rx { return Poll::Ready(Err(SendError(unsafe { s.t.assume_init_read() }))); }
        if c.n >= c.cap { return Poll::Pending; }
        c.put(s.t.as_ptr());
        Poll::Ready(Ok(()))
    }
}
impl<T> Sender<T> {
    fn c(&self) -> &mut Chan<T> { unsafe { &mut *self.c } }
    pub fn send(&self, t: T) -> SendFut<'_, T> { SendFut { c: self.c, t: MaybeUninit::new(t), _s: core::marker::PhantomData } }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let c = self.c();
        if !c.rx { return Err(TrySendError::Closed(t)); }
        if c.n >= c.cap { return Err(TrySendError::Full(t)); }
        c.put(&t);
        core::mem::forget(t);
        Ok(())
    }
    pub fn is_closed(&self) -> bool { !self.c().rx }
    pub fn capacity(&self) -> usize { self.c().cap - self.c().n }
    pub fn same_channel(&self, o: &Self) -> bool { self.c == o.c }
    pub fn blocking_send(&self, t: T) -> Result<(), SendError<T>> {
        match self.try_send(t) { Ok(()) => Ok(()), Err(TrySendError::Closed(v)) => Err(SendError(v)), Err(TrySendError::Full(_)) => panic!("vp-model: blocking send on a full channel") }
    }
}
pub struct RecvFut<'a, T> { c: *mut Chan<T>, _r: core::marker::PhantomData<&'a mut Receiver<T>> }
impl<'a, T> Unpin for RecvFut<'a, T> {}
unsafe impl<'a, T: Send> Send for RecvFut<'a, T> {}
impl<'a, T> Future for RecvFut<'a, T> {
    type Output = Option<T>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<T>> {
        let p = self.c;
        let c = unsafe { &mut *p };
        match take(c) {
            Some(t) => Poll::Ready(Some(t)),
            None => if c.senders == 0 || !c.rx { Poll::Ready(None) } else { Poll::Pending },
        }
    }
}
fn take<T>(c: &mut Chan<T>) -> Option<T> {
    if c.n == 0 { return None; }
    let r = unsafe { c.q[c.head].assume_init_read() };
    c.head = if c.head + 1 == QCAP { 0 } else { c.head + 1 };
    c.n -= 1;
    Some(r)
}
impl<T> Receiver<T> {
    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
        let c = unsafe { &mut *self.c };
        match take(c) {
            Some(t) => Ok(t),
            None => Err(if c.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }),
        }
    }
    /// What the harness looks at: number of queued messages.
    pub fn vp_len(&self) -> usize { unsafe { (*self.c).n } }
    pub fn recv(&mut self) -> RecvFut<'_, T> { RecvFut { c: self.c, _r: core::marker::PhantomData } }
    pub fn close(&mut self) { unsafe { (*self.c).rx = false } }
}

/// The unbounded variant: sending never waits.
pub struct UnboundedSender<T> { c: *mut Chan<T> }
pub struct UnboundedReceiver<T> { c: *mut Chan<T> }
unsafe impl<T: Send> Send for UnboundedSender<T> {}
unsafe impl<T: Send> Sync for UnboundedSender<T> {}
unsafe impl<T: Send> Send for UnboundedReceiver<T> {}
unsafe impl<T: Send> Sync for UnboundedReceiver<T> {}
impl<T> core::fmt::Debug for UnboundedSender<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Sender") } }
impl<T> core::fmt::Debug for UnboundedReceiver<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Receiver") } }
pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let c: *mut Chan<T> = Box::leak(Box::new(Chan::vp()));
    unsafe { (*c).cap = usize::MAX };
    (UnboundedSender { c }, UnboundedReceiver { c })
}
impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { unsafe { (*self.c).senders += 1 }; UnboundedSender { c: self.c } } }
impl<T> Drop for UnboundedSender<T> { fn drop(&mut self) { unsafe { (*self.c).senders -= 1 } } }
impl<T> Drop for UnboundedReceiver<T> { fn drop(&mut self) { unsafe { (*self.c).rx = false } } }
impl<T> UnboundedSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        let c = unsafe { &mut *self.c };
        if !c.rx { return Err(SendError(t)); }
        c.put(&t);
        core::mem::forget(t);
        Ok(())
    }
    pub fn is_closed(&self) -> bool { unsafe { !(*self.c).rx } }
}
impl<T> UnboundedReceiver<T> {
    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
        let c = unsafe { &mut *self.c };
        match take(c) {
            Some(t) => Ok(t),
            None => Err(if c.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }),
        }
    }
    pub fn vp_len(&self) -> usize { unsafe { (*self.c).n } }
    pub fn recv(&mut self) -> RecvFut<'_, T> { RecvFut { c: self.c, _r: core::marker::PhantomData } }
    pub fn close(&mut self) { unsafe { (*self.c).rx = false } }
}
