//! Futures whose work is done when they are made (see tools/deasync.py).
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[must_use]
pub struct Now<T>(Option<T>);
impl<T> Unpin for Now<T> {}
pub fn now<T, F: FnOnce() -> T>(f: F) -> Now<T> { Now(Some(f())) }
impl<T> Now<T> {
    /// What a contract returns for an operation that is still under way.
    pub fn pending() -> Self { Now(None) }
    pub fn vp_wait(self) -> T { match self.0 { Some(t) => t, None => panic!("vp-model: a contract that waits is called where it has to finish") } }
}
impl<T> Future for Now<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<T> {
        match self.get_mut().0.take() { Some(t) => Poll::Ready(t), None => Poll::Pending }
    }
}
/// Set by a harness that expects the code to wait for more input at the end.
pub struct Expect { pub magic: u128, pub v: bool, pub done: *const usize, pub want: usize }
pub static mut EXPECT_WAIT: Expect = Expect { magic: 0x7670_6e6f_7765_7870_6563_7477_6169_7421, v: false, done: core::ptr::null(), want: 0 };
fn raw() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker { raw() }
    fn noop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    RawWaker::new(core::ptr::null(), &VT)
}
pub trait Wait { type Out; fn vp_wait(self) -> Self::Out; }
impl<F: Future> Wait for F {
    type Out = F::Output;
    fn vp_wait(self) -> F::Output {
        let mut f = self;
        let w = core::mem::ManuallyDrop::new(unsafe { Waker::from_raw(raw()) });
        let mut cx = Context::from_waker(&w);
        match unsafe { Pin::new_unchecked(&mut f) }.poll(&mut cx) {
            Poll::Ready(x) => x,
            Poll::Pending => {
                #[cfg(kani)]
                if unsafe { EXPECT_WAIT.v } {
                    unsafe {
                        if !EXPECT_WAIT.done.is_null() {
                            assert!(*EXPECT_WAIT.done == EXPECT_WAIT.want, "what has arrived is dealt with before more is waited for");
                        }
                    }
                    kani::assume(false);
                }
                panic!("the operation waits although everything it needs is there")
            }
        }
    }
}
