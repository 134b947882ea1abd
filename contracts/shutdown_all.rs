//! P29: contracts of the shutdown channel (anchored in shutdown.rs).
use super::*;
use crate::vph::poll_once;
use core::mem::ManuallyDrop;
use core::pin::Pin;

/// Whether the receiver is told to shut down by now.
fn told(r: &mut Receiver) -> bool {
    let mut f = ManuallyDrop::new(r.recv());
    poll_once(unsafe { Pin::new_unchecked(&mut *f) }).is_some()
}

// @claim: every task holding a receiver is told, and the request completes only when all of them have ended
// @bound: three tasks, ending in every order; one looks for the request before it is made
#[kani::proof]
#[kani::unwind(5)]
fn three_tasks() {
    let (tx, mut a) = channel();
    let mut b = a.clone();
    let mut c = b.clone();
    if kani::any() { assert!(!told(&mut b), "nobody is told before the request"); }
    let waiter = tx.send();
    let mut w = ManuallyDrop::new(waiter.wait());
    let mut w = unsafe { Pin::new_unchecked(&mut *w) };
    assert!(poll_once(w.as_mut()).is_none(), "the request is not complete while tasks are alive");
    assert!(told(&mut a) && told(&mut b), "the request reaches every task");
    assert!(told(&mut c), "the request reaches every task");
    assert!(poll_once(w.as_mut()).is_none(), "having been told is not having ended");
    let first: u8 = kani::any();
    let (x, y, z) = match first % 3 { 0 => (a, b, c), 1 => (b, c, a), _ => (c, a, b) };
    let (y, z) = if kani::any() { (y, z) } else { (z, y) };
    drop(x);
    assert!(poll_once(w.as_mut()).is_none(), "two tasks are alive");
    drop(y);
    assert!(poll_once(w.as_mut()).is_none(), "one task is alive");
    drop(z);
    assert!(poll_once(w.as_mut()).is_some(), "the request completes when all tasks have ended");
    kani::cover!(true);
}
// @claim: a task that is waiting for the request when it is made is woken by it
#[kani::proof]
#[kani::unwind(5)]
fn waiting_task() {
    let (tx, mut a) = channel();
    let mut f = ManuallyDrop::new(a.recv());
    let mut f = unsafe { Pin::new_unchecked(&mut *f) };
    assert!(poll_once(f.as_mut()).is_none());
    let waiter = tx.send();
    assert!(poll_once(f.as_mut()).is_some());
    core::mem::forget(waiter);
    kani::cover!(true);
}
// @claim: tasks that ended before the request are not waited for
#[kani::proof]
#[kani::unwind(5)]
fn ended_before() {
    let (tx, a) = channel();
    let mut b = a.clone();
    drop(a);
    let waiter = tx.send();
    let mut w = ManuallyDrop::new(waiter.wait());
    let mut w = unsafe { Pin::new_unchecked(&mut *w) };
    assert!(poll_once(w.as_mut()).is_none() && told(&mut b));
    drop(b);
    assert!(poll_once(w.as_mut()).is_some());
    kani::cover!(true);
}
// @claim: a request without any task left completes at once
#[kani::proof]
#[kani::unwind(5)]
fn nobody_left() {
    let (tx, a) = channel();
    drop(a);
    let waiter = tx.send();
    let mut w = ManuallyDrop::new(waiter.wait());
    assert!(poll_once(unsafe { Pin::new_unchecked(&mut *w) }).is_some());
    kani::cover!(true);
}
