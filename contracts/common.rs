//! Helpers shared by the contract harnesses.
#![allow(dead_code)]

/// Ghost state of a harness. Kani identifies a constant with a static of equal initial
/// contents, so that writing to the static would change the constant; every mutable static
/// therefore starts with contents of its own (`ghost!`).
pub struct Cell<T> { pub magic: u128, pub v: T }
pub const fn name_hash(s: &str) -> u128 {
    let b = s.as_bytes();
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
    let mut i = 0;
    while i < b.len() { h = (h ^ b[i] as u128).wrapping_mul(0x0000000001000000000000000000013B); i += 1; }
    h
}
#[macro_export]
macro_rules! ghost {
    ($($n:ident: $t:ty = $v:expr;)*) => { $( static mut $n: crate::vph::Cell<$t> = crate::vph::Cell { magic: crate::vph::name_hash(concat!(module_path!(), stringify!($n))), v: $v }; )* };
}
use std::net::{Ipv4Addr, SocketAddrV4};

/// A vector of length `n <= N` with arbitrary contents, over the full range 0..=N.
pub fn any_vec<const N: usize>() -> Vec<u8> {
    let a: [u8; N] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= N);
    a[..n].to_vec()
}

/// Arbitrary bytes of any number (up to 2^40).
pub fn any_bytes() -> Vec<u8> {
    let n: usize = kani::any();
    kani::assume(n <= 1 << 40);
    if n == 0 { return Vec::new(); }
    unsafe { Vec::from_raw_parts(std::alloc::alloc(std::alloc::Layout::from_size_align(n, 1).unwrap()), n, n) }
}

/// Runs a future to completion; the models never suspend a future that has what it needs.
pub fn block_on<T>(f: impl core::future::Future<Output = T>) -> T {
    let mut f = core::pin::pin!(f);
    match poll_once(f.as_mut()) {
        Some(x) => x,
        None => panic!("the operation waits although everything it needs is there"),
    }
}

fn noop_raw() -> core::task::RawWaker {
    fn clone(_: *const ()) -> core::task::RawWaker {
        noop_raw()
    }
    fn noop(_: *const ()) {}
    static VT: core::task::RawWakerVTable = core::task::RawWakerVTable::new(clone, noop, noop, noop);
    core::task::RawWaker::new(core::ptr::null(), &VT)
}

/// Polls a future once: `None` means it is waiting for something outside.
pub fn poll_once<F: core::future::Future>(f: core::pin::Pin<&mut F>) -> Option<F::Output> {
    let w = core::mem::ManuallyDrop::new(unsafe { core::task::Waker::from_raw(noop_raw()) });
    let mut cx = core::task::Context::from_waker(&w);
    match f.poll(&mut cx) {
        core::task::Poll::Ready(x) => Some(x),
        core::task::Poll::Pending => None,
    }
}

pub fn any_addr() -> SocketAddrV4 {
    let ip: [u8; 4] = kani::any();
    SocketAddrV4::new(Ipv4Addr::from(ip), kani::any())
}

/// Stubs for `Vec::reserve`/`Vec::push` in harnesses whose vectors never outgrow the capacity
/// of the model: growth is reported as "vp-model" (undecided), never assumed away silently.
pub fn vec_reserve<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, n: usize) {
    if v.capacity() - v.len() < n {
        panic!("vp-model: vector outgrew the capacity of the model");
    }
}
pub fn vec_push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, t: T) {
    let n = v.len();
    if n >= v.capacity() {
        panic!("vp-model: vector outgrew the capacity of the model");
    }
    unsafe {
        core::ptr::write(v.as_mut_ptr().add(n), t);
        v.set_len(n + 1);
    }
}

/// Equality of 20 bytes without a loop (a loop would tie the harness' unwinding to it).
pub fn eq20(a: &[u8], b: &[u8]) -> bool {
    assert!(a.len() == 20 && b.len() == 20);
    unsafe {
        let (p, q) = (a.as_ptr(), b.as_ptr());
        core::ptr::read_unaligned(p as *const u128) == core::ptr::read_unaligned(q as *const u128)
            && core::ptr::read_unaligned(p.add(16) as *const u32) == core::ptr::read_unaligned(q.add(16) as *const u32)
    }
}
/// Stand-in for `==` of identifiers, proved equal to it under P01 (`eq_and_bytes`).
pub fn id_eq(a: &crate::data_structures::ID, b: &crate::data_structures::ID) -> bool {
    eq20(a.as_byte_ref(), b.as_byte_ref())
}
/// Equality of addresses without a loop.
pub fn addr_eq(a: &SocketAddrV4, b: &SocketAddrV4) -> bool {
    u32::from_be_bytes(a.ip().octets()) == u32::from_be_bytes(b.ip().octets()) && a.port() == b.port()
}

/// Storage of a vector in a variable of the harness: a typed object is cheaper for the model
/// checker than one on the heap. The vector must never grow beyond it or be dropped.
pub struct Room<T, const N: usize>([core::mem::MaybeUninit<T>; N]);
impl<T, const N: usize> Room<T, N> {
    pub const fn new() -> Self { Room([const { core::mem::MaybeUninit::uninit() }; N]) }
    pub fn vec(&mut self) -> Vec<T> { unsafe { Vec::from_raw_parts(self.0.as_mut_ptr() as *mut T, 0, N) } }
    pub fn at(&self, i: usize) -> *const T { self.0[i].as_ptr() }
}
/// `push` without the growing branch.
pub fn put<T>(v: &mut Vec<T>, t: T) {
    let n = v.len();
    assert!(n < v.capacity());
    unsafe {
        core::ptr::write(v.as_mut_ptr().add(n), t);
        v.set_len(n + 1);
    }
}
