pub use tokio_real::net::*;
use crate::vp::{self, End, NET};
use crate::lazy::lazy;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
use std::io;
use std::net::{SocketAddr, SocketAddrV4};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

fn err() -> io::Error { io::Error::from(io::ErrorKind::ConnectionReset) }

pub trait Addr { fn v4(&self) -> Option<SocketAddrV4>; }
impl Addr for SocketAddrV4 { fn v4(&self) -> Option<SocketAddrV4> { Some(*self) } }
impl Addr for SocketAddr { fn v4(&self) -> Option<SocketAddrV4> { match self { SocketAddr::V4(a) => Some(*a), _ => None } } }
impl<T: Addr> Addr for &T { fn v4(&self) -> Option<SocketAddrV4> { (**self).v4() } }
impl Addr for String { fn v4(&self) -> Option<SocketAddrV4> { None } }
impl Addr for &str { fn v4(&self) -> Option<SocketAddrV4> { None } }

#[derive(Debug)]
pub struct TcpStream { pub(crate) _p: () }
impl TcpStream {
    pub fn connect<A: Addr>(a: A) -> impl Future<Output = io::Result<TcpStream>> {
        lazy(move || {
            unsafe {
                NET.v.target = a.v4();
                if NET.v.refuse { return Err(err()); }
                NET.v.connected += 1;
            }
            Ok(TcpStream { _p: () })
        })
    }
    /// A connected stream, for contracts of code that is given one.
    pub fn vp_connected() -> TcpStream { TcpStream { _p: () } }
    pub fn split(&mut self) -> (crate::io::ReadHalf<&mut TcpStream>, crate::io::WriteHalf<&mut TcpStream>) { crate::io::split(self) }
    pub fn into_split(self) -> (crate::io::ReadHalf<TcpStream>, crate::io::WriteHalf<TcpStream>) { crate::io::split(self) }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = unsafe { &mut NET.v };
        let room = b.remaining();
        if room == 0 { return Poll::Ready(Ok(())); }
        let avail = n.in_len - n.pos;
        if avail == 0 {
            n.reads_after_end += 1;
            return match n.end { End::Eof => Poll::Ready(Ok(())), End::Pending => Poll::Pending, End::Error => Poll::Ready(Err(err())) };
        }
        let mut m = if n.k < 3 { n.cuts[n.k] } else { n.every };
        n.k += 1;
        if m == 0 { m = 1; }
        if m > avail { m = avail; }
        if m > room { m = room; }
        let dst = b.initialize_unfilled();
        let mut i = 0;
        while i < m {
            dst[i] = if n.src.is_null() { n.input[n.pos + i] } else { unsafe { *n.src.add(n.pos + i) } };
            i += 1;
        }
        n.pos += m;
        b.advance(m);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let n = unsafe { &mut NET.v };
        let mut i = 0;
        while i < b.len() {
            if n.out_len + i >= vp::OUT { panic!("vp-model: output buffer of the stream model exceeded"); }
            n.out[n.out_len + i] = b[i];
            i += 1;
        }
        n.out_len += b.len();
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { unsafe { NET.v.shut = true }; Poll::Ready(Ok(())) }
}

#[derive(Debug)]
pub struct UdpSocket { _p: () }
impl UdpSocket {
    pub fn bind<A: Addr>(_a: A) -> impl Future<Output = io::Result<UdpSocket>> { lazy(move || Ok(UdpSocket { _p: () })) }
    pub fn vp_bound() -> UdpSocket { UdpSocket { _p: () } }
    pub fn send_to<'a, A: Addr + 'a>(&'a self, buf: &'a [u8], a: A) -> impl Future<Output = io::Result<usize>> + 'a {
        lazy(move || {
            unsafe {
                vp::SENT.v += 1;
                vp::SENT_TO.v = a.v4().map(SocketAddr::V4);
            }
            Ok(buf.len())
        })
    }
    /// Hands out the one datagram of the model, then stays pending.
    pub fn recv_from<'a>(&self, b: &'a mut [u8]) -> RecvFrom<'a> { RecvFrom { b } }
}
pub struct RecvFrom<'a> { b: &'a mut [u8] }
impl<'a> Future for RecvFrom<'a> {
    type Output = io::Result<(usize, SocketAddr)>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        let b = &mut self.get_mut().b;
        let (len, from) = unsafe {
            match vp::DGRAM_FROM.v.take() {
                Some(f) => (vp::DGRAM_LEN.v, f),
                None => return Poll::Pending,
            }
        };
        let n = if len < b.len() { len } else { b.len() };
        let mut i = 0;
        while i < vp::DGRAM_BYTES {
            if i < n { b[i] = unsafe { vp::DGRAM.v[i] }; }
            i += 1;
        }
        Poll::Ready(Ok((n, from)))
    }
}
