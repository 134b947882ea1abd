//! P07: contracts of the compact peer encoding (anchored in peers/peer.rs).
use super::*;
use crate::vph::{addr_eq, any_addr};
use super::vp_wire_serde::{decode, encode};
use core::mem::forget;

// @claim: a peer is encoded as its address bytes and its port in big-endian order, and that decodes to the same peer
#[kani::proof]
#[kani::unwind(8)]
fn peer_there_and_back() {
    let a = any_addr();
    let o = encode(&Peer::new(a));
    assert!(o.n == COMPACT_PEER_LEN && o.n == 6, "six bytes");
    let ip = a.ip().octets();
    assert!(o.b[0] == ip[0] && o.b[1] == ip[1] && o.b[2] == ip[2] && o.b[3] == ip[3], "the address bytes in order");
    assert!(o.b[4] as u16 == a.port() >> 8 && o.b[5] as u16 == a.port() & 255, "then the port, most significant byte first");
    let p: Option<Peer> = decode(&o.b[..6]);
    assert!(p.is_some() && addr_eq(p.unwrap().addr(), &a), "the encoding decodes to the same peer");
    kani::cover!(a.port() > 255);
}
fn bytes<const N: usize>() {
    let b: [u8; N] = kani::any();
    let p: Option<Peer> = decode(&b);
    assert!(p.is_some() == (N == 6), "exactly six bytes are a peer");
    if let Some(p) = p {
        let o = encode(&p);
        assert!(o.n == 6 && o.b[0] == b[0] && o.b[1] == b[1] && o.b[2] == b[2] && o.b[3] == b[3] && o.b[4] == b[4] && o.b[5] == b[5], "encoding what was decoded gives the same bytes");
    }
    kani::cover!();
}
macro_rules! bytes { ($name:ident, $n:expr) => { #[kani::proof] #[kani::unwind(8)] fn $name() { bytes::<$n>() } }; }
// @claim: six bytes decode to a peer that encodes to the same bytes
bytes!(peer_6_bytes, 6);
// @claim: any other number of bytes is refused
// @bound: up to 255 bytes
#[kani::proof]
#[kani::unwind(8)]
fn other_lengths_are_refused() {
    let b: [u8; 255] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 255 && n != 6);
    let p: Option<Peer> = decode(&b[..n]);
    assert!(p.is_none(), "exactly six bytes are a peer");
    kani::cover!(n == 0);
    kani::cover!(n == 18);
}
