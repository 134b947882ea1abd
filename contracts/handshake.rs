//! P06: contract of `initiate_handshake` (anchored in peers/connection/handshake.rs).
//!
//! The network is the stream model of the tokio stand-in: the peer's bytes are arbitrary, they
//! arrive in the segments given by `cuts`, and the stream then ends (or stays silent).
use super::*;
use crate::vph::{any_addr, block_on, eq20, poll_once};
use tokio::vp::{End, NET};

const PROTO: [u8; 20] = *b"\x13BitTorrent protocol";

fn starts_with_protocol(b: &[u8]) -> bool {
    eq20(&b[..20], &PROTO)
}
/// The 68 bytes this client has to have sent.
fn sent_handshake(hash: &[u8; 20], own: &[u8; 20]) {
    unsafe {
        assert!(NET.v.out_len == 68, "exactly the 68-byte handshake is sent");
        assert!(starts_with_protocol(&NET.v.out), "the handshake names the protocol");
        assert!(eq20(&NET.v.out[28..48], hash), "the handshake names the torrent");
        assert!(eq20(&NET.v.out[48..68], own), "the handshake names this client");
    }
}

macro_rules! reply {
    ($name:ident, $cuts:expr) => {
        #[kani::proof]
        #[kani::unwind(82)]
        fn $name() {
            let (hash, own): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
            let addr = any_addr();
            let reply: [u8; 68] = kani::any();
            let behind: u8 = kani::any();
            unsafe {
                NET.v.input[..68].copy_from_slice(&reply);
                NET.v.input[68] = behind;
                NET.v.in_len = 69;
                NET.v.cuts = $cuts;
            }
            let (h, o) = (ID::new(hash), ID::new(own));
            let r = block_on(initiate_handshake(&addr, &h, &o));
            let good = starts_with_protocol(&reply) && eq20(&reply[28..48], &hash);
            assert!(r.is_ok() == good, "a connection is handed out exactly for a matching reply");
            sent_handshake(&hash, &own);
            unsafe {
                assert!(NET.v.connected == 1 && NET.v.target == Some(addr), "the peer asked for is the one connected to");
                assert!(!good || NET.v.pos == 68, "the bytes behind the reply are left for the connection");
            }
            kani::cover!(good);
            kani::cover!(!good && starts_with_protocol(&reply));
            core::mem::forget(r);
        }
    };
}
// @claim: a reply that arrives at once
reply!(reply_at_once, [usize::MAX; 3]);
// @claim: a reply in three segments
// @bound: the segments are 1, 20 and 47 bytes
reply!(reply_in_three, [1, 20, 47]);
// @claim: a reply whose last byte comes alone
// @bound: the segments are 67 and 1 bytes
reply!(reply_last_byte_late, [67, 1, 1]);

macro_rules! closed {
    ($name:ident, $n:expr, $cuts:expr) => {
        #[kani::proof]
        #[kani::unwind(82)]
        fn $name() {
            let (hash, own): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
            let reply: [u8; 68] = kani::any();
            unsafe {
                NET.v.input[..68].copy_from_slice(&reply);
                NET.v.in_len = $n;
                NET.v.cuts = $cuts;
            }
            let (h, o) = (ID::new(hash), ID::new(own));
            let r = block_on(initiate_handshake(&any_addr(), &h, &o));
            assert!(r.is_err(), "an incomplete reply is refused");
            kani::cover!(starts_with_protocol(&reply) && eq20(&reply[28..48], &hash));
            core::mem::forget(r);
        }
    };
}
// @claim: a connection closed without a byte is refused
closed!(closed_at_0, 0, [usize::MAX; 3]);
// @claim: a connection closed within the reply is refused
// @bound: after 20, 48 and 67 bytes, in one or two segments
closed!(closed_at_20, 20, [usize::MAX; 3]);
// @claim: a connection closed within the reply is refused
// @bound: after 20, 48 and 67 bytes, in one or two segments
closed!(closed_at_48, 48, [28, 20, 20]);
// @claim: a connection closed within the reply is refused
// @bound: after 20, 48 and 67 bytes, in one or two segments
closed!(closed_at_67, 67, [usize::MAX; 3]);

// @claim: no connection is handed out before the complete reply is there
// @bound: 67 of the 68 bytes are there
#[kani::proof]
#[kani::unwind(82)]
fn incomplete_reply_is_awaited() {
    let (hash, own): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
    let reply: [u8; 68] = kani::any();
    unsafe {
        NET.v.input[..68].copy_from_slice(&reply);
        NET.v.in_len = 67;
        NET.v.end = End::Pending;
    }
    let (h, o, a) = (ID::new(hash), ID::new(own), any_addr());
    let mut f = core::pin::pin!(initiate_handshake(&a, &h, &o));
    let r = poll_once(f.as_mut());
    assert!(r.is_none(), "the handshake waits for the rest of the reply");
    kani::cover!(r.is_none());
    core::mem::forget(r);
}

// @claim: an unreachable peer is an error
#[kani::proof]
#[kani::unwind(82)]
fn refused() {
    unsafe { NET.v.refuse = true }
    let (h, o) = (ID::new(kani::any()), ID::new(kani::any()));
    let r = block_on(initiate_handshake(&any_addr(), &h, &o));
    assert!(r.is_err());
    unsafe { assert!(NET.v.out_len == 0); }
    kani::cover!(true);
    core::mem::forget(r);
}
