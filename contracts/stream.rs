//! P05: contract of the receive loop `manager_receiver` (anchored in
//! peers/connection/connection_manager.rs): the messages of the stream, each once, in order.
//!
//! The decoder is replaced by its contract (proved under P03 and P04: the result depends on the
//! bytes of the frame at the start of the buffer alone). The k-th frame given to the decoder has
//! to be the k-th frame of the stream.
use super::*;
use crate::vph::{addr_eq, any_addr, poll_once};
use core::mem::forget;
use tokio::vp::{End, NET};

#[derive(Clone, Copy, PartialEq)]
enum K { KeepAlive, Choke, Unchoke, Have, Port, Piece, Cancel, Full, Bad }
const FRAMES: usize = 5;
const BYTES: usize = 48;
#[derive(Clone, Copy)]
struct Frame { kind: K, at: usize, len: usize }
crate::ghost! {
    SCRIPT: [Frame; FRAMES] = [Frame { kind: K::Bad, at: 0, len: 0 }; FRAMES];
    SCRIPTED: usize = 0;
    DECODED: usize = 0;
    STREAM: *const u8 = core::ptr::null();
}
fn stream(i: usize) -> u8 { unsafe { *STREAM.v.add(i) } }

fn from_buf_contract(buf: &[u8]) -> Option<Message> {
    unsafe {
        assert!(DECODED.v < SCRIPTED.v, "more frames than the stream holds");
        let f = SCRIPT.v[DECODED.v];
        DECODED.v += 1;
        assert!(buf.len() >= f.len, "the whole frame is in the buffer");
        let mut i = 0;
        while i < f.len {
            assert!(buf[i] == stream(f.at + i), "the frames are decoded in order, each once");
            i += 1;
        }
        let num = |at: usize| u32::from_be_bytes([stream(f.at + at), stream(f.at + at + 1), stream(f.at + at + 2), stream(f.at + at + 3)]);
        match f.kind {
            K::KeepAlive => Some(Message::KeepAlive),
            K::Choke => Some(Message::Choke),
            K::Unchoke => Some(Message::Unchoke),
            K::Have => Some(Message::Have(num(5))),
            K::Port => Some(Message::Port(u16::from_be_bytes([stream(f.at + 5), stream(f.at + 6)]))),
            K::Piece | K::Full => Some(Message::Piece(Piece::new(num(5), num(9), &[stream(f.at + 13)]))),
            K::Cancel => Some(Message::Cancel(Request { index: num(5), begin: num(9), length: num(13) })),
            K::Bad => None,
        }
    }
}

/// The bytes of a stream under construction.
struct Bytes { b: [u8; BYTES], n: usize }
impl Bytes {
    fn new() -> Self { Bytes { b: [0; BYTES], n: 0 } }
    fn put(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.b[self.n + i] = b[i]; i += 1; } self.n += b.len(); }
    fn frame(&mut self, kind: K) {
        let x: [u8; 12] = kani::any();
        let at = self.n;
        match kind {
            K::KeepAlive => self.put(&[0, 0, 0, 0]),
            K::Choke => self.put(&[0, 0, 0, 1, 0]),
            K::Unchoke => self.put(&[0, 0, 0, 1, 1]),
            K::Have => { self.put(&[0, 0, 0, 5, 4]); self.put(&x[..4]) }
            K::Port => { self.put(&[0, 0, 0, 3, 9]); self.put(&x[..2]) }
            K::Piece => { self.put(&[0, 0, 0, 10, 7]); self.put(&x[..9]) }
            K::Cancel => { self.put(&[0, 0, 0, 13, 8]); self.put(&x[..12]) }
            // as large as the receive buffer
            K::Full => { self.put(&[0, 0, 0, 24, 7]); self.put(&x); self.put(&x[1..]) }
            K::Bad => self.put(&[0, 0, 0, 2, 20, 4]),
        }
        unsafe { SCRIPT.v[SCRIPTED.v] = Frame { kind, at, len: self.n - at }; SCRIPTED.v += 1; }
    }
}

/// `$fill` makes the stream; the segments are `$cuts`, then `$every` bytes each; it ends as
/// `$end` says.
macro_rules! stream {
    ($name:ident, $unwind:expr, $cuts:expr, $every:expr, $end:expr, $wait:expr, |$s:ident| $fill:block, |$peer:ident, $pieces:ident, $ports:ident, $msgs:ident| $check:block) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(super::super::message::Message::from_buf, from_buf_contract)]
        fn $name() {
            let $peer = Peer::new(any_addr());
            let mut bytes = Bytes::new();
            let $s = &mut bytes;
            $fill;
            unsafe {
                NET.v.src = bytes.b.as_ptr();
                NET.v.in_len = bytes.n;
                NET.v.cuts = $cuts;
                NET.v.every = $every;
                NET.v.end = $end;
                STREAM.v = bytes.b.as_ptr();
                vstd_shim::EXPECT_WAIT.v = $wait;
                vstd_shim::EXPECT_WAIT.done = core::ptr::addr_of!(DECODED.v);
                vstd_shim::EXPECT_WAIT.want = SCRIPTED.v;
            }
            let mut pc = mpsc::Chan::<Piece>::vp();
            let mut dc = mpsc::Chan::<SocketAddrV4>::vp();
            let mut mc = mpsc::Chan::<ConnectionMessage>::vp();
            let (ptx, mut $pieces) = pc.ends(4);
            let (dtx, mut $ports) = dc.ends(4);
            let (mtx, mut $msgs) = mc.ends(4);
            let mut tcp = TcpStream::vp_connected();
            let (rd, wr) = split(&mut tcp);
            if $wait { kani::cover!(true); }
            manager_receiver($peer, rd, ptx, dtx, mtx).vp_wait();
            assert!(!$wait, "the loop ends although the peer is only silent");
            $check;
            forget(($pieces, $ports, $msgs, wr));
        }
    };
}
fn num(at: usize) -> u32 { u32::from_be_bytes([stream(at), stream(at + 1), stream(at + 2), stream(at + 3)]) }
/// The next message for the peer manager: from this peer, and `want`ed.
fn next_is(msgs: &mut mpsc::Receiver<ConnectionMessage>, peer: &Peer, want: impl Fn(&ConMessageType) -> bool) {
    match msgs.try_recv() {
        Ok(m) => {
            assert!(addr_eq(m.peer.addr(), peer.addr()), "a message is attributed to the peer it came from");
            assert!(want(&m.message), "the messages are handed on in order");
            forget(m);
        }
        Err(_) => assert!(false, "every message of the stream is handed on"),
    }
}
const AT_ONCE: [usize; 3] = [usize::MAX; 3];

macro_rules! four {
    ($name:ident, $cuts:expr, $every:expr) => {
        stream!($name, 30, $cuts, $every, End::Eof, false, |s| {
            s.frame(K::Have);
            s.frame(K::KeepAlive);
            s.frame(K::Have);
            s.frame(K::Unchoke);
        }, |peer, pieces, ports, msgs| {
            assert!(msgs.vp_len() == 4 && pieces.vp_len() == 0 && ports.vp_len() == 0, "as many messages as the stream holds");
            let (a, b) = (num(5), num(18));
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Have(v) if *v == a));
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::KeepAlive));
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Have(v) if *v == b));
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Unchoke));
            kani::cover!(true);
        });
    };
}
// @claim: four messages arriving at once
// @bound: have, keep-alive, have, unchoke; receive buffer scaled to 28 bytes
four!(four_at_once, AT_ONCE, usize::MAX);
// @claim: four messages arriving byte by byte
// @bound: have, keep-alive, have, unchoke; receive buffer scaled to 28 bytes
four!(four_bytewise, [1; 3], 1);
// @claim: four messages in segments that cut frames and length prefixes
// @bound: have, keep-alive, have, unchoke in segments of 11, 4, 10 and 2 bytes; buffer of 28 bytes
four!(four_in_segments, [11, 4, 10], usize::MAX);
// @claim: four messages in segments that end within the length prefix and on frame borders
// @bound: have, keep-alive, have, unchoke in segments of 3, 6, 6 and 12 bytes; buffer of 28 bytes
four!(four_in_other_segments, [3, 6, 6], usize::MAX);
// @claim: four messages in two segments
// @bound: have, keep-alive, have, unchoke in segments of 14 and 13 bytes; buffer of 28 bytes
four!(four_in_two, [14, 13, 1], usize::MAX);

macro_rules! kinds {
    ($name:ident, $cuts:expr) => {
        stream!($name, 40, $cuts, usize::MAX, End::Eof, false, |s| {
            s.frame(K::Choke);
            s.frame(K::Piece);
            s.frame(K::Port);
            s.frame(K::Unchoke);
        }, |peer, pieces, ports, msgs| {
            assert!(msgs.vp_len() == 2 && pieces.vp_len() == 1 && ports.vp_len() == 1, "blocks, ports and the rest go different ways");
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Choke));
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Unchoke));
            match ports.try_recv() {
                Ok(a) => assert!(u32::from(*a.ip()) == u32::from(*peer.addr().ip()) && a.port() == u16::from_be_bytes([stream(24), stream(25)]), "the DHT is given the peer's address with the announced port"),
                Err(_) => assert!(false),
            }
            match pieces.try_recv() {
                Ok(p) => { assert!(p.index == num(10) && p.begin == num(14) && p.block.len() == 1, "the block is the one of the stream"); forget(p); }
                Err(_) => assert!(false),
            }
            kani::cover!(true);
        });
    };
}
// @claim: blocks go to the block consumer, ports to the DHT with the peer's address, the rest to the peer manager
// @bound: choke, block of one byte, port, unchoke at once
kinds!(kinds_at_once, AT_ONCE);
// @claim: blocks go to the block consumer, ports to the DHT with the peer's address, the rest to the peer manager
// @bound: choke, block of one byte, port, unchoke in segments of 6, 10 and 15 bytes
kinds!(kinds_in_segments, [6, 10, 15]);

macro_rules! bad {
    ($name:ident, $cuts:expr) => {
        stream!($name, 30, $cuts, usize::MAX, End::Eof, false, |s| {
            s.frame(K::Unchoke);
            s.frame(K::Bad);
            s.frame(K::Have);
            s.frame(K::Choke);
        }, |peer, pieces, ports, msgs| {
            assert!(msgs.vp_len() == 3 && pieces.vp_len() == 0 && ports.vp_len() == 0, "only the undecodable frame is dropped");
            let a = num(16);
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Unchoke));
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Have(v) if *v == a));
            next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Choke));
            kani::cover!(true);
        });
    };
}
// @claim: a frame that cannot be decoded does not disturb the frames behind it
// @bound: unchoke, unknown message of 2 bytes, have, choke at once
bad!(bad_at_once, AT_ONCE);
// @claim: a frame that cannot be decoded does not disturb the frames behind it
// @bound: unchoke, unknown message of 2 bytes, have, choke in segments of 8, 4 and 13 bytes
bad!(bad_in_segments, [8, 4, 13]);

// @claim: a stream that ends within a frame delivers the frames before it and nothing more
// @bound: unchoke and 8 of the 9 bytes of a have
stream!(ends_within_frame, 30, [5, 7, 1], usize::MAX, End::Eof, false, |s| {
    s.frame(K::Unchoke);
    s.put(&[0, 0, 0, 5, 4, 1, 2, 3]);
}, |peer, pieces, ports, msgs| {
    assert!(msgs.vp_len() == 1 && pieces.vp_len() == 0 && ports.vp_len() == 0);
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Unchoke));
    unsafe { assert!(NET.v.reads_after_end == 1, "the end of the stream is noticed at once"); }
    kani::cover!(true);
});
// @claim: a broken connection ends the loop after the frames before it
// @bound: unchoke
stream!(breaks, 30, AT_ONCE, usize::MAX, End::Error, false, |s| {
    s.frame(K::Unchoke);
}, |peer, pieces, ports, msgs| {
    assert!(msgs.vp_len() == 1 && pieces.vp_len() == 0 && ports.vp_len() == 0);
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Unchoke));
    kani::cover!(true);
});
// @claim: an open connection without further data is waited on, after all complete frames were handed on
// @bound: choke, unchoke and 3 bytes of a length prefix
stream!(silent, 30, [4, 7, 2], usize::MAX, End::Pending, true, |s| {
    s.frame(K::Choke);
    s.frame(K::Unchoke);
    s.put(&[0, 0, 0]);
}, |peer, pieces, ports, msgs| {});

// @claim: a keep-alive, the shortest message, is handed on without waiting for what follows it
// @bound: have and keep-alive, then silence
stream!(silent_after_keep_alive, 30, [9, 4, 1], usize::MAX, End::Pending, true, |s| {
    s.frame(K::Have);
    s.frame(K::KeepAlive);
}, |peer, pieces, ports, msgs| {});
// @claim: a keep-alive at the end of the stream is handed on
// @bound: have and keep-alive
stream!(ends_with_keep_alive, 30, AT_ONCE, usize::MAX, End::Eof, false, |s| {
    s.frame(K::Have);
    s.frame(K::KeepAlive);
}, |peer, pieces, ports, msgs| {
    assert!(msgs.vp_len() == 2 && pieces.vp_len() == 0 && ports.vp_len() == 0, "as many messages as the stream holds");
    let a = num(5);
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Have(v) if *v == a));
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::KeepAlive));
    kani::cover!(true);
});

// @claim: more data than the receive buffer holds, with frames across its end
// @bound: 35 bytes: have, cancel, have at once; receive buffer of 28 bytes
stream!(beyond_buffer, 40, AT_ONCE, usize::MAX, End::Eof, false, |s| {
    s.frame(K::Have);
    s.frame(K::Cancel);
    s.frame(K::Have);
}, |peer, pieces, ports, msgs| {
    assert!(msgs.vp_len() == 3 && pieces.vp_len() == 0 && ports.vp_len() == 0);
    let (a, b) = (num(5), num(31));
    let (i, x, l) = (num(14), num(18), num(22));
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Have(v) if *v == a));
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Cancel(r) if r.index == i && r.begin == x && r.length == l));
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Have(v) if *v == b));
    kani::cover!(true);
});
// @claim: a frame as large as the receive buffer is delivered, and the frames around it
// @bound: unchoke, block filling the buffer of 28 bytes, have; 42 bytes at once
stream!(fills_buffer, 44, AT_ONCE, usize::MAX, End::Eof, false, |s| {
    s.frame(K::Unchoke);
    s.frame(K::Full);
    s.frame(K::Have);
}, |peer, pieces, ports, msgs| {
    assert!(msgs.vp_len() == 2 && pieces.vp_len() == 1 && ports.vp_len() == 0);
    let a = num(38);
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Unchoke));
    next_is(&mut msgs, &peer, |m| matches!(m, ConMessageType::Have(v) if *v == a));
    match pieces.try_recv() {
        Ok(p) => { assert!(p.index == num(10) && p.begin == num(14)); forget(p); }
        Err(_) => assert!(false),
    }
    kani::cover!(true);
});
// @claim: a frame larger than the receive buffer ends the connection instead of spinning
// @bound: the stream has 40 bytes, the receive buffer 28; frame lengths from 25 up to what the stream cannot hold
stream!(oversize, 44, AT_ONCE, usize::MAX, End::Pending, false, |s| {
    s.frame(K::Unchoke);
    let l: [u8; 4] = kani::any();
    kani::assume(u32::from_be_bytes(l) > 24 && u32::from_be_bytes(l) < u32::MAX - 8);
    s.put(&l);
    s.put(&[4; 31]);
}, |peer, pieces, ports, msgs| {
    assert!(msgs.vp_len() == 1 && pieces.vp_len() == 0 && ports.vp_len() == 0);
    kani::cover!(true);
});

// ---- what becomes of a decoded message ----
// @claim: every other kind of message is handed to the peer manager as what it is
#[kani::proof]
#[kani::unwind(6)]
fn other_kinds() {
    let r = Request { index: kani::any(), begin: kani::any(), length: kani::any() };
    let have: u32 = kani::any();
    let bits = SerializableBuf::from(vec![kani::any::<u8>(), kani::any()]);
    let (b0, b1) = (bits.as_ref()[0], bits.as_ref()[1]);
    let same = |x: &Request| x.index == r.index && x.begin == r.begin && x.length == r.length;
    let copy = || Request { index: r.index, begin: r.begin, length: r.length };
    macro_rules! is { ($m:expr, $p:pat $(if $g:expr)?) => {{ let x = ConMessageType::try_from($m); assert!(matches!(&x, Ok($p) $(if $g)?)); forget(x); }} }
    is!(Message::KeepAlive, ConMessageType::KeepAlive);
    is!(Message::Choke, ConMessageType::Choke);
    is!(Message::Unchoke, ConMessageType::Unchoke);
    is!(Message::Interested, ConMessageType::Interested);
    is!(Message::NotInterested, ConMessageType::NotInterested);
    is!(Message::Have(have), ConMessageType::Have(v) if *v == have);
    is!(Message::Request(copy()), ConMessageType::Request(v) if same(v));
    is!(Message::Cancel(copy()), ConMessageType::Cancel(v) if same(v));
    is!(Message::Bitfield(bits), ConMessageType::Bitfield(v) if v.len() == 2 && v.as_ref()[0] == b0 && v.as_ref()[1] == b1);
    kani::cover!(true);
}
// @claim: the receive buffer holds a message with a block of the size that is requested (16 KiB), whatever block sizes the other obligations are scaled to
#[kani::proof]
fn buffer_size() {
    assert!(VP_ORIG_BLOCK_SIZE == 1 << 14, "blocks of 16 KiB");
    assert!(VP_ORIG_DESCRIPTIVE_DATA_SIZE >= 13, "a length, a kind, an index and an offset go in front of a block");
    kani::cover!();
}
