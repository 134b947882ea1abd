use super::*;

fn word(b: &[u8], i: usize) -> u32 {
    ((b[i] as u32) << 24) | ((b[i + 1] as u32) << 16) | ((b[i + 2] as u32) << 8) | b[i + 3] as u32
}

// Encodes `$m`, compares with the protocol's bytes `$bytes`, then decodes a buffer that starts
// with them and goes on arbitrarily.
macro_rules! round_trip {
    ($name:ident, $n:literal, |$f:ident| $m:expr, $bytes:expr, $back:pat => $cond:expr) => {
        #[kani::proof]
        #[kani::unwind(24)]
        fn $name() {
            let $f: [u32; 3] = kani::any();
            let m: Message = $m;
            let want: [u8; $n] = $bytes;
            let bytes = m.into_bytes();
            assert!(bytes.len() == $n, "encoded length");
            let mut i = 0;
            while i < $n {
                assert!(bytes[i] == want[i], "encoded byte as the protocol demands");
                i += 1;
            }
            let mut buf: [u8; 24] = kani::any();
            i = 0;
            while i < $n {
                buf[i] = bytes[i];
                i += 1;
            }
            std::mem::forget(bytes);
            assert!(Message::len(&buf) + 4 == $n, "announced length equals the encoded length");
            let d = Message::from_buf(&buf);
            assert!(match &d { Some($back) => $cond, _ => false }, "decoding gives the encoded message back");
            kani::cover!(buf[23] == 9);
            std::mem::forget(d);
        }
    };
}
fn h(v: u32, k: u32) -> u8 {
    (v >> (8 * (3 - k))) as u8
}

// @claim: keep-alive is four zero bytes and decodes back, whatever follows
round_trip!(keep_alive, 4, |f| Message::KeepAlive, [0, 0, 0, 0], Message::KeepAlive => true);
// @claim: choke
round_trip!(choke, 5, |f| Message::Choke, [0, 0, 0, 1, 0], Message::Choke => true);
// @claim: unchoke
round_trip!(unchoke, 5, |f| Message::Unchoke, [0, 0, 0, 1, 1], Message::Unchoke => true);
// @claim: interested
round_trip!(interested, 5, |f| Message::Interested, [0, 0, 0, 1, 2], Message::Interested => true);
// @claim: not interested
round_trip!(not_interested, 5, |f| Message::NotInterested, [0, 0, 0, 1, 3], Message::NotInterested => true);
// @claim: have, any piece index
round_trip!(have, 9, |f| Message::Have(f[0]), [0, 0, 0, 5, 4, h(f[0], 0), h(f[0], 1), h(f[0], 2), h(f[0], 3)], Message::Have(v) => *v == f[0]);
// @claim: request, any index, offset and length
round_trip!(request, 17, |f| Message::Request(Request { index: f[0], begin: f[1], length: f[2] }),
    [0, 0, 0, 13, 6, h(f[0], 0), h(f[0], 1), h(f[0], 2), h(f[0], 3), h(f[1], 0), h(f[1], 1), h(f[1], 2), h(f[1], 3), h(f[2], 0), h(f[2], 1), h(f[2], 2), h(f[2], 3)],
    Message::Request(r) => r.index == f[0] && r.begin == f[1] && r.length == f[2]);
// @claim: cancel, any index, offset and length
round_trip!(cancel, 17, |f| Message::Cancel(Request { index: f[0], begin: f[1], length: f[2] }),
    [0, 0, 0, 13, 8, h(f[0], 0), h(f[0], 1), h(f[0], 2), h(f[0], 3), h(f[1], 0), h(f[1], 1), h(f[1], 2), h(f[1], 3), h(f[2], 0), h(f[2], 1), h(f[2], 2), h(f[2], 3)],
    Message::Cancel(r) => r.index == f[0] && r.begin == f[1] && r.length == f[2]);
// @claim: port, any port
round_trip!(port, 7, |f| Message::Port(f[0] as u16), [0, 0, 0, 3, 9, h(f[0], 2), h(f[0], 3)], Message::Port(p) => *p == f[0] as u16);
// @claim: bitfield with an empty payload
// @bound: payload of 0 bytes
round_trip!(bitfield_0, 5, |f| Message::Bitfield(SerializableBuf::from(&[][..])), [0, 0, 0, 1, 5], Message::Bitfield(b) => b.as_ref().len() == 0);
// @claim: bitfield with a payload
// @bound: payload of 3 bytes
round_trip!(bitfield_3, 8, |f| Message::Bitfield(SerializableBuf::from(&[h(f[0], 0), h(f[1], 1), h(f[2], 2)][..])), [0, 0, 0, 4, 5, h(f[0], 0), h(f[1], 1), h(f[2], 2)],
    Message::Bitfield(b) => b.as_ref().len() == 3 && b.as_ref()[0] == h(f[0], 0) && b.as_ref()[1] == h(f[1], 1) && b.as_ref()[2] == h(f[2], 2));

macro_rules! at {
    ($b:expr, $w:expr, $($k:literal)*) => { $( assert!($b[$k] == $w[$k], "encoded byte as the protocol demands"); )* };
}
// The loops over the block are unwound for the block lengths of the bound only, so these
// harnesses have no loop of their own.
macro_rules! piece_round_trip {
    ($name:ident, $n:literal, $($k:literal)*) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let (x, y): (u32, u32) = kani::any();
            let pay: [u8; $n] = kani::any();
            let bytes = Message::Piece(Piece::new(x, y, &pay)).into_bytes();
            assert!(bytes.len() == 13 + $n, "encoded length");
            let head = [0, 0, 0, 9 + $n, 7, h(x, 0), h(x, 1), h(x, 2), h(x, 3), h(y, 0), h(y, 1), h(y, 2), h(y, 3)];
            at!(bytes, head, 0 1 2 3 4 5 6 7 8 9 10 11 12);
            $( assert!(bytes[13 + $k] == pay[$k], "block bytes in order"); )*
            let mut buf: [u8; 24] = kani::any();
            buf[..13 + $n].copy_from_slice(&bytes);
            std::mem::forget(bytes);
            assert!(Message::len(&buf) + 4 == 13 + $n, "announced length equals the encoded length");
            let d = Message::from_buf(&buf);
            assert!(match &d {
                Some(Message::Piece(p)) => p.index == x && p.begin == y && p.block.as_ref().len() == $n $( && p.block.as_ref()[$k] == pay[$k] )*,
                _ => false,
            }, "decoding gives the encoded message back");
            kani::cover!(x == 77);
            std::mem::forget(d);
        }
    };
}
// @claim: piece with an empty block
// @bound: block of 0 bytes
piece_round_trip!(piece_0, 0,);
// @claim: piece with a block
// @bound: block of 2 bytes
piece_round_trip!(piece_2, 2, 0 1);
