use super::*;

fn word(b: &[u8], i: usize) -> u32 {
    ((b[i] as u32) << 24) | ((b[i + 1] as u32) << 16) | ((b[i + 2] as u32) << 8) | b[i + 3] as u32
}

// Protocol specification: what a frame of body length `l` and identifier `id` may be.
fn acceptable(l: usize, id: u8) -> bool {
    if l == 0 {
        return true;
    }
    match id {
        0 | 1 | 2 | 3 => l == 1,
        4 => l == 5,
        5 => l >= 1,
        6 | 8 => l == 13,
        7 => l >= 9,
        9 => l == 3,
        _ => false,
    }
}

fn same_content(m: &Message, b: &[u8], l: usize, id: u8) -> bool {
    let k: usize = kani::any();
    match m {
        Message::KeepAlive => l == 0,
        Message::Choke => l > 0 && id == 0,
        Message::Unchoke => id == 1,
        Message::Interested => id == 2,
        Message::NotInterested => id == 3,
        Message::Have(v) => id == 4 && *v == word(b, 5),
        Message::Bitfield(p) => id == 5 && p.as_ref().len() == l - 1 && (k >= l - 1 || p.as_ref()[k] == b[5 + k]),
        Message::Request(r) => id == 6 && r.index == word(b, 5) && r.begin == word(b, 9) && r.length == word(b, 13),
        Message::Piece(p) => id == 7 && p.index == word(b, 5) && p.begin == word(b, 9) && p.block.as_ref().len() == l - 9 && (k >= l - 9 || p.block.as_ref()[k] == b[13 + k]),
        Message::Cancel(r) => id == 8 && r.index == word(b, 5) && r.begin == word(b, 9) && r.length == word(b, 13),
        Message::Port(p) => id == 9 && *p == ((b[5] as u16) << 8 | b[6] as u16),
    }
}

// A buffer of any length from 4 bytes on (up to 2^40), contents arbitrary.
fn any_buffer() -> &'static [u8] {
    let n: usize = kani::any();
    kani::assume(4 <= n && n <= 1 << 40);
    unsafe { std::slice::from_raw_parts(std::alloc::alloc(std::alloc::Layout::from_size_align(n, 1).unwrap()), n) }
}
macro_rules! complete {
    ($name:ident, $cond:expr) => {
        #[kani::proof]
        #[kani::unwind(24)]
        fn $name() {
            let b = any_buffer();
            let n = b.len();
            let l = word(b, 0) as usize;
            kani::assume(l <= n - 4);
            let id = if l > 0 { b[4] } else { 0 };
            let c: fn(usize, u8) -> bool = $cond;
            kani::assume(c(l, id));
            assert!(Message::len(b) == l);
            let m = Message::from_buf(b);
            assert!(m.is_some() == acceptable(l, id), "a complete frame is accepted exactly when its length fits its kind");
            if let Some(m) = &m {
                assert!(same_content(m, b, l, id), "the message is exactly the content of the frame");
            }
            kani::cover!(m.is_some() && n > 5000);
            std::mem::forget(m);
        }
    };
}
// @claim: complete frames: keep-alive and messages without payload, any receive buffer
complete!(complete_fixed, |l, id| l == 0 || (id != 5 && id != 7));
// @claim: complete frames: bitfields
complete!(complete_bitfield, |l, id| l > 0 && id == 5);
// @claim: complete frames: pieces
complete!(complete_piece, |l, id| l > 0 && id == 7);

const N: usize = 26;
// @claim: an incomplete frame is refused without a panic
// @bound: buffers of 4 to 26 bytes
#[kani::proof]
#[kani::unwind(8)]
fn incomplete() {
    let a: [u8; N] = kani::any();
    let n: usize = kani::any();
    kani::assume(4 <= n && n <= N);
    kani::assume(word(&a, 0) as usize > n - 4);
    assert!(Message::len(&a[..n]) == word(&a, 0) as usize);
    assert!(Message::from_buf(&a[..n]).is_none());
    kani::cover!(n == N);
}
