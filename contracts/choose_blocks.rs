//! P15: contract of `PendingPieces::take_not_good_blocks` (anchored in
//! peers/connection/pending_pieces.rs): which blocks are chosen for requesting.
use super::*;
use crate::vph::{put, Room};
use core::mem::{forget, ManuallyDrop};
use vstd_shim as std;
use std::net::{Ipv4Addr, SocketAddrV4};
use tokio::vp::NOW_SECS;

const B: usize = BLOCK_SIZE;
fn peer(n: u16) -> Peer { Peer::new(SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 1), n)) }

/// State of a block as the harness knows it: 0 not begun, 1 requested (at `sent`), 2 downloaded;
/// 3 and 4 are requested at the last moment that has expired and the first that has not.
#[derive(Clone, Copy)]
struct S { kind: u8, sent: u64 }
fn any_state(kind: u8) -> S {
    if kind >= 3 { return S { kind: 1, sent: 1000 - MAINLINE_TCP_REQUEST_TIMEOUT_SECS - (kind == 3) as u64 }; }
    let s = S { kind, sent: kani::any() };
    kani::assume(s.sent <= 1000);
    s
}
fn make(s: S) -> Block {
    match s.kind {
        0 => Block::Unbegun,
        1 => Block::Pending(PendingBlockDesc { target: peer(9), time_sent: Instant(s.sent) }),
        _ => Block::Downloaded(std::vec::Vec::new()),
    }
}
/// May the block be requested at time 1000: it is not there, and no unexpired request is out.
fn choosable(s: S) -> bool { s.kind == 0 || (s.kind == 1 && 1000 - s.sent > MAINLINE_TCP_REQUEST_TIMEOUT_SECS) }

fn piece(room: &mut Room<Block, 3>, s: &[S]) -> Piece {
    let mut v = room.vec();
    let mut i = 0;
    while i < s.len() { put(&mut v, make(s[i])); i += 1; }
    Piece { downloaded: 0, data: v }
}

/// Contract of `is_expired_pending`, proved by the harness `expired`. A block of the harness is
/// recognised by its place: what the harness put there is known to the model checker, unlike
/// what it reads back from it. Once a block was found expired it may have been changed, and is
/// looked at.
fn expired_contract(b: &Block) -> bool {
    unsafe {
        let mut i = 0;
        while i < 3 {
            if core::ptr::eq(b, BLOCKS.v[i]) {
                if !EXPIRED.v[i] { return false; }
                if !FOUND.v[i] { FOUND.v[i] = true; return true; }
            }
            i += 1;
        }
    }
    match b {
        Block::Pending(d) => (unsafe { NOW_SECS.v }) - d.time_sent.0 > 7,
        _ => false,
    }
}
crate::ghost! {
    BLOCKS: [*const Block; 3] = [core::ptr::null(); 3];
    EXPIRED: [bool; 3] = [false; 3];
    FOUND: [bool; 3] = [false; 3];
    SLOTS: *const BlockAddress = core::ptr::null();
}
/// `Vec::push`: the slots of a peer must never be outgrown, any other vector of the code may.
fn push<T, A: ::std::alloc::Allocator>(v: &mut ::std::vec::Vec<T, A>, t: T) {
    if v.len() >= v.capacity() && v.as_ptr() as *const BlockAddress == unsafe { SLOTS.v } {
        panic!("never more blocks in flight than the limit");
    }
    crate::vph::vec_push(v, t)
}

/// Chooses blocks of piece 7 (`kinds` of its blocks) with `used` of `CAP` slots used and checks the contract; returns how many were chosen.
fn choose<const N: usize, const CAP: usize>(len: usize, kinds: [u8; N], used: usize) -> usize {
    unsafe { NOW_SECS.v = 1000; }
    let store = ManuallyDrop::new(std::sync::ArcInner::vp(StdMutex::new(HashMap::new())));
    let mut p = ManuallyDrop::new(PendingPieces {
        piece_length: len, blocks_per_piece: N, copy_owner: None, data: Arc::vp_at(&store),
    });
    p.set_owner_peer(peer(1));
    let mut s = [S { kind: 0, sent: 0 }; N];
    let mut i = 0;
    while i < N { s[i] = any_state(kinds[i]); i += 1; }
    let (mut r1, mut r2) = (Room::new(), Room::new());
    let other = S { kind: 0, sent: 0 };
    {
        let mut d = p.data.lock().unwrap();
        forget(d.insert(4, piece(&mut r1, &[other; N])));
        forget(d.insert(7, piece(&mut r2, &s)));
    }
    let mut i = 0;
    while i < N {
        if kinds[i] != 1 {
            unsafe {
                BLOCKS.v[i] = r2.at(i);
                EXPIRED.v[i] = kinds[i] == 3;
            }
        }
        i += 1;
    }
    let mut slots = Room::<BlockAddress, CAP>::new();
    let mut buf: ManuallyDrop<Vec<BlockAddress>> = ManuallyDrop::new(slots.vec());
    let cap = buf.capacity();
    unsafe { SLOTS.v = buf.as_ptr(); }
    let mut i = 0;
    while i < used { put(&mut buf, BlockAddress::new(2, i, B)); i += 1; }
    let mut asked = std::vec::Vec::with_capacity(2);
    asked.push(7usize);
    p.take_not_good_blocks(asked, &mut buf);

    assert!(buf.len() >= used && buf.len() <= cap && buf.capacity() == cap, "never more blocks in flight than the limit");
    let taken = buf.len() - used;
    let mut hit = [0u8; N];
    let mut i = 0;
    while i < CAP {
        if i < buf.len() {
            if i < used {
                assert!(buf[i].piece_idx == 2 && buf[i].block_idx == i, "the blocks in flight before stay");
            } else {
                let a = buf[i];
                assert!(a.piece_idx == 7, "blocks are chosen from the pieces asked for");
                assert!(a.block_idx < N, "blocks are chosen inside the piece");
                assert!(choosable(s[a.block_idx]), "a block that is there or requested already is not handed out");
                let size = if (a.block_idx + 1) * B <= len { B } else { len - a.block_idx * B };
                assert!(a.length == size, "no request reaches beyond the end of the piece");
                hit[a.block_idx] += 1;
            }
        }
        i += 1;
    }
    let d = p.data.lock().unwrap();
    let (mine, others) = (d.get(&7).unwrap(), d.get(&4).unwrap());
    let mut i = 0;
    while i < N {
        assert!(hit[i] <= 1, "a block is handed out once");
        match &mine.data[i] {
            Block::Unbegun => assert!(hit[i] == 0 && s[i].kind == 0, "a block handed out is marked as requested"),
            Block::Pending(x) => if hit[i] == 1 {
                assert!(x.time_sent == Instant(1000), "a block handed out is marked as requested now");
            } else {
                assert!(s[i].kind == 1 && x.time_sent == Instant(s[i].sent), "a block not handed out stays as it was");
            },
            Block::Downloaded(_) => assert!(hit[i] == 0 && s[i].kind == 2),
        }
        assert!(matches!(others.data[i], Block::Unbegun), "pieces not asked for stay as they were");
        i += 1;
    }
    taken
}

macro_rules! choose {
    ($name:ident, $n:expr, $kinds:expr, $cap:expr, $used:expr, $($cov:expr),*) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(std::vec::Vec::push, push)]
        #[kani::stub(Block::is_expired_pending, expired_contract)]
        fn $name() {
            let taken = choose::<$n, $cap>(($n - 1) * B + 9, $kinds, $used);
            $(kani::cover!(taken == $cov);)*
        }
    };
}

// @claim: a request counts as expired exactly when it was sent more than the timeout ago, and nothing but a request does
#[kani::proof]
fn expired() {
    let now: u64 = kani::any();
    unsafe { NOW_SECS.v = now; }
    let sent: u64 = kani::any();
    kani::assume(sent <= now);
    let b = ManuallyDrop::new(make(S { kind: 1, sent }));
    assert!(b.is_expired_pending() == (now - sent > 7), "a request expires after seven seconds");
    assert!(!Block::Unbegun.is_expired_pending() && !ManuallyDrop::new(make(S { kind: 2, sent })).is_expired_pending());
    kani::cover!(b.is_expired_pending());
    kani::cover!(!b.is_expired_pending());
}
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 0 and 1, requested at any time; three slots of which one is used
choose!(two_blocks_01, 2, [0, 1], 3, 1, 1, 2);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 1 and 0, requested at any time; three slots of which one is used
choose!(two_blocks_10, 2, [1, 0], 3, 1, 1, 2);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 0 and 0, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_00, 2, [0, 0], 3, 1, 2);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 0 and 2, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_02, 2, [0, 2], 3, 1, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 2 and 0, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_20, 2, [2, 0], 3, 1, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 2 and 2, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_22, 2, [2, 2], 3, 1, 0);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 2 and 3, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_23, 2, [2, 3], 3, 1, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 2 and 4, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_24, 2, [2, 4], 3, 1, 0);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 3 and 2, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_32, 2, [3, 2], 3, 1, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 3 and 3, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_33, 2, [3, 3], 3, 1, 2);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 3 and 4, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_34, 2, [3, 4], 3, 1, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 4 and 2, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_42, 2, [4, 2], 3, 1, 0);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 4 and 3, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_43, 2, [4, 3], 3, 1, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 4 and 4, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); three slots of which one is used
choose!(two_blocks_44, 2, [4, 4], 3, 1, 0);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 0 and 0, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); one slot
choose!(one_slot_00, 2, [0, 0], 1, 0, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 0 and 3, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); one slot
choose!(one_slot_03, 2, [0, 3], 1, 0, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 3 and 0, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); one slot
choose!(one_slot_30, 2, [3, 0], 1, 0, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks, states 3 and 3, with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); one slot
choose!(one_slot_33, 2, [3, 3], 1, 0, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of two blocks not begun; two slots, both used
choose!(no_slot, 2, [0, 0], 2, 2, 0);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of three blocks, states (0, 0, 0), with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); two slots
choose!(three_blocks_000, 3, [0, 0, 0], 2, 0, 2);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of three blocks, states (3, 3, 3), with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); two slots
choose!(three_blocks_333, 3, [3, 3, 3], 2, 0, 2);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of three blocks, states (0, 3, 0), with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); two slots
choose!(three_blocks_030, 3, [0, 3, 0], 2, 0, 2);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of three blocks, states (2, 3, 4), with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); two slots
choose!(three_blocks_234, 3, [2, 3, 4], 2, 0, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of three blocks, states (4, 0, 2), with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); two slots
choose!(three_blocks_402, 3, [4, 0, 2], 2, 0, 1);
// @claim: blocks chosen belong to the pieces asked for, are neither there nor requested, are handed out once and marked, and the limit holds
// @bound: two pieces of three blocks, states (0, 2, 3), with requests sent at the two moments around the timeout (other moments are like one of them by the harness `expired`); two slots
choose!(three_blocks_023, 3, [0, 2, 3], 2, 0, 2);
