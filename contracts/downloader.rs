//! P14: contract of `foo`, which takes in a block (anchored in peers/connection/downloader.rs).
//! Its callees are replaced by their contracts: `PendingPieces::add_block_data` (P13) and
//! `Torrent::piece_hash` (P24).
use super::super::pending_pieces::FinishedPiece;
use super::*;
use crate::vph::{block_on, id_eq, put, Room};
use core::mem::{forget, ManuallyDrop};
use std::net::{Ipv4Addr, SocketAddrV4};
use vstd_shim::collections::HashMap as Map;

const B: usize = BLOCK_SIZE;
fn peer(n: u16) -> Peer { Peer::new(SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 1), n)) }

#[derive(Clone, Copy, PartialEq)]
enum R { Failed, Added, Last }
crate::ghost! {
    RES: R = R::Added;
    HASH: [u8; 20] = [0x51; 20];
    STORED: usize = 0;
    STORED_AT: (usize, usize, usize, u8) = (77, 77, 77, 77);
    HASHED: (usize, usize) = (78, 78);
    HASHES: usize = 0;
    AGAIN: usize = 0;
    AGAIN_IDX: usize = 79;
}
/// Contract of `add_block_data`: it fails, adds the block, or finishes the piece.
fn add_block_contract(_p: &mut PendingPieces, piece_idx: usize, block_idx: usize, data: Vec<u8>) -> AddBlockRes {
    unsafe {
        STORED.v += 1;
        STORED_AT.v = (piece_idx, block_idx, data.len(), data[0]);
        forget(data);
        match RES.v {
            R::Failed => AddBlockRes::Failed,
            R::Added => AddBlockRes::Added,
            R::Last => {
                let mut blocks = std::vec::Vec::with_capacity(2);
                blocks.push(std::vec::Vec::new());
                AddBlockRes::AddedLast(FinishedPiece { idx: piece_idx, data: blocks })
            }
        }
    }
}
fn add_piece_contract(_p: &mut PendingPieces, idx: usize) -> Result<()> {
    unsafe { AGAIN.v += 1; AGAIN_IDX.v = idx; }
    Ok(())
}
/// Contract of `piece_hash`: the hash of these blocks.
fn hash_contract(data: &Vec<Vec<u8>>) -> ID {
    unsafe {
        HASHES.v += 1;
        HASHED.v = (data.as_ptr() as usize, data.len());
        ID::new(HASH.v)
    }
}

fn addr(piece_idx: usize, block_idx: usize) -> BlockAddress {
    let mut a = BlockAddress::new(piece_idx, block_idx, B);
    a.status = BlockStatus::Requested;
    a
}
/// The blocks in flight are blocks 0 and 2 of piece 7 and block 2 of piece 4; pieces 7 and 9 are current.
/// Takes in a block and checks what happens.
fn takes(res: R, index: u32, begin: u32, listed: [u8; 20]) -> (bool, bool) {
    let mut chan = tokio::sync::mpsc::Chan::vp();
    let (tx, mut rx) = chan.ends(4);
    let (tx, _rx) = (ManuallyDrop::new(tx), &mut rx);
    unsafe { RES.v = res; }
    let mut pending = ManuallyDrop::new(PendingPieces::new(4 * B));
    let mut room = Room::<BlockAddress, 16>::new();
    let mut blocks = ManuallyDrop::new(room.vec());
    put(&mut blocks, addr(7, 0));
    put(&mut blocks, addr(7, 2));
    put(&mut blocks, addr(4, 2));
    let mut current: ManuallyDrop<Map<usize, ID>> = ManuallyDrop::new(Map::new());
    current.insert(7, ID::new(listed));
    current.insert(9, ID::new([0x99; 20]));
    let mut data = std::vec::Vec::with_capacity(4);
    data.push(0xAB);
    let block = Piece { index, begin, block: crate::data_structures::SerializableBuf::from(data) };
    forget(block_on(foo(peer(5), block, &mut pending, &mut blocks, &current, &tx)));

    let wanted = index == 7 && (begin == 0 || begin == 2 * B as u32);
    let (mut seven, mut four) = ([0usize; 3], 0usize);
    let mut queued = 0;
    let mut i = 0;
    while i < 4 {
        if i < blocks.len() {
            let a = blocks[i];
            assert!(a.length == B);
            if a.piece_idx == 7 && a.block_idx < 3 { seven[a.block_idx] += 1; } else { assert!(a.piece_idx == 4 && a.block_idx == 2); four += 1; }
            if a.status == BlockStatus::Queued { queued += 1; assert!(a.piece_idx == 7 && a.block_idx as u32 * B as u32 == begin, "only the block that failed is asked for again"); }
        }
        i += 1;
    }
    assert!(four == 1 && seven[1] == 0, "the other blocks in flight stay");
    let here = (begin as usize / B).min(2);
    let sent = rx.vp_len();
    unsafe {
        if !wanted {
            assert!(STORED.v == 0 && sent == 0, "a block that was not asked for is ignored");
            assert!(blocks.len() == 3 && seven[0] == 1 && seven[2] == 1 && queued == 0, "the blocks in flight stay as they are");
        } else {
            assert!(STORED.v == 1, "a block that was asked for is stored once");
            assert!(STORED_AT.v == (7, begin as usize / B, 1, 0xAB), "a block is stored at its place");
            assert!(seven[2 - here] == 1, "the other blocks in flight stay");
            match res {
                R::Failed => assert!(seven[here] == 1 && queued == 1 && sent == 0, "a block that was refused is asked for again"),
                R::Added => assert!(seven[here] == 0 && sent == 0, "a block that is there is not in flight any more"),
                R::Last => {
                    assert!(seven[here] == 0);
                    if listed == HASH.v {
                        assert!(sent == 1 && AGAIN.v == 0, "a piece whose hash is the listed one is passed on");
                    } else {
                        assert!(sent == 0, "a piece whose hash is not the listed one is not passed on");
                        assert!(AGAIN.v == 1 && AGAIN_IDX.v == 7, "the piece can be downloaded again");
                    }
                }
            }
        }
        if sent == 1 {
            assert!(HASHES.v >= 1);
            match rx.try_recv() {
                Ok(ConnectionMessage { peer: p, message: ConMessageType::FinishedPiece(f) }) => {
                    assert!(p.addr().port() == 5 && f.idx == 7 && f.data.len() == 1, "the piece passed on is the one that finished");
                    assert!(HASHED.v == (f.data.as_ptr() as usize, 1), "the piece passed on is the one that was hashed");
                    forget(f);
                }
                _ => assert!(false, "the piece is passed on as finished"),
            }
        }
    }
    forget(rx);
    (wanted, sent == 1)
}

macro_rules! downloader {
    ($name:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(22)]
        #[kani::stub(PendingPieces::add_block_data, add_block_contract)]
        #[kani::stub(PendingPieces::add_piece, add_piece_contract)]
        #[kani::stub(Torrent::piece_hash, hash_contract)]
        fn $name() $body
    };
}
const GOOD: [u8; 20] = [0x51; 20];
// @claim: a block that is misaligned, of a piece that is not current or not in flight is ignored and crashes nothing, for every index and offset
// @bound: three blocks in flight, two current pieces
downloader!(ignored_current, {
    let b: u32 = kani::any();
    kani::assume(!(b == 0 || b == 2 * B as u32));
    takes(R::Added, 7, b, GOOD);
    kani::cover!(b % B as u32 == 0);
    kani::cover!(b % B as u32 != 0);
});
// @claim: a block that is misaligned, of a piece that is not current or not in flight is ignored and crashes nothing, for every index and offset
// @bound: three blocks in flight, two current pieces
downloader!(ignored_not_in_flight, { takes(R::Added, 9, kani::any(), GOOD); kani::cover!(true); });
// @claim: a block that is misaligned, of a piece that is not current or not in flight is ignored and crashes nothing, for every index and offset
// @bound: three blocks in flight, two current pieces
downloader!(ignored_stopped_piece, { takes(R::Added, 4, kani::any(), GOOD); kani::cover!(true); });
// @claim: a block that is misaligned, of a piece that is not current or not in flight is ignored and crashes nothing, for every index and offset
// @bound: three blocks in flight, two current pieces
downloader!(ignored_unknown_piece, { takes(R::Added, u32::MAX, kani::any(), GOOD); kani::cover!(true); });
// @claim: a block in flight is stored at its place
// @bound: three blocks in flight, two current pieces
downloader!(added, { takes(R::Added, 7, 2 * B as u32, GOOD); kani::cover!(true); });
// @claim: a block in flight is stored at its place
// @bound: three blocks in flight, two current pieces
downloader!(added_first, { takes(R::Added, 7, 0, GOOD); kani::cover!(true); });
// @claim: a block that was refused stays in flight and is asked for again
// @bound: three blocks in flight, two current pieces
downloader!(refused, { takes(R::Failed, 7, 2 * B as u32, GOOD); kani::cover!(true); });
// @claim: a block that was refused stays in flight and is asked for again
// @bound: three blocks in flight, two current pieces
downloader!(refused_first, { takes(R::Failed, 7, 0, GOOD); kani::cover!(true); });
// @claim: a piece whose hash is the listed one is passed on
// @bound: three blocks in flight, two current pieces
downloader!(verified, { let (_, sent) = takes(R::Last, 7, 2 * B as u32, GOOD); assert!(sent); kani::cover!(true); });
// @claim: a piece is passed on only if its hash is the listed one, else it can be downloaded again
// @bound: three blocks in flight, two current pieces; every listed hash
downloader!(mismatch, {
    let h: [u8; 20] = kani::any();
    let (_, sent) = takes(R::Last, 7, 0, h);
    kani::cover!(sent);
    kani::cover!(!sent);
});
