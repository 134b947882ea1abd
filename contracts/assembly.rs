//! P13: contracts of `PendingPieces::{new, add_piece, add_block_data}` (anchored in
//! peers/connection/pending_pieces.rs): blocks assemble into exactly the piece.
use super::*;
use core::mem::{forget, ManuallyDrop};

const B: usize = BLOCK_SIZE;
fn size(len: usize, idx: usize) -> usize { if (idx + 1) * B <= len { B } else { len - idx * B } }
/// A block of `n` bytes with arbitrary contents.
fn block(n: usize) -> Vec<u8> {
    let mut v = std::vec::Vec::with_capacity(2 * B);
    unsafe { v.set_len(n) }
    v
}
fn done(r: AddBlockRes) -> Option<FinishedPiece> {
    match r { AddBlockRes::AddedLast(f) => Some(f), _ => None }
}

macro_rules! acceptance {
    ($name:ident, $len:expr, $blocks:expr) => {
        #[kani::proof]
        #[kani::unwind(6)]
        fn $name() {
            let mut p = ManuallyDrop::new(PendingPieces::new($len));
            let piece = 6usize;
            let (asked, idx, n): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
            kani::assume(n <= 2 * B);
            forget(p.add_piece(piece));
            let b = block(n);
            let at = b.as_ptr();
            let good = asked == piece && idx < $blocks && n == size($len, idx);
            match p.add_block_data(asked, idx, b) {
                AddBlockRes::Failed => assert!(!good, "a block of the piece is accepted"),
                AddBlockRes::Added => assert!(good && $blocks > 1, "only a block of the piece is accepted, and the piece finishes with its last block"),
                AddBlockRes::AddedLast(f) => {
                    assert!(good && $blocks == 1, "a piece finishes when all its blocks are there");
                    assert!(f.idx == piece && f.data.len() == 1 && f.data[0].len() == $len && f.data[0].as_ptr() == at);
                    forget(f);
                }
            }
            kani::cover!(good);
            kani::cover!(asked == piece && idx < $blocks && !good);
        }
    };
}
// @claim: a block is accepted exactly for a piece being downloaded, at an index inside the piece and with the size of that block
// @bound: pieces of one block
acceptance!(accept_one_full, B, 1);
// @claim: a block is accepted exactly for a piece being downloaded, at an index inside the piece and with the size of that block
// @bound: pieces of one short block
acceptance!(accept_one_short, 5, 1);
// @claim: a block is accepted exactly for a piece being downloaded, at an index inside the piece and with the size of that block
// @bound: pieces of two full blocks
acceptance!(accept_two_full, 2 * B, 2);
// @claim: a block is accepted exactly for a piece being downloaded, at an index inside the piece and with the size of that block
// @bound: pieces of three blocks, the last one byte long
acceptance!(accept_three, 2 * B + 1, 3);

macro_rules! sequence {
    ($name:ident, $len:expr, $blocks:expr, $steps:expr) => {
        #[kani::proof]
        #[kani::unwind(6)]
        fn $name() {
            let mut p = ManuallyDrop::new(PendingPieces::new($len));
            let piece = 6usize;
            forget(p.add_piece(piece));
            let mut have = [false; $blocks];
            let mut finished = false;
            let mut given = [[core::ptr::null::<u8>(); $steps]; $blocks];
            let mut step = 0;
            while step < $steps {
                let mut idx: usize = kani::any();
                kani::assume(idx < $blocks);
                let b = block(size($len, idx));
                given[idx][step] = b.as_ptr();
                let r = p.add_block_data(piece, idx, b);
                let was = have[idx];
                if finished {
                    assert!(matches!(r, AddBlockRes::Failed), "a finished piece is not being downloaded");
                } else {
                    have[idx] = true;
                    let all = have == [true; $blocks];
                    match &r {
                        AddBlockRes::Failed => assert!(was, "a block of the piece is accepted"),
                        AddBlockRes::Added => assert!(!all, "the piece finishes with its last block"),
                        AddBlockRes::AddedLast(f) => {
                            assert!(all && !was, "a piece finishes exactly when every one of its blocks was accepted");
                            assert!(f.idx == piece && f.data.len() == $blocks, "the finished piece has all blocks");
                            let k: usize = kani::any();
                            kani::assume(k < $blocks);
                            assert!(f.data[k].len() == size($len, k), "the blocks have their sizes, so the piece has its length");
                            let q = f.data[k].as_ptr();
                            let mut any = false;
                            let mut s = 0;
                            while s < $steps { any |= given[k][s] == q; s += 1; }
                            assert!(any, "block k is one that arrived for index k");
                            finished = true;
                        }
                    }
                }
                forget(r);
                step += 1;
            }
            kani::cover!(finished);
            kani::cover!(!finished);
        }
    };
}
// @claim: a piece finishes exactly with its last missing block and consists of its blocks in index order
// @bound: two blocks, three arrivals with every choice of indices
sequence!(two_blocks, B + 9, 2, 3);
// @claim: a piece finishes exactly with its last missing block and consists of its blocks in index order
// @bound: three blocks, four arrivals with every choice of indices
sequence!(three_blocks, 2 * B + 1, 3, 4);

// @claim: the blocks of two pieces do not mix, and asking again for a piece keeps its blocks
// @bound: two pieces of two blocks
#[kani::proof]
#[kani::unwind(6)]
fn two_pieces() {
    let mut p = ManuallyDrop::new(PendingPieces::new(2 * B));
    let (a, b) = (7usize, 4usize);
    forget(p.add_piece(a));
    forget(p.add_piece(b));
    let (a0, a1, b1) = (block(B), block(B), block(B));
    let (pa0, pa1) = (a0.as_ptr(), a1.as_ptr());
    let r = p.add_block_data(a, 0, a0);
    assert!(matches!(r, AddBlockRes::Added));
    forget(r);
    let r = p.add_block_data(b, 1, b1);
    assert!(matches!(r, AddBlockRes::Added), "a block counts for its own piece only");
    forget(r);
    forget(p.add_piece(a));
    match p.add_block_data(a, 1, a1) {
        AddBlockRes::AddedLast(f) => { assert!(f.idx == a && f.data[0].as_ptr() == pa0 && f.data[1].as_ptr() == pa1); forget(f); }
        _ => assert!(false, "the piece finishes with its last block"),
    }
    let r = p.add_block_data(a, 0, block(B));
    assert!(matches!(r, AddBlockRes::Failed), "a finished piece is not being downloaded");
    forget(r);
    kani::cover!(true);
}
