//! P13/P15: block arithmetic of `PendingPieces` and the request of a block, full domain (anchored
//! in peers/connection/pending_pieces.rs).
use super::*;
use crate::peers::connection::message::Request;

/// Specification: the size of block `idx` of a piece of `len` bytes (0: there is no such block).
fn spec_size(len: usize, idx: usize) -> usize {
    let b = BLOCK_SIZE as u128;
    let from = idx as u128 * b;
    if from >= len as u128 { 0 } else if len as u128 - from < b { (len as u128 - from) as usize } else { BLOCK_SIZE }
}
static BYTES: [u8; 2 * BLOCK_SIZE] = [7; 2 * BLOCK_SIZE];

// @claim: a block is in bounds exactly when its index is inside the piece and its size is the one that block has
#[kani::proof]
fn block_bounds() {
    let len: usize = kani::any();
    let (idx, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n <= 2 * BLOCK_SIZE);
    let p = core::mem::ManuallyDrop::new(PendingPieces::new(len));
    let r = p.check_block_bounds(idx, &BYTES[..n]);
    assert!(r.is_ok() == (spec_size(len, idx) != 0 && n == spec_size(len, idx)), "a block is accepted exactly with the size that block has");
    kani::cover!(r.is_ok() && n < BLOCK_SIZE);
    kani::cover!(r.is_ok() && n == BLOCK_SIZE);
    kani::cover!(r.is_err() && n == BLOCK_SIZE);
    core::mem::forget(r);
}
