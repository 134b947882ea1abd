//! P15: the request sent for a block (anchored in peers/connection/message.rs).
use super::*;

// @claim: the request for a block names its piece, its byte offset and its length
#[kani::proof]
fn request_of_block() {
    let (piece, block): (u32, u32) = (kani::any(), kani::any());
    kani::assume((block as u64) * (BLOCK_SIZE as u64) <= u32::MAX as u64);
    let length: usize = kani::any();
    kani::assume(length <= BLOCK_SIZE);
    let r: Request = BlockAddress::new(piece as usize, block as usize, length).into();
    assert!(r.index == piece, "the request names the piece");
    assert!(r.begin as u64 == block as u64 * BLOCK_SIZE as u64, "the request names the byte offset of the block");
    assert!(r.length as usize == length, "the request names the length of the block");
    kani::cover!(length < BLOCK_SIZE);
}
