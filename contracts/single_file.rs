//! P16: contract of `SingleFileRw` (anchored in fs/single_file_rw.rs): where the bytes of a
//! piece are in the file. One arbitrary byte of the file is watched.
use super::*;
use crate::data_structures::ID;
use crate::transcoding::metainfo::Mode;
use core::mem::{forget, ManuallyDrop};
use tokio::vp::{FS, OPENS, SHORT, WATCH};

const B: usize = BLOCK_SIZE;

fn storage(pieces: usize, piece_length: usize, length: u64) -> ManuallyDrop<SingleFileRw> {
    // only the number of pieces matters; looking at a hash would be reported
    let hashes = unsafe { std::vec::Vec::from_raw_parts(core::ptr::NonNull::<ID>::dangling().as_ptr(), pieces, pieces) };
    ManuallyDrop::new(SingleFileRw {
        torrent_name: std::string::String::new(),
        files: FileCache::new(),
        info: Info { name: std::string::String::new(), piece_length: piece_length as u64, pieces: hashes, mode: Mode::Single { length } },
    })
}
/// Contract of the file cache (P19): a handle of the file, at an arbitrary position.
fn get_contract<'a>(_c: &'a mut FileCache, _path: &str) -> vstd_shim::Now<Result<&'a mut tokio::fs::File>> {
    unsafe {
        OPENS.v += 1;
        let f = HANDLE.v.get_or_insert(tokio::fs::File::vp(0));
        f.pos = kani::any();
        vstd_shim::now(move || Ok(f))
    }
}
crate::ghost! { HANDLE: Option<tokio::fs::File> = None; }

/// Piece `idx` as the downloader hands it over: blocks of `B` bytes, the last one shorter if the
/// piece length is not a multiple of it. Their places are in `PLACES`.
fn piece(idx: usize, piece_length: usize) -> FinishedPiece {
    let mut data = std::vec::Vec::with_capacity(3);
    let mut at = 0;
    while at < piece_length {
        let n = if piece_length - at < B { piece_length - at } else { B };
        let mut v = std::vec::Vec::<u8>::with_capacity(B);
        unsafe {
            v.set_len(n);
            PLACES.v[at / B] = v.as_ptr();
        }
        crate::vph::put(&mut data, v);
        at += n;
    }
    FinishedPiece { idx, data }
}
/// Where byte `i` of the piece is.
fn place(i: u64) -> *const u8 { unsafe { PLACES.v[(i / B as u64) as usize].wrapping_add((i % B as u64) as usize) } }
crate::ghost! { PLACES: [*const u8; 3] = [core::ptr::null(); 3]; }

macro_rules! storage {
    ($name:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(FileCache::get_write, get_contract)]
        #[kani::stub(FileCache::get_read, get_contract)]
        fn $name() $body
    };
}
fn write<const LEN: usize>(last: bool, short: bool) {
    let (pieces, idx): (usize, usize) = (kani::any(), kani::any());
    let length: u64 = kani::any();
    kani::assume(pieces >= 1 && pieces < 1 << 40);
    // the length and the number of pieces of the torrent agree
    kani::assume(length > (pieces as u64 - 1) * LEN as u64 && length <= pieces as u64 * LEN as u64);
    if last { kani::assume(idx == pieces - 1); } else { kani::assume(idx < pieces - 1); }
    let mut s = storage(pieces, LEN, length);
    let off: u64 = kani::any();
    let before: u64 = kani::any();
    unsafe {
        WATCH.v.slot = 0;
        WATCH.v.off = off;
        FS.v[0].len = before;
        if short { SHORT.v = kani::any(); kani::assume(SHORT.v >= 1); }
    }
    kani::assume(before <= length);
    let r = s.write_piece(piece(idx, LEN)).vp_wait();
    assert!(r.is_ok(), "a piece of the torrent is written");
    forget(r);
    let start = idx as u64 * LEN as u64;
    let end = if start + LEN as u64 <= length { start + LEN as u64 } else { length };
    unsafe {
        if off >= start && off < end {
            assert!(WATCH.v.writes == 1, "every byte of the piece is written once");
            assert!(WATCH.v.from == place(off - start), "byte i of the piece is at offset i after the start of the piece");
        } else {
            assert!(WATCH.v.writes == 0, "no other byte of the file is changed");
        }
        assert!(FS.v[0].len == if before > end { before } else { end }, "the file does not grow beyond the piece");
        assert!(!FS.v[0].pending, "what was written has reached the file");
    }
    kani::cover!(off >= start && off < end);
    kani::cover!(off >= end);
}
// @claim: writing piece i puts its bytes at offset i times the piece length and changes no other byte, for every file length, number of pieces and index
// @bound: one block per piece
storage!(middle_one_block, { write::<B>(false, false) });
// @claim: writing piece i puts its bytes at offset i times the piece length and changes no other byte, for every file length, number of pieces and index
// @bound: one block per piece
storage!(last_one_block, { write::<B>(true, false) });
// @claim: writing piece i puts its bytes at offset i times the piece length and changes no other byte, for every file length, number of pieces and index
// @bound: a full block and 64 bytes per piece
storage!(middle_odd_length, { write::<{ B + 64 }>(false, false) });
// @claim: writing piece i puts its bytes at offset i times the piece length and changes no other byte, for every file length, number of pieces and index
// @bound: a full block and 64 bytes per piece
storage!(last_odd_length, { write::<{ B + 64 }>(true, false) });
// @claim: writing piece i puts its bytes at offset i times the piece length and changes no other byte, for every file length, number of pieces and index
// @bound: two blocks per piece
storage!(middle_two_blocks, { write::<{ 2 * B }>(false, false) });
// @claim: writing piece i puts its bytes at offset i times the piece length and changes no other byte, for every file length, number of pieces and index
// @bound: two blocks per piece
storage!(last_two_blocks, { write::<{ 2 * B }>(true, false) });
// @claim: a write that takes only some of the bytes is continued
// @bound: two blocks per piece, one short write
storage!(short_write_two_blocks, { write::<{ 2 * B }>(true, true) });
// @claim: writing piece i puts its bytes at offset i times the piece length and changes no other byte, for every file length, number of pieces and index
// @bound: three blocks per piece
storage!(middle_long_piece, { write::<{ 3 * B }>(false, false) });
// @claim: writing piece i puts its bytes at offset i times the piece length and changes no other byte, for every file length, number of pieces and index
// @bound: three blocks per piece
storage!(last_long_piece, { write::<{ 3 * B }>(true, false) });

// @claim: a piece index beyond the torrent is refused and nothing is written
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(FileCache::get_write, get_contract)]
#[kani::stub(FileCache::get_read, get_contract)]
fn beyond() {
    let (pieces, idx): (usize, usize) = (kani::any(), kani::any());
    kani::assume(idx >= pieces && pieces < 1 << 40);
    let length: u64 = kani::any();
    let mut s = storage(pieces, B, length);
    unsafe {
        WATCH.v.slot = 0;
        WATCH.v.off = kani::any();
    }
    let r = s.write_piece(piece(idx, B)).vp_wait();
    assert!(r.is_err(), "a piece beyond the torrent is refused");
    forget(r);
    unsafe { assert!(WATCH.v.writes == 0 && FS.v[0].len == 0 && !FS.v[0].pending, "nothing is written"); }
    kani::cover!(pieces > 0);
    kani::cover!(pieces == 0);
}

/// Reads a block; `short`: the file delivers it in two parts.
fn read(short: bool) {
    let (idx, begin, n): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    let (len, off): (u64, u64) = (kani::any(), kani::any());
    const LEN: usize = 2 * B;
    kani::assume(idx < 1 << 40 && begin < LEN && n <= B);
    let mut s = storage(1 << 40, LEN, (1 << 40) * LEN as u64);
    unsafe {
        WATCH.v.slot = 0;
        WATCH.v.off = off;
        FS.v[0].len = len;
        if short { SHORT.v = kani::any(); kani::assume(SHORT.v >= 1); }
    }
    let buf = unsafe { core::slice::from_raw_parts_mut(OUT.v.as_mut_ptr(), B) };
    let r = s.read_block(idx, begin, n, buf).vp_wait();
    let start = idx as u64 * LEN as u64 + begin as u64;
    unsafe {
        if start + n as u64 <= len { assert!(r.is_ok(), "a block that is in the file is read"); }
        if r.is_ok() {
            assert!(start + n as u64 <= len || n == 0, "a block that is not in the file is not made up");
            if off >= start && off - start < n as u64 {
                assert!(WATCH.v.reads == 1 && WATCH.v.to == OUT.v.as_ptr().wrapping_add((off - start) as usize), "byte i of the block is the byte at offset i of it in the file");
            }
        }
        assert!(WATCH.v.writes == 0 && FS.v[0].len == len);
    }
    kani::cover!(r.is_ok() && n > 0);
    kani::cover!(r.is_err());
    forget(r);
}
crate::ghost! { OUT: [u8; B] = [0x3C; B]; }
// @claim: a block is read from where its piece was written, for every index, offset, length and file length
// @bound: piece length of two blocks
storage!(read_whole, { read(false) });
// @claim: a read that delivers only some of the bytes is continued
// @bound: piece length of two blocks, one short read
storage!(read_short, { read(true) });
