//! P17: contracts of `MultiFileRw::{write_piece, read_block}` (anchored in fs/multi_file_rw.rs):
//! where the bytes of a piece are in the files. One arbitrary byte of one file is watched.
use super::*;
use crate::data_structures::ID;
use super::super::multi_file_iter::vp_files_in_bounds::{new_contract, next_contract};
use crate::vph::Room;
use core::mem::{forget, ManuallyDrop};
use tokio::vp::{FS, SHORT, WATCH};

const B: usize = BLOCK_SIZE;
crate::ghost! {
    H0: Option<tokio::fs::File> = None;
    H1: Option<tokio::fs::File> = None;
    H2: Option<tokio::fs::File> = None;
    PLACES: [*const u8; 3] = [core::ptr::null(); 3];
    OUT: [u8; B] = [0x3C; B];
}
/// Contract of the file cache (P19): a handle of the file of that path, at an arbitrary position.
/// The files are t/a, t/b/c and t/d/e/f.
fn get_contract<'a>(_c: &'a mut FileCache, path: &str) -> vstd_shim::Now<Result<&'a mut tokio::fs::File>> {
    let p = path.as_bytes();
    assert!(p[0] == b't' && p[1] == b'/', "a file is inside the directory of the torrent");
    let f = unsafe {
        match p.len() {
            3 => { assert!(p[2] == b'a'); H0.v.get_or_insert(tokio::fs::File::vp(0)) }
            5 => { assert!(p[2] == b'b' && p[3] == b'/' && p[4] == b'c'); H1.v.get_or_insert(tokio::fs::File::vp(1)) }
            _ => { assert!(p.len() == 7 && p[2] == b'd' && p[3] == b'/' && p[4] == b'e' && p[5] == b'/' && p[6] == b'f', "a file of the torrent"); H2.v.get_or_insert(tokio::fs::File::vp(2)) }
        }
    };
    f.pos = kani::any();
    vstd_shim::now(move || Ok(f))
}
fn piece(idx: usize, piece_length: usize) -> FinishedPiece {
    let mut data = std::vec::Vec::with_capacity(3);
    let mut at = 0;
    while at < piece_length {
        let n = if piece_length - at < B { piece_length - at } else { B };
        let mut v = std::vec::Vec::<u8>::with_capacity(B);
        unsafe {
            v.set_len(n);
            PLACES.v[at / B] = v.as_ptr();
        }
        crate::vph::put(&mut data, v);
        at += n;
    }
    FinishedPiece { idx, data }
}
fn place(i: u64) -> *const u8 { unsafe { PLACES.v[(i / B as u64) as usize].wrapping_add((i % B as u64) as usize) } }

/// Room for the names of the files.
struct Names { f: Room<metainfo::File, 3>, a: Room<String, 3>, b: Room<String, 3>, c: Room<String, 3> }
fn names() -> ManuallyDrop<Names> { ManuallyDrop::new(Names { f: Room::new(), a: Room::new(), b: Room::new(), c: Room::new() }) }
fn path(room: &mut Room<String, 3>, parts: &[&'static str]) -> std::vec::Vec<String> {
    let mut v = room.vec();
    let mut i = 0;
    while i < parts.len() {
        // never changed or freed
        crate::vph::put(&mut v, unsafe { std::string::String::from_raw_parts(parts[i].as_ptr() as *mut u8, 1, 1) });
        i += 1;
    }
    v
}
/// A torrent of `N` files of arbitrary lengths; returns it, the content before every file, and the total length.
fn storage<const N: usize>(room: &mut Names, piece_length: usize) -> (ManuallyDrop<MultiFileRw>, [u64; 3], u64) {
    let mut files = room.f.vec();
    let mut starts = [0u64; 3];
    let mut total = 0u64;
    let mut i = 0;
    while i < N {
        let l: u64 = kani::any();
        kani::assume(l <= (1 << 34) - total);
        starts[i] = total;
        total += l;
        let path = match i { 0 => path(&mut room.a, &["a"]), 1 => path(&mut room.b, &["b", "c"]), _ => path(&mut room.c, &["d", "e", "f"]) };
        crate::vph::put(&mut files, metainfo::File { path, length: l });
        i += 1;
    }
    (ManuallyDrop::new(MultiFileRw {
        torrent_name: unsafe { std::string::String::from_raw_parts("t".as_ptr() as *mut u8, 1, 1) },
        files: FileCache::new(),
        info: Info { name: std::string::String::new(), piece_length: piece_length as u64, pieces: std::vec::Vec::<ID>::new(), mode: Mode::Multi { files: std::vec::Vec::new() } },
        file_infos: files,
    }), starts, total)
}

fn write<const N: usize, const LEN: usize>(short: bool) {
    let mut room = names();
    let (mut s, starts, total) = storage::<N>(&mut room, LEN);
    let idx: usize = kani::any();
    kani::assume(idx < 1 << 20);
    let watched: usize = kani::any();
    kani::assume(watched < N);
    let off: u64 = kani::any();
    unsafe {
        WATCH.v.slot = watched;
        WATCH.v.off = off;
        if short { SHORT.v = kani::any(); kani::assume(SHORT.v >= 1); }
    }
    let start = idx as u64 * LEN as u64;
    kani::assume(start < total);
    let r = s.write_piece(piece(idx, LEN)).vp_wait();
    assert!(r.is_ok(), "a piece of the torrent is written");
    forget(r);
    let in_file = off < s.file_infos[watched].length;
    kani::assume(off < 1 << 35);
    let x = starts[watched] + off;
    unsafe {
        if in_file && x >= start && x - start < LEN as u64 {
            assert!(WATCH.v.writes == 1, "every byte of the piece goes to one file, once");
            assert!(WATCH.v.from == place(x - start), "byte i of the piece is byte i of its range of the content");
        } else {
            assert!(WATCH.v.writes == 0, "no other byte of a file is changed");
        }
        let mut i = 0;
        while i < N {
            assert!(FS.v[i].len <= s.file_infos[i].length, "nothing is written outside a file's length");
            assert!(!FS.v[i].pending, "what was written has reached the file");
            i += 1;
        }
    }
    kani::cover!(in_file && x >= start && x - start < LEN as u64);
    kani::cover!(in_file && x > start && x - start >= LEN as u64);
}
macro_rules! storage {
    ($name:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(FileCache::get_write, get_contract)]
        #[kani::stub(FileCache::get_read, get_contract)]
        #[kani::stub(FilesInBounds::new, new_contract)]
        #[kani::stub(<FilesInBounds as core::iter::Iterator>::next, next_contract)]
        fn $name() $body
    };
}
// @claim: every byte of a piece goes to the right place of the right file, once, and no other byte changes, for every length of the files and every piece index
// @bound: one file, one block per piece
storage!(write_one_file, { write::<1, B>(false) });
// @claim: every byte of a piece goes to the right place of the right file, once, and no other byte changes, for every length of the files and every piece index
// @bound: two files, two blocks per piece
storage!(write_two_files, { write::<2, { 2 * B }>(false) });
// @claim: every byte of a piece goes to the right place of the right file, once, and no other byte changes, for every length of the files and every piece index
// @bound: two files, a full block and 64 bytes per piece
// @tier: thorough
storage!(write_two_files_odd, { write::<2, { B + 64 }>(false) });
// @claim: every byte of a piece goes to the right place of the right file, once, and no other byte changes, for every length of the files and every piece index
// @bound: three files, one block per piece
storage!(write_three_files_short, { write::<3, B>(false) });
// @claim: every byte of a piece goes to the right place of the right file, once, and no other byte changes, for every length of the files and every piece index
// @bound: one file, three blocks per piece
storage!(write_one_file_long, { write::<1, { 3 * B }>(false) });
// @claim: a write that takes only some of the bytes is continued
// @bound: one file, two blocks per piece, one short write
storage!(short_write, { write::<1, { 2 * B }>(true) });

/// Reads a block; `short`: a file delivers it in two parts.
fn read<const N: usize>(short: bool) {
    const LEN: usize = 2 * B;
    let mut room = names();
    let (mut s, starts, total) = storage::<N>(&mut room, LEN);
    let (idx, begin, n): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(idx < 1 << 20 && begin < LEN && n <= B);
    let start = idx as u64 * LEN as u64 + begin as u64;
    let watched: usize = kani::any();
    kani::assume(watched < N);
    let off: u64 = kani::any();
    kani::assume(off < 1 << 35);
    let mut whole = true; // every file has its whole length
    unsafe {
        WATCH.v.slot = watched;
        WATCH.v.off = off;
        let mut i = 0;
        while i < N {
            FS.v[i].len = kani::any();
            kani::assume(FS.v[i].len <= s.file_infos[i].length);
            whole &= FS.v[i].len == s.file_infos[i].length;
            i += 1;
        }
        if short { SHORT.v = kani::any(); kani::assume(SHORT.v >= 1); }
    }
    let buf = unsafe { core::slice::from_raw_parts_mut(OUT.v.as_mut_ptr(), B) };
    let r = s.read_block(idx, begin, n, buf).vp_wait();
    let x = starts[watched] + off;
    let here = off < s.file_infos[watched].length && x >= start && x - start < n as u64;
    unsafe {
        if whole && start + n as u64 <= total { assert!(r.is_ok(), "a block that is in the files is read"); }
        if here && off >= FS.v[watched].len { assert!(r.is_err(), "a block that is not in the files is not made up"); }
        if r.is_ok() && here {
            assert!(WATCH.v.reads == 1 && WATCH.v.to == OUT.v.as_ptr().wrapping_add((x - start) as usize), "byte i of the block is byte i of its range of the content");
        }
        assert!(WATCH.v.writes == 0);
    }
    kani::cover!(r.is_ok() && here);
    kani::cover!(r.is_err());
    forget(r);
}
// @claim: a block is read from where its piece was written
// @bound: one file, two blocks per piece
storage!(read_one_file, { read::<1>(false) });
// @claim: a block is read from where its piece was written
// @bound: two files, two blocks per piece
storage!(read_two_files, { read::<2>(false) });
// @claim: a block is read from where its piece was written
// @bound: three files, two blocks per piece
storage!(read_three_files, { read::<3>(false) });
// @claim: a read that delivers only some of the bytes is continued
// @bound: one file, one short read
storage!(read_short, { read::<1>(true) });
