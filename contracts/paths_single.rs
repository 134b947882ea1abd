//! P18: where a single-file torrent is stored (anchored in fs/single_file_rw.rs).
use super::*;
use crate::data_structures::ID;
use crate::transcoding::metainfo::Mode;
use core::mem::{forget, ManuallyDrop};

crate::ghost! { HANDLE: Option<tokio::fs::File> = None; OPENS: usize = 0; }
fn get_contract<'a>(_c: &'a mut FileCache, path: &str) -> vstd_shim::Now<Result<&'a mut tokio::fs::File>> {
    let p = path.as_bytes();
    assert!(p.len() == 4 && p[0] == b'd' && p[1] == b'/' && p[2] == b'n' && p[3] == b'm', "the file opened is the one of that name in the download directory");
    unsafe {
        OPENS.v += 1;
        let f = HANDLE.v.get_or_insert(tokio::fs::File::vp(0));
        vstd_shim::now(move || Ok(f))
    }
}
fn lit(s: &'static str) -> String { let mut v = std::vec::Vec::with_capacity(8); unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), v.as_mut_ptr(), s.len()); v.set_len(s.len()); std::string::String::from_utf8_unchecked(v) } }
fn storage() -> ManuallyDrop<SingleFileRw> {
    let mut pieces = std::vec::Vec::with_capacity(2);
    crate::vph::put(&mut pieces, ID::new([0; 20]));
    crate::vph::put(&mut pieces, ID::new([0; 20]));
    ManuallyDrop::new(SingleFileRw::new("d", Info { name: lit("nm"), piece_length: 4, pieces, mode: Mode::Single { length: 7 } }))
}
// @claim: a single-file torrent is stored in the file of its name in the download directory
// @bound: download directory "d", name "nm"; contract of FileCache (P19) assumed
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(FileCache::get_write, get_contract)]
#[kani::stub(FileCache::get_read, get_contract)]
fn written_file() {
    let mut s = storage();
    let idx: usize = if kani::any() { 0 } else { 1 };
    let mut data = std::vec::Vec::with_capacity(1);
    let mut v = std::vec::Vec::<u8>::with_capacity(4);
    unsafe { v.set_len(4) };
    crate::vph::put(&mut data, v);
    forget(s.write_piece(FinishedPiece { idx, data }).vp_wait());
    kani::cover!();
    assert!(unsafe { OPENS.v } > 0, "a piece is written to the file");
}
// @claim: a single-file torrent is read from the file of its name in the download directory
// @bound: download directory "d", name "nm"; contract of FileCache (P19) assumed
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(FileCache::get_write, get_contract)]
#[kani::stub(FileCache::get_read, get_contract)]
fn read_file() {
    let mut s = storage();
    let mut buf = [0u8; 4];
    forget(s.read_block(0, 0, 4, &mut buf).vp_wait());
    kani::cover!();
    assert!(unsafe { OPENS.v } > 0, "a block is read from the file");
}
