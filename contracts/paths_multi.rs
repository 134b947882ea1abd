//! P18: where a multi-file torrent is stored (anchored in fs/multi_file_rw.rs).
use super::*;
use crate::data_structures::ID;
use core::mem::{forget, ManuallyDrop};
use tokio::vp::{DIRS, DIR_FAILS, DIR_NAMES};

fn lit(s: &'static str) -> String { let mut v = std::vec::Vec::with_capacity(8); unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), v.as_mut_ptr(), s.len()); v.set_len(s.len()); std::string::String::from_utf8_unchecked(v) } }
fn file(parts: &[&'static str]) -> metainfo::File {
    let mut path = std::vec::Vec::with_capacity(3);
    for p in parts { crate::vph::put(&mut path, lit(p)); }
    metainfo::File { path, length: 3 }
}
fn in_torrent_dir(k: usize) -> bool {
    let d = unsafe { &DIR_NAMES.v[k] };
    d.len >= 3 && d.name[0] == b'd' && d.name[1] == b'/' && d.name[2] == b'n' && (d.len == 3 || d.name[3] == b'/')
}
// @claim: the directories of a multi-file torrent are created (and removed) inside the directory of its name in the download directory
// @bound: download directory "d", name "n", one file "c"; creation may fail at any step
#[kani::proof]
#[kani::unwind(12)]
fn directory() { build(file(&["c"])) }
fn build(f: metainfo::File) {
    let mut files = std::vec::Vec::with_capacity(1);
    crate::vph::put(&mut files, f);
    let files = ManuallyDrop::new(files);
    unsafe { DIR_FAILS.v = kani::any() };
    let r = dir_builder::build_dir_tree("d", "n", &files).vp_wait();
    let n = unsafe { DIRS.v };
    assert!(n >= 1, "the directory of the torrent is created");
    let k: usize = kani::any();
    kani::assume(k < n);
    assert!(in_torrent_dir(k), "only directories inside the torrent's own are touched");
    kani::cover!(r.is_ok());
    forget(r);
}
