//! P19: contract of `FileCache` (anchored in fs/file_cache.rs), on the model of the file system:
//! which files are open and which handle a request gets. The capacity is scaled down.
use super::*;
use core::mem::{forget, ManuallyDrop};
use tokio::vp::{FileState, FS, FS_N, NOW_SECS, OPENS, OPEN_FAILS, OPEN_NOW};

const A: usize = 0;
const B: usize = 1;
const C: usize = 2;
crate::ghost! { NAMES: [&'static str; 3] = ["a", "b", "c"]; }
fn name(i: usize) -> &'static str { unsafe { NAMES.v[i] } }

/// The files exist and have contents.
fn files() {
    let mut i = 0;
    while i < 3 {
        let n = name(i).as_bytes();
        let mut k = 0;
        while k < n.len() { unsafe { FS.v[i].name[k] = n[k]; } k += 1; }
        unsafe { FS.v[i].name_len = n.len(); FS.v[i].len = 10 + i as u64; }
        i += 1;
    }
    unsafe { FS_N.v = 3 };
}
fn resembling(c: &'static str) { unsafe { NAMES.v[C] = c; } files(); }
fn later() {
    let d: u64 = kani::any();
    kani::assume(d < 1 << 40);
    unsafe { NOW_SECS.v += d };
}
/// One request; the handle must be of that file and usable. `mark`: its position afterwards.
fn request(c: &mut FileCache, file: usize, write: bool, mark: u64) -> u64 {
    later();
    let r = if write { c.get_write(name(file)).vp_wait() } else { c.get_read(name(file)).vp_wait() };
    let was = match r {
        Ok(f) => {
            assert!(f.slot == file, "a request gets a handle of that very path");
            assert!(if write { f.write } else { f.read }, "the handle is usable for what it is requested for");
            let was = f.pos;
            f.pos = mark;
            was
        }
        Err(e) => { forget(e); assert!(false, "a file that can be opened is handed out"); 0 }
    };
    unsafe {
        assert!(FS.v[file].open == 1, "one handle of the file is open");
        assert!(OPEN_NOW.v <= FILE_CACHE_SIZE, "no more files are open than the cache may hold");
        let mut i = 0;
        while i < 3 { assert!(FS.v[i].len == 10 + i as u64, "handing out a file does not change any file"); i += 1; }
    }
    was
}
fn open(file: usize) -> usize { unsafe { FS.v[file].open } }

macro_rules! history {
    ($name:ident, |$c:ident| $body:block) => {
        #[kani::proof]
        #[kani::unwind(5)]
        fn $name() {
            files();
            let mut cache = ManuallyDrop::new(FileCache::new());
            let $c = &mut *cache;
            $body;
            kani::cover!();
        }
    };
}

// @claim: a cached handle is reused, for reading after writing and the other way round
// @bound: capacity 2
history!(reuse, |c| {
    request(c, A, true, 77);
    assert!(request(c, A, false, 78) == 77, "a cached handle is reused");
    assert!(request(c, A, true, 79) == 78, "a cached handle is reused");
    assert!(unsafe { OPEN_NOW.v } == 1);
});
// @claim: a cached handle is reused, for reading after writing and the other way round
// @bound: capacity 2
history!(reuse_read_first, |c| {
    request(c, B, false, 77);
    assert!(request(c, B, true, 78) == 77, "a cached handle is reused");
    assert!(unsafe { OPEN_NOW.v } == 1);
});
// @claim: as long as there is room every requested file stays open
// @bound: capacity 2
history!(room, |c| {
    request(c, A, true, 77);
    request(c, B, false, 78);
    assert!(open(A) == 1 && open(B) == 1, "as long as there is room no file is closed");
    assert!(request(c, A, false, 79) == 77, "a cached handle is reused");
    assert!(open(A) == 1 && open(B) == 1, "a request for a cached file closes none");
    assert!(request(c, B, true, 79) == 78, "a cached handle is reused");
});
macro_rules! evict {
    ($name:ident, $w1:expr, $w2:expr, $w3:expr) => {
        history!($name, |c| {
            request(c, A, $w1, 77);
            request(c, B, $w2, 78);
            request(c, C, $w3, 79);
            assert!(open(A) + open(B) == 1, "making room evicts one file and leaves the others");
            assert!(open(C) == 1);
        });
    };
}
// @claim: a request beyond the capacity closes exactly one other file
// @bound: capacity 2; first written, second written
evict!(evict_ww, true, true, true);
// @claim: a request beyond the capacity closes exactly one other file
// @bound: capacity 2; first written, second read
evict!(evict_wr, true, false, true);
// @claim: a request beyond the capacity closes exactly one other file
// @bound: capacity 2; first read, second written
evict!(evict_rw, false, true, false);
// @claim: a request beyond the capacity closes exactly one other file
// @bound: capacity 2; first read, second read
evict!(evict_rr, false, false, false);
// @claim: a path that resembles the path of an open file is another file
// @bound: capacity 2; the paths a, b and ba
history!(evict_ends_with, |c| {
    resembling("ba");
    request(c, A, true, 77);
    request(c, B, true, 78);
    request(c, C, true, 79);
    assert!(open(A) + open(B) == 1, "making room evicts one file and leaves the others");
    assert!(open(C) == 1);
});
// @claim: a path that resembles the path of an open file is another file
// @bound: capacity 2; the paths a, b and ab
history!(evict_starts_with, |c| {
    resembling("ab");
    request(c, A, true, 77);
    request(c, B, true, 78);
    request(c, C, true, 79);
    assert!(open(A) + open(B) == 1, "making room evicts one file and leaves the others");
    assert!(open(C) == 1);
});
// @claim: a path that resembles the path of an open file is another file
// @bound: capacity 2; the paths a, b and cab
history!(evict_contains, |c| {
    resembling("cab");
    request(c, A, true, 77);
    request(c, B, true, 78);
    request(c, C, true, 79);
    assert!(open(A) + open(B) == 1, "making room evicts one file and leaves the others");
    assert!(open(C) == 1);
});
// @claim: a path that resembles the path of an open file is another file
// @bound: capacity 2; the paths a, b and A
history!(evict_other_case, |c| {
    resembling("A");
    request(c, A, true, 77);
    request(c, B, true, 78);
    request(c, C, true, 79);
    assert!(open(A) + open(B) == 1, "making room evicts one file and leaves the others");
    assert!(open(C) == 1);
});
// @claim: a file that cannot be opened is an error and never exceeds the capacity
// @bound: capacity 2
history!(open_fails, |c| {
    request(c, A, true, 77);
    request(c, B, true, 78);
    unsafe { OPEN_FAILS.v = true };
    let r = c.get_write(name(C)).vp_wait();
    assert!(r.is_err(), "a file that cannot be opened is an error");
    forget(r);
    assert!(unsafe { OPEN_NOW.v } <= FILE_CACHE_SIZE && open(C) == 0);
});
// @claim: at most 16 files are open (the limit, which the other obligations scale to 2)
#[kani::proof]
fn limit() { assert!(VP_ORIG_FILE_CACHE_SIZE <= 16, "at most 16 files"); kani::cover!(VP_ORIG_FILE_CACHE_SIZE > 0); }
