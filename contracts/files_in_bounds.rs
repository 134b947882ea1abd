//! P17: contract of `FilesInBounds` (anchored in fs/multi_file_iter.rs): the parts of the files
//! tile the byte range. One arbitrary byte of the range is watched; lengths and range are arbitrary.
use super::*;
use core::mem::ManuallyDrop;

fn file(length: u64) -> File { File { path: std::vec::Vec::new(), length } }

// ---- the contract, for callers ----
crate::ghost! {
    FILES: *const [File] = &[];
    RANGE: (u64, u64) = (90, 91);
    NEXT: usize = 0;
}
/// Contract of `FilesInBounds::new`: the range over these files.
pub(crate) fn new_contract<'a>(files: &'a [File], start: usize, end: usize) -> FilesInBounds<'a> where 'a: 'a {
    unsafe {
        FILES.v = core::mem::transmute::<&'a [File], &'static [File]>(files);
        RANGE.v = (start as u64, end as u64);
        NEXT.v = 0;
    }
    FilesInBounds { file_iter: std::boxed::Box::new(core::iter::empty()), start_byte: start, end_byte: end, cur_idx: 0 }
}
/// Contract of `FilesInBounds::next`: the part of the next file; files outside of the range may
/// be left out or have an empty part (here: an empty part).
pub(crate) fn next_contract<'a>(_s: &mut FilesInBounds<'a>) -> Option<FileWithBounds<'a>> where 'a: 'a {
    unsafe {
        let files: &'static [File] = &*FILES.v;
        if NEXT.v >= files.len() { return None; }
        let j = NEXT.v;
        NEXT.v += 1;
        let mut from = 0u64;
        let mut i = 0;
        while i < j { from += files[i].length; i += 1; }
        let to = from + files[j].length;
        let clamp = |x: u64| if x < RANGE.v.0 { RANGE.v.0 } else if x > RANGE.v.1 { RANGE.v.1 } else { x };
        let (s, e) = (clamp(from), clamp(to));
        let before = if s > from { if s < to { s - from } else { to - from } } else { 0 };
        Some(FileWithBounds {
            file: &files[j],
            start_within_iter_bounds: (s - RANGE.v.0) as usize,
            end_within_iter_bounds: (e - RANGE.v.0) as usize,
            file_bytes_before_iter: before as usize,
            file_bytes_after_iter: (files[j].length - before - (e - s)) as usize,
        })
    }
}

fn tiles<const N: usize>() {
    let mut files: ManuallyDrop<[File; N]> = ManuallyDrop::new(core::array::from_fn(|_| file(0)));
    let mut starts = [0u64; N];
    let mut total = 0u64;
    let mut i = 0;
    while i < N {
        let l: u64 = kani::any();
        kani::assume(l <= i64::MAX as u64 - total);
        files[i].length = l;
        starts[i] = total;
        total += l;
        i += 1;
    }
    let (start, end): (usize, usize) = (kani::any(), kani::any());
    kani::assume(start <= end && end <= i64::MAX as usize);
    let x: u64 = kani::any();
    kani::assume(x >= start as u64 && x < end as u64);
    let mut covered = 0;
    let mut next = 0; // files are handed out in order, each at most once
    let mut it = ManuallyDrop::new(FilesInBounds::new(&files[..], start, end));
    let mut k = 0;
    while k <= N {
        let Some(f) = it.next() else { break };
        assert!(k < N, "at most every file once");
        let mut j = 0;
        while j < N {
            if core::ptr::eq(f.file, &files[j]) { break; }
            j += 1;
        }
        assert!(j < N && j >= next, "files in their order");
        next = j + 1;
        let (s, e) = (f.start_within_iter_bounds, f.end_within_iter_bounds);
        assert!(s <= e && e <= end - start, "a part is inside the range");
        assert!(f.file_bytes_before_iter as u64 + (e - s) as u64 + f.file_bytes_after_iter as u64 == files[j].length, "a part and what is before and behind it make up the file");
        if e > s {
            assert!(starts[j] + f.file_bytes_before_iter as u64 == (start + s) as u64, "byte i of the range is byte i of the content");
        }
        if x - start as u64 >= s as u64 && x - (start as u64) < e as u64 { covered += 1; }
        k += 1;
    }
    assert!(it.next().is_none(), "nothing after the end");
    assert!(covered == (x < total) as usize, "every byte of the range that is in the content is in exactly one part");
    kani::cover!(covered == 1 && k == N);
    kani::cover!(covered == 0 && k > 0);
    kani::cover!(k == 0);
}
macro_rules! tiles {
    ($name:ident, $n:expr) => {
        #[kani::proof]
        #[kani::unwind(7)]
        fn $name() { tiles::<$n>() }
    };
}
// @claim: the parts tile the range, for every list of lengths and every range
// @bound: one file
tiles!(one_file, 1);
// @claim: the parts tile the range, for every list of lengths and every range
// @bound: two files
tiles!(two_files, 2);
// @claim: the parts tile the range, for every list of lengths and every range
// @bound: three files
tiles!(three_files, 3);
// @claim: the parts tile the range, for every list of lengths and every range
// @bound: four files
tiles!(four_files, 4);
