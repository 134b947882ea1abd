use super::*;

// Specification: bit i of wire data is the i-th most significant bit.
fn bit(d: &[u8], i: usize) -> bool {
    (d[i / 8] >> (7 - (i % 8))) & 1 == 1
}

const MAXB: usize = 3;

// A bitmap of any length up to 8*MAXB with arbitrary contents, built through the API.
fn any_bitmap() -> (Bitmap, [u8; MAXB]) {
    let n: usize = kani::any();
    kani::assume(n <= MAXB * 8);
    let mut b = Bitmap::new(n);
    let d: [u8; MAXB] = kani::any();
    let nb = (n + 7) / 8;
    assert!(b.replace_data(&d[..nb]).is_ok(), "data of ceil(n/8) bytes is accepted");
    (b, d)
}

// @claim: a new bitmap of n pieces has length n, is empty, and takes exactly ceil(n/8) bytes
// @bound: n <= 24
#[kani::proof]
#[kani::unwind(26)]
fn new_and_replace() {
    let n: usize = kani::any();
    kani::assume(n <= MAXB * 8);
    let mut b = Bitmap::new(n);
    assert!(b.len() == n);
    assert!(b.weight() == 0);
    let i: usize = kani::any();
    if i < n { assert!(!b.get(i)); }
    let d: [u8; MAXB + 2] = kani::any();
    let k: usize = kani::any();
    kani::assume(k <= MAXB + 2);
    let ok = b.replace_data(&d[..k]).is_ok();
    assert!(ok == (k == (n + 7) / 8), "wire data is accepted exactly when it has ceil(n/8) bytes");
    if i < n { assert!(b.get(i) == (ok && bit(&d, i)), "index i is the i-th most significant bit; a refused load changes nothing"); }
    assert!(b.len() == n);
    kani::cover!(ok && n > 8);
    kani::cover!(!ok && n == 0);
}

// @claim: change returns the old value, sets exactly that index
// @bound: n <= 24
#[kani::proof]
#[kani::unwind(26)]
fn change() {
    let (mut b, d) = any_bitmap();
    let n = b.len();
    let i: usize = kani::any();
    let j: usize = kani::any();
    kani::assume(i < n && j < n);
    let v: bool = kani::any();
    let old = b.change(i, v);
    assert!(old == bit(&d, i), "change returns the previous value");
    assert!(b.get(j) == if i == j { v } else { bit(&d, j) }, "change sets exactly one index");
    assert!(b.len() == n);
    kani::cover!(i != j && old && !v);
}

// @claim: iteration yields exactly n values, the i-th being the value at index i
// @bound: n <= 17
#[kani::proof]
#[kani::unwind(20)]
fn iterate() {
    let (b, d) = any_bitmap();
    let n = b.len();
    kani::assume(n <= 17);
    let mut it = b.iter();
    let mut i = 0;
    while i < n {
        assert!(it.next() == Some(bit(&d, i)), "i-th value of the iteration is index i");
        i += 1;
    }
    assert!(it.next().is_none() && it.next().is_none(), "iteration ends after n values");
    kani::cover!(n == 16);
    kani::cover!(n == 0);
}

// @claim: weight is the number of set bits
// @bound: 16 pieces
#[kani::proof]
#[kani::unwind(30)]
fn weight() {
    let mut b = Bitmap::new(16);
    let d: [u8; 2] = kani::any();
    b.replace_data(&d).unwrap();
    let mut w = 0;
    let mut i = 0;
    while i < 16 { if b.get(i) { w += 1; } i += 1; }
    assert!(b.weight() == w, "weight counts the set indices");
    kani::cover!(w == 16);
}

// ---- for bitmaps of every size ----

// A bitmap of any number of pieces (up to 2^40) with arbitrary contents.
fn any_size() -> Bitmap {
    let n: usize = kani::any();
    kani::assume(n <= 1 << 40);
    let nb = n / 8 + (n % 8 > 0) as usize;
    let data = if nb == 0 { Vec::new() } else { unsafe { Vec::from_raw_parts(std::alloc::alloc(std::alloc::Layout::from_size_align(nb, 1).unwrap()), nb, nb) } };
    Bitmap { data, len: n }
}

// @claim: a new bitmap of any number of pieces has that length and is empty
#[kani::proof]
#[kani::unwind(2)]
fn new_any() {
    let n: usize = kani::any();
    kani::assume(n <= 1 << 40);
    let b = Bitmap::new(n);
    assert!(b.len() == n);
    assert!(b.data.len() == n / 8 + (n % 8 > 0) as usize, "ceil(n/8) bytes");
    let i: usize = kani::any();
    kani::assume(i < n);
    assert!(!b.get(i), "empty");
    kani::cover!(n > 100000);
    core::mem::forget(b);
}

// @claim: in a bitmap of any size, index i is the i-th most significant bit; change returns the old value and sets exactly that index
#[kani::proof]
#[kani::unwind(2)]
fn get_change_any() {
    let mut b = any_size();
    let n = b.len();
    let i: usize = kani::any();
    let j: usize = kani::any();
    kani::assume(i < n && j < n);
    let (vi, vj) = (bit(&b.data, i), bit(&b.data, j));
    assert!(b.get(i) == vi, "index i is the i-th most significant bit");
    let v: bool = kani::any();
    assert!(b.change(i, v) == vi, "change returns the previous value");
    assert!(b.get(j) == if i == j { v } else { vj }, "change sets exactly one index");
    assert!(b.len() == n);
    kani::cover!(n > 100000 && i != j && vi && !v);
    core::mem::forget(b);
}

// @claim: data of any wrong size is refused and changes nothing, whatever the size of the bitmap
#[kani::proof]
#[kani::unwind(2)]
fn refuse_any() {
    let mut b = any_size();
    let n = b.len();
    let d = crate::vph::any_bytes();
    kani::assume(d.len() != n / 8 + (n % 8 > 0) as usize);
    let i: usize = kani::any();
    kani::assume(i < n);
    let old = b.get(i);
    assert!(b.replace_data(&d).is_err(), "data of a wrong size is refused");
    assert!(b.get(i) == old && b.len() == n, "a refused load changes nothing");
    kani::cover!(n > 100000 && d.len() > 100000);
    core::mem::forget((b, d));
}

// What the iterator remembers after `i` values: invariant of Iter.
fn iter_inv(it: &Iter, b: &Bitmap, i: usize) -> bool {
    it.cur_idx == i && (i % 8 == 0 || it.cur_byte == b.data[i / 8] << (i % 8))
}
// @claim: the iteration starts at index 0, for a bitmap of any size
// @induction: base
#[kani::proof]
#[kani::unwind(2)]
fn iterate_base() {
    let b = any_size();
    assert!(iter_inv(&b.iter(), &b, 0), "invariant of the iterator");
    kani::cover!(b.len() > 100000);
    core::mem::forget(b);
}
// @claim: the i-th value of the iteration is the value at index i and after n values the iteration ends, for every i and a bitmap of any size
// @induction: step
#[kani::proof]
#[kani::unwind(2)]
fn iterate_step() {
    let b = any_size();
    let i: usize = kani::any();
    kani::assume(i <= b.len());
    let cur_byte = kani::any();
    let mut it = Iter { data: &b, cur_idx: i, cur_byte };
    kani::assume(iter_inv(&it, &b, i));
    let v = it.next();
    if i == b.len() {
        assert!(v.is_none(), "iteration ends after n values");
        assert!(iter_inv(&it, &b, i), "and stays there");
    } else {
        assert!(v == Some(bit(&b.data, i)), "i-th value of the iteration is index i");
        assert!(iter_inv(&it, &b, i + 1), "invariant of the iterator");
    }
    kani::cover!(i == b.len() && i > 100000);
    kani::cover!(i % 8 == 7 && v == Some(true));
    core::mem::forget(b);
}
