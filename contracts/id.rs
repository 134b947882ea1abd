use super::*;

// Specification: bit i of an identifier is its i-th most significant bit.
fn bit(a: &[u8; 20], i: usize) -> bool {
    (a[i / 8] >> (7 - (i % 8))) & 1 == 1
}
fn any_pos() -> usize {
    let i: usize = kani::any();
    kani::assume(i < 160);
    i
}

// @claim: get_bit(i) is the i-th most significant bit, for all identifiers and positions
#[kani::proof]
fn get_bit() {
    let a: [u8; 20] = kani::any();
    let i = any_pos();
    assert!(ID::new(a).get_bit(i) == bit(&a, i));
    kani::cover!(i == 159 && bit(&a, i));
}

// @claim: flip_bit(i) inverts bit i and no other
#[kani::proof]
fn flip_bit() {
    let a: [u8; 20] = kani::any();
    let i = any_pos();
    let j = any_pos();
    let mut x = ID::new(a);
    x.flip_bit(i);
    assert!(bit(&x.0, j) == (bit(&a, j) ^ (i == j)));
    kani::cover!(i != j && i / 8 == j / 8);
}

// @claim: change_bit(i, v) sets bit i to v and changes no other
#[kani::proof]
fn change_bit() {
    let a: [u8; 20] = kani::any();
    let (i, j, v) = (any_pos(), any_pos(), kani::any::<bool>());
    let mut x = ID::new(a);
    x.change_bit(i, v);
    assert!(bit(&x.0, j) == if i == j { v } else { bit(&a, j) });
    kani::cover!(i != j && v);
}

// @claim: bit_based_order puts the value for the bit's state first
#[kani::proof]
fn bit_based_order() {
    let a: [u8; 20] = kani::any();
    let i = any_pos();
    let (t, f): (u8, u8) = kani::any();
    let r = ID::new(a).bit_based_order(i, t, f);
    assert!(r == if bit(&a, i) { (t, f) } else { (f, t) });
    kani::cover!(bit(&a, i));
}

// Specification of an n-bit prefix comparison: the order of the identifiers with every
// bit from n on cleared.
fn prefix(a: &[u8; 20], n: usize) -> [u8; 20] {
    let mut r = [0u8; 20];
    let mut k = 0;
    while k < 20 {
        let lo = k * 8;
        r[k] = if n >= lo + 8 { a[k] } else if n <= lo { 0 } else { a[k] & !(0xffu8 >> (n - lo)) };
        k += 1;
    }
    r
}

// @claim: cmp_first_n_bits(n) is the order of the n-bit prefixes
#[kani::proof]
#[kani::unwind(22)]
fn cmp_first_n_bits() {
    let (a, b): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
    let n: usize = kani::any();
    kani::assume(n <= 160);
    let r = ID::new(a).cmp_first_n_bits(&ID::new(b), n);
    assert!(r == prefix(&a, n).cmp(&prefix(&b, n)));
    kani::cover!(n % 8 != 0 && r == Ordering::Equal);
}

// @claim: first_diff_bit_idx is the least differing position, None exactly for equal identifiers
#[kani::proof]
#[kani::unwind(162)]
fn first_diff_bit_idx() {
    let (a, b): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
    let j = any_pos();
    match ID::new(a).first_diff_bit_idx(&ID::new(b)) {
        None => assert!(bit(&a, j) == bit(&b, j)),
        Some(i) => {
            assert!(i < 160 && bit(&a, i) != bit(&b, i));
            if j < i {
                assert!(bit(&a, j) == bit(&b, j));
            }
            kani::cover!(i == 159);
        }
    }
}

// @claim: the order is the numeric big-endian order (hence total, and Equal only for equal identifiers)
#[kani::proof]
#[kani::unwind(162)]
fn order() {
    let (a, b): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
    let r = ID::new(a).cmp(&ID::new(b));
    assert!(r == a.cmp(&b));
    kani::cover!(r == Ordering::Less);
}

// @claim: the derived relations agree with the order
#[kani::proof]
#[kani::unwind(162)]
#[kani::stub(<ID as std::cmp::Ord>::cmp, spec_cmp)]
fn order_relations() {
    let (a, b): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
    let (x, y) = (ID::new(a), ID::new(b));
    assert!(x.partial_cmp(&y) == Some(a.cmp(&b)));
    assert!((x == y) == (a == b));
    assert!((x < y) == (a < b));
    kani::cover!(x < y);
}
pub(crate) fn spec_cmp(x: &ID, y: &ID) -> Ordering {
    x.0.cmp(&y.0)
}

// @claim: distance is bytewise XOR, through every operator
#[kani::proof]
#[kani::unwind(22)]
fn xor() {
    let (a, b): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
    let (x, y) = (ID::new(a), ID::new(b));
    let r = &x ^ &y;
    let k: usize = kani::any();
    kani::assume(k < 20);
    assert!(r.0[k] == a[k] ^ b[k]);
    assert!((&x - &y).0[k] == a[k] ^ b[k]);
    assert!((x - y).0[k] == a[k] ^ b[k]);
    assert!((x ^ y).0[k] == a[k] ^ b[k]);
    kani::cover!(a[k] != b[k]);
}

// @claim: weight is the number of set bits
#[kani::proof]
#[kani::unwind(162)]
fn weight() {
    let a: [u8; 20] = kani::any();
    let mut n = 0;
    let mut k = 0;
    while k < 20 {
        n += a[k].count_ones() as usize;
        k += 1;
    }
    assert!(ID::new(a).weight() == n);
    kani::cover!(n == 160);
}

// @claim: randomize_after_bit(i) leaves bits 0..=i as they were, for every outcome of the generator
#[kani::proof]
#[kani::unwind(22)]
fn randomize_after_bit() {
    let a: [u8; 20] = kani::any();
    let i: usize = kani::any();
    kani::assume(i < 200);
    let j = any_pos();
    let mut x = ID::new(a);
    x.randomize_after_bit(i);
    if j <= i {
        assert!(bit(&x.0, j) == bit(&a, j));
    }
    kani::cover!(i == 70 && x.0[9] != a[9]);
    kani::cover!(i == 70 && (x.0[8] ^ a[8]) == 1);
}

// @claim: identifiers are built from exactly the given 20 bytes
#[kani::proof]
#[kani::unwind(22)]
fn construct() {
    let a: [u8; 20] = kani::any();
    assert!(ID::new(a).0 == a);
    assert!(ID::from(a.to_vec()).0 == a);
    assert!(ID::new(a).as_byte_ref() == &a[..]);
    kani::cover!(a[19] == 7);
}
