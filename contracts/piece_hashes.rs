//! P24: contracts of the piece hashes of a torrent (anchored in transcoding/metainfo.rs).
use super::*;
use crate::vph::{eq20, id_eq};
use bendy::vp::{bytes, dict, int, list, register, Tree};
use core::mem::{forget, ManuallyDrop};

const MAX: usize = 82;
crate::ghost! { RAW: [u8; MAX] = [0xA1; MAX]; BLK: [u8; 8] = [0xA2; 8]; }

/// The hashes of a field of `len` bytes; `None`: refused.
fn decode(len: usize) -> Option<ManuallyDrop<std::vec::Vec<ID>>> {
    let raw = unsafe { RAW.v = kani::any(); &RAW.v[..len] };
    let t = Box::new(bytes(raw));
    let mut v = std::vec::Vec::with_capacity(MAX);
    unsafe { core::ptr::copy_nonoverlapping(raw.as_ptr(), v.as_mut_ptr(), len); v.set_len(len); }
    match deserialize_pieces_field(v) {
        Ok(v) => Some(ManuallyDrop::new(v)),
        Err(e) => { forget(e); None }
    }
}
fn accepted<const N: usize>() {
    let v = decode(20 * N);
    kani::cover!(v.is_some());
    assert!(v.is_some(), "a positive multiple of 20 is accepted");
    let v = v.unwrap();
    assert!(v.len() == N, "one hash per 20 bytes");
    let i: usize = kani::any();
    kani::assume(i < N);
    assert!(unsafe { eq20(v[i].as_byte_ref(), &RAW.v[20 * i..20 * i + 20]) }, "hash i is bytes 20i..20i+20");
}
// @claim: a field of 20 bytes is one hash
// @bound: 1 hash, contents arbitrary
#[kani::proof]
#[kani::unwind(6)]
fn one_hash() { accepted::<1>() }
// @claim: a field of 40 bytes is two hashes, in order
// @bound: 2 hashes, contents arbitrary
#[kani::proof]
#[kani::unwind(6)]
fn two_hashes() { accepted::<2>() }
// @claim: a field of 80 bytes is four hashes, in order
// @bound: 4 hashes, contents arbitrary
#[kani::proof]
#[kani::unwind(6)]
fn four_hashes() { accepted::<4>() }
// @claim: a field of any length that is not a positive multiple of 20 is refused
#[kani::proof]
#[kani::unwind(16)]
fn not_a_multiple() {
    let v = crate::vph::any_bytes();
    let n = v.len();
    kani::assume(n == 0 || n % 20 != 0);
    match deserialize_pieces_field(v) {
        Ok(v) => { forget(v); assert!(false, "another length is refused"); }
        Err(e) => forget(e),
    }
    kani::cover!(n == 0);
    kani::cover!(n == 100001);
}

// @claim: the hash of a piece is the hash of its blocks' bytes one after the other, wherever the blocks end
// @bound: 3 bytes in blocks of 1 and 2 or 2 and 1; SHA-1 an uninterpreted function of the bytes
#[kani::proof]
#[kani::unwind(6)]
fn hash_of_concatenation() {
    let b: [u8; 3] = kani::any();
    let mut blocks = std::vec::Vec::with_capacity(2);
    let cut = if kani::any() { 1 } else { 2 };
    crate::vph::put(&mut blocks, b[..cut].to_vec());
    crate::vph::put(&mut blocks, b[cut..].to_vec());
    let h = Torrent::piece_hash(&blocks);
    kani::cover!();
    assert!(eq20(h.as_byte_ref(), &openssl::sha::sha1(&b)), "the hash is taken over the bytes of the piece in order");
    forget(blocks);
}

// @claim: a torrent's hashes and lengths are taken over from its info dictionary, and its own identifier is the hash of that dictionary's bytes
// @bound: two pieces, an info dictionary of 8 bytes; SHA-1 an uninterpreted function of the bytes
#[kani::proof]
#[kani::unwind(6)]
fn from_torrent() {
    let hashes: [u8; 40] = kani::any();
    let raw: [u8; 8] = kani::any();
    let (len, pl): (u64, u64) = kani::any();
    let info_items = [int(len), bytes(b"n"), int(pl), bytes(&hashes)];
    let info_keys: [&'static [u8]; 4] = [b"length", b"name", b"piece length", b"pieces"];
    let info = dict(&info_keys, &info_items, &raw);
    register(&raw, &info);
    let items = [bytes(b"udp:x"), info];
    let keys: [&'static [u8]; 2] = [b"announce", b"info"];
    let top = dict(&keys, &items, b"");
    let r = Torrent::decode_bencode_object(Object::of(&top));
    kani::cover!(r.is_ok());
    assert!(r.is_ok(), "a complete torrent is accepted");
    let t = match r { Ok(t) => ManuallyDrop::new(t), Err(_) => return };
    assert!(eq20(t.info_hash.as_byte_ref(), &openssl::sha::sha1(&raw)), "the torrent is identified by the hash of its info dictionary");
    assert!(t.count_pieces() == 2 && t.info.pieces.len() == 2);
    assert!(eq20(t.info.pieces[0].as_byte_ref(), &hashes[..20]) && eq20(t.info.pieces[1].as_byte_ref(), &hashes[20..]), "hash i is bytes 20i..20i+20");
    assert!(t.info.piece_length == pl && t.info.length() == len, "lengths are taken over");
}
