//! P18: contracts of the names a torrent may contain (anchored in transcoding/metainfo.rs).
use super::*;
use bendy::vp::{bytes, dict, int, list, Tree};
use core::mem::{forget, ManuallyDrop};

/// Whether a path relative to the download directory stays strictly inside it: it is not empty, not
/// absolute, and no component is a parent reference.
fn inside(p: &[u8]) -> bool {
    if p.is_empty() || p[0] == b'/' { return false; }
    let mut i = 0;
    while i < p.len() {
        let start = i == 0 || p[i - 1] == b'/';
        if start && i + 1 < p.len() && p[i] == b'.' && p[i + 1] == b'.' && (i + 2 == p.len() || p[i + 2] == b'/') { return false; }
        i += 1;
    }
    true
}
fn plain(p: &[u8]) -> bool {
    let mut i = 0;
    while i < p.len() {
        if !p[i].is_ascii_alphanumeric() { return false; }
        i += 1;
    }
    !p.is_empty()
}
const HASH: [u8; 20] = [7; 20];
fn ascii<const N: usize>() -> [u8; N] {
    let b: [u8; N] = kani::any();
    let mut i = 0;
    while i < N { kani::assume(b[i] < 0x80); i += 1; }
    b
}
/// What a single-file torrent of this name is decoded to.
fn single(name: &[u8]) -> Option<ManuallyDrop<Info>> {
    let items = [int(10), bytes(name), int(4), bytes(&HASH)];
    let keys: [&'static [u8]; 4] = [b"length", b"name", b"piece length", b"pieces"];
    let t = dict(&keys, &items, b"");
    match Info::decode_bencode_object(Object::of(&t)) { Ok(i) => Some(ManuallyDrop::new(i)), Err(e) => { forget(e); None } }
}
/// What a multi-file torrent is decoded to whose second file has this path.
fn multi(name: &[u8], path: &[Tree]) -> Option<ManuallyDrop<Info>> {
    let fkeys: [&'static [u8]; 2] = [b"length", b"path"];
    let first = [bytes(b"a")];
    let f0 = [int(3), list(&first)];
    let f1 = [int(5), list(path)];
    let files = [dict(&fkeys, &f0, b""), dict(&fkeys, &f1, b"")];
    let items = [list(&files), bytes(name), int(4), bytes(&HASH)];
    let keys: [&'static [u8]; 4] = [b"files", b"name", b"piece length", b"pieces"];
    let t = dict(&keys, &items, b"");
    match Info::decode_bencode_object(Object::of(&t)) { Ok(i) => Some(ManuallyDrop::new(i)), Err(e) => { forget(e); None } }
}
fn same(s: &String, b: &[u8]) -> bool {
    let p = s.as_bytes();
    if p.len() != b.len() { return false; }
    let mut i = 0;
    while i < b.len() { if p[i] != b[i] { return false; } i += 1; }
    true
}
fn name<const N: usize>() {
    let b = ascii::<N>();
    let r = single(&b);
    kani::cover!(N == 0 || r.is_some());
    match r {
        Some(i) => {
            assert!(inside(i.name.as_bytes()), "an accepted name stays inside the download directory");
            assert!(same(&i.name, &b), "an accepted name is taken as it is");
        }
        None => assert!(!plain(&b), "an ordinary name is accepted"),
    }
}
fn component<const N: usize, const AT: usize>() {
    let b = ascii::<N>();
    let path = if AT == 0 { [bytes(&b), bytes(b"y")] } else { [bytes(b"x"), bytes(&b)] };
    let r = multi(b"n", &path);
    kani::cover!(r.is_some());
    match r {
        Some(i) => match &i.mode {
            Mode::Multi { files } => {
                assert!(files.len() == 2 && files[1].path.len() == 2, "the files are taken as they are");
                assert!(inside(files[1].path[AT].as_bytes()), "an accepted path stays inside the download directory");
                assert!(same(&files[1].path[AT], &b), "an accepted path is taken as it is");
            }
            _ => assert!(false, "a torrent with files is a multi-file torrent"),
        },
        None => assert!(!plain(&b), "an ordinary path is accepted"),
    }
}

macro_rules! name {
    ($name:ident, $n:expr) => { #[kani::proof] #[kani::unwind(8)] fn $name() { name::<$n>() } };
}
macro_rules! component {
    ($name:ident, $n:expr, $at:expr) => { #[kani::proof] #[kani::unwind(8)] fn $name() { component::<$n, $at>() } };
}
// @claim: a torrent without a name is refused
name!(name_0, 0);
// @claim: a torrent's name is refused or stays inside the download directory; an ordinary one is taken as it is
// @bound: ASCII names of 1 bytes
name!(name_1, 1);
// @claim: a torrent's name is refused or stays inside the download directory; an ordinary one is taken as it is
// @bound: ASCII names of 2 bytes
name!(name_2, 2);
// @claim: a torrent's name is refused or stays inside the download directory; an ordinary one is taken as it is
// @bound: ASCII names of 3 bytes
name!(name_3, 3);
// @claim: a torrent's name is refused or stays inside the download directory; an ordinary one is taken as it is
// @bound: ASCII names of 4 bytes
name!(name_4, 4);
// @claim: a torrent's name is refused or stays inside the download directory; an ordinary one is taken as it is
// @bound: ASCII names of 6 bytes
name!(name_6, 6);
// @claim: a component of a file's path is refused or stays inside the directory it is put in; an ordinary one is taken as it is
// @bound: two components, component 0 an ASCII name of 1 bytes
component!(component_0_1, 1, 0);
// @claim: a component of a file's path is refused or stays inside the directory it is put in; an ordinary one is taken as it is
// @bound: two components, component 0 an ASCII name of 2 bytes
component!(component_0_2, 2, 0);
// @claim: a component of a file's path is refused or stays inside the directory it is put in; an ordinary one is taken as it is
// @bound: two components, component 0 an ASCII name of 3 bytes
component!(component_0_3, 3, 0);
// @claim: a component of a file's path is refused or stays inside the directory it is put in; an ordinary one is taken as it is
// @bound: two components, component 1 an ASCII name of 2 bytes
component!(component_1_2, 2, 1);
// @claim: a component of a file's path is refused or stays inside the directory it is put in; an ordinary one is taken as it is
// @bound: two components, component 1 an ASCII name of 3 bytes
component!(component_1_3, 3, 1);
// @claim: a component of a file's path is refused or stays inside the directory it is put in; an ordinary one is taken as it is
// @bound: two components, component 1 an ASCII name of 6 bytes
component!(component_1_6, 6, 1);

// @claim: a file without a path is refused
#[kani::proof]
#[kani::unwind(8)]
fn no_path() {
    let none: [Tree; 0] = [];
    let r = multi(b"n", &none);
    kani::cover!();
    assert!(r.is_none(), "a file without a path is refused");
}
// @claim: an empty component of a file's path is refused
// @bound: two components
#[kani::proof]
#[kani::unwind(8)]
fn empty_component() {
    let r = multi(b"n", &[bytes(b"y"), bytes(b"")]);
    kani::cover!();
    assert!(r.is_none(), "an empty name is refused");
}
// @claim: a path that is an empty name is refused
#[kani::proof]
#[kani::unwind(8)]
fn empty_path() {
    let r = multi(b"n", &[bytes(b"")]);
    kani::cover!();
    assert!(r.is_none(), "an empty name is refused");
}
// @claim: the name of a multi-file torrent is checked like any other
// @bound: ASCII names of 2 bytes
#[kani::proof]
#[kani::unwind(8)]
fn multi_name() {
    let b = ascii::<2>();
    if let Some(i) = multi(&b, &[bytes(b"y")]) { kani::cover!(); assert!(inside(i.name.as_bytes()), "an accepted name stays inside the download directory"); }
}
