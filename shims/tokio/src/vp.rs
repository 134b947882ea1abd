//! Controls and observations of the models.
#![allow(static_mut_refs)]
/// Kani identifies a constant with a static of equal initial contents, so that writing to the
/// static would change the constant. Every mutable static therefore starts with contents of its own.
pub struct Cell<T> { pub magic: u128, pub v: T }
pub const MAGIC: u128 = 0x7670_5f6d_6f64_656c_5f73_7461_7465_0000;
pub static mut SPAWNED: Cell<usize> = Cell { magic: MAGIC + 1, v: 0 };

// ---- clock ----
pub static mut NOW_SECS: Cell<u64> = Cell { magic: MAGIC + 2, v: 0 };
pub static mut SLEEPS: Cell<usize> = Cell { magic: MAGIC + 3, v: 0 };
pub static mut LAST_SLEEP: Cell<core::time::Duration> = Cell { magic: MAGIC + 4, v: core::time::Duration::ZERO };
/// Whether a sleep is over at once (else it stays pending).
pub static mut SLEEP_READY: Cell<bool> = Cell { magic: MAGIC + 5, v: true };

// ---- network ----
pub const IN: usize = 80;
pub const OUT: usize = 80;
#[derive(Clone, Copy, PartialEq)]
pub enum End { Eof, Pending, Error }
pub struct Net {
    pub refuse: bool,
    pub connected: usize,
    pub target: Option<std::net::SocketAddrV4>,
    pub input: [u8; IN],
    /// where the incoming bytes are, if not in `input`: a variable of the harness of at most 64 bytes is cheaper
    pub src: *const u8,
    pub in_len: usize,
    pub pos: usize,
    /// how many bytes the k-th read may return (at least one byte is returned when available)
    pub cuts: [usize; 3],
    pub k: usize,
    /// how many bytes any later read may return
    pub every: usize,
    pub end: End,
    pub reads_after_end: usize,
    pub out: [u8; OUT],
    pub out_len: usize,
    pub shut: bool,
}
pub static mut NET: Cell<Net> = Cell { magic: MAGIC + 6, v: Net {
    refuse: false, connected: 0, target: None, input: [0; IN], src: core::ptr::null(), in_len: 0, pos: 0, cuts: [usize::MAX; 3], k: 0, every: usize::MAX,
    end: End::Eof, reads_after_end: 0, out: [0; OUT], out_len: 0, shut: false,
} };

// ---- datagrams ----
pub static mut SENT: Cell<usize> = Cell { magic: MAGIC + 7, v: 0 };
pub static mut SENT_TO: Cell<Option<std::net::SocketAddr>> = Cell { magic: MAGIC + 8, v: None };

pub const DGRAM_BYTES: usize = 8;
pub static mut DGRAM_FROM: Cell<Option<std::net::SocketAddr>> = Cell { magic: MAGIC + 9, v: None };
pub static mut DGRAM_LEN: Cell<usize> = Cell { magic: MAGIC + 10, v: 0 };
/// the first bytes of the datagram
pub static mut DGRAM: Cell<[u8; DGRAM_BYTES]> = Cell { magic: MAGIC + 11, v: [0; DGRAM_BYTES] };

// ---- files ----
// Of the contents of files one byte is watched: how often it was written and from where, how
// often it was read and to where. What holds for every choice of that byte holds for all.
pub const FILES: usize = 4;
pub const NAME: usize = 24;
#[derive(Clone, Copy)]
pub struct FileState { pub name: [u8; NAME], pub name_len: usize, pub len: u64, pub pending: bool, pub open: usize }
pub const NOFILE: FileState = FileState { name: [0; NAME], name_len: 0, len: 0, pending: false, open: 0 };
pub static mut FS: Cell<[FileState; FILES]> = Cell { magic: MAGIC + 12, v: [NOFILE; FILES] };
pub static mut FS_N: Cell<usize> = Cell { magic: MAGIC + 13, v: 0 };
pub static mut OPENS: Cell<usize> = Cell { magic: MAGIC + 14, v: 0 };
pub static mut OPEN_NOW: Cell<usize> = Cell { magic: MAGIC + 15, v: 0 };
pub static mut MAX_OPEN: Cell<usize> = Cell { magic: MAGIC + 16, v: 0 };
/// Names of the directories created or removed, in order.
pub struct DirName { pub name: [u8; NAME], pub len: usize }
pub const NODIR: DirName = DirName { name: [0; NAME], len: 0 };
pub static mut DIR_NAMES: Cell<[DirName; FILES]> = Cell { magic: MAGIC + 40, v: [NODIR; FILES] };
/// The k-th creation of a directory fails.
pub static mut DIR_FAILS: Cell<usize> = Cell { magic: MAGIC + 41, v: usize::MAX };
pub static mut REMOVED: Cell<usize> = Cell { magic: MAGIC + 42, v: 0 };
pub(crate) fn dir(p: &std::path::Path, remove: bool) -> std::io::Result<()> {
    let name = path_bytes(p);
    unsafe {
        let k = DIRS.v;
        DIRS.v += 1;
        if k >= FILES || name.len() > NAME { panic!("vp-model: directory table of the model exceeded"); }
        let mut i = 0;
        while i < name.len() { DIR_NAMES.v[k].name[i] = name[i]; i += 1; }
        DIR_NAMES.v[k].len = name.len();
        if remove { REMOVED.v += 1 }
        if k == DIR_FAILS.v { return Err(std::io::Error::from(std::io::ErrorKind::AlreadyExists)); }
    }
    Ok(())
}
pub static mut DIRS: Cell<usize> = Cell { magic: MAGIC + 17, v: 0 };
pub struct Watch { pub slot: usize, pub off: u64, pub writes: usize, pub from: *const u8, pub reads: usize, pub to: *const u8 }
pub static mut WATCH: Cell<Watch> = Cell { magic: MAGIC + 18, v: Watch { slot: usize::MAX, off: 0, writes: 0, from: core::ptr::null(), reads: 0, to: core::ptr::null() } };
/// How much the next write (or read) may take at most; later ones take everything.
pub static mut SHORT: Cell<usize> = Cell { magic: MAGIC + 19, v: usize::MAX };
/// Opening fails.
pub static mut OPEN_FAILS: Cell<bool> = Cell { magic: MAGIC + 20, v: false };

pub fn path_bytes(p: &std::path::Path) -> &[u8] {
    use std::os::unix::ffi::OsStrExt;
    p.as_os_str().as_bytes()
}
