pub use tokio_real::fs::*;
use crate::vp::{self, FileState, FILES, FS, NAME, SHORT, WATCH};
use crate::lazy::lazy;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
use std::io::{self, SeekFrom};
use std::path::Path;
use tokio_real::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};

fn err(k: io::ErrorKind) -> io::Error { io::Error::from(k) }

#[derive(Debug)]
pub struct File { pub slot: usize, pub pos: u64, pub read: bool, pub write: bool, seek: u64 }
impl Drop for File { fn drop(&mut self) { unsafe { vp::OPEN_NOW.v -= 1; FS.v[self.slot].open -= 1; } } }
impl File {
    /// A handle for file `slot`.
    pub fn vp(slot: usize) -> Self { unsafe { vp::OPEN_NOW.v += 1; FS.v[slot].open += 1; } File { slot, pos: 0, read: true, write: true, seek: 0 } }
}

#[derive(Clone, Debug)]
pub struct OpenOptions { r: bool, w: bool, c: bool, t: bool, n: bool }
impl OpenOptions {
    pub fn new() -> Self { OpenOptions { r: false, w: false, c: false, t: false, n: false } }
    pub fn read(&mut self, v: bool) -> &mut Self { self.r = v; self }
    pub fn write(&mut self, v: bool) -> &mut Self { self.w = v; self }
    pub fn create(&mut self, v: bool) -> &mut Self { self.c = v; self }
    pub fn create_new(&mut self, v: bool) -> &mut Self { self.n = v; self }
    pub fn truncate(&mut self, v: bool) -> &mut Self { self.t = v; self }
    pub fn open(&self, p: impl AsRef<Path>) -> impl Future<Output = io::Result<File>> { let o = self.clone(); lazy(move || o.now(p.as_ref())) }
    fn now(&self, p: &Path) -> io::Result<File> {
        let name = vp::path_bytes(p);
        unsafe {
            vp::OPENS.v += 1;
            if vp::OPEN_FAILS.v { return Err(err(io::ErrorKind::NotFound)); }
            let mut s = 0;
            while s < vp::FS_N.v {
                if same(&FS.v[s], name) { break; }
                s += 1;
            }
            if s == vp::FS_N.v {
                if !self.c && !self.n { return Err(err(io::ErrorKind::NotFound)); }
                if s >= FILES || name.len() > NAME { panic!("vp-model: file table of the model exceeded"); }
                let mut i = 0;
                while i < name.len() { FS.v[s].name[i] = name[i]; i += 1; }
                FS.v[s].name_len = name.len();
                vp::FS_N.v += 1;
            } else if self.n {
                return Err(err(io::ErrorKind::AlreadyExists));
            }
            if self.t { FS.v[s].len = 0; }
            vp::OPEN_NOW.v += 1;
            FS.v[s].open += 1;
            if vp::OPEN_NOW.v > vp::MAX_OPEN.v { vp::MAX_OPEN.v = vp::OPEN_NOW.v; }
            Ok(File { slot: s, pos: 0, read: self.r, write: self.w, seek: 0 })
        }
    }
}
fn same(f: &FileState, name: &[u8]) -> bool {
    if f.name_len != name.len() { return false; }
    let mut i = 0;
    while i < name.len() {
        if f.name[i] != name[i] { return false; }
        i += 1;
    }
    true
}
impl File {
    pub fn open(p: impl AsRef<Path>) -> impl Future<Output = io::Result<File>> { OpenOptions::new().read(true).open(p) }
    pub fn create(p: impl AsRef<Path>) -> impl Future<Output = io::Result<File>> { OpenOptions::new().write(true).create(true).truncate(true).open(p) }
    pub fn sync_all(&self) -> impl Future<Output = io::Result<()>> + '_ { lazy(move || { unsafe { FS.v[self.slot].pending = false }; Ok(()) }) }
    pub fn sync_data(&self) -> impl Future<Output = io::Result<()>> + '_ { lazy(move || { unsafe { FS.v[self.slot].pending = false }; Ok(()) }) }
    pub fn set_len(&self, n: u64) -> impl Future<Output = io::Result<()>> + '_ { lazy(move || { unsafe { FS.v[self.slot].len = n }; Ok(()) }) }
}
fn pos(f: &File, p: SeekFrom) -> u64 {
    match p {
        SeekFrom::Start(n) => n,
        SeekFrom::Current(d) => (f.pos as i64 + d) as u64,
        SeekFrom::End(d) => (unsafe { FS.v[f.slot].len } as i64 + d) as u64,
    }
}
fn limit(n: u64) -> u64 {
    unsafe {
        let m = if (SHORT.v as u64) < n { SHORT.v as u64 } else { n };
        SHORT.v = usize::MAX;
        m
    }
}
/// The `n` bytes at `b` are written at the position of the file.
fn put(f: &mut File, b: &[u8], n: u64) {
    unsafe {
        if f.slot == WATCH.v.slot && f.pos <= WATCH.v.off && WATCH.v.off - f.pos < n {
            WATCH.v.writes += 1;
            WATCH.v.from = b.as_ptr().wrapping_add((WATCH.v.off - f.pos) as usize);
        }
        let s = &mut FS.v[f.slot];
        if n > 0 {
            if f.pos + n > s.len { s.len = f.pos + n; }
            s.pending = true;
        }
    }
    f.pos += n;
    f.seek = f.pos;
}
fn get(f: &mut File, dst: *const u8, n: u64) {
    unsafe {
        if f.slot == WATCH.v.slot && f.pos <= WATCH.v.off && WATCH.v.off - f.pos < n {
            WATCH.v.reads += 1;
            WATCH.v.to = dst.wrapping_add((WATCH.v.off - f.pos) as usize);
        }
    }
    f.pos += n;
    f.seek = f.pos;
}
fn avail(f: &File) -> u64 { let len = unsafe { FS.v[f.slot].len }; if f.pos < len { len - f.pos } else { 0 } }
/// The methods of tokio's extension traits, for files: what is documented of them, in one step.
impl File {
    pub fn write_all<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = io::Result<()>> + 'a { lazy(move || {
        if !self.write { return Err(err(io::ErrorKind::PermissionDenied)); }
        put(self, b, b.len() as u64);
        Ok(())
    }) }
    pub fn write<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = io::Result<usize>> + 'a { lazy(move || {
        if !self.write { return Err(err(io::ErrorKind::PermissionDenied)); }
        let n = limit(b.len() as u64);
        put(self, b, n);
        Ok(n as usize)
    }) }
    pub fn flush(&mut self) -> impl Future<Output = io::Result<()>> + '_ { lazy(move || { unsafe { FS.v[self.slot].pending = false }; Ok(()) }) }
    pub fn shutdown(&mut self) -> impl Future<Output = io::Result<()>> + '_ { self.flush() }
    pub fn seek(&mut self, p: SeekFrom) -> impl Future<Output = io::Result<u64>> + '_ { lazy(move || { self.pos = pos(self, p); Ok(self.pos) }) }
    pub fn rewind(&mut self) -> impl Future<Output = io::Result<()>> + '_ { lazy(move || { self.pos = 0; Ok(()) }) }
    pub fn stream_position(&mut self) -> impl Future<Output = io::Result<u64>> + '_ { lazy(move || Ok(self.pos)) }
    pub fn read_exact<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = io::Result<usize>> + 'a { lazy(move || {
        if !self.read { return Err(err(io::ErrorKind::PermissionDenied)); }
        let n = b.len() as u64;
        if avail(self) < n { return Err(err(io::ErrorKind::UnexpectedEof)); }
        get(self, b.as_ptr(), n);
        Ok(b.len())
    }) }
    pub fn read<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = io::Result<usize>> + 'a { lazy(move || {
        if !self.read { return Err(err(io::ErrorKind::PermissionDenied)); }
        let n = if avail(self) < b.len() as u64 { avail(self) } else { b.len() as u64 };
        let n = limit(n);
        get(self, b.as_ptr(), n);
        Ok(n as usize)
    }) }
}
impl AsyncSeek for File {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> io::Result<()> { self.seek = pos(&self, p); Ok(()) }
    fn poll_complete(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> {
        self.pos = self.seek;
        Poll::Ready(Ok(self.pos))
    }
}
impl AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if !self.read { return Poll::Ready(Err(err(io::ErrorKind::PermissionDenied))); }
        let n = if avail(&self) < b.remaining() as u64 { avail(&self) } else { b.remaining() as u64 };
        let n = limit(n);
        let dst = b.initialize_unfilled().as_ptr();
        get(&mut self, dst, n);
        b.advance(n as usize);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for File {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if !self.write { return Poll::Ready(Err(err(io::ErrorKind::PermissionDenied))); }
        let n = limit(b.len() as u64);
        put(&mut self, b, n);
        Poll::Ready(Ok(n as usize))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { unsafe { FS.v[self.slot].pending = false }; Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { unsafe { FS.v[self.slot].pending = false }; Poll::Ready(Ok(())) }
}

#[derive(Debug)]
pub struct DirBuilder;
impl DirBuilder {
    pub fn new() -> Self { DirBuilder }
    pub fn recursive(&mut self, _v: bool) -> &mut Self { self }
    pub fn create(&self, p: impl AsRef<Path>) -> impl Future<Output = io::Result<()>> { lazy(move || vp::dir(p.as_ref(), false)) }
}
pub fn create_dir_all(p: impl AsRef<Path>) -> impl Future<Output = io::Result<()>> { lazy(move || vp::dir(p.as_ref(), false)) }
pub fn create_dir(p: impl AsRef<Path>) -> impl Future<Output = io::Result<()>> { lazy(move || vp::dir(p.as_ref(), false)) }
pub fn remove_dir_all(p: impl AsRef<Path>) -> impl Future<Output = io::Result<()>> { lazy(move || vp::dir(p.as_ref(), true)) }
pub fn remove_dir(p: impl AsRef<Path>) -> impl Future<Output = io::Result<()>> { lazy(move || vp::dir(p.as_ref(), true)) }
pub fn remove_file(p: impl AsRef<Path>) -> impl Future<Output = io::Result<()>> { lazy(move || vp::dir(p.as_ref(), true)) }
