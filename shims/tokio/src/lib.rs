//! tokio as seen by the staged sources: everything is re-exported from the real crate except
//! what talks to the outside world or to a scheduler. Those parts are replaced by models of
//! their documented contracts, driven by the harness through `vp`:
//!   fs      - a small table of files (name, bytes); a write reaches the file only at flush,
//!             seek or drop order as documented (a `pending` mark until then)
//!   net     - one TCP stream whose incoming bytes arrive cut into arbitrary reads; one UDP
//!             socket recording what is sent
//!   sync    - mpsc/broadcast channels without threads
//!   time    - a clock set by the harness; sleeps are recorded
//!   spawn   - the spawned task is not run (it is the subject of its own contract)
pub use tokio_real::*;
mod lazy;
pub mod vp;
pub mod fs;
pub mod net;
pub mod time;
pub mod task {
    pub use tokio_real::task::*;
}
pub mod io {
    pub use tokio_real::io::*;
    mod split;
    pub use split::{split, ReadHalf, WriteHalf};
}
pub mod sync {
    pub use tokio_real::sync::*;
    pub mod mpsc;
    pub mod broadcast;
}

pub struct JoinHandle;
impl JoinHandle { pub fn abort(&self) {} }
pub fn spawn<F>(f: F) -> JoinHandle where F: core::future::Future {
    unsafe { vp::SPAWNED.v += 1 };
    core::mem::forget(f);
    JoinHandle
}
