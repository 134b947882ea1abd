//! Model of `tracing`: logging has no effect on the verified behaviour; the macros
//! expand to nothing.
pub use tracing_noop::instrument;
#[macro_export] macro_rules! error { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! info { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! trace { ($($t:tt)*) => {{ }}; }
pub mod log { pub use crate::{error, warn, info, debug, trace}; }
