//! Model of `anyhow`: an opaque error value. The text of an error is not modelled
//! (format arguments are type-checked and their place expressions evaluated by
//! reference, but nothing is formatted); whether a call fails is.
use std::fmt;

pub struct Error(());
pub type Result<T, E = Error> = ::core::result::Result<T, E>;

impl Error {
    pub fn new<E>(_e: E) -> Self { Error(()) }
    pub fn msg<M>(_m: M) -> Self { Error(()) }
    pub fn context<C>(self, _c: C) -> Self { self }
    #[doc(hidden)]
    pub fn __model() -> Self { Error(()) }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") }
}
impl<E> From<E> for Error
where
    E: std::error::Error + Send + Sync + 'static,
{
    fn from(e: E) -> Self { std::mem::forget(e); Error(()) }
}
pub trait Context<T> {
    fn context<C>(self, c: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E> Context<T> for ::core::result::Result<T, E> {
    fn context<C>(self, _c: C) -> Result<T> { self.map_err(|_| Error(())) }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T> { self.map_err(|_| Error(())) }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _c: C) -> Result<T> { self.ok_or(Error(())) }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T> { self.ok_or(Error(())) }
}
#[macro_export]
macro_rules! anyhow {
    ($fmt:literal $($rest:tt)*) => {{ let _ = || { let _ = ::std::format_args!($fmt $($rest)*); }; $crate::Error::__model() }};
    ($e:expr $(,)?) => {{ ::std::mem::forget($e); $crate::Error::__model() }};
    ($fmt:expr, $($arg:tt)*) => {{ let _ = || { let _ = ::std::format_args!($fmt, $($arg)*); }; $crate::Error::__model() }};
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return ::std::result::Result::Err($crate::anyhow!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !($c) { return ::std::result::Result::Err($crate::Error::__model()); } };
    ($c:expr, $($t:tt)*) => { if !($c) { return ::std::result::Result::Err($crate::anyhow!($($t)*)); } };
}
pub use anyhow as format_err;
#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> { Result::Ok(t) }
