//! Stand-in for `tracing`: events and spans are discarded.
pub use tracing_attributes::instrument;

#[doc(hidden)]
#[macro_export]
macro_rules! __discard { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! event { ($($t:tt)*) => {{}}; }

/// Verbosity levels; carried, never acted on.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level;
impl Level {
    pub const TRACE: Self = Self;
    pub const DEBUG: Self = Self;
    pub const INFO: Self = Self;
    pub const WARN: Self = Self;
    pub const ERROR: Self = Self;
}
/// A span that records nothing.
#[derive(Clone, Debug, Default)]
pub struct Span;
impl Span {
    pub fn enter(&self) -> Self { Self }
    pub fn entered(self) -> Self { self }
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T { f() }
    pub fn current() -> Self { Self }
    pub fn none() -> Self { Self }
}
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
