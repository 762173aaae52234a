//! Deterministic stand-in for `uuid`: v4 identifiers come from a per-thread
//! counter that the explorer resets, so that every run is replayable.
use std::cell::Cell;
use std::fmt;

thread_local! { static NEXT: Cell<u128> = const { Cell::new(1) }; }

/// Restart the sequence of generated identifiers on this thread.
pub fn reset(n: u128) {
    NEXT.with(|c| c.set(n));
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Uuid(u128);

impl Uuid {
    pub fn new_v4() -> Self {
        NEXT.with(|c| {
            let n = c.get();
            c.set(n + 1);
            Self(0x5eed_0000_0000_4000_8000_0000_0000_0000 | n)
        })
    }
    pub const fn nil() -> Self { Self(0) }
    pub const fn as_u128(&self) -> u128 { self.0 }
    pub fn is_nil(&self) -> bool { self.0 == 0 }
    pub fn simple(self) -> String { format!("{:032x}", self.0) }
    pub fn hyphenated(self) -> Self { self }
}
impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let h = format!("{:032x}", self.0);
        write!(f, "{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
    }
}
impl fmt::Debug for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self}") }
}
