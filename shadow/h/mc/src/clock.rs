//! Virtual wall clock. `SystemTime::now` (and so `chrono::Utc::now`) reads
//! CLOCK_REALTIME through libc; this definition takes precedence over libc's
//! and answers from `NOW` on threads that asked for it. Monotonic clocks stay
//! real.
use std::cell::Cell;

thread_local! { static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) }; }

/// 2024-10-18T12:00:00Z
pub const EPOCH: i64 = 1_729_252_800;

pub fn set(secs: i64) {
    NOW.with(|n| n.set(Some((secs, 0))));
}
pub fn set_ns(secs: i64, nanos: i64) {
    NOW.with(|n| n.set(Some((secs, nanos))));
}
pub fn advance(secs: i64) {
    NOW.with(|n| {
        let (s, ns) = n.get().unwrap_or((EPOCH, 0));
        n.set(Some((s + secs, ns)));
    });
}
pub fn now() -> i64 {
    NOW.with(|n| n.get().map_or(EPOCH, |t| t.0))
}
pub fn real() {
    NOW.with(|n| n.set(None));
}

#[repr(C)]
pub struct Timespec {
    tv_sec: i64,
    tv_nsec: i64,
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

/// # Safety
/// called by libc users with a valid pointer
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if clk == 0 {
        if let Ok(Some((s, n))) = NOW.try_with(Cell::get) {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    syscall(228, i64::from(clk), ts) as i32
}
