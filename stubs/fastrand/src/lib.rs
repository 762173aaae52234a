//! Controlled stand-in for `fastrand`: every draw is a choice among `n`
//! alternatives, decided by the explorer. `script` queues the next choices;
//! after the queue either 0 is chosen (enumeration) or a per-thread splitmix64
//! stream continues (protocol runs, where identifiers only have to differ).
use std::cell::RefCell;
use std::collections::VecDeque;
use std::ops::{Bound, RangeBounds};

struct Src { queue: VecDeque<u64>, zero: bool, state: u64, bounds: Vec<u64> }
thread_local! {
    static SRC: RefCell<Src> = const {
        RefCell::new(Src { queue: VecDeque::new(), zero: false, state: 0, bounds: Vec::new() })
    };
}

/// Answer the next draws with `choices` (taken modulo the number of
/// alternatives), then with 0 for ever.
pub fn script(choices: &[u64]) {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        s.queue = choices.iter().copied().collect();
        s.zero = true;
        s.bounds.clear();
    });
}
/// The number of alternatives (0: 2^64) of each draw since `script` or `seed`.
pub fn drawn() -> Vec<u64> { SRC.with(|s| s.borrow().bounds.clone()) }

/// Continue with a pseudo-random stream determined by `seed`.
pub fn seed(seed: u64) {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        s.queue.clear();
        s.zero = false;
        s.state = seed;
        s.bounds.clear();
    });
}

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

// a choice in 0..n; n == 0 stands for 2^64
fn choose(n: u64) -> u64 {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        assert!(s.bounds.len() < 3_000, "random stream drawn without end");
        if s.zero { s.bounds.push(n); }
        let v = if let Some(v) = s.queue.pop_front() {
            v
        } else if s.zero {
            0
        } else {
            splitmix(&mut s.state)
        };
        if n == 0 { v } else { v % n }
    })
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
/// `None`: the explored source; `Some`: a generator whose seed the code chose,
/// which is a function of the seed and so no choice at all.
pub struct Rng(Option<u64>);
impl Rng {
    pub fn new() -> Self { Self(None) }
    fn choose(&mut self, n: u64) -> u64 {
        match &mut self.0 {
            None => choose(n),
            Some(state) => { let v = splitmix(state); if n == 0 { v } else { v % n } }
        }
    }
    pub fn with_seed(seed: u64) -> Self { Self(Some(seed)) }
    pub fn fork(&mut self) -> Self { Self(self.0.as_mut().map(splitmix)) }
    pub fn seed(&mut self, seed: u64) { self.0 = Some(seed); }
    pub fn get_seed(&self) -> u64 { self.0.unwrap_or(0) }
    pub fn bool(&mut self) -> bool { self.choose(2) == 1 }
    fn of(&mut self, s: &[u8]) -> char { s[self.choose(s.len() as u64) as usize] as char }
    pub fn alphabetic(&mut self) -> char { self.of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz") }
    pub fn alphanumeric(&mut self) -> char { self.of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") }
    pub fn lowercase(&mut self) -> char { self.of(b"abcdefghijklmnopqrstuvwxyz") }
    pub fn uppercase(&mut self) -> char { self.of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ") }
    pub fn digit(&mut self, base: u32) -> char { std::char::from_digit(self.choose(u64::from(base)) as u32, base).unwrap() }
    pub fn f32(&mut self) -> f32 { self.choose(1 << 24) as f32 / (1u32 << 24) as f32 }
    pub fn f64(&mut self) -> f64 { self.choose(1 << 53) as f64 / (1u64 << 53) as f64 }
    pub fn choice<I>(&mut self, iter: I) -> Option<I::Item>
    where I: IntoIterator, I::IntoIter: ExactSizeIterator {
        let mut it = iter.into_iter();
        let n = it.len();
        if n == 0 { return None; }
        it.nth(self.choose(n as u64) as usize)
    }
    pub fn choose_multiple<T: Iterator>(&mut self, source: T, amount: usize) -> Vec<T::Item> {
        let mut v: Vec<T::Item> = source.collect();
        let mut out = vec![];
        while out.len() < amount && !v.is_empty() { let i = self.choose(v.len() as u64) as usize; out.push(v.remove(i)); }
        out
    }
    pub fn shuffle<T>(&mut self, slice: &mut [T]) {
        for i in 1..slice.len() { slice.swap(i, self.choose(i as u64 + 1) as usize); }
    }
    pub fn fill(&mut self, slice: &mut [u8]) { for b in slice { *b = self.choose(256) as u8; } }
    pub fn char(&mut self, range: impl RangeBounds<char>) -> char {
        let lo = match range.start_bound() { Bound::Included(c) => *c as u32, Bound::Excluded(c) => *c as u32 + 1, Bound::Unbounded => 0 };
        let hi = match range.end_bound() { Bound::Included(c) => *c as u32, Bound::Excluded(c) => *c as u32 - 1, Bound::Unbounded => 0x10ffff };
        loop { if let Some(c) = char::from_u32(lo + self.choose(u64::from(hi - lo) + 1) as u32) { return c; } }
    }
}
macro_rules! ints { ($($t:ident),*) => {
    impl Rng { $(
        pub fn $t(&mut self, range: impl RangeBounds<$t>) -> $t {
            let lo = match range.start_bound() { Bound::Included(x) => *x as i128, Bound::Excluded(x) => *x as i128 + 1, Bound::Unbounded => $t::MIN as i128 };
            let hi = match range.end_bound() { Bound::Included(x) => *x as i128, Bound::Excluded(x) => *x as i128 - 1, Bound::Unbounded => $t::MAX as i128 };
            assert!(lo <= hi, "empty range");
            (lo + self.choose((hi - lo + 1) as u128 as u64) as i128) as $t
        }
    )* }
    $( pub fn $t(range: impl RangeBounds<$t>) -> $t { Rng(None).$t(range) } )*
} }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
pub fn get_seed() -> u64 { 0 }
pub fn bool() -> bool { Rng(None).bool() }
pub fn alphabetic() -> char { Rng(None).alphabetic() }
pub fn alphanumeric() -> char { Rng(None).alphanumeric() }
pub fn lowercase() -> char { Rng(None).lowercase() }
pub fn uppercase() -> char { Rng(None).uppercase() }
pub fn digit(base: u32) -> char { Rng(None).digit(base) }
pub fn f32() -> f32 { Rng(None).f32() }
pub fn f64() -> f64 { Rng(None).f64() }
pub fn fill(slice: &mut [u8]) { Rng(None).fill(slice) }
pub fn shuffle<T>(slice: &mut [T]) { Rng(None).shuffle(slice) }
pub fn char(range: impl RangeBounds<char>) -> char { Rng(None).char(range) }
pub fn choice<I>(iter: I) -> Option<I::Item>
where I: IntoIterator, I::IntoIter: ExactSizeIterator { Rng(None).choice(iter) }
pub fn choose_multiple<T: Iterator>(source: T, amount: usize) -> Vec<T::Item> { Rng(None).choose_multiple(source, amount) }
