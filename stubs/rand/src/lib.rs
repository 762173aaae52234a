//! Controlled stand-in for `rand`: the explorer decides what the generator
//! answers. `script` queues the next 32-bit words; when the queue is empty a
//! per-thread counter mixed by splitmix64 continues the stream.
use std::cell::RefCell;
use std::collections::VecDeque;

struct Src { queue: VecDeque<u32>, state: u64, drawn: u64 }
thread_local! {
    static SRC: RefCell<Src> = const { RefCell::new(Src { queue: VecDeque::new(), state: 0, drawn: 0 }) };
}

/// Restart the stream on this thread, answering `words` first.
pub fn script(seed: u64, words: &[u32]) {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        s.queue = words.iter().copied().collect();
        s.state = seed;
        s.drawn = 0;
    });
}
/// Words drawn since the last `script`.
pub fn drawn() -> u64 { SRC.with(|s| s.borrow().drawn) }

fn word() -> u32 {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        s.drawn += 1;
        assert!(s.drawn < 1_000_000, "random stream drawn without end");
        if let Some(w) = s.queue.pop_front() { return w; }
        s.state = s.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = s.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ (z >> 31)) as u32
    })
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64 { u64::from(self.next_u32()) << 32 | u64::from(self.next_u32()) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = self.next_u32() as u8; } }
}
pub trait Standard { fn draw<R: RngCore + ?Sized>(r: &mut R) -> Self; }
macro_rules! ints { ($($t:ty),*) => { $(
    impl Standard for $t { fn draw<R: RngCore + ?Sized>(r: &mut R) -> Self { r.next_u64_for(std::mem::size_of::<$t>()) as $t } }
    impl SampleRange<$t> for std::ops::Range<$t> { fn sample<R: RngCore + ?Sized>(self, r: &mut R) -> $t {
        assert!(self.start < self.end, "cannot sample empty range");
        let span = (self.end as i128 - self.start as i128) as u128;
        (self.start as i128 + (u128::from(r.next_u64_for(std::mem::size_of::<$t>())) % span) as i128) as $t } }
    impl SampleRange<$t> for std::ops::RangeInclusive<$t> { fn sample<R: RngCore + ?Sized>(self, r: &mut R) -> $t {
        let span = (*self.end() as i128 - *self.start() as i128) as u128 + 1;
        (*self.start() as i128 + (u128::from(r.next_u64_for(std::mem::size_of::<$t>())) % span) as i128) as $t } }
)* } }
pub trait SampleRange<T> { fn sample<R: RngCore + ?Sized>(self, r: &mut R) -> T; }
trait Sized64 { fn next_u64_for(&mut self, size: usize) -> u64; }
impl<R: RngCore + ?Sized> Sized64 for R {
    fn next_u64_for(&mut self, size: usize) -> u64 { if size <= 4 { u64::from(self.next_u32()) } else { self.next_u64() } }
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl Standard for bool { fn draw<R: RngCore + ?Sized>(r: &mut R) -> Self { r.next_u32() & 1 == 1 } }
impl<T: Standard + Default + Copy, const N: usize> Standard for [T; N] {
    fn draw<R: RngCore + ?Sized>(r: &mut R) -> Self { let mut a = [T::default(); N]; for x in &mut a { *x = T::draw(r); } a }
}
pub trait Rng: RngCore {
    fn gen<T: Standard>(&mut self) -> T { T::draw(self) }
    fn gen_range<T, S: SampleRange<T>>(&mut self, range: S) -> T { range.sample(self) }
    fn gen_bool(&mut self, p: f64) -> bool { (f64::from(self.next_u32()) / 4_294_967_296.0) < p }
    fn fill(&mut self, dest: &mut [u8]) { self.fill_bytes(dest) }
}
impl<R: RngCore + ?Sized> Rng for R {}
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng { fn next_u32(&mut self) -> u32 { word() } }
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn random<T: Standard>() -> T { T::draw(&mut ThreadRng) }
pub mod rngs { pub use super::ThreadRng; pub type OsRng = ThreadRng; }
