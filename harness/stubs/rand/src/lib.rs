//! Stand-in: every draw is an arbitrary value of the requested range, taken
//! from the harness (symbolic there, the model's bytes in a native replay).
//! The ranges asked for are recorded for the harness.
use std::cell::RefCell;
use std::ops::{Range, RangeInclusive};
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_conc(x: u64) -> u64;
}
thread_local! { static DRAWS: RefCell<Vec<(u64, u64)>> = const { RefCell::new(Vec::new()) }; }
/// (size of the range, value drawn relative to its start)
pub fn draws() -> Vec<(u64, u64)> { DRAWS.with(|d| d.borrow().clone()) }
fn draw(n: u64) -> u64 {
    assert!(n > 0, "cannot sample empty range");
    let mut b = 0u8;
    unsafe {
        sym_bytes(&mut b, 1);
        sym_assume((b as u64) < n);
        let v = sym_conc(b as u64);
        DRAWS.with(|d| d.borrow_mut().push((n, v)));
        v
    }
}
pub trait Num: Copy { fn to(self) -> u64; fn from(x: u64) -> Self; }
macro_rules! num { ($($t:ty)*) => { $(impl Num for $t { fn to(self) -> u64 { self as u64 } fn from(x: u64) -> Self { x as $t } })* } }
num! { u8 u16 u32 u64 usize i32 i64 isize }
pub trait SampleRange<T> { fn sample(self) -> T; }
impl<T: Num> SampleRange<T> for Range<T> {
    fn sample(self) -> T { T::from(self.start.to() + draw(self.end.to().saturating_sub(self.start.to()))) }
}
impl<T: Num> SampleRange<T> for RangeInclusive<T> {
    fn sample(self) -> T { T::from(self.start().to() + draw((self.end().to() + 1).saturating_sub(self.start().to()))) }
}
pub trait Rng {}
pub trait RngExt: Rng {
    fn random_range<T: Num, R: SampleRange<T>>(&mut self, r: R) -> T { r.sample() }
    fn random_bool(&mut self, _: f64) -> bool { draw(2) == 1 }
}
impl<R: Rng + ?Sized> RngExt for R {}
pub trait SeedableRng: Sized {
    fn seed_from_u64(_: u64) -> Self;
    fn from_rng<R: Rng>(_: &mut R) -> Self;
}
pub mod rngs {
    pub struct StdRng;
    pub struct ThreadRng;
    impl super::Rng for StdRng {}
    impl super::Rng for ThreadRng {}
    impl super::SeedableRng for StdRng {
        fn seed_from_u64(_: u64) -> Self { StdRng }
        fn from_rng<R: super::Rng>(_: &mut R) -> Self { StdRng }
    }
}
pub fn rng() -> rngs::ThreadRng { rngs::ThreadRng }
pub mod prelude {
    pub use super::rngs::{StdRng, ThreadRng};
    pub use super::{rng, Rng, RngExt, SeedableRng};
}
