//! Stands in for rand: every draw is any of the values it can take, one execution path per
//! value. Rejection loops end because a path is given up after `limit` draws.
use std::ops::{Range, RangeInclusive};

extern "C" {
    fn sx_choice(n: u64, name: *const u8, len: usize) -> u64;
    fn sx_assume(c: bool);
}
static mut LEFT: usize = usize::MAX;
static mut COUNT: usize = 0;
static mut DRAWN: [usize; 64] = [0; 64];
static mut ONLY: usize = usize::MAX;
static mut SCRIPT: [usize; 64] = [0; 64];
static mut SCRIPTED: bool = false;

pub fn limit(draws: usize) {
    unsafe {
        LEFT = draws;
        COUNT = 0;
        SCRIPTED = false;
    }
}
/// Paths with a draw of `n` or more are given up.
pub fn only(n: usize) {
    unsafe { ONLY = n }
}
/// The next draws are these.
pub fn script(draws: &[usize]) {
    limit(draws.len());
    unsafe {
        SCRIPT[..draws.len()].copy_from_slice(draws);
        SCRIPTED = true;
    }
}
/// The draws since `limit`.
pub fn drawn() -> Vec<usize> {
    unsafe { (0..COUNT).map(|i| DRAWN[i]).collect() }
}
fn pick(n: usize) -> usize {
    unsafe {
        if LEFT == 0 {
            sx_assume(false);
        }
        LEFT -= 1;
        let name = "draw";
        let v = if SCRIPTED { SCRIPT[COUNT] } else { sx_choice(n.min(ONLY) as u64, name.as_ptr(), name.len()) as usize };
        if v >= n {
            sx_assume(false);
        }
        if COUNT < 64 {
            DRAWN[COUNT] = v;
            COUNT += 1;
        }
        v
    }
}

pub trait RngCore {}
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}

pub mod distributions {
    pub mod uniform {
        pub trait SampleRange<T> {
            fn pick(self) -> T;
        }
    }
}
use distributions::uniform::SampleRange;
macro_rules! ranges { ($($t:ty)*) => { $(
    impl SampleRange<$t> for Range<$t> {
        fn pick(self) -> $t {
            assert!(self.start < self.end, "cannot sample empty range");
            self.start + crate::pick((self.end - self.start) as usize) as $t
        }
    }
    impl SampleRange<$t> for RangeInclusive<$t> {
        fn pick(self) -> $t {
            assert!(self.start() <= self.end(), "cannot sample empty range");
            *self.start() + crate::pick((*self.end() - *self.start()) as usize + 1) as $t
        }
    }
)* } }
ranges!(usize u64 u32 i64 i32);

pub trait Rng: RngCore {
    fn gen_range<T, R: SampleRange<T>>(&mut self, range: R) -> T {
        range.pick()
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        crate::pick(2) == 1
    }
}
impl<R: RngCore + ?Sized> Rng for R {}

pub mod seq {
    use crate::Rng;
    pub trait SliceRandom {
        type Item;
        fn choose<R: Rng + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: Rng + ?Sized>(&self, _rng: &mut R) -> Option<&T> {
            if self.is_empty() { None } else { Some(&self[crate::pick(self.len())]) }
        }
        fn shuffle<R: Rng + ?Sized>(&mut self, _rng: &mut R) {
            for i in (1..self.len()).rev() {
                self.swap(i, crate::pick(i + 1));
            }
        }
    }
    pub mod index {
        pub struct IndexVec(Vec<usize>);
        impl IndexVec {
            pub fn iter(&self) -> impl Iterator<Item = usize> + '_ { self.0.iter().copied() }
            pub fn index(&self, i: usize) -> usize { self.0[i] }
            pub fn len(&self) -> usize { self.0.len() }
            pub fn into_vec(self) -> Vec<usize> { self.0 }
        }
        pub fn sample<R: crate::Rng + ?Sized>(_rng: &mut R, length: usize, amount: usize) -> IndexVec {
            assert!(amount <= length);
            let mut all: Vec<usize> = (0..length).collect();
            IndexVec((0..amount).map(|_| all.remove(crate::pick(all.len()))).collect())
        }
    }
}
pub mod rngs {
    pub use crate::ThreadRng;
}
pub mod prelude {
    pub use crate::seq::SliceRandom;
    pub use crate::{thread_rng, Rng, RngCore, ThreadRng};
}
