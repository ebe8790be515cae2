//! Stands in for rayon: the items of a parallel iterator are processed one after the other.
//! What a schedule can change in the result (which of several equal items a reduction by
//! comparison keeps) is left open, one execution path per choice.
use std::cmp::Ordering;

extern "C" {
    fn sx_choice(n: u64, name: *const u8, len: usize) -> u64;
}
fn either() -> bool {
    let name = "schedule";
    unsafe { sx_choice(2, name.as_ptr(), name.len()) == 1 }
}

pub struct Par<I>(I);
impl<I: Iterator> Par<I> {
    pub fn map<R, F: FnMut(I::Item) -> R>(self, f: F) -> Par<std::iter::Map<I, F>> { Par(self.0.map(f)) }
    pub fn filter<F: FnMut(&I::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<I, F>> { Par(self.0.filter(f)) }
    pub fn filter_map<R, F: FnMut(I::Item) -> Option<R>>(self, f: F) -> Par<std::iter::FilterMap<I, F>> { Par(self.0.filter_map(f)) }
    pub fn enumerate(self) -> Par<std::iter::Enumerate<I>> { Par(self.0.enumerate()) }
    pub fn for_each<F: FnMut(I::Item)>(self, f: F) { self.0.for_each(f) }
    pub fn collect<C: FromIterator<I::Item>>(self) -> C { self.0.collect() }
    pub fn count(self) -> usize { self.0.count() }
    pub fn sum<S: std::iter::Sum<I::Item>>(self) -> S { self.0.sum() }
    pub fn any<F: FnMut(I::Item) -> bool>(mut self, f: F) -> bool { self.0.any(f) }
    pub fn all<F: FnMut(I::Item) -> bool>(mut self, f: F) -> bool { self.0.all(f) }
    pub fn reduce_with<F: FnMut(I::Item, I::Item) -> I::Item>(self, f: F) -> Option<I::Item> { self.0.reduce(f) }
    pub fn reduce<D: Fn() -> I::Item, F: FnMut(I::Item, I::Item) -> I::Item>(self, id: D, f: F) -> I::Item { self.0.fold(id(), f) }
    pub fn max_by<F: Fn(&I::Item, &I::Item) -> Ordering>(self, f: F) -> Option<I::Item> {
        self.0.reduce(|a, b| match f(&a, &b) {
            Ordering::Less => b,
            Ordering::Greater => a,
            Ordering::Equal => if either() { b } else { a },
        })
    }
    pub fn min_by<F: Fn(&I::Item, &I::Item) -> Ordering>(self, f: F) -> Option<I::Item> {
        self.max_by(|a, b| f(b, a))
    }
    pub fn max_by_key<K: Ord, F: Fn(&I::Item) -> K>(self, f: F) -> Option<I::Item> {
        self.max_by(|a, b| f(a).cmp(&f(b)))
    }
    pub fn min_by_key<K: Ord, F: Fn(&I::Item) -> K>(self, f: F) -> Option<I::Item> {
        self.max_by(|a, b| f(b).cmp(&f(a)))
    }
    pub fn max(self) -> Option<I::Item> where I::Item: Ord { self.max_by(|a, b| a.cmp(b)) }
    pub fn min(self) -> Option<I::Item> where I::Item: Ord { self.max_by(|a, b| b.cmp(a)) }
}
pub mod iter {
    use super::Par;
    pub trait IntoParallelIterator {
        type Iter;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: IntoIterator> IntoParallelIterator for T {
        type Iter = Par<T::IntoIter>;
        fn into_par_iter(self) -> Self::Iter { Par(self.into_iter()) }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Iter;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator {
        type Iter = Par<<&'a T as IntoIterator>::IntoIter>;
        fn par_iter(&'a self) -> Self::Iter { Par(self.into_iter()) }
    }
}
pub mod prelude {
    pub use crate::iter::*;
}
