//! Stand-in for rayon: one sequential schedule (in order).
pub struct Par<I>(I);
pub mod iter {
    use super::Par;
    pub trait ParallelIterator: Sized {
        type Item;
        type It: Iterator<Item = Self::Item>;
        fn seq(self) -> Self::It;
        fn map<R, F: Fn(Self::Item) -> R>(self, f: F) -> Par<std::iter::Map<Self::It, F>> {
            Par(self.seq().map(f))
        }
        fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<Self::It, F>> {
            Par(self.seq().filter(f))
        }
        fn filter_map<R, F: Fn(Self::Item) -> Option<R>>(self, f: F) -> Par<std::iter::FilterMap<Self::It, F>> {
            Par(self.seq().filter_map(f))
        }
        fn flat_map<R: IntoIterator, F: Fn(Self::Item) -> R>(self, f: F) -> Par<std::iter::FlatMap<Self::It, R, F>> {
            Par(self.seq().flat_map(f))
        }
        fn cloned<'a, T: 'a + Clone>(self) -> Par<std::iter::Cloned<Self::It>>
        where
            Self::It: Iterator<Item = &'a T>,
        {
            Par(self.seq().cloned())
        }
        fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<Self::It>>
        where
            Self::It: Iterator<Item = &'a T>,
        {
            Par(self.seq().copied())
        }
        fn fold<T, ID: Fn() -> T, F: Fn(T, Self::Item) -> T>(self, id: ID, f: F) -> Par<std::iter::Once<T>> {
            Par(std::iter::once(self.seq().fold(id(), f)))
        }
        fn reduce<ID: Fn() -> Self::Item, F: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: ID, f: F) -> Self::Item {
            self.seq().fold(id(), f)
        }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
            self.seq().sum()
        }
        fn count(self) -> usize {
            self.seq().count()
        }
        fn for_each<F: Fn(Self::Item)>(self, f: F) {
            self.seq().for_each(f)
        }
        fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            self.seq().any(f)
        }
        fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            self.seq().all(f)
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            self.seq().collect()
        }
    }
    impl<I: Iterator> ParallelIterator for Par<I> {
        type Item = I::Item;
        type It = I;
        fn seq(self) -> I {
            self.0
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn enumerate(self) -> Par<std::iter::Enumerate<Self::It>> {
            Par(self.seq().enumerate())
        }
    }
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}
    pub trait FromParallelIterator<T> {}
    pub trait ParallelExtend<T> {}
    pub trait IntoParallelIterator {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: IntoIterator> IntoParallelIterator for T {
        type Item = T::Item;
        type Iter = Par<T::IntoIter>;
        fn into_par_iter(self) -> Par<T::IntoIter> {
            Par(self.into_iter())
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T
    where
        &'a T: IntoIterator,
    {
        type Item = <&'a T as IntoIterator>::Item;
        type Iter = Par<<&'a T as IntoIterator>::IntoIter>;
        fn par_iter(&'a self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
}
pub mod prelude {
    pub use crate::iter::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, ParallelIterator};
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    (a(), b())
}
