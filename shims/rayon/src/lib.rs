//! Sequential stand-in for rayon (modelling assumption: the parallel maps used by the parser are
//! element-wise and independent, so a sequential schedule is representative).
pub mod iter {
    pub struct Seq<I>(pub I);
    impl<I: Iterator> Iterator for Seq<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> { self.0.next() }
    }
    pub trait ParallelIterator: Iterator {}
    impl<I: Iterator> ParallelIterator for Seq<I> {}
    pub trait IndexedParallelIterator: ParallelIterator {}
    impl<I: Iterator> IndexedParallelIterator for Seq<I> {}

    pub trait IntoParallelRefIterator<'d> {
        type Iter: Iterator<Item = Self::Item>;
        type Item: 'd;
        fn par_iter(&'d self) -> Seq<Self::Iter>;
    }
    impl<'d, C: 'd + ?Sized> IntoParallelRefIterator<'d> for C
    where
        &'d C: IntoIterator,
    {
        type Iter = <&'d C as IntoIterator>::IntoIter;
        type Item = <&'d C as IntoIterator>::Item;
        fn par_iter(&'d self) -> Seq<Self::Iter> { Seq(self.into_iter()) }
    }
    pub trait IntoParallelRefMutIterator<'d> {
        type Iter: Iterator<Item = Self::Item>;
        type Item: 'd;
        fn par_iter_mut(&'d mut self) -> Seq<Self::Iter>;
    }
    impl<'d, C: 'd + ?Sized> IntoParallelRefMutIterator<'d> for C
    where
        &'d mut C: IntoIterator,
    {
        type Iter = <&'d mut C as IntoIterator>::IntoIter;
        type Item = <&'d mut C as IntoIterator>::Item;
        fn par_iter_mut(&'d mut self) -> Seq<Self::Iter> { Seq(self.into_iter()) }
    }
    pub trait IntoParallelIterator {
        type Iter: Iterator<Item = Self::Item>;
        type Item;
        fn into_par_iter(self) -> Seq<Self::Iter>;
    }
    impl<C: IntoIterator> IntoParallelIterator for C {
        type Iter = C::IntoIter;
        type Item = C::Item;
        fn into_par_iter(self) -> Seq<Self::Iter> { Seq(self.into_iter()) }
    }
}
pub mod prelude {
    pub use crate::iter::*;
}
