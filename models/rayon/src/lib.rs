//! Verification model of rayon: the same operations, carried out one after another. Rust's ownership rules make
//! the closures of a safe parallel iterator independent of each other (disjoint `&mut`, shared `&` and `Sync`
//! data), so that, absent interior mutability, every schedule gives the sequential result.
pub mod iter {
    pub use crate::prelude::*;
}
pub mod slice {
    pub use crate::prelude::*;
}
pub mod prelude {
    pub trait ParallelIterator: Iterator + Sized {
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn with_max_len(self, _: usize) -> Self {
            self
        }
        fn for_each_init<T, F: FnMut() -> T, G: FnMut(&mut T, Self::Item)>(self, mut f: F, mut g: G) {
            for x in self {
                let mut t = f();
                g(&mut t, x)
            }
        }
        fn for_each_with<T, G: FnMut(&mut T, Self::Item)>(self, mut t: T, mut g: G) {
            for x in self {
                g(&mut t, x)
            }
        }
        fn find_any<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> {
            self.find(p)
        }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
            v.clear();
            v.extend(self)
        }
    }
    impl<I: Iterator> ParallelIterator for I {}
    pub trait IndexedParallelIterator: ParallelIterator {}
    impl<I: Iterator> IndexedParallelIterator for I {}
    pub trait IntoParallelIterator {
        type Iter;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: IntoIterator> IntoParallelIterator for T {
        type Iter = T::IntoIter;
        fn into_par_iter(self) -> T::IntoIter {
            self.into_iter()
        }
    }
    pub trait ParallelSlice<T> {
        fn sl(&self) -> &[T];
        fn par_iter(&self) -> std::slice::Iter<'_, T> {
            self.sl().iter()
        }
        fn par_chunks(&self, n: usize) -> std::slice::Chunks<'_, T> {
            self.sl().chunks(n)
        }
        fn par_chunks_exact(&self, n: usize) -> std::slice::ChunksExact<'_, T> {
            self.sl().chunks_exact(n)
        }
        fn par_windows(&self, n: usize) -> std::slice::Windows<'_, T> {
            self.sl().windows(n)
        }
    }
    impl<T> ParallelSlice<T> for [T] {
        fn sl(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T> {
        fn slm(&mut self) -> &mut [T];
        fn par_iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
            self.slm().iter_mut()
        }
        fn par_chunks_mut(&mut self, n: usize) -> std::slice::ChunksMut<'_, T> {
            self.slm().chunks_mut(n)
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> std::slice::ChunksExactMut<'_, T> {
            self.slm().chunks_exact_mut(n)
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn slm(&mut self) -> &mut [T] {
            self
        }
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    let x = a();
    (x, b())
}
pub fn current_num_threads() -> usize {
    1
}
