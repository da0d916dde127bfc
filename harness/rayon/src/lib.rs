//! Stand-in for rayon under the symbolic executor: the items of a parallel loop run one after another in an order the
//! executor chooses (every order of up to three items; first to last, last to first and odd before even beyond).
extern "C" {
    fn vp_pick(lo: i64, hi: i64, tag: u32) -> i64;
}

fn pick(n: usize) -> usize {
    if n < 2 {
        0
    } else {
        unsafe { vp_pick(0, n as i64 - 1, 77) as usize }
    }
}

/// the items in the order in which they run
fn schedule<T>(v: Vec<T>, mut f: impl FnMut(T)) {
    let n = v.len();
    let mut v: Vec<Option<T>> = v.into_iter().map(Some).collect();
    let mut run = |k: usize| f(v[k].take().unwrap());
    if n <= 3 {
        let mut left = [0usize, 1, 2];
        for i in 0..n {
            let j = pick(n - i);
            run(left[j]);
            for k in j..2 {
                left[k] = left[k + 1];
            }
        }
    } else {
        match pick(3) {
            0 => (0..n).for_each(run),
            1 => (0..n).rev().for_each(run),
            _ => (1..n).step_by(2).chain((0..n).step_by(2)).for_each(run),
        }
    }
}

pub struct Par<T>(Vec<T>);

pub mod iter {
    use super::*;
    pub trait ParallelIterator: Sized {
        type Item: Send;
        fn items(self) -> Vec<Self::Item>;
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            schedule(self.items(), f)
        }
        fn for_each_init<S, I: Fn() -> S + Sync + Send, F: Fn(&mut S, Self::Item) + Sync + Send>(self, init: I, f: F) {
            schedule(self.items(), |x| f(&mut init(), x))
        }
        fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
            let mut r = Ok(());
            schedule(self.items(), |x| {
                if let Err(e) = f(x) {
                    r = Err(e)
                }
            });
            r
        }
        fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R> {
            Par(self.items().into_iter().map(f).collect())
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par(self.items().into_iter().filter(f).collect())
        }
        fn count(self) -> usize {
            self.items().len()
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            self.items().into_iter().collect()
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            Par(self.items().into_iter().zip(z.into_par_iter().items()).collect())
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            let (a, b) = (self.items(), z.into_par_iter().items());
            assert_eq!(a.len(), b.len());
            Par(a.into_iter().zip(b).collect())
        }
        fn enumerate(self) -> Par<(usize, Self::Item)> {
            Par(self.items().into_iter().enumerate().collect())
        }
        fn rev(self) -> Par<Self::Item> {
            Par(self.items().into_iter().rev().collect())
        }
        fn skip(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().skip(n).collect())
        }
        fn take(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().take(n).collect())
        }
        fn step_by(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().step_by(n).collect())
        }
        fn chain<Z: IntoParallelIterator<Item = Self::Item>>(self, z: Z) -> Par<Self::Item> {
            Par(self.items().into_iter().chain(z.into_par_iter().items()).collect())
        }
        fn with_min_len(self, _: usize) -> Par<Self::Item> {
            Par(self.items())
        }
        fn with_max_len(self, _: usize) -> Par<Self::Item> {
            Par(self.items())
        }
        fn len(self) -> usize {
            self.items().len()
        }
    }
    impl<T: Send> ParallelIterator for Par<T> {
        type Item = T;
        fn items(self) -> Vec<T> {
            self.0
        }
    }
    impl<T: Send> IndexedParallelIterator for Par<T> {}
    pub trait IntoParallelIterator {
        type Item: Send;
        fn into_par_iter(self) -> Par<Self::Item>;
    }
    impl<P: ParallelIterator> IntoParallelIterator for P {
        type Item = P::Item;
        fn into_par_iter(self) -> Par<P::Item> {
            Par(self.items())
        }
    }
    impl<T: Send> IntoParallelIterator for Vec<T> {
        type Item = T;
        fn into_par_iter(self) -> Par<T> {
            Par(self)
        }
    }
    impl IntoParallelIterator for core::ops::Range<usize> {
        type Item = usize;
        fn into_par_iter(self) -> Par<usize> {
            Par(self.collect())
        }
    }
    impl<'a, T: Sync> IntoParallelIterator for &'a [T] {
        type Item = &'a T;
        fn into_par_iter(self) -> Par<&'a T> {
            Par(self.iter().collect())
        }
    }
    impl<'a, T: Send> IntoParallelIterator for &'a mut [T] {
        type Item = &'a mut T;
        fn into_par_iter(self) -> Par<&'a mut T> {
            Par(self.iter_mut().collect())
        }
    }
}

pub mod slice {
    use super::*;
    pub trait ParallelSlice<T: Sync> {
        fn s(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Par<&[T]> {
            Par(self.s().chunks(n).collect())
        }
        fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
            Par(self.s().chunks_exact(n).collect())
        }
        fn par_iter(&self) -> Par<&T> {
            Par(self.s().iter().collect())
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn s(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.s().chunks_mut(n).collect())
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.s().chunks_exact_mut(n).collect())
        }
        fn par_iter_mut(&mut self) -> Par<&mut T> {
            Par(self.s().iter_mut().collect())
        }
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn s(&self) -> &[T] {
            self
        }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn s(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod prelude {
    pub use crate::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}

pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(a: A, b: B) -> (RA, RB) {
    if pick(2) == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}
