//! Stand-in for rayon in which the explorer decides the order of the tasks of every parallel
//! region and the shape in which their results are combined. Tasks run one after another on the
//! calling thread.
use std::cell::RefCell;
use std::collections::VecDeque;

pub mod mc {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Shape {
        Left,
        Right,
        Halves,
        /// every item is first combined with the identity, then halves
        Identities,
    }
    type Plan = Box<dyn FnMut(usize, usize) -> Option<Vec<usize>>>;
    #[derive(Default)]
    pub(crate) struct St {
        pub plan: Option<Plan>,
        pub regions: Vec<usize>,
        pub shape: Option<Shape>,
        pub threads: usize,
    }
    thread_local! { pub(crate) static ST: RefCell<St> = RefCell::new(St::default()); }
    /// runs `f` with an order for the tasks of region number `i` with `n` tasks; None keeps them in order.
    /// Returns the sizes of the regions met (those with at least two tasks).
    pub fn run<T>(shape: Shape, plan: impl FnMut(usize, usize) -> Option<Vec<usize>> + 'static, f: impl FnOnce() -> T) -> (T, Vec<usize>) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.plan = Some(Box::new(plan));
            s.regions = vec![];
            s.shape = Some(shape);
        });
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                ST.with(|s| {
                    let mut s = s.borrow_mut();
                    s.plan = None;
                    s.shape = None;
                });
            }
        }
        let off = Off;
        let r = f();
        drop(off);
        (r, ST.with(|s| std::mem::take(&mut s.borrow_mut().regions)))
    }
    pub fn set_threads(n: usize) {
        ST.with(|s| s.borrow_mut().threads = n);
    }
    pub(crate) fn order(n: usize) -> Option<Vec<usize>> {
        if n < 2 {
            return None;
        }
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.regions.len();
            s.regions.push(n);
            let mut plan = s.plan.take()?;
            let o = plan(i, n);
            s.plan = Some(plan);
            o
        })
    }
    pub(crate) fn shape() -> Shape {
        ST.with(|s| s.borrow().shape).unwrap_or(Shape::Left)
    }
}

/// applies f to the items in the order of the plan; results in the order of the items
fn exec<T, R>(v: Vec<T>, mut f: impl FnMut(T) -> R) -> Vec<R> {
    match mc::order(v.len()) {
        None => v.into_iter().map(f).collect(),
        Some(o) => {
            assert_eq!(o.len(), v.len());
            let mut v: Vec<Option<T>> = v.into_iter().map(Some).collect();
            let mut r: Vec<Option<R>> = v.iter().map(|_| None).collect();
            for i in o {
                r[i] = Some(f(v[i].take().unwrap()));
            }
            r.into_iter().map(|x| x.unwrap()).collect()
        }
    }
}
fn combine<T>(v: Vec<T>, id: &dyn Fn() -> T, op: &dyn Fn(T, T) -> T) -> T {
    fn halves<T>(mut v: VecDeque<T>, op: &dyn Fn(T, T) -> T) -> Option<T> {
        match v.len() {
            0 => None,
            1 => v.pop_front(),
            n => {
                let r = v.split_off(n / 2);
                let (a, b) = (halves(v, op), halves(r, op));
                Some(op(a.unwrap(), b.unwrap()))
            }
        }
    }
    match mc::shape() {
        mc::Shape::Left => v.into_iter().fold(id(), op),
        mc::Shape::Right => v.into_iter().rev().fold(id(), |a, x| op(x, a)),
        mc::Shape::Halves => halves(v.into(), op).unwrap_or_else(id),
        mc::Shape::Identities => halves(v.into_iter().map(|x| op(id(), x)).collect(), op).unwrap_or_else(id),
    }
}

pub struct Par<T>(Vec<T>);
impl<T> IntoIterator for Par<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}

pub mod iter {
    use super::*;
    pub trait FromParallelIterator<T> {
        fn from_vec(v: Vec<T>) -> Self;
    }
    impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {
        fn from_vec(v: Vec<T>) -> Self {
            v.into_iter().collect()
        }
    }
    pub trait IntoParallelIterator {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I: IntoIterator> IntoParallelIterator for I {
        type Item = I::Item;
        type Iter = Par<I::Item>;
        fn into_par_iter(self) -> Par<I::Item> {
            Par(self.into_iter().collect())
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item;
        type Iter;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I
    where
        &'a I: IntoParallelIterator,
    {
        type Item = <&'a I as IntoParallelIterator>::Item;
        type Iter = <&'a I as IntoParallelIterator>::Iter;
        fn par_iter(&'a self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item;
        type Iter;
        fn par_iter_mut(&'a mut self) -> Self::Iter;
    }
    impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I
    where
        &'a mut I: IntoParallelIterator,
    {
        type Item = <&'a mut I as IntoParallelIterator>::Item;
        type Iter = <&'a mut I as IntoParallelIterator>::Iter;
        fn par_iter_mut(&'a mut self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait ParallelBridge: Sized {
        type Item;
        fn par_bridge(self) -> Par<Self::Item>;
    }
    impl<I: Iterator> ParallelBridge for I {
        type Item = I::Item;
        fn par_bridge(self) -> Par<I::Item> {
            Par(self.collect())
        }
    }
    pub trait ParallelExtend<T> {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
    }
    impl<T, C: Extend<T>> ParallelExtend<T> for C {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
            self.extend(i.into_par_iter().vec())
        }
    }
    /// Option and Result, for the methods that stop early
    pub trait Try {
        type Output;
        fn branch(self) -> Result<Self::Output, Self>
        where
            Self: Sized;
        fn wrap(o: Self::Output) -> Self;
    }
    impl<T> Try for Option<T> {
        type Output = T;
        fn branch(self) -> Result<T, Self> {
            self.ok_or(None)
        }
        fn wrap(o: T) -> Self {
            Some(o)
        }
    }
    impl<T, E> Try for Result<T, E> {
        type Output = T;
        fn branch(self) -> Result<T, Self> {
            self.map_err(Err)
        }
        fn wrap(o: T) -> Self {
            Ok(o)
        }
    }
    pub trait ParallelIterator: Sized {
        type Item;
        fn vec(self) -> Vec<Self::Item>;
        fn for_each<F: Fn(Self::Item)>(self, f: F) {
            exec(self.vec(), f);
        }
        fn for_each_with<T: Clone, F: Fn(&mut T, Self::Item)>(self, t: T, f: F) {
            exec(self.vec(), |x| f(&mut t.clone(), x));
        }
        fn for_each_init<T, I: Fn() -> T, F: Fn(&mut T, Self::Item)>(self, t: I, f: F) {
            exec(self.vec(), |x| f(&mut t(), x));
        }
        fn try_for_each<R: Try<Output = ()>, F: Fn(Self::Item) -> R>(self, f: F) -> R {
            for r in exec(self.vec(), f) {
                if let Err(e) = r.branch() {
                    return e;
                }
            }
            R::wrap(())
        }
        fn map<R, F: Fn(Self::Item) -> R>(self, f: F) -> Par<R> {
            Par(exec(self.vec(), f))
        }
        fn map_with<T: Clone, R, F: Fn(&mut T, Self::Item) -> R>(self, t: T, f: F) -> Par<R> {
            Par(exec(self.vec(), |x| f(&mut t.clone(), x)))
        }
        fn map_init<T, I: Fn() -> T, R, F: Fn(&mut T, Self::Item) -> R>(self, t: I, f: F) -> Par<R> {
            Par(exec(self.vec(), |x| f(&mut t(), x)))
        }
        fn inspect<F: Fn(&Self::Item)>(self, f: F) -> Par<Self::Item> {
            Par(exec(self.vec(), |x| {
                f(&x);
                x
            }))
        }
        fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> Par<Self::Item> {
            Par(exec(self.vec(), |x| Some(x).filter(|x| f(x))).into_iter().flatten().collect())
        }
        fn filter_map<R, F: Fn(Self::Item) -> Option<R>>(self, f: F) -> Par<R> {
            Par(exec(self.vec(), f).into_iter().flatten().collect())
        }
        fn flat_map<P: IntoParallelIterator, F: Fn(Self::Item) -> P>(self, f: F) -> Par<P::Item> {
            Par(exec(self.vec(), |x| f(x).into_par_iter().vec()).into_iter().flatten().collect())
        }
        fn flat_map_iter<P: IntoIterator, F: Fn(Self::Item) -> P>(self, f: F) -> Par<P::Item> {
            Par(exec(self.vec(), |x| f(x).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect())
        }
        fn flatten(self) -> Par<<Self::Item as IntoParallelIterator>::Item>
        where
            Self::Item: IntoParallelIterator,
        {
            Par(self.vec().into_iter().flat_map(|x| x.into_par_iter().vec()).collect())
        }
        fn flatten_iter(self) -> Par<<Self::Item as IntoIterator>::Item>
        where
            Self::Item: IntoIterator,
        {
            Par(self.vec().into_iter().flatten().collect())
        }
        fn reduce<O: Fn(Self::Item, Self::Item) -> Self::Item, I: Fn() -> Self::Item>(self, id: I, op: O) -> Self::Item {
            combine(self.vec(), &id, &op)
        }
        fn reduce_with<O: Fn(Self::Item, Self::Item) -> Self::Item>(self, op: O) -> Option<Self::Item> {
            let v = self.vec();
            let w: Vec<Option<Self::Item>> = v.into_iter().map(Some).collect();
            combine(w, &|| None, &|a, b| match (a, b) {
                (Some(a), Some(b)) => Some(op(a, b)),
                (a, b) => a.or(b),
            })
        }
        fn try_reduce<T, O: Fn(T, T) -> Self::Item, I: Fn() -> T>(self, id: I, op: O) -> Self::Item
        where
            Self::Item: Try<Output = T>,
        {
            combine(self.vec(), &|| Self::Item::wrap(id()), &|a, b| match (a.branch(), b.branch()) {
                (Ok(a), Ok(b)) => op(a, b),
                (Err(e), _) | (_, Err(e)) => e,
            })
        }
        /// one accumulator for each pair of items
        fn fold<T, I: Fn() -> T, F: Fn(T, Self::Item) -> T>(self, id: I, f: F) -> Par<T> {
            let mut groups: Vec<Vec<Self::Item>> = vec![];
            for (i, x) in self.vec().into_iter().enumerate() {
                if i % 2 == 0 {
                    groups.push(vec![]);
                }
                groups.last_mut().unwrap().push(x);
            }
            Par(exec(groups, |g| g.into_iter().fold(id(), &f)))
        }
        fn fold_with<T: Clone, F: Fn(T, Self::Item) -> T>(self, t: T, f: F) -> Par<T> {
            self.fold(|| t.clone(), f)
        }
        fn sum<S: std::iter::Sum<Self::Item> + std::iter::Sum<S>>(self) -> S {
            let v: Vec<S> = self.vec().into_iter().map(|x| std::iter::once(x).sum()).collect();
            v.into_iter().sum()
        }
        fn product<S: std::iter::Product<Self::Item> + std::iter::Product<S>>(self) -> S {
            let v: Vec<S> = self.vec().into_iter().map(|x| std::iter::once(x).product()).collect();
            v.into_iter().product()
        }
        fn count(self) -> usize {
            self.vec().len()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.vec().into_iter().min()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.vec().into_iter().max()
        }
        fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            exec(self.vec(), f).into_iter().any(|x| x)
        }
        fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            exec(self.vec(), f).into_iter().all(|x| x)
        }
        fn find_any<F: Fn(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> {
            let mut v: Vec<Option<Self::Item>> = exec(self.vec(), |x| Some(x).filter(|x| f(x)));
            if mc::shape() == mc::Shape::Right {
                v.reverse();
            }
            v.into_iter().flatten().next()
        }
        fn find_first<F: Fn(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> {
            exec(self.vec(), |x| Some(x).filter(|x| f(x))).into_iter().flatten().next()
        }
        fn find_map_any<R, F: Fn(Self::Item) -> Option<R>>(self, f: F) -> Option<R> {
            let mut v = exec(self.vec(), f);
            if mc::shape() == mc::Shape::Right {
                v.reverse();
            }
            v.into_iter().flatten().next()
        }
        fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Par<Self::Item> {
            let mut v = self.vec();
            v.extend(c.into_par_iter().vec());
            Par(v)
        }
        fn cloned<'a, T: 'a + Clone>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Par(self.vec().into_iter().cloned().collect())
        }
        fn copied<'a, T: 'a + Copy>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Par(self.vec().into_iter().copied().collect())
        }
        fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
            C::from_vec(self.vec())
        }
        fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
        where
            Self: ParallelIterator<Item = (A, B)>,
        {
            self.vec().into_iter().unzip()
        }
        fn partition<A: Default + Extend<Self::Item>, F: Fn(&Self::Item) -> bool>(self, f: F) -> (A, A) {
            let (mut a, mut b) = (A::default(), A::default());
            for x in self.vec() {
                if f(&x) {
                    a.extend(Some(x))
                } else {
                    b.extend(Some(x))
                }
            }
            (a, b)
        }
    }
    impl<T> ParallelIterator for Par<T> {
        type Item = T;
        fn vec(self) -> Vec<T> {
            self.0
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn len(&self) -> usize;
        fn enumerate(self) -> Par<(usize, Self::Item)> {
            Par(self.vec().into_iter().enumerate().collect())
        }
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            Par(self.vec().into_iter().zip(z.into_par_iter().vec()).collect())
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            let (a, b) = (self.vec(), z.into_par_iter().vec());
            assert_eq!(a.len(), b.len(), "iterators must have the same length");
            Par(a.into_iter().zip(b).collect())
        }
        fn interleave<Z: IntoParallelIterator<Item = Self::Item>>(self, z: Z) -> Par<Self::Item> {
            let (mut a, mut b) = (self.vec().into_iter(), z.into_par_iter().vec().into_iter());
            let mut v = vec![];
            loop {
                match (a.next(), b.next()) {
                    (None, None) => return Par(v),
                    (x, y) => v.extend(x.into_iter().chain(y)),
                }
            }
        }
        fn chunks(self, n: usize) -> Par<Vec<Self::Item>> {
            assert!(n != 0, "chunk_size must not be zero");
            let mut out: Vec<Vec<Self::Item>> = vec![];
            for (i, x) in self.vec().into_iter().enumerate() {
                if i % n == 0 {
                    out.push(vec![]);
                }
                out.last_mut().unwrap().push(x);
            }
            Par(out)
        }
        fn rev(self) -> Par<Self::Item> {
            Par(self.vec().into_iter().rev().collect())
        }
        fn skip(self, n: usize) -> Par<Self::Item> {
            Par(self.vec().into_iter().skip(n).collect())
        }
        fn take(self, n: usize) -> Par<Self::Item> {
            Par(self.vec().into_iter().take(n).collect())
        }
        fn step_by(self, n: usize) -> Par<Self::Item> {
            Par(self.vec().into_iter().step_by(n).collect())
        }
        fn with_min_len(self, _: usize) -> Par<Self::Item> {
            Par(self.vec())
        }
        fn with_max_len(self, _: usize) -> Par<Self::Item> {
            Par(self.vec())
        }
        fn collect_into_vec(self, t: &mut Vec<Self::Item>) {
            *t = self.vec();
        }
        fn position_first<F: Fn(Self::Item) -> bool>(self, f: F) -> Option<usize> {
            exec(self.vec(), f).into_iter().position(|x| x)
        }
        fn position_any<F: Fn(Self::Item) -> bool>(self, f: F) -> Option<usize> {
            let v = exec(self.vec(), f);
            if mc::shape() == mc::Shape::Right {
                v.into_iter().rposition(|x| x)
            } else {
                v.into_iter().position(|x| x)
            }
        }
    }
    impl<T> IndexedParallelIterator for Par<T> {
        fn len(&self) -> usize {
            self.0.len()
        }
    }
}

pub mod slice {
    use super::*;
    pub trait ParallelSlice<T> {
        fn as_par(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Par<&[T]> {
            assert!(n != 0, "chunk_size must not be zero");
            Par(self.as_par().chunks(n).collect())
        }
        fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
            assert!(n != 0, "chunk_size must not be zero");
            Par(self.as_par().chunks_exact(n).collect())
        }
        fn par_rchunks(&self, n: usize) -> Par<&[T]> {
            Par(self.as_par().rchunks(n).collect())
        }
        fn par_windows(&self, n: usize) -> Par<&[T]> {
            Par(self.as_par().windows(n).collect())
        }
    }
    impl<T> ParallelSlice<T> for [T] {
        fn as_par(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T> {
        fn as_par_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            assert!(n != 0, "chunk_size must not be zero");
            Par(self.as_par_mut().chunks_mut(n).collect())
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
            assert!(n != 0, "chunk_size must not be zero");
            Par(self.as_par_mut().chunks_exact_mut(n).collect())
        }
        fn par_rchunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.as_par_mut().rchunks_mut(n).collect())
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.as_par_mut().sort()
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.as_par_mut().sort_unstable()
        }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
            self.as_par_mut().sort_by(f)
        }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            self.as_par_mut().sort_by_key(f)
        }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
            self.as_par_mut().sort_unstable_by(f)
        }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            self.as_par_mut().sort_unstable_by_key(f)
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn as_par_mut(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod prelude {
    pub use crate::iter::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend,
        ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    if mc::order(2).is_some_and(|o| o[0] == 1) {
        let y = b();
        (a(), y)
    } else {
        let x = a();
        (x, b())
    }
}

type Job<'s> = Box<dyn FnOnce(&Scope<'s>) + 's>;
pub struct Scope<'s>(RefCell<Vec<Job<'s>>>);
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + 's>(&self, f: F) {
        self.0.borrow_mut().push(Box::new(f));
    }
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    let s = Scope(RefCell::new(vec![]));
    let r = f(&s);
    loop {
        let jobs = std::mem::take(&mut *s.0.borrow_mut());
        if jobs.is_empty() {
            return r;
        }
        exec(jobs, |j| j(&s));
    }
}
pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    scope(f)
}
pub fn spawn<F: FnOnce()>(f: F) {
    f()
}
pub fn current_num_threads() -> usize {
    mc::ST.with(|s| s.borrow().threads).max(1)
}
pub fn max_num_threads() -> usize {
    1 << 16
}
pub fn current_thread_index() -> Option<usize> {
    None
}
#[derive(Default)]
pub struct ThreadPoolBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadPool;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl ThreadPool {
    pub fn install<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}
