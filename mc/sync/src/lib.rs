//! `std::sync` under a controlled scheduler: threads started by `sched::run` run one at a time and
//! may be exchanged before every lock and every atomic access. Elsewhere everything is as in std.
pub use std::sync::*;

pub mod sched {
    use std::cell::Cell;
    use std::collections::BTreeMap;
    use std::sync::{Condvar, Mutex, MutexGuard};

    #[derive(Clone, Debug)]
    pub struct Choice {
        /// threads that could go on
        pub enabled: Vec<usize>,
        pub took: usize,
        /// the thread that was running, if it could go on
        pub was: Option<usize>,
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum T {
        Ready,
        Waits(usize, bool),
        Over,
    }
    struct St {
        cur: usize,
        th: Vec<T>,
        /// (held by a writer, readers)
        locks: BTreeMap<usize, (bool, usize)>,
        prefix: Vec<usize>,
        trace: Vec<Choice>,
        dead: bool,
    }
    const NOBODY: usize = usize::MAX;
    static S: Mutex<St> = Mutex::new(St { cur: NOBODY, th: Vec::new(), locks: BTreeMap::new(), prefix: Vec::new(), trace: Vec::new(), dead: false });
    static C: Condvar = Condvar::new();
    thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }

    fn free(s: &St, a: usize, write: bool) -> bool {
        s.locks.get(&a).is_none_or(|l| !l.0 && (!write || l.1 == 0))
    }
    /// decides who goes on; `me` is the running thread
    fn choose(s: &mut St, me: Option<usize>) {
        let enabled: Vec<usize> = (0..s.th.len())
            .filter(|&i| match s.th[i] {
                T::Ready => true,
                T::Waits(a, w) => free(s, a, w),
                T::Over => false,
            })
            .collect();
        if enabled.is_empty() {
            s.cur = NOBODY;
            s.dead = s.th.iter().any(|t| *t != T::Over);
            return;
        }
        let was = me.filter(|m| enabled.contains(m));
        let took = if enabled.len() == 1 {
            enabled[0]
        } else {
            let k = s.trace.len();
            let took = s.prefix.get(k).copied().unwrap_or(was.unwrap_or(enabled[0]));
            s.trace.push(Choice { enabled: enabled.clone(), took, was });
            took
        };
        s.cur = took;
    }
    fn pass<'a>(mut s: MutexGuard<'a, St>, me: usize) -> MutexGuard<'a, St> {
        choose(&mut s, Some(me));
        if s.cur != me {
            C.notify_all();
            while s.cur != me {
                s = C.wait(s).unwrap_or_else(|e| e.into_inner());
            }
        }
        s
    }
    fn st() -> MutexGuard<'static, St> {
        S.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn point() {
        if let Some(me) = ME.with(|m| m.get()) {
            drop(pass(st(), me));
        }
    }
    pub(crate) fn acquire(a: usize, write: bool) {
        if let Some(me) = ME.with(|m| m.get()) {
            let mut s = pass(st(), me);
            if !free(&s, a, write) {
                s.th[me] = T::Waits(a, write);
                s = pass(s, me);
                s.th[me] = T::Ready;
            }
            let l = s.locks.entry(a).or_default();
            if write {
                l.0 = true
            } else {
                l.1 += 1
            }
        }
    }
    /// takes the lock if that is possible at once; None outside of controlled threads
    pub(crate) fn try_acquire(a: usize, write: bool) -> Option<bool> {
        let me = ME.with(|m| m.get())?;
        let mut s = pass(st(), me);
        if !free(&s, a, write) {
            return Some(false);
        }
        let l = s.locks.entry(a).or_default();
        if write {
            l.0 = true
        } else {
            l.1 += 1
        }
        Some(true)
    }
    pub(crate) fn release(a: usize, write: bool) {
        if ME.with(|m| m.get()).is_some() {
            let mut s = st();
            if let Some(l) = s.locks.get_mut(&a) {
                if write {
                    l.0 = false
                } else {
                    l.1 -= 1
                }
            }
        }
    }

    /// Runs the threads under the choices of `prefix` (then: whoever runs goes on). Returns the
    /// choices met and whether every thread came to its end; if not, the process is to be ended.
    pub fn run(threads: Vec<Box<dyn FnOnce() + Send + 'static>>, prefix: &[usize]) -> (Vec<Choice>, bool) {
        let n = threads.len();
        {
            let mut s = st();
            *s = St { cur: NOBODY, th: vec![T::Ready; n], locks: BTreeMap::new(), prefix: prefix.to_vec(), trace: vec![], dead: false };
            choose(&mut s, None);
        }
        let hs: Vec<_> = threads
            .into_iter()
            .enumerate()
            .map(|(me, f)| {
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || {
                        ME.with(|m| m.set(Some(me)));
                        let mut s = st();
                        while s.cur != me {
                            s = C.wait(s).unwrap_or_else(|e| e.into_inner());
                        }
                        drop(s);
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                        let mut s = st();
                        s.th[me] = T::Over;
                        choose(&mut s, None);
                        C.notify_all();
                    })
                    .expect("thread")
            })
            .collect();
        let mut s = st();
        C.notify_all();
        while !s.dead && s.th.iter().any(|t| *t != T::Over) {
            s = C.wait(s).unwrap_or_else(|e| e.into_inner());
        }
        let dead = s.dead;
        let trace = std::mem::take(&mut s.trace);
        drop(s);
        if !dead {
            hs.into_iter().for_each(|h| drop(h.join()));
        }
        (trace, !dead)
    }
}

#[derive(Default)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized> {
    g: Option<std::sync::MutexGuard<'a, T>>,
    a: usize,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
fn wrap<G, H>(r: LockResult<G>, f: impl Fn(G) -> H) -> LockResult<H> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(e) => Err(PoisonError::new(f(e.into_inner()))),
    }
}
fn addr<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let a = addr(self);
        sched::acquire(a, true);
        wrap(self.0.lock(), |g| MutexGuard { g: Some(g), a })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let a = addr(self);
        match sched::try_acquire(a, true) {
            Some(true) => wrap(self.0.lock(), |g| MutexGuard { g: Some(g), a }).map_err(TryLockError::Poisoned),
            Some(false) => Err(TryLockError::WouldBlock),
            None => match self.0.try_lock() {
                Ok(g) => Ok(MutexGuard { g: Some(g), a }),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(e.into_inner()), a }))),
            },
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}
impl<T: ?Sized> std::ops::Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> std::ops::DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sched::release(self.a, true);
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
    a: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
    a: usize,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(std::sync::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let a = addr(self);
        sched::acquire(a, false);
        wrap(self.0.read(), |g| RwLockReadGuard { g: Some(g), a })
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let a = addr(self);
        sched::acquire(a, true);
        wrap(self.0.write(), |g| RwLockWriteGuard { g: Some(g), a })
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
}
impl<T: ?Sized> std::ops::Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sched::release(self.a, false);
    }
}
impl<T: ?Sized> std::ops::Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> std::ops::DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sched::release(self.a, true);
    }
}

pub mod atomic {
    pub use std::sync::atomic::*;
    macro_rules! common {
        ($n:ident, $t:ty) => {
            #[derive(Default, Debug)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    $n(std::sync::atomic::$n::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    crate::sched::point();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    crate::sched::point();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    crate::sched::point();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    crate::sched::point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    crate::sched::point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                    crate::sched::point();
                    self.0.fetch_update(s, f, g)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
        };
    }
    macro_rules! int {
        ($n:ident, $t:ty) => {
            common!($n, $t);
            int!($n, $t, fetch_add, fetch_sub, fetch_max, fetch_min, fetch_and, fetch_or, fetch_xor);
        };
        ($n:ident, $t:ty, $($f:ident),*) => {
            impl $n {
                $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                    crate::sched::point();
                    self.0.$f(v, o)
                })*
            }
        };
    }
    common!(AtomicBool, bool);
    int!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor);
    int!(AtomicU8, u8);
    int!(AtomicU16, u16);
    int!(AtomicU32, u32);
    int!(AtomicU64, u64);
    int!(AtomicUsize, usize);
    int!(AtomicI32, i32);
    int!(AtomicI64, i64);
    int!(AtomicIsize, isize);
}
