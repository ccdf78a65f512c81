//! Controlled synchronisation primitives. Each wraps the real one: the real primitive keeps
//! the state (and the poisoning rules); the scheduler only decides when an operation runs.
pub use real::sync::*;
use crate::sched::{self, Kind};
use real::fmt;
use real::mem::ManuallyDrop;
use real::ops::{Deref, DerefMut};
use real::prelude::rust_2024::*;
use real::sync as rs;
use real::vec::Vec;

fn key<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const () as usize
}

// ---------------------------------------------------------------- Mutex
#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    id: real::cell::UnsafeCell<u8>,
    inner: rs::Mutex<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> real::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> real::panic::RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    g: ManuallyDrop<rs::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { id: real::cell::UnsafeCell::new(0), inner: rs::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn free(&self) -> bool {
        !matches!(self.inner.try_lock(), Err(TryLockError::WouldBlock))
    }
    fn wrap<'a>(&'a self, r: LockResult<rs::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(MutexGuard { m: self, g: ManuallyDrop::new(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard { m: self, g: ManuallyDrop::new(e.into_inner()) })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if sched::in_model() {
            sched::op_point_ready(key(&self.id), Kind::Write, Mutex::<T>::free, self);
            match self.inner.try_lock() {
                Ok(g) => return self.wrap(Ok(g)),
                Err(TryLockError::Poisoned(e)) => return self.wrap(Err(e)),
                Err(TryLockError::WouldBlock) => {},
            }
        }
        self.wrap(self.inner.lock())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::op_point(key(&self.id), Kind::Write);
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { m: self, g: ManuallyDrop::new(g) }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
                m: self,
                g: ManuallyDrop::new(e.into_inner()),
            }))),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        sched::op_point(key(&self.id), Kind::Read);
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        sched::op_point(key(&self.id), Kind::Write);
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        sched::op_point(key(&self.m.id), Kind::Write);
        unsafe { ManuallyDrop::drop(&mut self.g) }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.g
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------- RwLock
#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    /// threads holding a shared guard; threads waiting for the exclusive one
    meta: rs::Mutex<(Vec<real::thread::ThreadId>, usize)>,
    inner: rs::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    g: ManuallyDrop<rs::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    g: ManuallyDrop<rs::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { meta: rs::Mutex::new((Vec::new(), 0)), inner: rs::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn meta(&self) -> rs::MutexGuard<'_, (Vec<real::thread::ThreadId>, usize)> {
        self.meta.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn can_write(&self) -> bool {
        !matches!(self.inner.try_write(), Err(TryLockError::WouldBlock))
    }
    fn can_read(&self) -> bool {
        !matches!(self.inner.try_read(), Err(TryLockError::WouldBlock))
    }
    /// A second shared acquisition by a thread that already holds one does not get past a
    /// waiting writer (the documented hazard of std's lock).
    fn can_read_again(&self) -> bool {
        self.can_read() && self.meta().1 == 0
    }
    fn rd<'a>(&'a self, g: rs::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        self.meta().0.push(real::thread::current().id());
        RwLockReadGuard { l: self, g: ManuallyDrop::new(g) }
    }
    fn wr<'a>(&'a self, g: rs::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        RwLockWriteGuard { l: self, g: ManuallyDrop::new(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if sched::in_model() {
            let again = self.meta().0.contains(&real::thread::current().id());
            let f = if again { RwLock::<T>::can_read_again } else { RwLock::<T>::can_read };
            sched::op_point_ready(key(&self.meta), Kind::Read, f, self);
            match self.inner.try_read() {
                Ok(g) => return Ok(self.rd(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.rd(e.into_inner()))),
                Err(TryLockError::WouldBlock) => {},
            }
        }
        match self.inner.read() {
            Ok(g) => Ok(self.rd(g)),
            Err(e) => Err(PoisonError::new(self.rd(e.into_inner()))),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if sched::in_model() {
            self.meta().1 += 1;
            sched::op_point_ready(key(&self.meta), Kind::Write, RwLock::<T>::can_write, self);
            self.meta().1 -= 1;
            match self.inner.try_write() {
                Ok(g) => return Ok(self.wr(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.wr(e.into_inner()))),
                Err(TryLockError::WouldBlock) => {},
            }
        }
        match self.inner.write() {
            Ok(g) => Ok(self.wr(g)),
            Err(e) => Err(PoisonError::new(self.wr(e.into_inner()))),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sched::op_point(key(&self.meta), Kind::Read);
        match self.inner.try_read() {
            Ok(g) => Ok(self.rd(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.rd(e.into_inner()))))
            },
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sched::op_point(key(&self.meta), Kind::Write);
        match self.inner.try_write() {
            Ok(g) => Ok(self.wr(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.wr(e.into_inner()))))
            },
        }
    }
    pub fn is_poisoned(&self) -> bool {
        sched::op_point(key(&self.meta), Kind::Read);
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        sched::op_point(key(&self.meta), Kind::Write);
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        // commutes with other shared operations, not with exclusive ones
        sched::op_point(key(&self.l.meta), Kind::Read);
        let me = real::thread::current().id();
        let mut m = self.l.meta();
        if let Some(i) = m.0.iter().position(|t| *t == me) {
            m.0.swap_remove(i);
        }
        drop(m);
        unsafe { ManuallyDrop::drop(&mut self.g) }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        sched::op_point(key(&self.l.meta), Kind::Write);
        unsafe { ManuallyDrop::drop(&mut self.g) }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(mut s: Self) -> RwLockReadGuard<'a, T> {
        sched::op_point(key(&s.l.meta), Kind::Write);
        let g = unsafe { ManuallyDrop::take(&mut s.g) };
        let l = s.l;
        real::mem::forget(s);
        l.rd(rs::RwLockWriteGuard::downgrade(g))
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.g
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------- Condvar
#[derive(Default)]
pub struct Condvar {
    waiters: rs::Mutex<Vec<Arc<rs::atomic::AtomicBool>>>,
    inner: rs::Condvar,
}
pub struct VWaitTimeoutResult(bool);
impl VWaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiters: rs::Mutex::new(Vec::new()), inner: rs::Condvar::new() }
    }
    fn park<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, may_time_out: bool) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let f = Arc::new(rs::atomic::AtomicBool::new(false));
        sched::op_point(key(self), Kind::Write);
        self.waiters.lock().unwrap().push(f.clone());
        let m = g.m;
        drop(g);
        if may_time_out {
            sched::op_point(key(self), Kind::Write);
        } else {
            fn set(b: &rs::atomic::AtomicBool) -> bool {
                b.load(rs::atomic::Ordering::SeqCst)
            }
            sched::op_point_ready(key(self), Kind::Write, set, &*f);
        }
        let hit = f.load(rs::atomic::Ordering::SeqCst);
        self.waiters.lock().unwrap().retain(|w| !Arc::ptr_eq(w, &f));
        (m.lock(), !hit)
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if sched::in_model() {
            return self.park(g, false).0;
        }
        let m = g.m;
        let r = unsafe { ManuallyDrop::take(&mut g.g) };
        real::mem::forget(g);
        m.wrap(self.inner.wait(r))
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self, mut g: MutexGuard<'a, T>, mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self, mut g: MutexGuard<'a, T>, d: real::time::Duration,
    ) -> LockResult<(MutexGuard<'a, T>, VWaitTimeoutResult)> {
        if sched::in_model() {
            let (r, to) = self.park(g, true);
            return match r {
                Ok(g) => Ok((g, VWaitTimeoutResult(to))),
                Err(e) => Err(PoisonError::new((e.into_inner(), VWaitTimeoutResult(to)))),
            };
        }
        let m = g.m;
        let r = unsafe { ManuallyDrop::take(&mut g.g) };
        real::mem::forget(g);
        match self.inner.wait_timeout(r, d) {
            Ok((g, t)) => Ok((m.wrap(Ok(g)).ok().unwrap(), VWaitTimeoutResult(t.timed_out()))),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((m.wrap(Ok(g)).ok().unwrap(), VWaitTimeoutResult(t.timed_out()))))
            },
        }
    }
    pub fn notify_one(&self) {
        sched::op_point(key(self), Kind::Write);
        let mut w = self.waiters.lock().unwrap();
        if !w.is_empty() {
            w.remove(0).store(true, rs::atomic::Ordering::SeqCst);
        }
        self.inner.notify_one();
    }
    pub fn notify_all(&self) {
        sched::op_point(key(self), Kind::Write);
        for w in self.waiters.lock().unwrap().drain(..) {
            w.store(true, rs::atomic::Ordering::SeqCst);
        }
        self.inner.notify_all();
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}

// ---------------------------------------------------------------- one-time cells
/// 0: idle, 1: an initialiser is running in a controlled thread
struct Busy(rs::atomic::AtomicUsize);
impl Busy {
    const fn new() -> Self {
        Busy(rs::atomic::AtomicUsize::new(0))
    }
    fn idle(&self) -> bool {
        self.0.load(rs::atomic::Ordering::SeqCst) == 0
    }
    fn set(&self, v: usize) {
        self.0.store(v, rs::atomic::Ordering::SeqCst)
    }
}
struct Release<'a>(&'a Busy);
impl Drop for Release<'_> {
    fn drop(&mut self) {
        sched::op_point(key(self.0), Kind::Write);
        self.0.set(0);
    }
}
pub struct OnceLock<T> {
    busy: Busy,
    inner: rs::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { busy: Busy::new(), inner: rs::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        sched::op_point(key(&self.busy), Kind::Read);
        self.inner.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.inner.get_mut()
    }
    pub fn wait(&self) -> &T {
        if sched::in_model() {
            fn there<T>(c: &rs::OnceLock<T>) -> bool {
                c.get().is_some()
            }
            sched::op_point_ready(key(&self.busy), Kind::Read, there::<T>, &self.inner);
        }
        self.inner.wait()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        if sched::in_model() {
            sched::op_point_ready(key(&self.busy), Kind::Write, Busy::idle, &self.busy);
        }
        self.inner.set(v)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if !sched::in_model() {
            return self.inner.get_or_init(f);
        }
        sched::op_point_ready(key(&self.busy), Kind::Write, Busy::idle, &self.busy);
        if let Some(v) = self.inner.get() {
            return v;
        }
        self.busy.set(1);
        let r = Release(&self.busy);
        let v = f();
        let out = self.inner.get_or_init(move || v);
        drop(r);
        out
    }
    pub fn into_inner(self) -> Option<T> {
        self.inner.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.inner.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock { busy: Busy::new(), inner: self.inner.clone() }
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock { busy: Busy::new(), inner: rs::OnceLock::from(t) }
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: rs::Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: rs::Mutex::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            let f = this.f.lock().unwrap_or_else(|e| e.into_inner()).take();
            f.expect("LazyLock instance has previously been poisoned")()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.inner.fmt(f)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
    pub fn wait(&self) {
        self.0.wait();
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once")
    }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
    pub use real::sync::atomic::*;
    use super::key;
    use crate::sched::{self, Kind};
    use real::prelude::rust_2024::*;
    use real::sync::atomic as ra;
    const SC: Ordering = Ordering::SeqCst;
    macro_rules! common {
        ($n:ident, $t:ty, [$($g:tt)*]) => {
            impl $($g)* $n $($g)* {
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn load(&self, _: Ordering) -> $t { sched::op_point(key(self), Kind::Read); self.0.load(SC) }
                pub fn store(&self, v: $t, _: Ordering) { sched::op_point(key(self), Kind::Write); self.0.store(v, SC) }
                pub fn swap(&self, v: $t, _: Ordering) -> $t { sched::op_point(key(self), Kind::Write); self.0.swap(v, SC) }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    sched::op_point(key(self), Kind::Write); self.0.compare_exchange(a, b, SC, SC)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    sched::op_point(key(self), Kind::Write); self.0.compare_exchange(a, b, SC, SC)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> {
                    sched::op_point(key(self), Kind::Write); self.0.fetch_update(SC, SC, f)
                }
            }
        };
    }
    macro_rules! ints {
        ($($n:ident $t:ty),*) => {$(
            #[derive(Default, Debug)]
            #[repr(transparent)]
            pub struct $n(ra::$n);
            common!($n, $t, []);
            impl From<$t> for $n { fn from(v: $t) -> Self { $n::new(v) } }
            impl $n {
                pub const fn new(v: $t) -> Self { $n(ra::$n::new(v)) }
                pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { sched::op_point(key(self), Kind::Write); self.0.fetch_add(v, SC) }
                pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { sched::op_point(key(self), Kind::Write); self.0.fetch_sub(v, SC) }
                pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { sched::op_point(key(self), Kind::Write); self.0.fetch_max(v, SC) }
                pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { sched::op_point(key(self), Kind::Write); self.0.fetch_min(v, SC) }
                pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { sched::op_point(key(self), Kind::Write); self.0.fetch_and(v, SC) }
                pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { sched::op_point(key(self), Kind::Write); self.0.fetch_or(v, SC) }
                pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { sched::op_point(key(self), Kind::Write); self.0.fetch_xor(v, SC) }
            }
        )*};
    }
    ints!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32,
          AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8);
    #[derive(Default, Debug)]
    #[repr(transparent)]
    pub struct AtomicBool(ra::AtomicBool);
    common!(AtomicBool, bool, []);
    impl From<bool> for AtomicBool { fn from(v: bool) -> Self { AtomicBool::new(v) } }
    impl AtomicBool {
        pub const fn new(v: bool) -> Self { AtomicBool(ra::AtomicBool::new(v)) }
        pub fn fetch_and(&self, v: bool, _: Ordering) -> bool { sched::op_point(key(self), Kind::Write); self.0.fetch_and(v, SC) }
        pub fn fetch_or(&self, v: bool, _: Ordering) -> bool { sched::op_point(key(self), Kind::Write); self.0.fetch_or(v, SC) }
        pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool { sched::op_point(key(self), Kind::Write); self.0.fetch_xor(v, SC) }
        pub fn fetch_not(&self, _: Ordering) -> bool { sched::op_point(key(self), Kind::Write); self.0.fetch_not(SC) }
    }
    #[derive(Debug)]
    #[repr(transparent)]
    pub struct AtomicPtr<T>(ra::AtomicPtr<T>);
    common!(AtomicPtr, *mut T, [<T>]);
    impl<T> Default for AtomicPtr<T> { fn default() -> Self { AtomicPtr(ra::AtomicPtr::default()) } }
    impl<T> AtomicPtr<T> { pub const fn new(p: *mut T) -> Self { AtomicPtr(ra::AtomicPtr::new(p)) } }
    pub fn fence(_: Ordering) { sched::local_point() }
}
