//! Stand-in for parking_lot: locks that ask a scheduler before every acquisition, so that the
//! order in which threads take them can be enumerated.
pub mod sched;
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// 0 free, -1 taken exclusively, n taken by n readers
pub(crate) struct Raw(AtomicIsize);
impl Raw {
    pub(crate) fn free(&self, write: bool) -> bool {
        let s = self.0.load(SeqCst);
        if write {
            s == 0
        } else {
            s >= 0
        }
    }
    fn try_take(&self, write: bool) -> bool {
        self.0.fetch_update(SeqCst, SeqCst, |s| if write { (s == 0).then_some(-1) } else { (s >= 0).then_some(s + 1) }).is_ok()
    }
    fn take(&self, write: bool) {
        sched::lock_point(self, write);
        while !self.try_take(write) {
            if sched::managed() {
                sched::lock_point(self, write);
            } else {
                std::thread::yield_now();
            }
        }
    }
    fn poll(&self, write: bool) -> bool {
        sched::point();
        self.try_take(write)
    }
    fn release(&self, write: bool) {
        if write {
            self.0.store(0, SeqCst);
        } else {
            self.0.fetch_sub(1, SeqCst);
        }
    }
}

macro_rules! guard {
    ($g:ident, $l:ident, $w:expr) => {
        pub struct $g<'a, T: ?Sized> {
            lock: &'a $l<T>,
            not_send: std::marker::PhantomData<*const ()>,
        }
        impl<'a, T: ?Sized> $g<'a, T> {
            fn new(lock: &'a $l<T>) -> Self {
                Self { lock, not_send: Default::default() }
            }
        }
        unsafe impl<T: ?Sized + Sync> Sync for $g<'_, T> {}
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.lock.value.get() }
            }
        }
        impl<T: ?Sized> Drop for $g<'_, T> {
            fn drop(&mut self) {
                self.lock.raw.release($w)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
macro_rules! guard_mut {
    ($g:ident) => {
        impl<T: ?Sized> DerefMut for $g<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.lock.value.get() }
            }
        }
    };
}
macro_rules! lock {
    ($l:ident) => {
        pub struct $l<T: ?Sized> {
            raw: Raw,
            value: UnsafeCell<T>,
        }
        unsafe impl<T: ?Sized + Send> Send for $l<T> {}
        impl<T> $l<T> {
            pub const fn new(value: T) -> Self {
                Self { raw: Raw(AtomicIsize::new(0)), value: UnsafeCell::new(value) }
            }
            pub fn into_inner(self) -> T {
                self.value.into_inner()
            }
        }
        impl<T: ?Sized> $l<T> {
            pub fn get_mut(&mut self) -> &mut T {
                self.value.get_mut()
            }
            pub fn data_ptr(&self) -> *mut T {
                self.value.get()
            }
        }
        impl<T: Default> Default for $l<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }
        impl<T: ?Sized> fmt::Debug for $l<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($l))
            }
        }
    };
}
lock!(Mutex);
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
lock!(FairMutex);
unsafe impl<T: ?Sized + Send> Sync for FairMutex<T> {}
lock!(RwLock);
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
guard!(MutexGuard, Mutex, true);
guard_mut!(MutexGuard);
guard!(FairMutexGuard, FairMutex, true);
guard_mut!(FairMutexGuard);
guard!(RwLockReadGuard, RwLock, false);
guard!(RwLockWriteGuard, RwLock, true);
guard_mut!(RwLockWriteGuard);

fn until(d: Duration, mut f: impl FnMut() -> bool) -> bool {
    // under the scheduler time does not pass: a timeout is one more try after everyone else moved
    let end = Instant::now() + d;
    loop {
        if f() {
            return true;
        }
        if sched::managed() || Instant::now() > end {
            return f();
        }
        std::thread::yield_now();
    }
}
macro_rules! mutex {
    ($l:ident, $g:ident) => {
        impl<T: ?Sized> $l<T> {
            pub fn lock(&self) -> $g<'_, T> {
                self.raw.take(true);
                $g::new(self)
            }
            pub fn try_lock(&self) -> Option<$g<'_, T>> {
                self.raw.poll(true).then(|| $g::new(self))
            }
            pub fn try_lock_for(&self, d: Duration) -> Option<$g<'_, T>> {
                until(d, || self.raw.poll(true)).then(|| $g::new(self))
            }
            pub fn try_lock_until(&self, _: Instant) -> Option<$g<'_, T>> {
                self.try_lock_for(Duration::ZERO)
            }
            pub fn is_locked(&self) -> bool {
                sched::point();
                !self.raw.free(true)
            }
        }
        impl<'a, T: ?Sized> $g<'a, T> {
            pub fn unlocked<U>(s: &mut Self, f: impl FnOnce() -> U) -> U {
                s.lock.raw.release(true);
                let u = f();
                s.lock.raw.take(true);
                u
            }
            pub fn unlock_fair(s: Self) {
                drop(s)
            }
        }
    };
}
mutex!(Mutex, MutexGuard);
mutex!(FairMutex, FairMutexGuard);
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.take(false);
        RwLockReadGuard::new(self)
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.take(true);
        RwLockWriteGuard::new(self)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.raw.poll(false).then(|| RwLockReadGuard::new(self))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.raw.poll(true).then(|| RwLockWriteGuard::new(self))
    }
    pub fn try_read_for(&self, d: Duration) -> Option<RwLockReadGuard<'_, T>> {
        until(d, || self.raw.poll(false)).then(|| RwLockReadGuard::new(self))
    }
    pub fn try_write_for(&self, d: Duration) -> Option<RwLockWriteGuard<'_, T>> {
        until(d, || self.raw.poll(true)).then(|| RwLockWriteGuard::new(self))
    }
    pub fn is_locked(&self) -> bool {
        sched::point();
        !self.raw.free(true)
    }
    pub fn is_locked_exclusive(&self) -> bool {
        sched::point();
        !self.raw.free(false)
    }
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::new(v)
}
pub use std::sync::{Once, OnceState};
