//! `std::sync` with locks and atomics as scheduling points.

pub use std::sync::*;

use std::fmt::{self, Debug, Display};
use std::ops::{Deref, DerefMut};
use std::sync as real;

use crate::sim;

// ---------------------------------------------------------------- Mutex

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    inner: real::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    addr: usize,
    // `None` only during drop.
    g: Option<real::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex {
            inner: real::Mutex::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        sim::forget(&self as *const _ as *const u8 as usize);
        // `Mutex` has no Drop, so moving out of the field is fine.
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        self as *const Self as *const u8 as usize
    }

    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let addr = self.addr();
        let got = sim::acquire(addr, "lock", || match self.inner.try_lock() {
            Ok(g) => Some(Ok(g)),
            Err(TryLockError::Poisoned(e)) => Some(Err(e)),
            Err(TryLockError::WouldBlock) => None,
        })
        .unwrap_or_else(|| self.inner.lock());
        match got {
            Ok(g) => Ok(MutexGuard { addr, g: Some(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard {
                addr,
                g: Some(e.into_inner()),
            })),
        }
    }

    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sim::yield_point("try_lock");
        let addr = self.addr();
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { addr, g: Some(g) }),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
                    addr,
                    g: Some(e.into_inner()),
                })))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }

    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

impl<T: ?Sized + Debug> Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.inner, f)
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sim::released(self.addr, "unlock");
    }
}
impl<T: ?Sized + Debug> Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&**self, f)
    }
}
impl<T: ?Sized + Display> Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&**self, f)
    }
}

// ---------------------------------------------------------------- RwLock

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    addr: usize,
    g: Option<real::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    addr: usize,
    g: Option<real::RwLockWriteGuard<'a, T>>,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock {
            inner: real::RwLock::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize {
        self as *const Self as *const u8 as usize
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let addr = self.addr();
        let got = sim::acquire(addr, "read", || match self.inner.try_read() {
            Ok(g) => Some(Ok(g)),
            Err(TryLockError::Poisoned(e)) => Some(Err(e)),
            Err(TryLockError::WouldBlock) => None,
        })
        .unwrap_or_else(|| self.inner.read());
        match got {
            Ok(g) => Ok(RwLockReadGuard { addr, g: Some(g) }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard {
                addr,
                g: Some(e.into_inner()),
            })),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let addr = self.addr();
        let got = sim::acquire(addr, "write", || match self.inner.try_write() {
            Ok(g) => Some(Ok(g)),
            Err(TryLockError::Poisoned(e)) => Some(Err(e)),
            Err(TryLockError::WouldBlock) => None,
        })
        .unwrap_or_else(|| self.inner.write());
        match got {
            Ok(g) => Ok(RwLockWriteGuard { addr, g: Some(g) }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard {
                addr,
                g: Some(e.into_inner()),
            })),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized + Debug> Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.inner, f)
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sim::released(self.addr, "unlock-read");
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sim::released(self.addr, "unlock-write");
    }
}

// --------------------------------------------------------------- atomics

pub mod atomic {
    pub use std::sync::atomic::*;

    use std::sync::atomic as real;

    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[derive(Debug, Default)]
            #[repr(transparent)]
            pub struct $name(real::$name);

            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(real::$name::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    crate::sim::yield_point("atomic");
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    crate::sim::yield_point("atomic");
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    crate::sim::yield_point("atomic");
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    crate::sim::yield_point("atomic");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    self.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    f: Ordering,
                    fun: F,
                ) -> Result<$t, $t> {
                    crate::sim::yield_point("atomic");
                    #[allow(deprecated)]
                    self.0.fetch_update(s, f, fun)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! ints {
        ($($name:ident $t:ty),*) => { $(
            common!($name, $t);
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { crate::sim::yield_point("atomic"); self.0.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { crate::sim::yield_point("atomic"); self.0.fetch_sub(v, o) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { crate::sim::yield_point("atomic"); self.0.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { crate::sim::yield_point("atomic"); self.0.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { crate::sim::yield_point("atomic"); self.0.fetch_xor(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { crate::sim::yield_point("atomic"); self.0.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { crate::sim::yield_point("atomic"); self.0.fetch_min(v, o) }
            }
        )* };
    }
    ints!(
        AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
        AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize
    );
    common!(AtomicBool, bool);
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
            crate::sim::yield_point("atomic");
            self.0.fetch_and(v, o)
        }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
            crate::sim::yield_point("atomic");
            self.0.fetch_or(v, o)
        }
    }
}
