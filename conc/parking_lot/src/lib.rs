//! Stand-in for parking_lot: the same interface (lock_api's) and the same rules of exclusion, with
//! every acquisition a point where the scheduler (vpconc) may let another thread go on.
use std::cell::Cell;

extern "C" {
    /// another thread may go on
    fn vp_point();
    /// the lock is taken: another thread has to go on
    fn vp_block();
    /// a lock was released
    fn vp_progress();
}
fn point() {
    unsafe { vp_point() }
}
fn block() {
    unsafe { vp_block() }
}
fn progress() {
    unsafe { vp_progress() }
}

/// (only one thread runs at a time)
pub struct RawRwLock {
    readers: Cell<usize>,
    upgradable: Cell<bool>,
    /// held or, while there are still readers, waited for by a writer
    writer: Cell<bool>,
}
unsafe impl Sync for RawRwLock {}
unsafe impl Send for RawRwLock {}

unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: RawRwLock = RawRwLock { readers: Cell::new(0), upgradable: Cell::new(false), writer: Cell::new(false) };
    type GuardMarker = lock_api::GuardSend;

    fn lock_shared(&self) {
        point();
        while self.writer.get() {
            block();
        }
        self.readers.set(self.readers.get() + 1);
    }
    fn try_lock_shared(&self) -> bool {
        point();
        if self.writer.get() {
            return false;
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
    unsafe fn unlock_shared(&self) {
        self.readers.set(self.readers.get() - 1);
        progress();
    }
    fn lock_exclusive(&self) {
        point();
        while self.writer.get() || self.upgradable.get() {
            block();
        }
        self.writer.set(true);
        while self.readers.get() > 0 {
            block();
        }
    }
    fn try_lock_exclusive(&self) -> bool {
        point();
        if self.writer.get() || self.upgradable.get() || self.readers.get() > 0 {
            return false;
        }
        self.writer.set(true);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        self.writer.set(false);
        progress();
    }
    fn is_locked(&self) -> bool {
        self.writer.get() || self.upgradable.get() || self.readers.get() > 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.writer.set(false);
        self.readers.set(self.readers.get() + 1);
        progress();
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        point();
        while self.writer.get() && self.readers.get() == 0 {
            block();
        }
        self.readers.set(self.readers.get() + 1);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        point();
        if self.writer.get() && self.readers.get() == 0 {
            return false;
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        point();
        while self.writer.get() || self.upgradable.get() {
            block();
        }
        self.upgradable.set(true);
    }
    fn try_lock_upgradable(&self) -> bool {
        point();
        if self.writer.get() || self.upgradable.get() {
            return false;
        }
        self.upgradable.set(true);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.upgradable.set(false);
        progress();
    }
    unsafe fn upgrade(&self) {
        point();
        self.upgradable.set(false);
        self.writer.set(true);
        while self.readers.get() > 0 {
            block();
        }
    }
    unsafe fn try_upgrade(&self) -> bool {
        point();
        if self.readers.get() > 0 {
            return false;
        }
        self.upgradable.set(false);
        self.writer.set(true);
        true
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.upgradable.set(false);
        self.readers.set(self.readers.get() + 1);
        progress();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.writer.set(false);
        self.upgradable.set(true);
        progress();
    }
}
pub struct RawMutex(Cell<bool>);
unsafe impl Sync for RawMutex {}
unsafe impl Send for RawMutex {}
unsafe impl lock_api::RawMutex for RawMutex {
    const INIT: RawMutex = RawMutex(Cell::new(false));
    type GuardMarker = lock_api::GuardSend;
    fn lock(&self) {
        point();
        while self.0.get() {
            block();
        }
        self.0.set(true);
    }
    fn try_lock(&self) -> bool {
        point();
        !self.0.replace(true)
    }
    unsafe fn unlock(&self) {
        self.0.set(false);
        progress();
    }
}
pub use lock_api;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
