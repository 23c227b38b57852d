//! A reader-writer lock that blocks tasks instead of threads.
use std::ops::{Deref, DerefMut};
use std::sync::{self, LockResult, TryLockError};

#[derive(Debug, Default)]
pub struct RwLock<T>(sync::RwLock<T>);
#[derive(Debug)]
pub struct RwLockReadGuard<'a, T>(Option<sync::RwLockReadGuard<'a, T>>);
#[derive(Debug)]
pub struct RwLockWriteGuard<'a, T>(Option<sync::RwLockWriteGuard<'a, T>>);

impl<T> RwLock<T> {
    pub fn new(t: T) -> Self { RwLock(sync::RwLock::new(t)) }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        loop {
            match self.0.try_read() {
                Ok(g) => return Ok(RwLockReadGuard(Some(g))),
                Err(TryLockError::Poisoned(e)) => return Ok(RwLockReadGuard(Some(e.into_inner()))),
                Err(TryLockError::WouldBlock) => {
                    if !crate::active() { return Ok(RwLockReadGuard(self.0.read().ok())); }
                    crate::lock_wait();
                }
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        loop {
            match self.0.try_write() {
                Ok(g) => return Ok(RwLockWriteGuard(Some(g))),
                Err(TryLockError::Poisoned(e)) => return Ok(RwLockWriteGuard(Some(e.into_inner()))),
                Err(TryLockError::WouldBlock) => {
                    if !crate::active() { return Ok(RwLockWriteGuard(self.0.write().ok())); }
                    crate::lock_wait();
                }
            }
        }
    }
    pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
}
impl<T> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.0.as_ref().unwrap() }
}
impl<T> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.0.as_ref().unwrap() }
}
impl<T> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() }
}
impl<T> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) { self.0 = None; crate::lock_released(); }
}
impl<T> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) { self.0 = None; crate::lock_released(); }
}
