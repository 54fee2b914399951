//! An allocator whose requests can be made to fail one by one.
use musli::alloc::{Alloc, AllocError, Allocator, System};
use std::cell::Cell;

#[derive(Default)]
pub struct Quota {
    /// Requests seen since the last `arm`.
    pub asked: Cell<u64>,
    /// Requests refused since the last `arm`.
    pub refused: Cell<u64>,
    fail_at: Cell<u64>,
    /// Everything after it fails too.
    and_on: Cell<bool>,
    /// Allocations alive.
    pub live: Cell<i64>,
    /// The most allocations ever alive at once.
    pub peak: Cell<i64>,
}

impl Quota {
    pub fn new() -> Self {
        let q = Quota::default();
        q.disarm();
        q
    }
    pub fn disarm(&self) {
        self.arm(u64::MAX, false);
    }
    pub fn arm(&self, at: u64, and_on: bool) {
        self.asked.set(0);
        self.refused.set(0);
        self.fail_at.set(at);
        self.and_on.set(and_on);
    }
    fn born(&self) {
        let n = self.live.get() + 1;
        self.live.set(n);
        self.peak.set(self.peak.get().max(n));
    }
    fn ask(&self) -> Result<(), AllocError> {
        let n = self.asked.get();
        self.asked.set(n + 1);
        if n == self.fail_at.get() || (self.and_on.get() && n > self.fail_at.get()) {
            self.refused.set(self.refused.get() + 1);
            return Err(AllocError);
        }
        Ok(())
    }
}

#[derive(Clone, Copy)]
pub struct Q<'a>(pub &'a Quota);

pub struct QAlloc<'a, T> {
    inner: <System as Allocator>::Alloc<T>,
    q: &'a Quota,
}
impl<T> Drop for QAlloc<'_, T> {
    fn drop(&mut self) {
        self.q.live.set(self.q.live.get() - 1);
    }
}

unsafe impl<'a> Allocator for Q<'a> {
    const IS_SYSTEM: bool = false;
    type Alloc<T> = QAlloc<'a, T>;

    fn alloc_empty<T>(self) -> Self::Alloc<T> {
        self.0.born();
        QAlloc { inner: System::new().alloc_empty(), q: self.0 }
    }
    fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
        if size_of::<T>() != 0 {
            self.0.ask()?;
        }
        let inner = System::new().alloc(value)?;
        self.0.born();
        Ok(QAlloc { inner, q: self.0 })
    }
}

impl<T> Alloc<T> for QAlloc<'_, T> {
    fn as_ptr(&self) -> *const T {
        self.inner.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.inner.as_mut_ptr()
    }
    fn capacity(&self) -> usize {
        self.inner.capacity()
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), AllocError> {
        if len.checked_add(additional).is_none_or(|n| n > self.inner.capacity()) {
            self.q.ask()?;
        }
        self.inner.resize(len, additional)
    }
    fn try_merge<B: Alloc<T>>(&mut self, _: usize, other: B, _: usize) -> Result<(), B> {
        Err(other)
    }
}
