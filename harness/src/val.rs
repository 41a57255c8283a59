//! Instrumented values: each has an id, knows whether it is alive, and counts its releases.

use std::cell::UnsafeCell;

const ALIVE: u64 = 0xA11C_E5A1_1CE5_0001;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_0002;

pub struct Tracked {
    magic: u64,
    id: u64,
    check: u64,
}

struct Counts(UnsafeCell<Vec<u32>>);
unsafe impl Sync for Counts {}
static DROPS: Counts = Counts(UnsafeCell::new(Vec::new()));

/// Forget all counts and make room for ids below `n`. Single-threaded use.
pub fn reset(n: usize) {
    let v = unsafe { &mut *DROPS.0.get() };
    v.clear();
    v.resize(n, 0);
}

pub fn drops(id: u64) -> u32 {
    let v = unsafe { &*DROPS.0.get() };
    v.get(id as usize).copied().unwrap_or(0)
}

pub const BAD: u64 = 999_999_999;

impl Tracked {
    pub fn new(id: u64) -> Self {
        Self { magic: ALIVE, id, check: id ^ 0x5bd1_e995_1234_5678 }
    }
    /// The id, or `BAD` when this memory does not hold a live value.
    pub fn id(&self) -> u64 {
        crate::weak::look(std::ptr::from_ref(self) as usize);
        let m = unsafe { std::ptr::read_volatile(&self.magic) };
        if m == ALIVE && self.check == self.id ^ 0x5bd1_e995_1234_5678 { self.id } else { BAD }
    }
}

/// Told about every release, while set (scheduled runs only).
static ON_DROP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn set_on_drop(f: Option<fn(u64)>) {
    ON_DROP.store(f.map_or(0, |f| f as usize), std::sync::atomic::Ordering::SeqCst);
}

impl Drop for Tracked {
    fn drop(&mut self) {
        let v = unsafe { &mut *DROPS.0.get() };
        let id = self.id;
        if let Some(c) = v.get_mut(id as usize) {
            // scheduler runs one thread at a time; free-running modes use atomics below
            unsafe { (*(c as *mut u32 as *const std::sync::atomic::AtomicU32)).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
        }
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
        let f = ON_DROP.load(std::sync::atomic::Ordering::SeqCst);
        if f != 0 {
            let f: fn(u64) = unsafe { std::mem::transmute(f) };
            crate::alloc::paused(|| f(id));
        }
    }
}
