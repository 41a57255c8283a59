//! Global allocator wrapper: tracks blocks allocated inside tree operations, quarantines the
//! ones released there (so that a use after release reads poison instead of reused memory),
//! and reports blocks released twice, written after release, or never released.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::{Relaxed, SeqCst}};

pub struct Alloc;

#[global_allocator]
static GLOBAL: Alloc = Alloc;

pub const POISON: u8 = 0x5A;

thread_local! {
    /// >0 while this thread is inside a tree operation whose memory is tracked.
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    /// >0 while the harness itself allocates inside a hook.
    static PAUSE: Cell<u32> = const { Cell::new(0) };
}

static ENABLED: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
}

/// Open-addressing table that never allocates through the global allocator.
struct Table {
    slots: *mut Block,
    cap: usize,
    len: usize,
}
unsafe impl Send for Table {}

impl Table {
    const fn new() -> Self {
        Self { slots: std::ptr::null_mut(), cap: 0, len: 0 }
    }
    fn layout(cap: usize) -> Layout {
        Layout::array::<Block>(cap).unwrap()
    }
    fn idx(&self, addr: usize) -> usize {
        (addr >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20 & (self.cap - 1)
    }
    fn at(&self, i: usize) -> &mut Block {
        unsafe { &mut *self.slots.add(i) }
    }
    fn grow(&mut self) {
        let ocap = self.cap;
        let old = self.slots;
        self.cap = if ocap == 0 { 4096 } else { ocap * 2 };
        self.slots = unsafe { System.alloc_zeroed(Self::layout(self.cap)).cast() };
        self.len = 0;
        for i in 0..ocap {
            let b = unsafe { *old.add(i) };
            if b.addr > 1 {
                self.insert(b);
            }
        }
        if ocap > 0 {
            unsafe { System.dealloc(old.cast(), Self::layout(ocap)) }
        }
    }
    fn insert(&mut self, b: Block) {
        if self.len * 2 >= self.cap {
            self.grow();
        }
        let mut i = self.idx(b.addr);
        while self.at(i).addr > 1 {
            i = (i + 1) & (self.cap - 1);
        }
        if self.at(i).addr == 0 {
            self.len += 1;
        }
        *self.at(i) = b;
    }
    fn find(&self, addr: usize) -> Option<usize> {
        if self.cap == 0 {
            return None;
        }
        let mut i = self.idx(addr);
        loop {
            let a = self.at(i).addr;
            if a == 0 {
                return None;
            }
            if a == addr {
                return Some(i);
            }
            i = (i + 1) & (self.cap - 1);
        }
    }
    fn remove(&mut self, addr: usize) -> Option<Block> {
        let i = self.find(addr)?;
        let b = *self.at(i);
        self.at(i).addr = 1;
        Some(b)
    }
    fn each(&self, mut f: impl FnMut(&Block)) {
        for i in 0..self.cap {
            if self.at(i).addr > 1 {
                f(self.at(i));
            }
        }
    }
    fn clear(&mut self) {
        if self.cap > 0 {
            unsafe { std::ptr::write_bytes(self.slots, 0, self.cap) };
            self.len = 0;
        }
    }
}

struct State {
    live: Table,
    freed: Table,
    /// the 16-byte pieces of released blocks
    pieces: Table,
    double: usize,
    double_sizes: [usize; 8],
    allocs: usize,
    frees: usize,
}

static STATE: Mutex<State> = Mutex::new(State {
    live: Table::new(),
    freed: Table::new(),
    pieces: Table::new(),
    double: 0,
    double_sizes: [0; 8],
    allocs: 0,
    frees: 0,
});
static NFREED: AtomicUsize = AtomicUsize::new(0);
static FREED_LO: AtomicUsize = AtomicUsize::new(usize::MAX);
static FREED_HI: AtomicUsize = AtomicUsize::new(0);
static LIVE_LO: AtomicUsize = AtomicUsize::new(usize::MAX);
static LIVE_HI: AtomicUsize = AtomicUsize::new(0);
/// Told about every release of a tracked block, while set.
static ON_FREE: AtomicUsize = AtomicUsize::new(0);
pub fn set_on_free(f: Option<fn(usize)>) {
    ON_FREE.store(f.map_or(0, |f| f as usize), SeqCst);
}

fn tracked_here() -> bool {
    ENABLED.load(SeqCst)
        && DEPTH.try_with(|d| d.get() > 0).unwrap_or(false)
        && PAUSE.try_with(|d| d.get() == 0).unwrap_or(false)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        note_node(p as usize, l.size());
        if tracked_here() {
            let mut s = STATE.lock().unwrap();
            s.allocs += 1;
            s.live.insert(Block { addr: p as usize, size: l.size(), align: l.align() });
            LIVE_LO.fetch_min(p as usize, Relaxed);
            LIVE_HI.fetch_max(p as usize, Relaxed);
            drop(s);
            paused(|| crate::weak::on_alloc(p as usize, l.size()));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ENABLED.load(SeqCst) {
            let a = p as usize;
            let mut s = STATE.lock().unwrap();
            if let Some(b) = s.live.remove(a) {
                unsafe { std::ptr::write_bytes(p, POISON, b.size) };
                s.frees += 1;
                s.freed.insert(b);
                let mut g = a & !15;
                while g < a + b.size {
                    s.pieces.insert(Block { addr: g, size: 16, align: 16 });
                    g += 16;
                }
                NFREED.fetch_add(1, SeqCst);
                FREED_LO.fetch_min(a, SeqCst);
                FREED_HI.fetch_max(a + b.size, SeqCst);
                drop(s);
                let f = ON_FREE.load(SeqCst);
                if f != 0 {
                    let f: fn(usize) = unsafe { std::mem::transmute(f) };
                    paused(|| f(a));
                }
                return;
            }
            if s.freed.find(a).is_some() {
                let n = s.double;
                if n < 8 {
                    s.double_sizes[n] = l.size();
                }
                s.double += 1;
                return;
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}

/// Which blocks are nodes: 64-byte lines, hashed, of everything that has the size of a node.
/// A line whose place is taken is forgotten: the answer only steers the search for schedules.
static NODE_SIZES: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
const LINES: usize = 1 << 17;
static LINE: [AtomicUsize; LINES] = [const { AtomicUsize::new(0) }; LINES];

pub fn node_sizes(leaf: usize, inner: usize) {
    NODE_SIZES[0].store(leaf, SeqCst);
    NODE_SIZES[1].store(inner, SeqCst);
}

fn line_at(line: usize) -> &'static AtomicUsize {
    &LINE[line.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40 & (LINES - 1)]
}

fn note_node(p: usize, size: usize) {
    for k in 0..2 {
        if size > 0 && size == NODE_SIZES[k].load(Relaxed) && p % 64 == 0 {
            for i in 0..size.div_ceil(64) {
                line_at(p / 64 + i).store(p | k | i << 1 << 48, Relaxed);
            }
        }
    }
}

/// The node an address lies in: (0 for a leaf and 1 for an interior node, offset).
pub fn node_of(addr: usize) -> Option<(usize, usize)> {
    let v = line_at(addr / 64).load(Relaxed);
    let (i, k, p) = (v >> 49, v & 1, v & 0xFFFF_FFFF_FFC0);
    (v != 0 && p / 64 + i == addr / 64).then(|| (k, addr - p))
}

/// Run `f` with its allocations tracked.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            DEPTH.with(|d| d.set(d.get() - 1));
        }
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    let _g = G;
    f()
}

/// Run `f` with tracking suspended on this thread (harness bookkeeping).
pub fn paused<R>(f: impl FnOnce() -> R) -> R {
    PAUSE.with(|d| d.set(d.get() + 1));
    let r = f();
    PAUSE.with(|d| d.set(d.get() - 1));
    r
}

/// Start a tracking session.
pub fn start() {
    let mut s = STATE.lock().unwrap();
    s.live.clear();
    s.freed.clear();
    s.pieces.clear();
    s.double = 0;
    s.double_sizes = [0; 8];
    s.allocs = 0;
    s.frees = 0;
    drop(s);
    NFREED.store(0, SeqCst);
    FREED_LO.store(usize::MAX, SeqCst);
    FREED_HI.store(0, SeqCst);
    LIVE_LO.store(usize::MAX, SeqCst);
    LIVE_HI.store(0, SeqCst);
    ENABLED.store(true, SeqCst);
}

/// Is this address inside a released block of the current session?
pub fn is_released(addr: usize) -> bool {
    if !ENABLED.load(SeqCst)
        || NFREED.load(SeqCst) == 0
        || addr < FREED_LO.load(SeqCst)
        || addr >= FREED_HI.load(SeqCst)
    {
        return false;
    }
    STATE.lock().unwrap().pieces.find(addr & !15).is_some()
}

/// Is this the address of a tracked block that was not released?
pub fn is_live(addr: usize) -> bool {
    addr >= LIVE_LO.load(Relaxed) && addr <= LIVE_HI.load(Relaxed) && STATE.lock().unwrap().live.find(addr).is_some()
}

/// The words in a tracked block.
pub fn words(addr: usize) -> Vec<usize> {
    let s = STATE.lock().unwrap();
    let Some(i) = s.live.find(addr) else { return vec![] };
    let b = *s.live.at(i);
    drop(s);
    (0..b.size / 8).map(|k| unsafe { std::ptr::read_volatile((b.addr as *const usize).add(k)) }).collect()
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub allocs: usize,
    pub frees: usize,
    pub leaked_blocks: usize,
    pub leaked_bytes: usize,
    pub leaked_sizes: Vec<usize>,
    /// of which had the asked-for size
    pub leaked_vals: usize,
    pub double: usize,
    pub double_vals: usize,
    pub dirty_after_release: usize,
}

/// End the session: everything tracked should have been released by now.
pub fn finish(val_size: usize) -> Report {
    ENABLED.store(false, SeqCst);
    let mut r = Report::default();
    let mut freed: Vec<Block> = Vec::new();
    let mut leaked: Vec<Block> = Vec::new();
    {
        let s = STATE.lock().unwrap();
        s.freed.each(|b| freed.push(*b));
        s.live.each(|b| leaked.push(*b));
        r.double = s.double;
        r.double_vals = s.double_sizes.iter().filter(|x| **x == val_size).count();
        r.allocs = s.allocs;
        r.frees = s.frees;
    }
    for b in &freed {
        let sl = unsafe { std::slice::from_raw_parts(b.addr as *const u8, b.size) };
        if sl.iter().any(|&x| x != POISON) {
            r.dirty_after_release += 1;
        }
        unsafe {
            System.dealloc(b.addr as *mut u8, Layout::from_size_align_unchecked(b.size, b.align))
        }
    }
    for b in &leaked {
        r.leaked_blocks += 1;
        r.leaked_bytes += b.size;
        r.leaked_vals += usize::from(b.size == val_size);
        if r.leaked_sizes.len() < 8 {
            r.leaked_sizes.push(b.size);
        }
    }
    let mut s = STATE.lock().unwrap();
    s.live.clear();
    s.freed.clear();
    s.pieces.clear();
    r
}
