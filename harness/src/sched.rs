//! Deterministic cooperative scheduler: real threads, one running at a time, switching only at
//! the atomic accesses the tree reports (cfg masstree_verif).

use crate::alloc;
use crate::weak;
use crate::rng::Rng;
use masstree::verif::{self, Access, Op, Phase};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock, mpsc};

pub const MAXT: usize = 8;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// What decides who runs next.
#[derive(Clone, Debug)]
pub enum Strategy {
    /// Threads run one after another in the given order (no preemption).
    Serial(Vec<usize>),
    /// Switch with probability num/den at every access, more often at writes and lock words.
    Random { seed: u64, num: u32, den: u32 },
    /// Priority schedule with `d` change points spread over `k` steps.
    Pct { seed: u64, d: u32, k: u32 },
    /// Preemptions: when thread `t` is about to take its step number `s`, `to` runs instead,
    /// and goes on until it finishes, waits, or is preempted in turn.
    Preempt { order: Vec<usize>, at: Vec<(usize, u64, usize)> },
    /// Preemptions one after another, each when thread `t` is about to make its `n`-th access
    /// of a class of places since the one before: (t, class, n, whether only after making it, to).
    Direct { order: Vec<usize>, at: Vec<(usize, u8, u32, bool, usize)> },
    /// Thread `victim` is held up after it read a place of the class until somebody changed
    /// that place, again and again, starting after `from` such reads, with `skip` in between;
    /// otherwise it goes first.
    Stale { victim: usize, class: u8, from: u32, skip: u32, times: u32 },
    /// Exact replay: at global step `s` thread `t` takes over.
    Script(Vec<(u64, usize)>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Done,
}

pub struct Inner {
    n: usize,
    st: [St; MAXT],
    step: u64,
    pub local: [u64; MAXT],
    /// consecutive loads that looked like waiting
    last_addr: [usize; MAXT],
    last_val: [u64; MAXT],
    same: [u32; MAXT],
    since_write: [u64; MAXT],
    waiting_at: [Option<u64>; MAXT],
    writes: u64,
    idle_rounds: u64,
    strategy: Strategy,
    rng: Rng,
    prio: [u32; MAXT],
    change: Vec<u64>,
    script_pos: usize,
    fired: Vec<bool>,
    /// next preemption of a directed schedule, accesses counted for it, and whether it is due
    item: usize,
    seen: u32,
    due: bool,
    /// what the victim of a stale schedule read last: place, size, value; how often it was held
    held: Option<(usize, u8, u64)>,
    holds: u32,
    stack: Vec<usize>,
    pub switches: Vec<(u64, usize)>,
    pub limit: u64,
    rmw_before: u64,
    pub uaf: Option<(usize, u64)>,
    pub lock_trace: bool,
    u32_before: u32,
    /// local step numbers of writes, per thread (first 4000 each)
    hot: [Vec<u64>; MAXT],
    /// how often each thread read and wrote each class of places
    cls: [[[u32; 2]; CLASSES as usize]; MAXT],
}

struct Cellish(UnsafeCell<Option<Inner>>);
unsafe impl Sync for Cellish {}
static INNER: Cellish = Cellish(UnsafeCell::new(None));
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static RUNNING: AtomicBool = AtomicBool::new(false);

#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
static FLAG: [AtomicU32; MAXT + 1] = [ZERO; MAXT + 1];

fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, v, std::ptr::null::<u8>());
    }
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
    }
}
fn wake(i: usize) {
    FLAG[i].store(1, SeqCst);
    futex_wake(&FLAG[i]);
}
fn wait(i: usize) {
    while FLAG[i].swap(0, SeqCst) == 0 {
        futex_wait(&FLAG[i], 0);
    }
}

pub fn inner() -> &'static mut Inner {
    unsafe { (*INNER.0.get()).as_mut().unwrap() }
}

/// Callback for transitions of a lock bit in a version word: (thread, address, old, new).
pub type LockCb = fn(usize, usize, u32, u32);
static LOCK_CB: OnceLock<Mutex<Option<LockCb>>> = OnceLock::new();
static LOCK_CB_RAW: AtomicU64 = AtomicU64::new(0);
pub fn set_lock_cb(cb: Option<LockCb>) {
    let _ = LOCK_CB.get_or_init(|| Mutex::new(None));
    LOCK_CB_RAW.store(cb.map_or(0, |f| f as usize as u64), SeqCst);
}
/// Callback after every write by a scheduled thread: (thread, address, size).
pub type WriteCb = fn(usize, usize, usize);
static WRITE_CB_RAW: AtomicU64 = AtomicU64::new(0);
pub fn set_write_cb(cb: Option<WriteCb>) {
    WRITE_CB_RAW.store(cb.map_or(0, |f| f as usize as u64), SeqCst);
}

/// Callback after every load of a word by a scheduled thread: (thread, value).
pub type ReadCb = fn(usize, usize);
static READ_CB_RAW: AtomicU64 = AtomicU64::new(0);
pub fn set_read_cb(cb: Option<ReadCb>) {
    READ_CB_RAW.store(cb.map_or(0, |f| f as usize as u64), SeqCst);
}

pub fn tid() -> usize {
    TID.with(|t| t.get())
}

/// Run `f` without scheduling points on this thread.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let old = TID.with(|t| t.replace(usize::MAX));
    let r = f();
    TID.with(|t| t.set(old));
    r
}

fn raw_read(a: &Access) -> u64 {
    unsafe {
        match a.size {
            1 => std::ptr::read_volatile(a.addr as *const u8) as u64,
            4 => std::ptr::read_volatile(a.addr as *const u32) as u64,
            _ => std::ptr::read_volatile(a.addr as *const u64),
        }
    }
}

/// Where the fields of nodes are: (leaf or interior, offset) to class, found by looking.
pub const CLASSES: u8 = 11;
static FIELD: [[AtomicU32; 1024]; 2] = [const { [const { AtomicU32::new(0) }; 1024] }; 2];
static PROBED: AtomicU64 = AtomicU64::new(0);
static PROBING: AtomicBool = AtomicBool::new(false);

/// The last place `f` accessed.
pub fn probe(f: impl FnOnce()) -> usize {
    PROBED.store(0, SeqCst);
    PROBING.store(true, SeqCst);
    f();
    PROBING.store(false, SeqCst);
    PROBED.load(SeqCst) as usize
}

pub fn field(kind: usize, base: usize, addr: usize, class: u8) {
    if addr >= base && addr - base < 1024 {
        FIELD[kind][addr - base].store(u32::from(class), SeqCst);
    }
}

fn class_of(a: &Access) -> u8 {
    match alloc::node_of(a.addr) {
        None => 0,
        Some((k, off)) => match FIELD[k].get(off).map_or(0, |c| c.load(Relaxed)) {
            0 if k == 0 => 6,
            0 => 10,
            c => c as u8,
        },
    }
}

/// A place, for people.
pub fn name_of(addr: usize) -> String {
    match alloc::node_of(addr) {
        None => format!("{addr:x}"),
        Some((k, off)) => format!("{}{:x}+{off}", ["L", "I"][k], addr - off),
    }
}

fn hook(a: &Access) {
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        if PROBING.load(Relaxed) {
            PROBED.store(a.addr as u64, SeqCst);
        }
        return;
    }
    TID.with(|t| t.set(usize::MAX));
    alloc::paused(|| {
        if a.op == Op::Fence {
            if a.phase == Phase::After && weak::on() {
                weak::after(me, a);
            }
        } else {
            on_access(me, a);
        }
    });
    TID.with(|t| t.set(me));
}

/// What a load returns, when executions weaker than the hardware's are asked for.
fn loaded(a: &Access, found: u128) -> u128 {
    let me = TID.with(|t| t.get());
    if me == usize::MAX || !weak::on() {
        return found;
    }
    TID.with(|t| t.set(usize::MAX));
    let r = alloc::paused(|| weak::loaded(me, a, found));
    TID.with(|t| t.set(me));
    r
}

fn on_access(me: usize, a: &Access) {
    let s = inner();
    match a.phase {
        Phase::Before => {
            s.step += 1;
            s.local[me] += 1;
            PROGRESS.store(s.step, Relaxed);
            if s.step > s.limit {
                die("limit");
            }
            let next = s.choose(me, a);
            if next != me {
                s.switches.push((s.step, next));
                wake(next);
                wait(me);
            }
            let s = inner();
            if s.uaf.is_none() && alloc::is_released(a.addr) {
                s.uaf = Some((me, s.step));
            }
            if a.size == 4 {
                s.u32_before = raw_read(a) as u32;
            }
            if a.op == Op::Rmw {
                s.rmw_before = raw_read(a);
            }
            if weak::on() {
                weak::before(me, a);
            }
        }
        Phase::After => {
            if weak::on() {
                weak::after(me, a);
            }
            let wrote = match a.op {
                Op::Load | Op::Fence => false,
                Op::Store => true,
                Op::Rmw => a.size == 16 || raw_read(a) != s.rmw_before,
            };
            if matches!(s.strategy, Strategy::Serial(_)) {
                s.cls[me][class_of(a) as usize][usize::from(wrote)] += 1;
            }
            if let Strategy::Stale { victim, class, skip, times, .. } = s.strategy {
                if victim == me && !wrote && a.size <= 8 && s.holds < times && s.held.is_none() && class_of(a) == class {
                    if s.seen == 0 {
                        s.held = Some((a.addr, a.size as u8, raw_read(a)));
                        s.holds += 1;
                        s.seen = skip;
                    } else {
                        s.seen -= 1;
                    }
                } else if let (true, Some((addr, size, value))) = (wrote, s.held) {
                    let b = Access { addr, size: size as _, ..*a };
                    if raw_read(&b) != value {
                        s.held = None;
                    }
                }
            }
            let r = READ_CB_RAW.load(Relaxed);
            if a.op == Op::Load && a.size == 8 && r != 0 {
                let f: ReadCb = unsafe { std::mem::transmute(r as usize) };
                f(me, a.value as usize);
            }
            if wrote {
                s.writes += 1;
                if s.hot[me].len() < 4000 {
                    let l = s.local[me];
                    s.hot[me].push(l);
                }
                s.since_write[me] = 0;
                s.same[me] = 0;
                s.last_addr[me] = 0;
                if a.size == 4 && LOCK_CB_RAW.load(Relaxed) != 0 {
                    let old = s.u32_before;
                    let new = raw_read(a) as u32;
                    if old != new {
                        let f: LockCb = unsafe { std::mem::transmute(LOCK_CB_RAW.load(Relaxed) as usize) };
                        f(me, a.addr, old, new);
                    }
                }
                let w = WRITE_CB_RAW.load(Relaxed);
                if w != 0 {
                    let f: WriteCb = unsafe { std::mem::transmute(w as usize) };
                    f(me, a.addr, a.size);
                }
            } else {
                s.since_write[me] += 1;
                if s.last_addr[me] == a.addr && s.last_val[me] == a.value {
                    s.same[me] += 1;
                } else {
                    s.same[me] = 0;
                    s.last_addr[me] = a.addr;
                    s.last_val[me] = a.value;
                }
                if s.same[me] >= 4 || s.since_write[me] > 1500 {
                    s.waiting_at[me] = Some(s.writes);
                    s.same[me] = 0;
                    s.since_write[me] = 0;
                }
            }
        }
    }
}

/// A run that cannot go on: the process ends with the reason as exit code, the driver
/// attributes it to the run noted in the status file.
fn die(why: &str) -> ! {
    let code = if why == "limit" { 71 } else { 72 };
    unsafe { libc::_exit(code) }
}

impl Inner {
    fn runnable(&self, t: usize) -> bool {
        t < self.n
            && self.st[t] == St::Ready
            && self.waiting_at[t].is_none_or(|w| w != self.writes)
    }
    fn any_other(&mut self, me: usize) -> Option<usize> {
        // preempted threads first (latest first), then any runnable one
        while let Some(&t) = self.stack.last() {
            if self.st[t] == St::Done {
                self.stack.pop();
            } else {
                break;
            }
        }
        if let Some(p) = (0..self.stack.len()).rev().map(|i| self.stack[i]).find(|&t| t != me && self.runnable(t)) {
            return Some(p);
        }
        let base = me % self.n.max(1);
        (1..=self.n).map(|i| (base + i) % self.n).find(|&t| t != me && self.runnable(t))
    }
    /// Who runs under a stale schedule when `me` does not.
    fn stale_next(&mut self, me: usize, victim: usize) -> usize {
        if self.held.is_none() && self.runnable(victim) && me != victim {
            return victim;
        }
        let n = self.n;
        if let Some(t) = (1..=n).map(|i| (me + i) % n).find(|&t| t != victim && t != me && self.runnable(t)) {
            return t;
        }
        // nobody else can go on
        self.held = None;
        if self.runnable(victim) {
            return victim;
        }
        self.all_waiting(me)
    }
    fn all_waiting(&mut self, me: usize) -> usize {
        // everybody waits: let each try again in turn, for a while
        self.idle_rounds += 1;
        if self.idle_rounds > self.limit / 100 {
            die("limit");
        }
        for t in 0..self.n {
            self.waiting_at[t] = None;
        }
        let base = if me < self.n { me } else { 0 };
        (1..=self.n).map(|i| (base + i) % self.n).find(|&t| self.st[t] == St::Ready).unwrap_or(base)
    }
    fn choose(&mut self, me: usize, a: &Access) -> usize {
        if let Strategy::Script(sw) = &self.strategy {
            if self.script_pos < sw.len() && sw[self.script_pos].0 == self.step {
                let t = sw[self.script_pos].1;
                self.script_pos += 1;
                if t < self.n && self.st[t] == St::Ready {
                    return t;
                }
            }
            // past the script: only leave a waiting thread
            if self.script_pos < sw.len() || self.runnable(me) {
                return me;
            }
            return match self.any_other(me) {
                Some(t) => t,
                None => self.all_waiting(me),
            };
        }
        let blocked = !self.runnable(me);
        if let Strategy::Direct { at, .. } = &self.strategy {
            let mut r = None;
            if let Some(&(t, c, n, after, to)) = at.get(self.item) {
                if self.st[t] == St::Done {
                    self.item += 1;
                    (self.seen, self.due) = (0, false);
                } else if t == me {
                    if !self.due && class_of(a) == c {
                        self.seen += 1;
                    }
                    let fire = self.due || (self.seen >= n && !after);
                    self.due = self.seen >= n;
                    if fire {
                        self.item += 1;
                        (self.seen, self.due) = (0, false);
                        r = Some(to).filter(|&to| to < self.n && self.st[to] == St::Ready && to != me);
                    }
                }
            }
            if let Some(t) = r {
                if self.runnable(t) {
                    self.stack.retain(|&x| x != t && x != me);
                    self.stack.push(me);
                    return t;
                }
            }
        }
        if let Strategy::Stale { victim, .. } = self.strategy {
            let goes_on = !blocked && if me == victim { self.held.is_none() } else { self.held.is_some() || !self.runnable(victim) };
            return if goes_on { me } else { self.stale_next(me, victim) };
        }
        let want = match &self.strategy {
            Strategy::Stale { .. } => None,
            Strategy::Direct { .. } => None,
            Strategy::Serial(_) | Strategy::Script(_) => None,
            Strategy::Random { num, den, .. } => {
                let (num, den) = (*num as usize, *den as usize);
                let boost = match (a.op, a.size) {
                    (Op::Store | Op::Rmw, _) => 6,
                    (_, 4) => 3,
                    _ => 1,
                };
                if self.n > 1 && self.rng.chance(num * boost, den) {
                    let c: Vec<usize> = (0..self.n).filter(|&t| t != me && self.runnable(t)).collect();
                    if c.is_empty() { None } else { Some(*self.rng.pick(&c)) }
                } else {
                    None
                }
            }
            Strategy::Pct { .. } => {
                if self.change.contains(&self.step) {
                    self.prio[me] = self.prio.iter().min().unwrap().wrapping_sub(1);
                }
                (0..self.n).filter(|&t| self.runnable(t)).max_by_key(|&t| self.prio[t]).filter(|&t| t != me)
            }
            Strategy::Preempt { at, .. } => {
                let mut r = None;
                for (i, &(t, s, to)) in at.iter().enumerate() {
                    if !self.fired[i] && t == me && self.local[me] >= s {
                        self.fired[i] = true;
                        if to < self.n && self.st[to] == St::Ready && to != me {
                            r = Some(to);
                        }
                        break;
                    }
                }
                r
            }
        };
        if let Some(t) = want {
            if self.runnable(t) {
                self.stack.retain(|&x| x != t && x != me);
                self.stack.push(me);
                return t;
            }
        }
        if blocked {
            return match self.any_other(me) {
                Some(t) => t,
                None => self.all_waiting(me),
            };
        }
        me
    }
}

type Task = Box<dyn FnOnce() + Send>;

struct Pool {
    tx: Vec<mpsc::Sender<Task>>,
}
static POOL: OnceLock<Mutex<Pool>> = OnceLock::new();

fn worker(i: usize, rx: mpsc::Receiver<Task>) {
    while let Ok(task) = rx.recv() {
        wait(i);
        TID.with(|t| t.set(i));
        task();
        TID.with(|t| t.set(usize::MAX));
        // hand over
        let s = inner();
        s.st[i] = St::Done;
        s.step += 1; // a step of its own, so that a replay script is unambiguous
        s.writes += 1; // whoever waited may look again
        let next = if (0..s.n).any(|t| s.st[t] == St::Ready) {
            let pick = match &s.strategy {
                Strategy::Pct { .. } => (0..s.n).filter(|&t| s.runnable(t)).max_by_key(|&t| s.prio[t]),
                Strategy::Stale { victim, .. } => {
                    let v = *victim;
                    Some(s.stale_next(i, v))
                }
                Strategy::Script(sw) if s.script_pos < sw.len() && sw[s.script_pos].0 == s.step => {
                    let t = sw[s.script_pos].1;
                    s.script_pos += 1;
                    Some(t).filter(|&t| t < s.n && s.st[t] == St::Ready)
                }
                Strategy::Random { .. } => {
                    let c: Vec<usize> = (0..s.n).filter(|&t| s.runnable(t)).collect();
                    if c.is_empty() { None } else { Some(*s.rng.pick(&c)) }
                }
                _ => None,
            };
            let t = match pick.or_else(|| s.any_other(i)) {
                Some(t) => t,
                None => s.all_waiting(i),
            };
            s.switches.push((s.step, t));
            t
        } else {
            MAXT
        };
        wake(next);
    }
}

pub fn init() {
    let mut tx = Vec::new();
    for i in 0..MAXT {
        let (s, r) = mpsc::channel::<Task>();
        std::thread::Builder::new().name(format!("w{i}")).spawn(move || worker(i, r)).unwrap();
        tx.push(s);
    }
    let _ = POOL.set(Mutex::new(Pool { tx }));
    verif::set_hook(Some(hook));
    verif::set_loaded(Some(loaded));
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0);
        let mut call = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            // a call outside a scheduled run that takes this much processor time never returns
            let e = ENDED.load(SeqCst);
            let b = BEGUN.load(SeqCst);
            let c = b + e;
            if RUNNING.load(SeqCst) || c != call.0 || b == e {
                call = (c, cpu_seconds());
            } else if cpu_seconds() - call.1 > 25.0 * (b - e) as f64 {
                unsafe { libc::_exit(73) }
            }
            let p = PROGRESS.load(Relaxed);
            if RUNNING.load(SeqCst) && p == last.0 {
                last.1 += 1;
                if last.1 > 40 {
                    unsafe { libc::_exit(73) }
                }
            } else {
                last = (p, 0);
            }
        }
    });
}

/// Calls begun and ended outside scheduled runs.
static BEGUN: AtomicU64 = AtomicU64::new(0);
static ENDED: AtomicU64 = AtomicU64::new(0);
pub struct Called(bool);
/// Marks a call that is made while nothing is scheduled.
pub fn called() -> Called {
    let on = !RUNNING.load(SeqCst);
    if on {
        BEGUN.fetch_add(1, SeqCst);
    }
    Called(on)
}
impl Drop for Called {
    fn drop(&mut self) {
        if self.0 {
            ENDED.fetch_add(1, SeqCst);
        }
    }
}
fn cpu_seconds() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// Warm per-thread state (thread ids, parking data) so that it is not attributed to a run.
pub fn on_each_worker(f: fn()) {
    for i in 0..MAXT {
        run(vec![(i, Box::new(f))], Strategy::Serial(vec![]), 10_000_000);
    }
}

#[derive(Debug, Clone, Default)]
pub struct Outcome {
    pub steps: u64,
    pub local: Vec<u64>,
    pub switches: Vec<(u64, usize)>,
    pub uaf: Option<(usize, u64)>,
    pub hot: Vec<Vec<u64>>,
    pub cls: Vec<[[u32; 2]; CLASSES as usize]>,
}

/// Run the tasks to completion under the strategy. Task `i` runs on worker `i`.
pub fn run(tasks: Vec<(usize, Task)>, strategy: Strategy, limit: u64) -> Outcome {
    let n = tasks.iter().map(|t| t.0).max().unwrap_or(0) + 1;
    let seed = match &strategy {
        Strategy::Random { seed, .. } | Strategy::Pct { seed, .. } => *seed,
        _ => 1,
    };
    let mut rng = Rng::new(seed);
    let mut prio = [0u32; MAXT];
    let mut change = Vec::new();
    let mut fired = Vec::new();
    if let Strategy::Pct { d, k, .. } = &strategy {
        let mut p: Vec<u32> = (0..MAXT as u32).map(|x| 1_000_000 + x).collect();
        rng.shuffle(&mut p);
        prio.copy_from_slice(&p);
        for _ in 0..*d {
            change.push(1 + rng.next() % u64::from((*k).max(1)));
        }
    }
    if let Strategy::Preempt { at, .. } = &strategy {
        fired = vec![false; at.len()];
    }
    let mut st = [St::Done; MAXT];
    for t in &tasks {
        st[t.0] = St::Ready;
    }
    let first = match &strategy {
        Strategy::Serial(o) | Strategy::Preempt { order: o, .. } | Strategy::Direct { order: o, .. } => o.first().copied(),
        Strategy::Pct { .. } => (0..n).filter(|&t| st[t] == St::Ready).max_by_key(|&t| prio[t]),
        Strategy::Script(sw) => sw.first().filter(|x| x.0 == 0).map(|x| x.1),
        Strategy::Stale { victim, .. } => Some(*victim).filter(|&t| t < n && st[t] == St::Ready),
        Strategy::Random { .. } => {
            let c: Vec<usize> = (0..n).filter(|&t| st[t] == St::Ready).collect();
            Some(*rng.pick(&c))
        }
    }
    .unwrap_or(tasks[0].0);
    let mut stack: Vec<usize> = match &strategy {
        Strategy::Serial(o) | Strategy::Preempt { order: o, .. } | Strategy::Direct { order: o, .. } => o.iter().rev().copied().collect(),
        _ => Vec::new(),
    };
    stack.retain(|&t| t != first);
    let seen = if let Strategy::Stale { from, .. } = &strategy { *from } else { 0 };
    let script_pos = usize::from(matches!(&strategy, Strategy::Script(sw) if sw.first().is_some_and(|x| x.0 == 0)));
    unsafe {
        *INNER.0.get() = Some(Inner {
            n,
            st,
            step: 0,
            local: [0; MAXT],
            last_addr: [0; MAXT],
            last_val: [0; MAXT],
            same: [0; MAXT],
            since_write: [0; MAXT],
            waiting_at: [None; MAXT],
            writes: 1,
            idle_rounds: 0,
            strategy,
            rng,
            prio,
            change,
            script_pos,
            fired,
            item: 0,
            seen,
            due: false,
            held: None,
            holds: 0,
            stack,
            switches: vec![(0, first)],
            limit,
            rmw_before: 0,
            uaf: None,
            lock_trace: false,
            u32_before: 0,
            hot: Default::default(),
            cls: Default::default(),
        });
    }
    {
        let pool = POOL.get().unwrap().lock().unwrap();
        for (i, t) in tasks {
            pool.tx[i].send(t).unwrap();
        }
    }
    RUNNING.store(true, SeqCst);
    wake(first);
    wait(MAXT);
    RUNNING.store(false, SeqCst);
    let s = inner();
    Outcome { steps: s.step, local: s.local[..n].to_vec(), switches: std::mem::take(&mut s.switches), uaf: s.uaf, hot: s.hot[..n].to_vec(), cls: s.cls[..n].to_vec() }
}

impl Strategy {
    pub fn encode(&self) -> String {
        let ord = |o: &Vec<usize>| o.iter().map(usize::to_string).collect::<Vec<_>>().join(",");
        match self {
            Strategy::Serial(o) => format!("S:{}", ord(o)),
            Strategy::Random { seed, num, den } => format!("R:{seed},{num},{den}"),
            Strategy::Pct { seed, d, k } => format!("C:{seed},{d},{k}"),
            Strategy::Preempt { order, at } => {
                let a: Vec<String> = at.iter().map(|x| format!("{},{},{}", x.0, x.1, x.2)).collect();
                format!("P:{}:{}", ord(order), a.join(";"))
            }
            Strategy::Direct { order, at } => {
                let a: Vec<String> = at.iter().map(|x| format!("{},{},{},{},{}", x.0, x.1, x.2, u8::from(x.3), x.4)).collect();
                format!("D:{}:{}", ord(order), a.join(";"))
            }
            Strategy::Stale { victim, class, from, skip, times } => format!("T:{victim},{class},{from},{skip},{times}"),
            Strategy::Script(sw) => {
                let a: Vec<String> = sw.iter().map(|x| format!("{},{}", x.0, x.1)).collect();
                format!("X:{}", a.join(";"))
            }
        }
    }
    pub fn decode(s: &str) -> Strategy {
        let p: Vec<&str> = s.trim().split(':').collect();
        let nums = |x: &str| x.split(',').filter(|y| !y.is_empty()).map(|y| y.parse::<u64>().unwrap()).collect::<Vec<_>>();
        match p[0] {
            "S" => Strategy::Serial(nums(p[1]).iter().map(|x| *x as usize).collect()),
            "R" => {
                let n = nums(p[1]);
                Strategy::Random { seed: n[0], num: n[1] as u32, den: n[2] as u32 }
            }
            "C" => {
                let n = nums(p[1]);
                Strategy::Pct { seed: n[0], d: n[1] as u32, k: n[2] as u32 }
            }
            "P" => Strategy::Preempt {
                order: nums(p[1]).iter().map(|x| *x as usize).collect(),
                at: p[2].split(';').filter(|x| !x.is_empty()).map(|x| { let n = nums(x); (n[0] as usize, n[1], n[2] as usize) }).collect(),
            },
            "D" => Strategy::Direct {
                order: nums(p[1]).iter().map(|x| *x as usize).collect(),
                at: p[2]
                    .split(';')
                    .filter(|x| !x.is_empty())
                    .map(|x| {
                        let n = nums(x);
                        (n[0] as usize, n[1] as u8, n[2] as u32, n[3] != 0, n[4] as usize)
                    })
                    .collect(),
            },
            "T" => {
                let n = nums(p[1]);
                Strategy::Stale { victim: n[0] as usize, class: n[1] as u8, from: n[2] as u32, skip: n[3] as u32, times: n[4] as u32 }
            }
            _ => Strategy::Script(p[1].split(';').filter(|x| !x.is_empty()).map(|x| { let n = nums(x); (n[0], n[1] as usize) }).collect()),
        }
    }
}
