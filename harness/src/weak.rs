//! Executions that only the declared orderings allow: loads may return older values than the
//! latest, as far as release/acquire synchronisation leaves the newer ones unknown to the
//! reader. What is decided here is only which value a load returns; the record of it is judged
//! by spec/OrderTrace.tla, and what the tree makes of it by the other modules.

use crate::rng::Rng;
use crate::sched::{self, MAXT};
use masstree::verif::{Access, Op};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, Ordering, Ordering::SeqCst};

type Clock = [u32; MAXT];
const MAIN: usize = MAXT;

#[derive(Clone)]
struct Msg {
    val: u128,
    by: usize,
    ep: u32,
    rel: Clock,
    /// when each thread first read it
    read: Clock,
}

struct Loc {
    id: usize,
    size: usize,
    msgs: Vec<Msg>,
    stale: [u8; MAXT],
}

struct Block {
    size: usize,
    by: usize,
    ep: u32,
    id: usize,
    told: [bool; MAXT],
}

pub struct State {
    clk: [Clock; MAXT],
    pend: [Clock; MAXT],
    fence: [Clock; MAXT],
    all: Clock,
    locs: HashMap<usize, Loc>,
    nlocs: usize,
    blocks: BTreeMap<usize, Block>,
    nblocks: usize,
    rng: Rng,
    num: usize,
    den: usize,
    left: [u32; MAXT],
    pub stale: u64,
    pub resets: u64,
    pub races: Vec<String>,
    pub ev: Vec<Vec<usize>>,
    record: bool,
}

struct Cellish(UnsafeCell<Option<State>>);
unsafe impl Sync for Cellish {}
static STATE: Cellish = Cellish(UnsafeCell::new(None));
static ON: AtomicBool = AtomicBool::new(false);

fn st() -> &'static mut State {
    unsafe { (*STATE.0.get()).as_mut().unwrap() }
}

pub fn on() -> bool {
    ON.load(Ordering::Relaxed)
}

pub fn start(seed: u64, record: bool) {
    let mut rng = Rng::new(seed);
    let (num, den) = *rng.pick(&[(1usize, 2usize), (1, 4), (1, 10), (3, 4)]);
    unsafe {
        *STATE.0.get() = Some(State {
            clk: [[1; MAXT]; MAXT],
            pend: [[0; MAXT]; MAXT],
            fence: [[0; MAXT]; MAXT],
            all: [0; MAXT],
            locs: HashMap::new(),
            nlocs: 0,
            blocks: BTreeMap::new(),
            nblocks: 0,
            rng,
            num,
            den,
            left: [0; MAXT],
            stale: 0,
            resets: 0,
            races: vec![],
            ev: vec![],
            record,
        });
    }
    ON.store(true, SeqCst);
}

pub fn stop() -> State {
    ON.store(false, SeqCst);
    unsafe { (*STATE.0.get()).take().unwrap() }
}

fn join(a: &mut Clock, b: &Clock) {
    for i in 0..MAXT {
        a[i] = a[i].max(b[i]);
    }
}

fn raw(addr: usize, size: usize) -> u128 {
    unsafe {
        match size {
            1 => u128::from(std::ptr::read_volatile(addr as *const u8)),
            2 => u128::from(std::ptr::read_volatile(addr as *const u16)),
            4 => u128::from(std::ptr::read_volatile(addr as *const u32)),
            8 => u128::from(std::ptr::read_volatile(addr as *const u64)),
            _ => std::ptr::read_volatile(addr as *const u128),
        }
    }
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | SeqCst)
}

impl State {
    fn note(&mut self, e: Vec<usize>) {
        if self.record {
            self.ev.push(e);
        }
    }
    fn tick(&mut self, t: usize) {
        self.clk[t][t] += 1;
    }
    fn knows(&self, t: usize, by: usize, ep: u32) -> bool {
        by == MAIN || ep <= self.clk[t][by]
    }
    fn block(&self, addr: usize) -> Option<usize> {
        self.blocks.range(..=addr).next_back().filter(|(b, k)| addr < **b + k.size).map(|(b, _)| *b)
    }
    /// Somebody uses what is in a block: its making must have happened before.
    fn touch(&mut self, t: usize, addr: usize, what: &str) {
        let Some(b) = self.block(addr) else { return };
        let k = &self.blocks[&b];
        if k.by == t || k.told[t] {
            return;
        }
        let (by, ep, id, size) = (k.by, k.ep, k.id, k.size);
        self.blocks.get_mut(&b).unwrap().told[t] = true;
        self.note(vec![6, t, id]);
        if !self.knows(t, by, ep) {
            self.races.push(format!("{what} a block of {size} bytes at {}", addr - b));
        }
    }
    /// The location, with what memory holds as its last message.
    fn loc(&mut self, t: usize, addr: usize, size: usize) -> usize {
        let now = raw(addr, size);
        let known = self.locs.get(&addr).is_some_and(|l| l.size == size && l.msgs.last().unwrap().val == now);
        if !known {
            let was = self.locs.get(&addr).map(|l| l.id);
            let (by, ep, b) = match self.block(addr).filter(|_| was.is_none()) {
                Some(b) => (self.blocks[&b].by, self.blocks[&b].ep, self.blocks[&b].id),
                None => (MAIN, 1, 0),
            };
            let id = was.unwrap_or_else(|| {
                self.nlocs += 1;
                self.nlocs
            });
            self.resets += u64::from(was.is_some());
            let m = Msg { val: now, by, ep, rel: [0; MAXT], read: [0; MAXT] };
            self.locs.insert(addr, Loc { id, size, msgs: vec![m], stale: [0; MAXT] });
            // a new location, in a block or not, or one that was written to by other means
            self.note(vec![7, id, b, t]);
            return id;
        }
        self.locs[&addr].id
    }
    /// Thread `t` reads message `i`.
    fn read(&mut self, t: usize, addr: usize, i: usize, acquire: bool) {
        let m = &mut self.locs.get_mut(&addr).unwrap().msgs[i];
        if m.read[t] == 0 {
            m.read[t] = self.clk[t][t];
        }
        let rel = m.rel;
        join(if acquire { &mut self.clk[t] } else { &mut self.pend[t] }, &rel);
    }
}

/// An operation begins: all that was done so far is known to it.
pub fn call(t: usize) {
    if !on() {
        return;
    }
    let s = st();
    for u in 0..MAXT {
        let c = s.clk[u];
        join(&mut s.clk[t], &c);
    }
    s.tick(t);
    s.left[t] = 40;
    for l in s.locs.values_mut() {
        l.stale[t] = 0;
    }
    s.note(vec![0, t]);
}

pub fn before(t: usize, a: &Access) {
    let s = st();
    s.touch(t, a.addr, "access to");
    s.loc(t, a.addr, a.size);
}

/// What a load returns.
pub fn loaded(t: usize, a: &Access, found: u128) -> u128 {
    let s = st();
    s.tick(t);
    let acq = acquires(a.order);
    let l = &s.locs[&a.addr];
    let (id, last) = (l.id, l.msgs.len() - 1);
    let c = &s.clk[t];
    let seen = |m: &Msg| m.by == MAIN || m.ep <= c[m.by] || (0..MAXT).any(|u| m.read[u] != 0 && m.read[u] <= c[u]);
    let floor = (0..=last).rev().find(|&i| seen(&l.msgs[i])).unwrap_or(0);
    let mut i = last;
    let held = l.stale[t];
    if floor < last && a.order != SeqCst && held < 3 && s.left[t] > 0 && (held > 0 || s.rng.chance(s.num, s.den)) {
        i = if s.rng.chance(1, 2) { floor } else { floor + s.rng.below(last - floor) };
        s.left[t] -= 1;
        s.stale += 1;
        s.locs.get_mut(&a.addr).unwrap().stale[t] += 1;
    }
    let v = if i == last { found } else { s.locs[&a.addr].msgs[i].val };
    s.read(t, a.addr, i, acq);
    if trace() {
        eprintln!("t{t} load {} {:?} -> {i}/{last} floor {floor} = {v:x}", sched::name_of(a.addr), a.order);
    }
    s.note(vec![1, t, id, usize::from(acq), i]);
    // what is behind an address that was read in order may be used at once
    if acq && a.size == 8 && v != 0 {
        let p = v as usize & !1;
        if let Some(b) = s.block(p) {
            if p == b || p == b + 16 {
                s.touch(t, p, "address of");
            }
        }
    }
    v
}

/// Look at one run.
fn trace() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var("WEAK_TRACE").is_ok())
}

pub fn after(t: usize, a: &Access) {
    let s = st();
    if trace() && a.op != Op::Load {
        let v = if a.op == Op::Fence { 0 } else { raw(a.addr, a.size) };
        eprintln!("t{t} {:?} {} {:?} wrote={} = {v:x}", a.op, sched::name_of(a.addr), a.order, a.wrote);
    }
    match a.op {
        Op::Load => {}
        Op::Fence => {
            s.tick(t);
            if a.order == SeqCst {
                let (p, all) = (s.pend[t], s.all);
                join(&mut s.clk[t], &p);
                join(&mut s.clk[t], &all);
                s.all = s.clk[t];
                s.fence[t] = s.clk[t];
            }
            if acquires(a.order) {
                let p = s.pend[t];
                join(&mut s.clk[t], &p);
            }
            if releases(a.order) {
                s.fence[t] = s.clk[t];
            }
            s.note(vec![4, t, usize::from(acquires(a.order)), usize::from(releases(a.order)), usize::from(a.order == SeqCst)]);
        }
        Op::Rmw if !a.wrote => {
            s.tick(t);
            let (id, i) = (s.locs[&a.addr].id, s.locs[&a.addr].msgs.len() - 1);
            s.read(t, a.addr, i, acquires(a.order));
            s.note(vec![1, t, id, usize::from(acquires(a.order)), i]);
        }
        Op::Rmw | Op::Store => {
            s.tick(t);
            let rmw = a.op == Op::Rmw;
            let id = s.locs[&a.addr].id;
            let mut old = [0; MAXT];
            if rmw {
                let i = s.locs[&a.addr].msgs.len() - 1;
                old = s.locs[&a.addr].msgs[i].rel;
                s.read(t, a.addr, i, acquires(a.order));
            }
            let mut rel = if releases(a.order) { s.clk[t] } else { s.fence[t] };
            join(&mut rel, &old);
            let m = Msg { val: raw(a.addr, a.size), by: t, ep: s.clk[t][t], rel, read: [0; MAXT] };
            s.locs.get_mut(&a.addr).unwrap().msgs.push(m);
            s.note(vec![if rmw { 3 } else { 2 }, t, id, usize::from(acquires(a.order)), usize::from(releases(a.order))]);
        }
    }
}

pub fn on_alloc(addr: usize, size: usize) {
    let t = sched::tid();
    if !on() || t >= MAXT || size == 0 {
        return;
    }
    let s = st();
    s.tick(t);
    s.nblocks += 1;
    let (id, ep) = (s.nblocks, s.clk[t][t]);
    s.locs.retain(|a, _| *a < addr || *a >= addr + size);
    s.blocks.insert(addr, Block { size, by: t, ep, id, told: [false; MAXT] });
    s.note(vec![5, t, id]);
}

/// A thread looks at a value.
pub fn look(addr: usize) {
    let t = sched::tid();
    if on() && t < MAXT {
        crate::alloc::paused(|| st().touch(t, addr, "value in"));
    }
}

/// Only what more than one thread had to do with, under small names.
pub fn json(s: &State, nt: usize) -> String {
    let mut users: HashMap<usize, u32> = HashMap::new();
    for e in &s.ev {
        let (t, loc) = match e[0] {
            1..=3 => (e[1], e[2]),
            _ => continue,
        };
        *users.entry(loc).or_default() |= 1 << t;
    }
    let keep = |l: usize| users.get(&l).is_some_and(|u| u.count_ones() > 1);
    let mut name: HashMap<usize, usize> = HashMap::new();
    let mut used: HashMap<usize, usize> = HashMap::new();
    for e in &s.ev {
        let n = used.len() + 1;
        if e[0] == 6 || (e[0] == 7 && e[2] != 0 && keep(e[1])) {
            used.entry(e[2]).or_insert(n);
        }
    }
    let mut out: Vec<String> = vec![];
    for e in &s.ev {
        let mut e = e.clone();
        let (loc, block) = match e[0] {
            1..=3 => (2, 0),
            5 | 6 => (0, 2),
            7 => (1, 2),
            _ => (0, 0),
        };
        if (loc > 0 && !keep(e[loc])) || (e[0] == 5 && !used.contains_key(&e[2])) {
            continue;
        }
        if loc > 0 {
            let n = name.len() + 1;
            e[loc] = *name.entry(e[loc]).or_insert(n);
        }
        if block > 0 && e[block] != 0 {
            e[block] = used[&e[block]];
        }
        out.push(format!("{e:?}"));
    }
    format!(
        "{{\"kind\":\"order\",\"nt\":{nt},\"locs\":{},\"blocks\":{},\"ev\":[{}]}}",
        name.len(),
        used.len(),
        out.join(",")
    )
}
