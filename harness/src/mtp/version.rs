//! V01, V02: the version word and its lock.

use crate::log;
use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use crate::sched;
use masstree::nodeversion::{LockGuard, NodeVersion, SingleThreadedNodeVersion};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The words of a run: addresses, and all stable values readers got so far.
static WORDS: Mutex<Vec<(usize, Vec<u32>)>> = Mutex::new(Vec::new());
static CALLS: AtomicUsize = AtomicUsize::new(0);

fn flags(v: &NodeVersion) -> String {
    let b = |x: bool| u8::from(x);
    format!("[{},{},{},{},{},{}]", b(v.is_locked()), b(v.is_inserting()), b(v.is_splitting()), b(v.is_deleted()), b(v.is_root()), b(v.is_leaf()))
}
/// What somebody holding `old` would be told: changed + 2 split + 4 changed or locked.
fn ask(v: &NodeVersion, old: u32) -> u8 {
    u8::from(v.has_changed(old)) + 2 * u8::from(v.has_split(old)) + 4 * u8::from(v.has_changed_or_locked(old))
}

fn on_lock(t: usize, addr: usize, _old: u32, new: u32) {
    let w = WORDS.lock().unwrap();
    let Some(o) = w.iter().position(|x| x.0 == addr) else { return };
    let v = NodeVersion::from_value(new);
    let hc = list(w[o].1.iter().map(|x| ask(&v, *x)));
    log::put(format!("[2,{t},{},{},{},{hc}]", o + 1, flags(&v), log::id(u128::from(new))));
}

fn call(t: usize, op: u8, o: usize, a: usize) {
    CALLS.fetch_add(1, SeqCst);
    log::put(format!("[0,{t},{op},{o},{a}]"));
}
fn ret(t: usize, a: impl std::fmt::Display) {
    log::put(format!("[1,{t},{a}]"));
}

type V = Arc<Vec<NodeVersion>>;

/// Everything the holder may do before it lets go.
fn hold(t: usize, o: usize, mut g: LockGuard<'_>, v: &NodeVersion, r: &mut Rng, kind: usize) {
    for _ in 0..if kind == 4 { usize::from(r.chance(1, 4)) } else { r.below(4) } {
        match r.below(9) {
            0 | 1 => {
                call(t, 5, o, 0);
                g.mark_insert();
                ret(t, 1);
            }
            2 | 3 if kind != 1 && kind != 4 => {
                call(t, 6, o, 0);
                g.mark_split();
                ret(t, 1);
                if r.chance(1, 3) {
                    // the root gives up its place to the node above
                    call(t, 9, o, 0);
                    v.mark_nonroot();
                    ret(t, 1);
                }
                if r.chance(1, 2) {
                    // a sibling begins its life locked
                    let s = NodeVersion::new_for_split(v);
                    let a = (flags(&s), u8::from(s.is_split_locked()));
                    let c = s.clone();
                    s.unlock_for_split();
                    let last = (ask(&s, c.value()), u8::from(s.is_split_locked()), flags(&s));
                    log::put(format!("[3,{t},{o},{},{},{},{},{}]", a.0, a.1, last.0, last.1, last.2));
                }
            }
            4 if kind != 4 && r.chance(1, 4) => {
                call(t, 7, o, 0);
                g.mark_deleted();
                ret(t, 1);
            }
            5 => {
                call(t, 8, o, 0);
                g.mark_nonroot();
                ret(t, 1);
            }
            6 => {
                call(t, 10, o, 0);
                // held, so neither free for another nor for the holder
                let x = v.try_lock();
                let got = x.is_some();
                std::mem::forget(x);
                ret(t, u8::from(got));
            }
            _ => read_one(t, o, v, r, true),
        }
    }
    call(t, 11, o, 0);
    if r.chance(1, 6) {
        let _ = caught(move || {
            let _g = g;
            panic!("holder");
        });
    } else {
        drop(g);
    }
    ret(t, 1);
}

fn take(t: usize, o: usize, v: &NodeVersion, r: &mut Rng, kind: usize) {
    let how = 1 + r.below(4);
    let g = match how {
        1 => {
            call(t, 1, o, 0);
            Some(v.lock())
        }
        2 => {
            call(t, 2, o, 0);
            Some(v.lock_with_yield())
        }
        3 => {
            call(t, 3, o, 0);
            v.try_lock()
        }
        _ => {
            let ms = *r.pick(&[0, 0, 1, 1000]);
            call(t, 4, o, 0);
            v.try_lock_for(Duration::from_millis(ms))
        }
    };
    ret(t, u8::from(g.is_some()));
    if let Some(g) = g {
        hold(t, o, g, v, r, kind);
    }
}

fn read_one(t: usize, o: usize, v: &NodeVersion, r: &mut Rng, holder: bool) {
    let old = {
        let w = WORDS.lock().unwrap();
        let known = &w[o - 1].1;
        if known.is_empty() { None } else { Some(r.below(known.len())).map(|i| (i, known[i])) }
    };
    match (r.below(6), old) {
        (0, Some((i, x))) => {
            call(t, 13, o, i + 1);
            let x = v.has_changed(x);
            ret(t, u8::from(x));
        }
        (1, Some((i, x))) => {
            call(t, 14, o, i + 1);
            let x = if r.chance(1, 2) { v.has_split(x) } else { v.simple_has_split(x) };
            ret(t, u8::from(x));
        }
        (2 | 3, Some((i, x))) => {
            call(t, 15, o, i + 1);
            let x = v.has_changed_or_locked(x);
            ret(t, u8::from(x));
        }
        (4, _) => {
            let k = r.below(8);
            call(t, 16, o, k);
            let x = match k {
                0 => v.is_locked(),
                1 => v.is_inserting(),
                2 => v.is_splitting(),
                3 => v.is_deleted(),
                4 => v.is_root(),
                5 => v.is_leaf(),
                6 => v.is_dirty(),
                _ => v.is_split_locked(),
            };
            ret(t, u8::from(x));
        }
        _ if !holder => {
            call(t, 12, o, 0);
            let x = v.stable();
            let n = sched::quiet(|| {
                let mut w = WORDS.lock().unwrap();
                w[o - 1].1.push(x);
                w[o - 1].1.len()
            });
            let f = sched::quiet(|| flags(&NodeVersion::from_value(x)));
            ret(t, format!("{},{n},{f}", log::id(u128::from(x))));
        }
        _ => {}
    }
}

/// One optimistic reader: stable, then some checks.
fn reader(t: usize, vs: &V, r: &mut Rng) {
    for _ in 0..3 + r.below(8) {
        let o = 1 + r.below(vs.len());
        read_one(t, o, &vs[o - 1], r, false);
    }
}
fn writer(t: usize, vs: &V, r: &mut Rng, kind: usize, first: bool) {
    if first && vs.len() == 2 {
        // the second word was born locked for a split by this thread
        for _ in 0..r.below(3) {
            read_one(t, 1, &vs[0], r, false);
        }
        call(t, 17, 2, 0);
        vs[1].unlock_for_split();
        ret(t, 1);
    }
    if kind == 4 {
        // readers' versions, then as many insertions as the small counter can count, and some more
        for o in 1..=vs.len() {
            read_one(t, o, &vs[o - 1], r, false);
            while first && WORDS.lock().unwrap()[o - 1].1.is_empty() {
                read_one(t, o, &vs[o - 1], r, false);
            }
        }
        let o = 1 + r.below(vs.len());
        for _ in 0..if first { 60 + r.below(12) } else { r.below(12) } {
            take(t, o, &vs[o - 1], r, kind);
            if r.chance(1, 12) {
                read_one(t, o, &vs[o - 1], r, false);
            }
        }
        return;
    }
    let many = if kind == 1 { 30 } else { 3 };
    for _ in 0..1 + r.below(many) {
        if r.chance(1, 4) {
            let o = 1 + r.below(vs.len());
            read_one(t, o, &vs[o - 1], r, false);
        } else {
            let o = 1 + r.below(vs.len());
            take(t, o, &vs[o - 1], r, kind);
        }
    }
}

pub fn trace(a: &Args, r: &mut Rng) -> Trace {
    if a.s("what", "threads") == "single" {
        return single(r);
    }
    log::begin();
    // kind 1: many insertions only; kind 4: enough of them to run the small counter over
    let kind = if r.chance(1, 20) { 4 } else { r.below(4) };
    let mut vs = vec![];
    let first = match r.below(4) {
        0 => NodeVersion::new(true),
        1 => NodeVersion::new(false),
        2 => NodeVersion::default(),
        // counters anywhere, also just before they run over
        _ => {
            let vi = *r.pick(&[0u32, 1, 30, 62, 63]);
            let sp = *r.pick(&[0u32, 1, 7, 0x3ffff, 0x7fffe, 0x7ffff]);
            NodeVersion::from_value(u32::from(r.chance(1, 2)) << 31 | sp << 9 | vi << 3)
        }
    };
    if r.chance(1, 2) {
        first.mark_root();
    }
    let vi0 = first.value() >> 3 & 63;
    if r.chance(1, 2) {
        let g = first.lock();
        let second = NodeVersion::new_for_split(&first);
        std::mem::forget(g);
        // the first as it was
        let raw = first.value() & !3;
        vs.push(NodeVersion::from_value(raw));
        vs.push(second);
    } else {
        vs.push(first);
    }
    let init = list(vs.iter().map(|v| format!("[{},{}]", flags(v), log::id(u128::from(v.value())))));
    let vs: V = Arc::new(vs);
    *WORDS.lock().unwrap() = vs.iter().map(|v| (&raw const *v as usize, vec![])).collect();
    sched::set_lock_cb(Some(on_lock));
    let n = if kind == 4 { 1 + r.below(2) } else { 2 + r.below(3) };
    let mut tasks: Vec<(usize, Box<dyn FnOnce() + Send>)> = vec![];
    for t in 0..n {
        let v = vs.clone();
        let mut r = Rng::new(r.next());
        let wr = t == 0 || r.chance(1, 2);
        tasks.push((t, Box::new(move || if wr { writer(t, &v, &mut r, kind, t == 0) } else { reader(t, &v, &mut r) })));
    }
    let st = log::strategy(r, n, [60, 250, 60, 60, 400][kind]);
    sched::run(tasks, st, 200_000);
    sched::set_lock_cb(None);
    let mut l = log::end();
    l.ev.push(format!("[4,{}]", list(vs.iter().map(|v| flags(v)))));
    let k = l.ev.len();
    (format!("\"nt\":{n},\"vi\":{vi0},\"init\":{init},\"ev\":{}", list(l.ev)), k)
}

/// The version word without threads has the same contract, minus locks.
fn single(r: &mut Rng) -> Trace {
    let leaf = r.chance(1, 2);
    let mut v = SingleThreadedNodeVersion::new(leaf);
    let f = |v: &SingleThreadedNodeVersion| format!("[0,0,0,{},{},{}]", u8::from(v.is_deleted()), u8::from(v.is_root()), u8::from(v.is_leaf()));
    let mut olds: Vec<u32> = vec![];
    let mut ev: Vec<String> = vec![];
    let init = f(&v);
    let long = r.chance(1, 3);
    for _ in 0..if long { 150 } else { 20 } {
        let (mut s, mut d, mut nr, mut op) = (0, 0, 0, 0);
        match if long { 3 + r.below(10) } else { r.below(9) } {
            0 => {
                v.mark_root();
                op = 1;
            }
            1 => {
                v.mark_nonroot();
                op = 2;
            }
            2 => op = 3,
            _ => {
                let mut g = v.lock();
                if r.chance(1, 2) {
                    g.mark_insert();
                }
                if r.chance(1, if long { 60 } else { 4 }) {
                    g.mark_split();
                    s = 1;
                }
                if r.chance(1, if long { 200 } else { 10 }) {
                    g.mark_deleted();
                    d = 1;
                }
                if r.chance(1, 8) {
                    g.mark_nonroot();
                    nr = 1;
                }
            }
        }
        let hc = list(olds.iter().map(|x| u8::from(v.has_changed(*x)) + 2 * u8::from(v.has_split(*x))));
        ev.push(format!("[5,{op},{s},{d},{nr},{},{hc}]", f(&v)));
        if olds.len() < 20 || r.chance(1, 10) {
            olds.push(v.stable());
            ev.push("[6]".into());
        }
    }
    let n = ev.len();
    (format!("\"nt\":1,\"vi\":0,\"init\":[[{init},0]],\"ev\":{}", list(ev)), n)
}
