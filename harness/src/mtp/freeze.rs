//! C05: freezing a leaf's permutation against compare-and-swap publication.

use crate::log;
use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use crate::sched;
use masstree::freeze24::Freeze24Utils;
use masstree::leaf_trait::{FreezeGuardOps, TreeLeafNode, TreePermutation};
use masstree::leaf24::LeafNode24;
use masstree::permuter24::Permuter24;
use masstree::value::LeafValueIndex;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

type Leaf = LeafNode24<LeafValueIndex<u64>>;

static WATCH: AtomicUsize = AtomicUsize::new(0);
static LAST: std::sync::Mutex<u128> = std::sync::Mutex::new(0);

/// After every write: has the permutation changed?
fn on_write(t: usize, addr: usize, size: usize) {
    if size != 16 {
        return;
    }
    let l = WATCH.load(SeqCst) as *const Leaf;
    if l.is_null() || (addr as *const u8) < l.cast() || addr >= l as usize + size_of::<Leaf>() {
        return;
    }
    let raw = unsafe { (*l).permutation_raw() };
    let mut last = LAST.lock().unwrap();
    if *last != raw {
        *last = raw;
        let f = Freeze24Utils::is_frozen(raw);
        log::put(format!("[2,{t},{},{}]", u8::from(f), if f { 0 } else { log::id(raw) }));
    }
}

/// Some valid permutation, from another one.
fn next_perm(r: &mut Rng, p: Permuter24) -> Permuter24 {
    let mut p = p;
    match r.below(4) {
        0 | 1 if p.size() < 23 => {
            let i = r.below(p.size() + 1);
            let _ = p.insert_from_back(i);
        }
        2 if p.size() > 1 => p.exchange(0, p.size() - 1),
        _ if p.size() < 23 => {
            p.swap_free_slots(p.size(), 23);
            let _ = p.insert_from_back(0);
        }
        _ => p = Permuter24::make_sorted(1 + r.below(20)),
    }
    p
}

fn call(t: usize, op: u8, a: usize, b: usize) {
    log::put(format!("[0,{t},{op},{a},{b}]"));
}
fn ret(t: usize, a: i64, b: usize, c: usize) {
    log::put(format!("[1,{t},{a},{b},{c}]"));
}
fn pid(p: Permuter24) -> usize {
    log::id(p.value())
}
fn raw_id(raw: u128) -> (usize, usize) {
    let f = Freeze24Utils::is_frozen(raw);
    (usize::from(f), if f { 0 } else { log::id(raw) })
}

fn freezer(t: usize, l: &Leaf, r: &mut Rng) {
    let mut lock = l.version().lock();
    lock.mark_split();
    call(t, 6, 0, 0);
    let g = TreeLeafNode::freeze_permutation(l);
    let snap = FreezeGuardOps::snapshot(&g);
    ret(t, 1, pid(snap), log::id(FreezeGuardOps::snapshot_raw(&g)));
    for _ in 0..r.below(4) {
        if r.chance(1, 5) {
            // a second freeze is an error, and harmless
            call(t, 6, 0, 0);
            let x = caught(|| std::mem::forget(TreeLeafNode::freeze_permutation(l)));
            ret(t, if x.is_none() { 9 } else { 1 }, 0, 0);
        } else {
            look(t, l, r, true);
        }
    }
    match r.below(5) {
        0 => {
            call(t, 8, 0, 0);
            drop(g);
            ret(t, 1, 0, 0);
        }
        1 => {
            // gives up in the middle
            call(t, 8, 0, 0);
            let _ = caught(move || {
                let _g = g;
                panic!("give up");
            });
            ret(t, 1, 0, 0);
        }
        2 => {
            let mut g = g;
            FreezeGuardOps::set_active(&mut g, false);
            FreezeGuardOps::set_active(&mut g, true);
            call(t, 8, 0, 0);
            drop(g);
            ret(t, 1, 0, 0);
        }
        _ => {
            let mut p = next_perm(r, snap);
            if r.chance(1, 3) {
                p.set_size(p.size() / 2);
            }
            if r.chance(1, 8) {
                p = Permuter24::empty();
            }
            call(t, 7, pid(p), 0);
            TreeLeafNode::unfreeze_set_permutation(l, g, p);
            ret(t, 1, 0, 0);
        }
    }
    drop(lock);
}

fn look(t: usize, l: &Leaf, r: &mut Rng, holder: bool) -> Option<Permuter24> {
    match r.below(if holder { 4 } else { 6 }) {
        0 => {
            call(t, 1, 0, 0);
            let p = TreeLeafNode::permutation_try(l);
            match &p {
                Ok(p) => ret(t, 1, pid(*p), 0),
                Err(()) => ret(t, 0, 0, 0),
            }
            p.ok()
        }
        1 => {
            call(t, 3, 0, 0);
            let f = if r.chance(1, 2) { TreeLeafNode::is_permutation_frozen(l) } else { TreeLeafNode::is_perm_frozen(l) };
            ret(t, i64::from(f), 0, 0);
            None
        }
        2 | 3 => {
            call(t, 4, 0, 0);
            let raw = l.permutation_raw();
            let (f, i) = raw_id(raw);
            let f2 = usize::from(<Permuter24 as TreePermutation>::is_frozen_raw(raw));
            ret(t, f as i64, i, f2);
            (f == 0).then(|| Permuter24::from_value(raw))
        }
        _ => {
            call(t, 2, 0, 0);
            let p = TreeLeafNode::permutation_wait(l);
            ret(t, 1, pid(p), 0);
            Some(p)
        }
    }
}

fn other(t: usize, l: &Leaf, r: &mut Rng) {
    let mut known = vec![];
    for _ in 0..2 + r.below(5) {
        if known.is_empty() || r.chance(1, 2) {
            if let Some(p) = look(t, l, r, false) {
                known.push(p);
            }
        } else {
            let exp = if r.chance(3, 4) { known[known.len() - 1] } else { *r.pick(&known) };
            let new = next_perm(r, exp);
            if new.value() == exp.value() {
                continue;
            }
            call(t, 5, pid(exp), pid(new));
            if r.chance(1, 2) {
                match TreeLeafNode::cas_permutation_raw(l, exp, new) {
                    Ok(()) => {
                        ret(t, 1, 0, 0);
                        known.push(new);
                    }
                    Err(e) => {
                        let (f, i) = raw_id(e.current().value());
                        // both ways to ask must agree
                        let same = usize::from(e.is_frozen()) == f;
                        ret(t, if same { 0 } else { 7 }, f, i);
                    }
                }
            } else {
                match caught(|| l.cas_permutation(exp, new)) {
                    Some(Ok(())) => {
                        ret(t, 1, 0, 0);
                        known.push(new);
                    }
                    Some(Err(p)) => ret(t, 0, 0, pid(p)),
                    None => ret(t, 0, 1, 0),
                }
            }
        }
    }
}

fn setter(t: usize, l: &Leaf, r: &mut Rng) {
    let lock = l.version().lock();
    // nobody else may publish without a compare-and-swap while the lock is held
    let k = r.below(24);
    let p = next_perm(r, Permuter24::make_sorted(k));
    call(t, 9, pid(p), 0);
    l.set_permutation(p);
    ret(t, 1, 0, 0);
    drop(lock);
}

/// Freezing as a function on words.
fn words(r: &mut Rng) -> Vec<String> {
    (0..20)
        .map(|_| {
            let mut p = Permuter24::make_sorted(r.below(25));
            for _ in 0..r.below(6) {
                p = next_perm(r, p);
            }
            let raw = p.value();
            let s23 = Freeze24Utils::get_slot23(raw);
            let fz = Freeze24Utils::freeze_raw(raw);
            let fz2 = <Permuter24 as TreePermutation>::freeze_raw(raw);
            let back = Freeze24Utils::unfreeze_raw(fz, s23);
            let fp = Permuter24::from_value(fz);
            let mut ok = fp.size() == p.size() && fz == fz2;
            (0..23).for_each(|i| ok &= fp.get(i) == p.get(i));
            let mut p15 = masstree::permuter::Permuter::<15>::make_sorted(r.below(16));
            if p15.size() > 1 {
                p15.exchange(0, p15.size() - 1);
            }
            let raw15 = p15.value();
            let fz15 = masstree::permuter::Permuter::<15>::freeze_raw(raw15);
            let b = |x: bool| u8::from(x);
            format!(
                "[3,\"{raw:x}\",\"{back:x}\",{},{},{},{},{},{}]",
                b(Freeze24Utils::is_frozen(raw)),
                b(Freeze24Utils::is_frozen(fz)),
                b(<Permuter24 as TreePermutation>::is_frozen_raw(fz)),
                b(ok),
                b(masstree::permuter::Permuter::<15>::is_frozen_raw(raw15)),
                b(masstree::permuter::Permuter::<15>::is_frozen_raw(fz15))
            )
        })
        .collect()
}

pub fn trace(_a: &Args, r: &mut Rng) -> Trace {
    log::begin();
    let leaf: Arc<Box<Leaf>> = Arc::new(Leaf::new());
    leaf.set_permutation(Permuter24::make_sorted(r.below(24)));
    let init = log::id(leaf.permutation_raw());
    let n = 2 + r.below(3);
    WATCH.store(&raw const **leaf as usize, SeqCst);
    *LAST.lock().unwrap() = leaf.permutation_raw();
    sched::set_write_cb(Some(on_write));
    let mut tasks: Vec<(usize, Box<dyn FnOnce() + Send>)> = vec![];
    for t in 0..n {
        let l = leaf.clone();
        let mut r = Rng::new(r.next());
        let role = if t == 0 { 0 } else { r.below(8) };
        tasks.push((
            t,
            Box::new(move || match role {
                0 => {
                    for _ in 0..1 + r.below(2) {
                        freezer(t, &l, &mut r);
                    }
                }
                1 => freezer(t, &l, &mut r),
                2 => setter(t, &l, &mut r),
                _ => other(t, &l, &mut r),
            }),
        ));
    }
    let st = log::strategy(r, n, 60);
    sched::run(tasks, st, 200_000);
    sched::set_write_cb(None);
    WATCH.store(0, SeqCst);
    let fin = raw_id(leaf.permutation_raw());
    let mut l = log::end();
    let w = words(r);
    l.ev.push(format!("[4,{},{}]", fin.0, fin.1));
    l.ev.extend(w);
    let k = l.ev.len();
    (format!("\"nt\":{n},\"init\":{init},\"ev\":{}", list(l.ev)), k)
}
