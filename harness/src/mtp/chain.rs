//! C08: new right siblings linked into a chain of leaves, while others look at it.

use crate::log;
use crate::rec::{Args, Trace, list};
use crate::rng::Rng;
use crate::sched;
use masstree::leaf_trait::TreeLeafNode;
use masstree::leaf24::LeafNode24;
use masstree::link;
use masstree::value::LeafValueIndex;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

type Leaf = LeafNode24<LeafValueIndex<u64>>;
/// The nodes of the run, and how their pointers looked last: (next, marked, prev).
static NODES: Mutex<Vec<usize>> = Mutex::new(Vec::new());
static LAST: Mutex<Vec<(usize, usize, usize)>> = Mutex::new(Vec::new());
/// up to here the nodes are linked
static LO: AtomicUsize = AtomicUsize::new(usize::MAX);
static HI: AtomicUsize = AtomicUsize::new(0);

/// 0 for none, 1.. for a node, 99 for anything else.
fn name(p: usize) -> usize {
    if p == 0 {
        return 0;
    }
    NODES.lock().unwrap().iter().position(|&n| n == p).map_or(99, |i| i + 1)
}
fn at(i: usize) -> &'static Leaf {
    unsafe { &*(NODES.lock().unwrap()[i - 1] as *const Leaf) }
}
fn state(i: usize) -> (usize, usize, usize) {
    let l = at(i);
    let raw = l.next_raw();
    (name(raw as usize & !1), raw as usize & 1, name(l.prev() as usize))
}

fn on_write(t: usize, addr: usize, size: usize) {
    if size != 8 || addr < LO.load(SeqCst) || addr >= HI.load(SeqCst) {
        return;
    }
    let mut last = LAST.lock().unwrap();
    for i in 1..=last.len() {
        let now = state(i);
        let was = last[i - 1];
        if (was.0, was.1) != (now.0, now.1) {
            log::put(format!("[2,{t},{i},0,{},{}]", now.0, now.1));
        }
        if was.2 != now.2 {
            log::put(format!("[2,{t},{i},1,{},0]", now.2));
        }
        last[i - 1] = now;
    }
}

fn call(t: usize, op: u8, a: usize, b: usize) {
    log::put(format!("[0,{t},{op},{a},{b}]"));
}
fn ret(t: usize, a: usize, b: usize, c: usize) {
    log::put(format!("[1,{t},{a},{b},{c}]"));
}
fn quiet_name(p: *mut Leaf) -> usize {
    sched::quiet(|| name(p as usize))
}

fn link_one(t: usize, a: usize, x: usize, locked: bool) {
    let l = at(a);
    // the tree links under the leaf's lock, but the chain must not need it; who holds it must
    // not have to wait for a linker without it, though
    let lock = locked.then(|| l.version().lock());
    call(t, 1, a, x);
    unsafe { TreeLeafNode::link_sibling(l, std::ptr::from_ref(at(x)).cast_mut()) };
    ret(t, 0, 0, 0);
    drop(lock);
}

/// What `t` finds to the right of `a` (true) or to its left, where it may not be linked yet.
fn look(t: usize, a: usize, r: &mut Rng) -> Option<(usize, bool)> {
    let l = at(a);
    match r.below(6) {
        0 | 1 => {
            call(t, 2, a, 0);
            let p = if r.chance(1, 2) { l.safe_next() } else { TreeLeafNode::safe_next(l) };
            let n = quiet_name(p);
            ret(t, n, 0, 0);
            (n > 0 && n != 99).then_some((n, true))
        }
        2 => {
            call(t, 3, a, 0);
            let m = l.next_is_marked();
            ret(t, usize::from(m), 0, 0);
            None
        }
        3 => {
            call(t, 4, a, 0);
            let p = if r.chance(1, 2) { l.next_raw() } else { TreeLeafNode::next_raw(l) };
            let m = usize::from(link::is_marked(p));
            let (u, w) = (link::unmark_ptr(p), link::mark_ptr(p));
            // marking is one bit
            let odd = u as usize % 2 + (1 - w as usize % 2) + usize::from((u as usize) + 1 != w as usize);
            ret(t, quiet_name(u), m, odd);
            None
        }
        4 => {
            call(t, 5, a, 0);
            let p = if r.chance(1, 2) { l.prev() } else { TreeLeafNode::prev(l) };
            let n = quiet_name(p);
            ret(t, n, 0, 0);
            (n > 0 && n != 99).then_some((n, false))
        }
        _ => {
            call(t, 6, a, 0);
            let from = sched::inner().local[t];
            if r.chance(1, 2) {
                l.wait_for_split();
            } else {
                TreeLeafNode::wait_for_split(l);
            }
            // whoever waits very long may give up
            let few = sched::inner().local[t] - from < 500;
            ret(t, usize::from(few), 0, 0);
            None
        }
    }
}

pub fn trace(_a: &Args, r: &mut Rng) -> Trace {
    log::begin();
    let total = 3 + r.below(8);
    let first = 1 + r.below(3.min(total - 1));
    let leaves: Vec<Box<Leaf>> = (0..total).map(|_| Leaf::new()).collect();
    *NODES.lock().unwrap() = leaves.iter().map(|l| std::ptr::from_ref(&**l) as usize).collect();
    for i in 1..first {
        unsafe { TreeLeafNode::link_sibling(&*leaves[i - 1], std::ptr::from_ref(&*leaves[i]).cast_mut()) };
    }
    *LAST.lock().unwrap() = (1..=total).map(state).collect();
    let ends = leaves.iter().map(|l| std::ptr::from_ref(&**l) as usize);
    LO.store(ends.clone().min().unwrap(), SeqCst);
    HI.store(ends.max().unwrap() + size_of::<Leaf>(), SeqCst);
    let n = 2 + r.below(3);
    let locked = r.chance(1, 4);
    let fresh = Arc::new(Mutex::new((first + 1..=total).collect::<Vec<_>>()));
    sched::set_write_cb(Some(on_write));
    let mut tasks: Vec<(usize, Box<dyn FnOnce() + Send>)> = vec![];
    for t in 0..n {
        let fresh = fresh.clone();
        let mut r = Rng::new(r.next());
        let linker = t < 2 || r.chance(1, 2);
        let narrow = r.chance(1, 2);
        tasks.push((
            t,
            Box::new(move || {
                let mut known: Vec<usize> = if narrow { vec![1 + r.below(first)] } else { (1..=first).collect() };
                let mut left: Vec<usize> = vec![];
                for _ in 0..2 + r.below(5) {
                    let a = *r.pick(&known);
                    let right = left.is_empty() || r.chance(1, 2);
                    let b = *r.pick(if right { &known } else { &left });
                    if linker && r.chance(1, 2) {
                        let x = sched::quiet(|| fresh.lock().unwrap().pop());
                        if let Some(x) = x {
                            link_one(t, a, x, locked);
                            if r.chance(1, 2) {
                                known.push(x);
                            }
                        }
                    } else if let Some((n, right)) = look(t, b, &mut r) {
                        if right { &mut known } else { &mut left }.push(n);
                    }
                }
            }),
        ));
    }
    let st = log::strategy(r, n, 60);
    sched::run(tasks, st, 200_000);
    sched::set_write_cb(None);
    LO.store(usize::MAX, SeqCst);
    HI.store(0, SeqCst);
    let mut l = log::end();
    let fin: Vec<String> = (1..=total)
        .map(state)
        .map(|(a, m, p)| format!("[{a},{m},{p}]"))
        .collect();
    l.ev.push(format!("[3,{}]", list(fin)));
    NODES.lock().unwrap().clear();
    LAST.lock().unwrap().clear();
    // the drops of these leaves do not follow their links
    drop(leaves);
    let k = l.ev.len();
    (format!("\"nt\":{n},\"total\":{total},\"first\":{first},\"ev\":{}", list(l.ev)), k)
}
