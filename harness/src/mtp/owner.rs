//! C07: the node allocator, node by node, with reclamation as early as permitted.

use crate::alloc;
use crate::rec::{Args, Trace, list};
use crate::rng::Rng;
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::alloc24::{NodeAllocator24, SeizeAllocator24};
use masstree::internode::InternodeNode;
use masstree::leaf24::LeafNode24;
use masstree::slot::ValueSlot;
use masstree::value::LeafValue;
use std::collections::HashMap;
use std::sync::Mutex;

static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
static NAMES: Mutex<Option<HashMap<usize, usize>>> = Mutex::new(None);

/// A value that tells when it goes.
pub struct Told(usize);
impl Drop for Told {
    fn drop(&mut self) {
        alloc::paused(|| put(format!("[10,{}]", self.0)));
    }
}
type S = LeafValue<Told>;
type Leaf = LeafNode24<S>;
type Inner = InternodeNode<S, 15>;
type A = SeizeAllocator24<S>;

fn put(s: String) {
    // the text may come from inside a tracked call
    alloc::paused(|| LOG.lock().unwrap().push(s));
}
fn on_free(addr: usize) {
    let n = NAMES.lock().unwrap().as_ref().and_then(|m| m.get(&addr).copied());
    if let Some(n) = n {
        put(format!("[8,{n}]"));
    }
}

fn counts(a: &A) {
    put(format!("[9,{},{}]", a.leaf_count(), a.internode_count()));
}

fn go(r: &mut Rng) {
    let col = seize::Collector::new().batch_size(*r.pick(&[1, 1, 2, 5]));
    let a: A = if r.chance(1, 2) { A::new() } else { A::default() };
    let mut owned = vec![];
    let mut alive: Vec<(usize, bool, *mut u8)> = vec![];
    let (mut nn, mut nv, mut ng) = (0, 0, 0);
    for _ in 0..15 + r.below(60) {
        match r.below(8) {
            0..=2 => {
                nn += 1;
                let leaf = r.chance(3, 5);
                let ptr: *mut u8;
                if leaf {
                    let l: Box<Leaf> = alloc::tracked(|| if r.chance(1, 2) { Leaf::new() } else { Leaf::new_root() });
                    let mut vals = vec![];
                    let g = col.enter();
                    for s in 0..24 {
                        match r.below(10) {
                            0 | 1 => {
                                nv += 1;
                                vals.push(nv);
                                let p = alloc::tracked(|| S::output_consume_to_raw(S::into_output(Told(nv))));
                                l.set_leaf_value_ptr(s, p);
                                if r.chance(1, 2) {
                                    alloc::tracked(|| unsafe { l.assign_ksuf(s, b"some suffix", &g) });
                                } else {
                                    l.set_keylenx(s, r.below(9) as u8);
                                }
                            }
                            2 => {
                                // a layer is somebody else's
                                l.set_leaf_value_ptr(s, std::ptr::without_provenance_mut(64 * (1 + r.below(4))));
                                l.set_keylenx(s, if r.chance(1, 2) { 128 } else { 255 });
                            }
                            _ => {}
                        }
                    }
                    drop(g);
                    NAMES.lock().unwrap().as_mut().unwrap().insert(&raw const *l as usize, nn);
                    put(format!("[0,{nn},0,{}]", list(vals)));
                    ptr = alloc::tracked(|| match r.below(4) {
                        0 => NodeAllocator24::alloc_leaf24(&a, l).cast(),
                        1 => NodeAllocatorGeneric::alloc_leaf(&a, l).cast(),
                        2 => {
                            let p = Box::into_raw(l);
                            NodeAllocatorGeneric::track_leaf(&a, p);
                            p.cast()
                        }
                        _ => {
                            let p = Box::into_raw(l);
                            a.track_leaf24(p);
                            p.cast()
                        }
                    });
                } else {
                    let h = r.below(3) as u32;
                    let i: Box<Inner> = alloc::tracked(|| if r.chance(1, 2) { Inner::new(h) } else { Inner::new_root(h) });
                    // children are not the node's
                    i.set_child(0, std::ptr::without_provenance_mut(64));
                    NAMES.lock().unwrap().as_mut().unwrap().insert(&raw const *i as usize, nn);
                    put(format!("[0,{nn},1,[]]"));
                    ptr = alloc::tracked(|| match r.below(4) {
                        0 => a.alloc_internode24(i).cast(),
                        1 => a.alloc_internode_erased(Box::into_raw(i).cast()),
                        2 => {
                            let p = Box::into_raw(i);
                            a.track_internode_erased(p.cast());
                            p.cast()
                        }
                        _ => {
                            let p = Box::into_raw(i);
                            a.track_internode24(p);
                            p.cast()
                        }
                    });
                }
                // what comes back is the node itself
                let n = NAMES.lock().unwrap().as_ref().unwrap().get(&(ptr as usize)).copied().unwrap_or(0);
                put(format!("[11,{n},{nn}]"));
                alive.push((nn, leaf, ptr));
            }
            3 | 4 if !alive.is_empty() => {
                ng += 1;
                let g = col.enter();
                put(format!("[1,{ng}]"));
                for _ in 0..1 + r.below(3) {
                    if alive.is_empty() {
                        break;
                    }
                    let (n, leaf, p) = alive.swap_remove(r.below(alive.len()));
                    put(format!("[3,{n}]"));
                    let own = r.chance(1, 2);
                    alloc::tracked(|| unsafe {
                        match (leaf, own) {
                            (true, true) => a.retire_leaf24(p.cast(), &g),
                            (true, false) => a.retire_leaf(p.cast(), &g),
                            (false, true) => a.retire_internode24(p.cast(), &g),
                            (false, false) => a.retire_internode_erased(p, &g),
                        }
                    });
                    if r.chance(1, 3) {
                        counts(&a);
                    }
                    if r.chance(1, 4) {
                        alloc::tracked(|| seize::Guard::flush(&g));
                    }
                }
                put(format!("[2,{ng}]"));
                alloc::tracked(|| drop(g));
            }
            5 if owned.len() < 4 => {
                ng += 1;
                put(format!("[1,{ng}]"));
                owned.push((ng, col.enter_owned()));
            }
            6 if !owned.is_empty() => {
                let (n, g) = owned.swap_remove(r.below(owned.len()));
                put(format!("[2,{n}]"));
                alloc::tracked(|| drop(g));
            }
            7 => counts(&a),
            _ => {}
        }
    }
    let torn = r.chance(1, 2);
    if torn {
        put("[4]".into());
        alloc::tracked(|| if r.chance(1, 2) { a.teardown_tree24(std::ptr::null_mut()) } else { a.teardown_tree(std::ptr::null_mut()) });
        put("[5]".into());
        counts(&a);
        if r.chance(1, 3) {
            // a second teardown finds nothing
            put("[4]".into());
            alloc::tracked(|| a.teardown_tree24(std::ptr::null_mut()));
            put("[5]".into());
        }
    }
    put("[6]".into());
    alloc::tracked(|| drop(a));
    put("[7]".into());
    for (n, g) in owned {
        put(format!("[2,{n}]"));
        alloc::tracked(|| drop(g));
    }
    drop(col);
}

/// What the reclaimer sets up once per process is nobody's leak.
fn warm() {
    let col = seize::Collector::new().batch_size(1);
    let a = A::new();
    for own in [false, true] {
        let o = own.then(|| col.enter_owned());
        let g = col.enter();
        for _ in 0..3 {
            let p = a.alloc_leaf24(Leaf::new());
            unsafe { a.retire_leaf24(p, &g) };
        }
        seize::Guard::flush(&g);
        drop(g);
        drop(o);
    }
    a.teardown_tree24(std::ptr::null_mut());
    alloc::start();
    alloc::finish(0);
}

pub fn trace(_a: &Args, r: &mut Rng) -> Trace {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(warm);
    *NAMES.lock().unwrap() = Some(HashMap::new());
    LOG.lock().unwrap().clear();
    alloc::set_on_free(Some(on_free));
    alloc::start();
    go(r);
    alloc::set_on_free(None);
    let rep = alloc::finish(0);
    let mut ev = std::mem::take(&mut *LOG.lock().unwrap());
    ev.push(format!("[12,{},{},{}]", rep.leaked_blocks, rep.double, rep.dirty_after_release));
    let n = ev.len();
    (format!("\"ev\":{}", list(ev)), n)
}
