//! Concurrent runs: build the tree, run the programs under a schedule, record the history,
//! the node-level trace if asked, and what is observed afterwards.

use crate::api::{Gen, NewTree, TreeOps};
use crate::scen::{Kind, Scen};
use crate::sched::{self, Outcome, Strategy};
use crate::snap::{self, Names, Node};
use crate::{alloc, val, weak};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub enum NodeEv {
    Call(usize, usize),
    Ret(usize, usize),
    Lock(usize, usize, Node),
    Unlock(usize, usize, Node, Vec<Node>, u32),
    /// thread, what the root word names now, nodes seen for the first time
    Root(usize, usize, Vec<Node>),
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// thread, kind (0 get, 1 insert), key index, value id
    Call(usize, u8, usize, u64),
    /// thread, result: 0 none, id, -1 error
    Ret(usize, i64),
}

/// Events in the life of values: <<code, a, b, c>>, see spec/LifeTrace.tla.
type LifeEv = [i64; 4];

fn on_drop(id: u64) {
    if let Some(r) = unsafe { (*REC.0.get()).as_mut() } {
        if !(1..BASE as usize).contains(&(id as usize)) || r.watch.contains(&id) {
            r.life.push([7, id as i64, 0, 0]);
        }
    }
}

/// A thread read the address of a block.
fn on_read(t: usize, word: usize) {
    let a = word & !1;
    if a != 0 && alloc::is_live(a) {
        let rc = rec();
        let mut got = |a: usize| {
            if rc.got[t].insert(a) {
                rc.ever.insert(a);
                rc.life.push([11, t as i64 + 1, a as i64, 0]);
            }
        };
        got(a);
        // what belongs to a block that is not a node comes with it
        if alloc::node_of(a).is_none() {
            for w in alloc::words(a) {
                if alloc::is_live(w) {
                    got(w);
                }
            }
        }
    }
}

fn on_free(a: usize) {
    let rc = rec();
    if rc.ever.remove(&a) {
        let t = sched::tid();
        rc.life.push([12, if t < sched::MAXT { t as i64 + 1 } else { 0 }, a as i64, 0]);
    }
}

impl Rec {
    /// The thread has finished an operation that was not part of a session.
    fn through(&mut self, t: usize) {
        if !self.got[t].is_empty() {
            self.got[t].clear();
            self.life.push([13, t as i64 + 1, 0, 0]);
        }
    }
}

struct Rec {
    life: Vec<LifeEv>,
    /// blocks whose addresses each thread has read since it began its operation or session
    got: [BTreeSet<usize>; sched::MAXT],
    ever: BTreeSet<usize>,
    /// prefilled values whose life is followed
    watch: BTreeSet<u64>,
    kept: Vec<crate::api::Kept>,
    ev: Vec<Ev>,
    errs: Vec<String>,
    bulk_bad: usize,
    nodes: Vec<NodeEv>,
    seen: BTreeSet<usize>,
    root_addr: usize,
    project: Option<fn(usize) -> Node>,
}
struct Cellish(UnsafeCell<Option<Rec>>);
unsafe impl Sync for Cellish {}
static REC: Cellish = Cellish(UnsafeCell::new(None));
fn rec() -> &'static mut Rec {
    unsafe { (*REC.0.get()).as_mut().unwrap() }
}

fn unseen(rc: &mut Rec, n: &Node, out: &mut Vec<Node>) {
    let mut refs: Vec<usize> = vec![];
    match n {
        Node::Leaf { next, parent, ents, .. } => {
            refs.push(*next);
            refs.push(*parent);
            refs.extend(ents.iter().filter(|e| e.kind == 128 && !e.null).map(|e| e.val as usize));
        }
        Node::Inner { parent, kids, .. } => {
            refs.push(*parent);
            refs.extend(kids);
        }
    }
    for a in refs {
        if a != 0 && rc.seen.insert(a) {
            let m = rc.project.unwrap()(a);
            unseen(rc, &m, out);
            out.push(m);
        }
    }
}

fn on_lock(t: usize, addr: usize, old: u32, new: u32) {
    if (old ^ new) & snap::LOCK == 0 {
        return;
    }
    let rc = rec();
    let Some(p) = rc.project else { return };
    let n = p(addr);
    rc.seen.insert(addr);
    if new & snap::LOCK != 0 {
        rc.nodes.push(NodeEv::Lock(t, addr, n));
    } else {
        let mut extra = vec![];
        unseen(rc, &n, &mut extra);
        rc.nodes.push(NodeEv::Unlock(t, addr, n, extra, new ^ old));
    }
}

fn on_write(t: usize, addr: usize, _size: usize) {
    let rc = rec();
    if addr == rc.root_addr {
        let r = unsafe { std::ptr::read_volatile(addr as *const usize) };
        if rc.seen.insert(r) {
            let n = rc.project.unwrap()(r);
            let mut extra = vec![];
            unseen(rc, &n, &mut extra);
            extra.push(n);
            rc.nodes.push(NodeEv::Root(t, r, extra));
        } else {
            rc.nodes.push(NodeEv::Root(t, r, vec![]));
        }
    }
}

pub struct RunOut {
    pub out: Outcome,
    /// history as one JSON object (without ids of the run)
    pub hist: String,
    pub suspicious: bool,
    pub nodes: Option<String>,
    pub snap: Option<String>,
    pub life: Option<String>,
    /// a cheap look says that TLC should see this one
    pub life_odd: bool,
    pub order: Option<String>,
    /// loads that returned old values, and uses of what was not known to be made
    pub stale: u64,
    pub races: Vec<String>,
    pub errs: Vec<String>,
}

#[derive(Clone, Copy, Default)]
pub struct Want {
    pub nodes: bool,
    pub snap: bool,
    pub life: bool,
    pub batch: usize,
    /// executions weaker than sequentially consistent, with this seed (0: not)
    pub weak: u64,
    pub order: bool,
}

pub const BASE: u64 = 100_000;

pub fn run<S>(sc: &Scen, st: Strategy, limit: u64, want: Want) -> RunOut
where
    S: crate::api::Slot,
    Gen<S>: TreeOps<S = S> + 'static,
{
    val::reset(210_000);
    if want.life {
        alloc::start();
    }
    let tree: Arc<Gen<S>> = Arc::new(alloc::tracked(|| Gen::<S>::mk(want.batch)));
    let life_on = want.life;
    // key table: keys used by the programs first
    let mut idx: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut table: Vec<Vec<u8>> = vec![];
    let mut used: Vec<&crate::keys::Key> = vec![];
    for o in sc.threads.iter().flatten() {
        match o.kind {
            Kind::Bulk => {}
            Kind::Session => used.extend(o.inner.iter().map(|x| &x.2)),
            _ => used.push(&o.key),
        }
    }
    for k in used {
        if !idx.contains_key(k) {
            table.push(k.clone());
            idx.insert(k.clone(), table.len());
        }
    }
    let touched = table.len();
    let mut errs = vec![];
    let mut model: BTreeMap<usize, u64> = BTreeMap::new();
    let mut pre_bad = vec![];
    for (i, k) in sc.prefill.iter().enumerate() {
        if !idx.contains_key(k) {
            table.push(k.clone());
            idx.insert(k.clone(), table.len());
        }
        let id = 1 + i as u64;
        let r = tree.ins(crate::api::Via::Owned, k, id);
        let old = model.insert(idx[k], id);
        if r != Ok(old) {
            pre_bad.push(idx[k]);
            errs.push(format!("prefill {k:?}: {r:?}"));
        }
    }
    unsafe {
        *REC.0.get() = Some(Rec {
            life: vec![],
            got: Default::default(),
            ever: BTreeSet::new(),
            watch: (1..=touched).filter_map(|i| model.get(&i).copied()).collect(),
            kept: vec![],
            ev: vec![],
            errs: vec![],
            bulk_bad: 0,
            nodes: vec![],
            seen: BTreeSet::new(),
            root_addr: tree.verif_root_addr(),
            project: if want.nodes { Some(snap::node::<S>) } else { None },
        });
    }
    let mut names = Names::default();
    let mut init_nodes = vec![];
    let mut init_root = 0;
    if want.nodes {
        let s = snap::walk::<S>(tree.root() as usize);
        init_root = tree.root() as usize;
        for n in s.nodes {
            rec().seen.insert(n.addr());
            init_nodes.push(n);
        }
        sched::set_lock_cb(Some(on_lock));
        sched::set_write_cb(Some(on_write));
    }
    let mut tasks: Vec<(usize, Box<dyn FnOnce() + Send>)> = vec![];
    let mut vid = BASE;
    let mut bulk_ids: BTreeSet<u64> = BTreeSet::new();
    for (t, ops) in sc.threads.iter().enumerate() {
        let tr = Arc::clone(&tree);
        let ops: Vec<_> = ops
            .iter()
            .map(|o| {
                vid += 1;
                let at = vid;
                if o.kind == Kind::Bulk {
                    for k in &o.bulk {
                        if !idx.contains_key(k) {
                            table.push(k.clone());
                            idx.insert(k.clone(), table.len());
                        }
                        model.insert(idx[k], vid);
                        bulk_ids.insert(vid);
                        vid += 1;
                    }
                    return (o.clone(), 0, at, vec![]);
                }
                if o.kind == Kind::Session {
                    let inner: Vec<(usize, u64)> = o.inner.iter().map(|x| { vid += 1; (idx[&x.2], vid) }).collect();
                    return (o.clone(), 0, at, inner);
                }
                (o.clone(), idx[&o.key], vid, vec![])
            })
            .collect();
        let nodes = want.nodes;
        tasks.push((
            t,
            Box::new(move || {
                for (o, ki, id, inner) in &ops {
                    if o.kind == Kind::Session {
                        session(&*tr, t, o, inner);
                        continue;
                    }
                    if o.kind == Kind::Bulk {
                        for (i, k) in o.bulk.iter().enumerate() {
                            weak::call(t);
                            let r = tr.ins(o.via, k, id + i as u64);
                            if r != Ok(None) {
                                rec().errs.push(format!("bulk {k:?}: {r:?}"));
                                rec().bulk_bad += 1;
                            }
                            rec().through(t);
                        }
                        continue;
                    }
                    weak::call(t);
                    let is = o.kind == Kind::Ins;
                    let code = match o.kind {
                        Kind::Get => 0,
                        Kind::Ins => 1,
                        Kind::Len => 2,
                        Kind::Empty => 3,
                        _ => 4,
                    };
                    let rc = rec();
                    rc.ev.push(Ev::Call(t, code, *ki, if is { *id } else { 0 }));
                    if nodes {
                        rc.nodes.push(NodeEv::Call(t, rc.ev.len() - 1));
                    }
                    if is || (o.kind == Kind::Long && id % 2 == 0) {
                        rc.life.push([0, t as i64 + 1, if is { *ki as i64 } else { 0 }, *id as i64]);
                    }
                    let r = match o.kind {
                        Kind::Ins => tr.ins(o.via, &o.key, *id),
                        Kind::Len => Ok(Some(tr.length() as u64)),
                        Kind::Empty => Ok(Some(u64::from(tr.empty()))),
                        Kind::Long => {
                            let mut k = o.key.clone();
                            k.resize(257 + (*id as usize * 7) % 60, b'L');
                            if id % 2 == 0 { tr.ins(o.via, &k, *id) } else { tr.get_via(o.via, &k) }
                        }
                        _ => tr.get_via(o.via, &o.key),
                    };
                    let rc = rec();
                    let v = match &r {
                        Err(e) if o.kind == Kind::Long && e.starts_with("panic") => -1,
                        _ if o.kind == Kind::Long => -2,
                        Ok(None) => 0,
                        Ok(Some(v)) => *v as i64,
                        Err(e) => {
                            rc.errs.push(e.clone());
                            -1
                        }
                    };
                    if is || (o.kind == Kind::Long && id % 2 == 0) {
                        rc.life.push([1, t as i64 + 1, v, 0]);
                    }
                    rc.through(t);
                    rc.ev.push(Ev::Ret(t, v));
                    if nodes {
                        rc.nodes.push(NodeEv::Ret(t, rc.ev.len() - 1));
                    }
                }
                drop(tr);
            }),
        ));
    }
    if life_on && S::COUNTED {
        val::set_on_drop(Some(on_drop));
    }
    if life_on {
        sched::set_read_cb(Some(on_read));
        alloc::set_on_free(Some(on_free));
    }
    if want.weak > 0 {
        weak::start(want.weak, want.order);
    }
    let out = sched::run(tasks, st, limit);
    let weak = (want.weak > 0).then(weak::stop);
    alloc::set_on_free(None);
    sched::set_read_cb(None);
    val::set_on_drop(None);
    sched::set_lock_cb(None);
    sched::set_write_cb(None);
    let mut rc = unsafe { (*REC.0.get()).take().unwrap() };
    errs.extend(rc.errs.iter().cloned());
    // what is there afterwards
    let mut seen_final = vec![0i64; table.len() + 1];
    for (i, k) in table.iter().enumerate() {
        seen_final[i + 1] = match tree.get_via(crate::api::Via::Owned, k) {
            Ok(None) => 0,
            Ok(Some(v)) => v as i64,
            Err(e) => {
                errs.push(e);
                -1
            }
        };
    }
    let mut others = vec![];
    for i in touched + 1..=table.len() {
        let exp = model.get(&i).copied().unwrap_or(0) as i64;
        if seen_final[i] != exp || pre_bad.contains(&i) {
            others.push(i);
        }
    }
    let bad_pre_touched: Vec<usize> = pre_bad.iter().copied().filter(|&i| i <= touched).collect();
    let len = tree.length();
    let init: Vec<u64> = (1..=touched).map(|i| model.get(&i).copied().unwrap_or(0)).collect();
    let evs: Vec<String> = rc
        .ev
        .iter()
        .map(|e| match e {
            Ev::Call(t, k, key, v) => format!("[0,{},{},{},{}]", t + 1, k, key, v),
            Ev::Ret(t, v) => format!("[1,{},0,0,{}]", t + 1, v),
        })
        .collect();
    let fin: Vec<String> = (1..=touched).map(|i| seen_final[i].to_string()).collect();
    let untouched = table.len() - touched;
    let hist = format!(
        "{{\"kind\":\"hist\",\"nt\":{},\"nk\":{},\"init\":{:?},\"ev\":[{}],\"fin\":[{}],\"others\":{},\"untouched\":{},\"len\":{},\"empty\":{},\"uaf\":{}}}",
        sc.threads.len(),
        touched,
        init,
        evs.join(","),
        fin.join(","),
        others.len() + bad_pre_touched.len() + rc.bulk_bad,
        untouched,
        len,
        u8::from(tree.empty()),
        u8::from(out.uaf.is_some()),
    );
    let inserts = |i: usize| {
        sc.threads.iter().flatten().any(|o| {
            (o.kind == Kind::Ins && idx[&o.key] == i) || (o.kind == Kind::Session && o.inner.iter().any(|x| x.0 && idx[&x.2] == i))
        })
    };
    let distinct = untouched + (1..=touched).filter(|&i| init[i - 1] != 0 || inserts(i)).count();
    let suspicious = !errs.is_empty()
        || !others.is_empty()
        || out.uaf.is_some()
        || len != distinct
        || tree.empty() != (distinct == 0)
        || !linearizable(&init, &rc.ev, &seen_final);
    let nodes = if want.nodes {
        let fin = snap::walk::<S>(tree.root() as usize);
        Some(nodes_json(&mut names, init_root, &init_nodes, &rc, (tree.root() as usize, &fin.nodes), &table, sc.threads.len(), &init))
    } else {
        None
    };
    let snapj = if want.snap {
        let mut ex: Vec<(Vec<u8>, u64)> = (1..=table.len())
            .filter(|&i| seen_final[i] > 0)
            .map(|i| (table[i - 1].clone(), seen_final[i] as u64))
            .collect();
        // keys that were inserted but are not found count as expected too
        for i in 1..=table.len() {
            let ins = i > touched
                || init[i - 1] != 0
                || inserts(i);
            if ins && seen_final[i] <= 0 {
                ex.push((table[i - 1].clone(), 0));
            }
        }
        ex.sort();
        Some(snap::snapshot_json::<S>(&tree, &ex, len))
    } else {
        None
    };
    let mut life = None;
    let mut life_odd = false;
    if want.life {
        let arc = Arc::try_unwrap(tree).unwrap_or_else(|_| panic!("tree still shared"));
        // values whose life is not followed event by event: bulk and untouched prefill
        let rest: Vec<u64> = (1..=sc.prefill.len() as u64).filter(|i| !rc.watch.contains(i)).chain(bulk_ids.iter().copied()).collect();
        let early = rest.iter().filter(|i| val::drops(**i) != 0).count();
        let mut ev = std::mem::take(&mut rc.life);
        let kept = std::mem::take(&mut rc.kept);
        let look = |ev: &mut Vec<LifeEv>| {
            for k in &kept {
                ev.push([6, k.id as i64, (k.look)() as i64, 0]);
            }
        };
        look(&mut ev);
        ev.push([8, 0, 0, 0]);
        rc.life = ev;
        unsafe { *REC.0.get() = Some(rc) };
        val::set_on_drop(if S::COUNTED { Some(on_drop) } else { None });
        alloc::tracked(|| drop(arc));
        val::set_on_drop(None);
        rc = unsafe { (*REC.0.get()).take().unwrap() };
        rc.life.push([9, 0, 0, 0]);
        look(&mut rc.life);
        // what was kept goes last
        let mut life_ev = std::mem::take(&mut rc.life);
        for k in kept {
            life_ev.push([10, k.id as i64, 0, 0]);
            rc.life = vec![];
            unsafe { *REC.0.get() = Some(rc) };
            val::set_on_drop(if S::COUNTED { Some(on_drop) } else { None });
            drop(k);
            val::set_on_drop(None);
            rc = unsafe { (*REC.0.get()).take().unwrap() };
            life_ev.append(&mut rc.life);
        }
        life_ev.retain(|e| e[0] != 7 || !bulk_ids.contains(&(e[1] as u64)));
        let blocks = only_freed(&mut life_ev);
        let wrong = if S::COUNTED { rest.iter().filter(|i| val::drops(**i) != 1).count() } else { 0 };
        let ids: BTreeSet<i64> = rc.watch.iter().map(|x| *x as i64).chain(life_ev.iter().filter(|e| e[0] == 0).map(|e| e[3])).collect();
        let rep = alloc::finish(S::BLOCK);
        let evs: Vec<String> = life_ev.iter().map(|e| format!("[{},{},{},{}]", e[0], e[1], e[2], e[3])).collect();
        life_odd = early + wrong + rep.leaked_blocks + rep.double + rep.dirty_after_release > 0
            || out.uaf.is_some()
            || (S::COUNTED && ids.iter().any(|i| val::drops(*i as u64) != 1))
            || odd_life(&life_ev);
        life = Some(format!(
            "{{\"kind\":\"life\",\"counted\":{},\"nt\":{},\"init\":{:?},\"ids\":{:?},\"blocks\":{},\"ev\":[{}],\"rest\":{},\"early\":{},\"wrong\":{},\"allocs\":{},\"frees\":{},\"leaked\":{},\"leakedvals\":{},\"double\":{},\"doublevals\":{},\"dirty\":{},\"uaf\":{},\"sizes\":{:?}}}",
            u8::from(S::COUNTED),
            sc.threads.len(),
            init,
            ids.iter().collect::<Vec<_>>(),
            blocks,
            evs.join(","),
            rest.len(),
            early,
            wrong,
            rep.allocs,
            rep.frees,
            rep.leaked_blocks,
            rep.leaked_vals,
            rep.double,
            rep.double_vals,
            rep.dirty_after_release,
            u8::from(out.uaf.is_some()),
            rep.leaked_sizes
        ));
    }
    let order = weak.as_ref().filter(|_| want.order).map(|w| weak::json(w, sc.threads.len()));
    let (stale, races) = weak.map_or((0, vec![]), |w| (w.stale, w.races));
    RunOut { order, stale, races, out, hist, suspicious, nodes, snap: snapj, life, life_odd, errs }
}

/// Keep only the blocks that were given back, and give them small names.
fn only_freed(ev: &mut Vec<LifeEv>) -> usize {
    let mut name: BTreeMap<i64, i64> = BTreeMap::new();
    for e in ev.iter().filter(|e| e[0] == 12) {
        let n = name.len() as i64 + 1;
        name.entry(e[2]).or_insert(n);
    }
    ev.retain_mut(|e| match e[0] {
        11 | 12 => name.get(&e[2]).map(|n| e[2] = *n).is_some(),
        _ => true,
    });
    let mut has = [false; sched::MAXT + 1];
    ev.retain(|e| match e[0] {
        11 => {
            has[e[1] as usize] = true;
            true
        }
        3 => {
            has[e[1] as usize] = false;
            true
        }
        13 => std::mem::take(&mut has[e[1] as usize]),
        _ => true,
    });
    name.len()
}

/// References that see something else, values released under a reference, blocks given back
/// while somebody else has their address.
fn odd_life(ev: &[LifeEv]) -> bool {
    let mut refs: Vec<(i64, i64)> = vec![];
    let mut got: BTreeSet<(i64, i64)> = BTreeSet::new();
    let mut own: BTreeMap<i64, i64> = BTreeMap::new();
    for e in ev {
        match e[0] {
            3 | 13 => {
                refs.retain(|r| e[0] == 13 || r.0 != e[1]);
                got.retain(|r| r.0 != e[1]);
            }
            11 => {
                got.insert((e[1], e[2]));
            }
            12 if got.iter().any(|r| r.0 != e[1] && r.1 == e[2]) => return true,
            4 => refs.push((e[1], e[2])),
            5 => *own.entry(e[1]).or_default() += 1,
            10 => *own.entry(e[1]).or_default() -= 1,
            6 if e[1] != e[2] => return true,
            7 if refs.iter().any(|r| r.1 == e[1]) || own.get(&e[1]).is_some_and(|n| *n > 0) => return true,
            _ => {}
        }
    }
    false
}

/// Run one session and record it, both as operations and as the life of values.
fn session<T: TreeOps>(tr: &T, t: usize, o: &crate::scen::Op, inner: &[(usize, u64)]) {
    use crate::api::Told;
    let ops: Vec<(bool, crate::api::Via, Vec<u8>, u64)> =
        o.inner.iter().zip(inner).map(|((ins, via, k), (_, id))| (*ins, *via, k.clone(), *id)).collect();
    let me = t as i64 + 1;
    let kept = tr.session(&ops, &mut |e| {
        let rc = rec();
        match e {
            Told::Enter => {
                weak::call(t);
                rc.life.push([2, me, 0, 0]);
            }
            Told::Leave => {
                rc.got[t].clear();
                rc.life.push([3, me, 0, 0]);
            }
            Told::Ref(id) => rc.life.push([4, me, id as i64, 0]),
            Told::Keep(id) => rc.life.push([5, id as i64, 0, 0]),
            Told::Look(a, b) => rc.life.push([6, a as i64, b as i64, 0]),
            Told::Call(i) => {
                weak::call(t);
                let (ki, id) = inner[i];
                let ins = ops[i].0;
                rc.ev.push(Ev::Call(t, u8::from(ins), ki, if ins { id } else { 0 }));
                if rc.project.is_some() {
                    rc.nodes.push(NodeEv::Call(t, rc.ev.len() - 1));
                }
                if ins {
                    rc.life.push([0, me, ki as i64, id as i64]);
                }
            }
            Told::Ret(i, r) => {
                let v = match r {
                    Ok(None) => 0,
                    Ok(Some(v)) => v as i64,
                    Err(e) => {
                        rc.errs.push(e);
                        -1
                    }
                };
                rc.ev.push(Ev::Ret(t, v));
                if rc.project.is_some() {
                    rc.nodes.push(NodeEv::Ret(t, rc.ev.len() - 1));
                }
                if ops[i].0 {
                    rc.life.push([1, me, v, 0]);
                }
            }
            Told::Failed(e) => rc.errs.push(e),
        }
    });
    rec().kept.extend(kept);
}

#[allow(clippy::too_many_arguments)]
fn nodes_json(nm: &mut Names, root: usize, init: &[Node], rc: &Rec, fin: (usize, &[Node]), table: &[Vec<u8>], nt: usize, vals: &[u64]) -> String {
    for n in init {
        nm.id(n.addr());
        nm.note(n);
    }
    for k in &table[..vals.len()] {
        nm.note_key(k);
    }
    for e in &rc.nodes {
        match e {
            NodeEv::Lock(_, _, n) => nm.note(n),
            NodeEv::Unlock(_, _, n, x, _) => {
                nm.note(n);
                x.iter().for_each(|m| nm.note(m));
            }
            NodeEv::Root(_, _, x) => x.iter().for_each(|m| nm.note(m)),
            _ => {}
        }
    }
    fin.1.iter().for_each(|n| nm.note(n));
    nm.freeze();
    let keys: Vec<String> = table[..vals.len()].iter().map(|k| nm.chunks_json(k)).collect();
    let list = |nm: &mut Names, x: &[Node]| x.iter().map(|m| nm.node_json(m)).collect::<Vec<_>>().join(",");
    let init_j = list(nm, init);
    let mut evs = vec![];
    // what the calls are: only lookups and inserts count
    let mut open: BTreeMap<usize, bool> = BTreeMap::new();
    for e in &rc.nodes {
        match e {
            NodeEv::Call(t, i) => {
                let Ev::Call(_, k, key, v) = &rc.ev[*i] else { unreachable!() };
                open.insert(*t, *k <= 1);
                if *k <= 1 {
                    evs.push(format!("{{\"e\":\"call\",\"t\":{},\"op\":{k},\"key\":{key},\"val\":{v}}}", t + 1));
                }
            }
            NodeEv::Ret(t, i) => {
                let Ev::Ret(_, v) = &rc.ev[*i] else { unreachable!() };
                if open.remove(t) == Some(true) {
                    evs.push(format!("{{\"e\":\"ret\",\"t\":{},\"res\":{v}}}", t + 1));
                }
            }
            NodeEv::Lock(t, _, n) => evs.push(format!("{{\"e\":\"lock\",\"t\":{},\"node\":{}}}", t + 1, nm.node_json(n))),
            NodeEv::Unlock(t, _, n, x, _) => {
                let nj = nm.node_json(n);
                evs.push(format!("{{\"e\":\"unlock\",\"t\":{},\"node\":{nj},\"new\":[{}]}}", t + 1, list(nm, x)));
            }
            NodeEv::Root(t, r, x) => {
                let top = nm.id(*r);
                evs.push(format!("{{\"e\":\"root\",\"t\":{},\"top\":{top},\"new\":[{}]}}", t + 1, list(nm, x)));
            }
        }
    }
    let root = nm.id(root);
    let fin_root = nm.id(fin.0);
    let fin_j = list(nm, fin.1);
    format!(
        "{{\"kind\":\"nodes\",\"nt\":{nt},\"keys\":[{}],\"vals\":{vals:?},\"root\":{root},\"slices\":{},\"sufs\":{},\"init\":[{init_j}],\"ev\":[{}],\"finroot\":{fin_root},\"fin\":[{fin_j}]}}",
        keys.join(","),
        nm.slices_json(),
        nm.sufs_json(),
        evs.join(",")
    )
}

/// Cheap pre-check, used only to decide which histories TLC sees first.
pub fn linearizable(init: &[u64], ev: &[Ev], fin: &[i64]) -> bool {
    struct O {
        call: usize,
        ret: usize,
        ins: bool,
        key: usize,
        v: u64,
        res: i64,
    }
    let mut ops: Vec<O> = vec![];
    let mut open: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, e) in ev.iter().enumerate() {
        match e {
            Ev::Call(t, k, key, v) => {
                if *k > 1 {
                    continue;
                }
                open.insert(*t, ops.len());
                ops.push(O { call: i, ret: usize::MAX, ins: *k == 1, key: *key, v: *v, res: 0 });
            }
            Ev::Ret(t, v) => {
                if let Some(j) = open.remove(t) {
                    ops[j].ret = i;
                    ops[j].res = *v;
                }
            }
        }
    }
    fn go(done: u32, st: &mut Vec<i64>, ops: &[O], fin: &[i64], memo: &mut BTreeSet<(u32, Vec<i64>)>) -> bool {
        if done.count_ones() as usize == ops.len() {
            return (0..st.len()).all(|i| st[i] == fin[i + 1]);
        }
        if !memo.insert((done, st.clone())) {
            return false;
        }
        for i in 0..ops.len() {
            if done & (1 << i) != 0 {
                continue;
            }
            let o = &ops[i];
            if (0..ops.len()).any(|j| done & (1 << j) == 0 && ops[j].ret < o.call) {
                continue;
            }
            let old = st[o.key - 1];
            if o.res != old {
                continue;
            }
            if o.ins {
                st[o.key - 1] = o.v as i64;
            }
            let r = go(done | 1 << i, st, ops, fin, memo);
            st[o.key - 1] = old;
            if r {
                return true;
            }
        }
        false
    }
    if ops.len() > 30 {
        return true;
    }
    let mut st: Vec<i64> = init.iter().map(|v| *v as i64).collect();
    go(0, &mut st, &ops, fin, &mut BTreeSet::new())
}
