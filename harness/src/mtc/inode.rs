//! C03: interior nodes: search, insertion, split.

use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use masstree::internode::InternodeNode;
use masstree::ksearch;
use masstree::leaf24::LeafNode24;
use masstree::leaf_trait::TreeInternode;
use masstree::permuter::Permuter;
use masstree::value::LeafValue;
use std::collections::HashMap;

type S = LeafValue<u64>;

/// Ascending slices around the places where orders differ.
pub fn slices(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let base = r.next();
    while v.len() < n {
        let x = match r.below(6) {
            0 => r.next(),
            1 => base.wrapping_add(r.below(2 * n) as u64),
            2 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, 0x00ff_ffff_ffff_ffff]),
            3 => (r.below(256) as u64) << 56,
            4 => r.below(300) as u64,
            _ => base.swap_bytes().wrapping_add((r.below(2 * n) as u64) << 32),
        };
        v.push(x);
        v.sort_unstable();
        v.dedup();
    }
    v
}
pub fn slice_table(v: &[u64]) -> String {
    list(v.iter().map(|x| list(x.to_be_bytes())))
}

enum Kid<const W: usize> {
    Inner(Box<InternodeNode<S, W>>),
    Leaf(Box<LeafNode24<S>>),
}
impl<const W: usize> Kid<W> {
    fn ptr(&self) -> *mut u8 {
        match self {
            Kid::Inner(b) => (&raw const **b).cast_mut().cast(),
            Kid::Leaf(b) => (&raw const **b).cast_mut().cast(),
        }
    }
    fn parent(&self) -> *mut u8 {
        match self {
            Kid::Inner(b) => b.parent(),
            Kid::Leaf(b) => b.parent(),
        }
    }
    fn set_parent(&self, p: *mut u8) {
        match self {
            Kid::Inner(b) => b.set_parent(p),
            Kid::Leaf(b) => b.set_parent(p),
        }
    }
}

struct World<const W: usize> {
    kids: Vec<Kid<W>>,
    names: HashMap<usize, usize>,
    sl: Vec<u64>,
}
impl<const W: usize> World<W> {
    fn kid(&mut self, h: u32) -> usize {
        let k = if h == 0 { Kid::Leaf(LeafNode24::new()) } else { Kid::Inner(InternodeNode::new(h - 1)) };
        self.kids.push(k);
        let id = self.kids.len();
        self.names.insert(self.kids[id - 1].ptr() as usize, id);
        id
    }
    fn rank(&self, k: u64) -> usize {
        self.sl.binary_search(&k).map_or(999, |i| i + 1)
    }
    fn name(&self, p: *mut u8) -> usize {
        if p.is_null() { 0 } else { self.names.get(&(p as usize)).copied().unwrap_or(998) }
    }
    /// keys, children, parents of the children, height, number of keys three ways
    fn state(&self, n: &InternodeNode<S, W>) -> String {
        let c = caught(|| {
            let nk = n.nkeys();
            let keys: Vec<usize> = (0..nk.min(W)).map(|i| self.rank(if i % 2 == 0 { n.ikey(i) } else { TreeInternode::<S>::ikey(n, i) })).collect();
            let kids: Vec<usize> = (0..=nk.min(W)).map(|i| self.name(if i % 2 == 0 { n.child(i) } else { TreeInternode::<S>::child(n, i) })).collect();
            let par: Vec<usize> = kids.iter().map(|&k| if (1..=self.kids.len()).contains(&k) { self.name(self.kids[k - 1].parent()) } else { 997 }).collect();
            let sizes = [nk, n.size(), TreeInternode::<S>::nkeys(n)];
            format!(
                "[{},{},{},{},{},{},{}]",
                list(keys),
                list(kids),
                list(par),
                n.height(),
                list(sizes),
                u8::from(n.is_full()),
                u8::from(n.is_empty())
            )
        });
        c.unwrap_or_else(|| "[[],[],[],-1,[-1],-1,-1]".into())
    }
}

fn probe<const W: usize>(w: &World<W>, n: &InternodeNode<S, W>, ik: u64) -> String {
    let v = caught(|| {
        let nk = n.nkeys();
        let cmp: Vec<i8> = (0..nk).map(|i| n.compare_key(ik, i) as i8).collect();
        let ins = n.find_insert_position(ik);
        let ins2 = TreeInternode::<S>::find_insert_position(n, ik);
        format!(
            "[3,{},{},{},{},{}]",
            w.rank(ik),
            list([
                ksearch::upper_bound_internode(ik, n),
                ksearch::upper_bound_internode_direct(ik, n),
                ksearch::upper_bound_internode_generic::<S, _>(ik, n)
            ]),
            ins,
            ins2,
            list(cmp)
        )
    });
    v.unwrap_or_else(|| format!("[3,{},[],-1,-1,[]]", w.rank(ik)))
}

fn one<const W: usize>(r: &mut Rng, h: u32) -> (Vec<String>, Vec<u64>) {
    // names 1.. are children; 900 is the node, 901 its right sibling
    let mut w = World::<W> { kids: vec![], names: HashMap::new(), sl: slices(r, W + 4 + r.clone().below(12)) };
    let n = if r.chance(1, 2) { InternodeNode::<S, W>::new(h) } else { InternodeNode::<S, W>::new_root(h) };
    let np = (&raw const *n).cast_mut().cast::<u8>();
    w.names.insert(np as usize, 900);
    let mut ev = vec![];
    let c0 = w.kid(h);
    n.set_child(0, w.kids[c0 - 1].ptr());
    w.kids[c0 - 1].set_parent(np);
    ev.push(format!("[0,{c0},{h},{}]", w.state(&n)));
    let mut order: Vec<u64> = w.sl.clone();
    match r.below(4) {
        0 => {}
        1 => order.reverse(),
        _ => r.shuffle(&mut order),
    }
    let split = r.chance(3, 4);
    let fill = if split { W } else { r.below(W + 1) };
    let mut used = 0;
    for i in 0..order.len() {
        let ik = order[i];
        for _ in 0..r.below(3) {
            let q = *r.pick(&w.sl);
            ev.push(probe(&w, &n, q));
        }
        let full = n.nkeys() >= W;
        if full && !split || used >= fill && !full {
            break;
        }
        let pos = n.find_insert_position(ik);
        let c = w.kid(h);
        let cp = w.kids[c - 1].ptr();
        w.kids[c - 1].set_parent(np);
        if !full {
            // appending may be done in two steps
            let append = pos == n.nkeys() && r.chance(1, 3);
            let ok = caught(|| {
                if append {
                    n.assign(pos, ik, cp);
                    if r.chance(1, 2) {
                        n.inc_nkeys();
                    } else {
                        n.set_nkeys(pos as u8 + 1);
                    }
                } else {
                    n.insert_key_and_child(pos, ik, cp);
                }
            });
            ev.push(format!("[2,{},{c},{},{}]", w.rank(ik), if ok.is_some() { pos as i64 } else { -1 }, w.state(&n)));
            used += 1;
            continue;
        }
        let mut right = match r.below(3) {
            0 => InternodeNode::<S, W>::new(if r.chance(1, 2) { h } else { 0 }),
            _ => {
                let g = n.version().lock();
                let x = InternodeNode::<S, W>::new_for_split(n.version(), h);
                drop(g);
                x
            }
        };
        let rp: *mut InternodeNode<S, W> = &raw mut *right;
        w.names.insert(rp as usize, 901);
        let g = n.version().lock();
        let res = caught(|| n.split_into(&mut right, rp, pos, ik, cp));
        let (pop, left) = res.map_or((0, 7), |(p, l)| (w.rank(p), u8::from(l)));
        drop(g);
        ev.push(format!("[4,{},{c},{},{pop},{left},{},{}]", w.rank(ik), if res.is_some() { pos as i64 } else { -1 }, w.state(&n), w.state(&right)));
        for i in 0..w.sl.len() {
            let q = w.sl[i];
            if r.chance(1, 2) {
                let p = probe(&w, &n, q);
                ev.push(p);
            } else {
                let p = probe(&w, &right, q).replacen("[3,", "[5,", 1);
                ev.push(p);
            }
        }
        std::mem::forget(right);
        break;
    }
    (ev, w.sl)
}

/// The searches over a permuted array of keys.
fn search(r: &mut Rng) -> (Vec<String>, Vec<u64>) {
    fn go<const W: usize>(r: &mut Rng, ev: &mut Vec<String>, sl: &[u64]) {
        let mut p = Permuter::<W>::empty();
        let mut key = vec![0u64; W];
        let n = r.below(W + 1);
        let mut mine: Vec<u64> = sl.to_vec();
        r.shuffle(&mut mine);
        mine.truncate(n);
        for &k in &mine {
            let at = (0..p.size()).take_while(|&i| key[p.get(i)] < k).count();
            let s = p.insert_from_back(at);
            key[s] = k;
        }
        let rank = |k: u64| sl.binary_search(&k).unwrap() + 1;
        for &q in sl {
            let v = caught(|| {
                let c = |s: usize| q.cmp(&key[s]);
                let a = ksearch::lower_bound_by(p.size(), p, c);
                let b = ksearch::lower_bound_linear_by(p.size(), p, c);
                let u = [ksearch::upper_bound_by(p.size(), p, c), ksearch::upper_bound_linear_by(p.size(), p, c)];
                let f = |k: ksearch::KeyIndexPosition| format!("[{},{}]", k.i, k.try_slot().map_or(-1, |x| x as i64));
                format!("[{},{}],{}", f(a), f(b), list(u))
            });
            ev.push(format!(
                "[6,{},{},{},{}]",
                rank(q),
                list((0..p.size()).map(|i| rank(key[p.get(i)]))),
                list((0..p.size()).map(|i| p.get(i))),
                v.unwrap_or_else(|| "[],[]".into())
            ));
        }
    }
    let n = 17 + r.below(6);
    let sl = slices(r, n);
    let mut ev = vec![];
    match r.below(4) {
        0 => go::<1>(r, &mut ev, &sl),
        1 => go::<4>(r, &mut ev, &sl),
        2 => go::<7>(r, &mut ev, &sl),
        _ => go::<15>(r, &mut ev, &sl),
    }
    (ev, sl)
}

pub fn trace(a: &Args, r: &mut Rng) -> Trace {
    let h = r.below(3) as u32;
    let (w, (ev, sl)) = match a.s("what", "nodes").as_str() {
        "search" => (15, search(r)),
        _ => match r.below(10) {
            0 => (2, one::<2>(r, h)),
            1 => (3, one::<3>(r, h)),
            2 => (4, one::<4>(r, h)),
            3 => (5, one::<5>(r, h)),
            4 => (7, one::<7>(r, h)),
            5 => (14, one::<14>(r, h)),
            _ => (15, one::<15>(r, h)),
        },
    };
    let n = ev.len();
    (format!("\"w\":{w},\"slices\":{},\"ev\":[{}]", slice_table(&sl), ev.join(",")), n)
}
