//! C06: splitting one leaf.

use crate::inode::{slice_table, slices};
use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use crate::sfx::{Strings, suffix};
use masstree::leaf_trait::TreeLeafNode;
use masstree::leaf24::LeafNode24;
use masstree::permuter24::Permuter24;
use masstree::slot::ValueSlot;
use masstree::value::{InsertTarget, LeafValueIndex};
use std::collections::HashMap;

type S = LeafValueIndex<u64>;
type Leaf = LeafNode24<S>;

struct World {
    sl: Vec<u64>,
    t: Strings,
    vals: HashMap<usize, usize>,
    leaves: HashMap<usize, usize>,
}
impl World {
    fn rank(&self, k: u64) -> usize {
        self.sl.binary_search(&k).map_or(999, |i| i + 1)
    }
    fn leaf_name(&self, p: *mut Leaf) -> i64 {
        if p.is_null() {
            return 0;
        }
        // a marked pointer is not a leaf
        self.leaves.get(&(p as usize)).map_or(-1, |x| *x as i64)
    }
    /// entries in order, all values held by any slot, first slot's slice, next, prev, frozen, locked
    fn state(&mut self, l: &Leaf) -> String {
        let frozen = TreeLeafNode::is_permutation_frozen(l);
        let p = Permuter24::from_value(l.permutation_raw());
        let n = if frozen { 0 } else { p.size() };
        let ents: Vec<String> = (0..n)
            .map(|i| {
                let s = p.get(i);
                let kx = l.keylenx(s);
                let sf = l.ksuf(s).map(<[u8]>::to_vec).map_or(0, |x| self.t.id(&x));
                format!("[{},{kx},{sf},{}]", self.rank(l.ikey(s)), self.vals.get(&(l.leaf_value_ptr(s) as usize)).copied().unwrap_or(0))
            })
            .collect();
        let held: Vec<usize> = (0..24).map(|s| l.leaf_value_ptr(s) as usize).filter(|&x| x != 0).map(|x| self.vals.get(&x).copied().unwrap_or(999)).collect();
        let mut slots: Vec<usize> = (0..24).map(|i| p.get(i)).collect();
        slots.sort_unstable();
        slots.dedup();
        format!(
            "[{},{},{},{},{},{},{},{}]",
            list(ents),
            list(held),
            self.rank(l.ikey_bound()),
            self.leaf_name(l.next_raw()),
            self.leaf_name(l.prev()),
            u8::from(frozen || slots.len() != 24),
            u8::from(l.version().is_locked()),
            u8::from(l.version().is_leaf())
        )
    }
}

pub fn trace(a: &Args, r: &mut Rng) -> Trace {
    let _ = a;
    let col = seize::Collector::new();
    let g = col.enter();
    let n_sl = 4 + r.below(30);
    let sl = slices(r, n_sl);
    let mut w = World { sl, t: Strings::default(), vals: HashMap::new(), leaves: HashMap::new() };
    let full = r.chance(3, 5);
    let size = if full { 22 + r.below(3) } else { 1 + r.below(24) };
    // groups of one slice
    let style = r.below(4);
    let mut ents: Vec<(u64, u8)> = vec![];
    let mut at = 0;
    while ents.len() < size {
        if at >= w.sl.len() {
            break;
        }
        let ik = w.sl[at];
        at += 1 + usize::from(r.chance(1, 3));
        let mut kinds: Vec<u8> = (0..=8).collect();
        kinds.push(if r.chance(1, 2) { 64 } else { 128 });
        r.shuffle(&mut kinds);
        let k = match style {
            0 => 1,
            1 => 1 + r.below(3),
            2 => 1 + r.below(10),
            _ => 10 - r.below(3),
        };
        kinds.truncate(k.min(size - ents.len()));
        ents.extend(kinds.into_iter().map(|k| (ik, k)));
    }
    let size = ents.len();
    let mut slot: Vec<usize> = (0..24).collect();
    r.shuffle(&mut slot);
    let left: Box<Leaf> = if r.chance(1, 2) { Leaf::new() } else { Leaf::new_root() };
    // what lies in the free slots must not matter
    for &s in &slot[size..] {
        left.set_ikey(s, *r.pick(&w.sl));
        if r.chance(1, 3) {
            unsafe { left.assign_ksuf(s, b"left over", &g) };
        } else {
            left.set_keylenx(s, *r.pick(&[0, 5, 8]));
        }
    }
    let mut v = 0;
    let mut perm = Permuter24::from_value(0);
    let mut fakes = vec![];
    for (i, &s) in slot.iter().enumerate() {
        perm.set(i, s);
        if i < size {
            let (ik, k) = ents[i];
            left.set_ikey(s, ik);
            v += 1;
            let ptr = if k == 128 {
                // a layer: never looked into by a split
                let b: Box<u64> = Box::new(0);
                let p = Box::into_raw(b).cast::<u8>();
                fakes.push(p);
                p
            } else {
                S::output_to_raw(&v)
            };
            w.vals.insert(ptr as usize, v as usize);
            left.set_leaf_value_ptr(s, ptr);
            if k == 64 {
                let mut x = suffix(r);
                if x.is_empty() {
                    x.push(1);
                }
                unsafe { left.assign_ksuf(s, &x, &g) };
            } else {
                left.set_keylenx(s, k);
            }
        }
    }
    perm.set_size(size);
    left.set_permutation(perm);
    // neighbours
    let before: Box<Leaf> = Leaf::new();
    let after: Box<Leaf> = Leaf::new();
    let p = |b: &Leaf| (&raw const *b).cast_mut();
    w.leaves.insert(p(&left) as usize, 1);
    w.leaves.insert(p(&before) as usize, 3);
    w.leaves.insert(p(&after) as usize, 4);
    if r.chance(2, 3) {
        left.set_prev(p(&before));
        before.set_next(p(&left));
    }
    if r.chance(2, 3) {
        left.set_next(p(&after));
        after.set_prev(p(&left));
    }
    let mut ev = vec![format!("[0,{}]", w.state(&left))];
    // where would it split, for many a new key
    let mut any = None;
    for _ in 0..6 {
        let ik = if r.chance(1, 2) { ents[r.below(size)].0 } else { *r.pick(&w.sl) };
        let pos = ents.iter().filter(|e| e.0 <= ik).count();
        let x = caught(|| left.calculate_split_point(pos, ik));
        let (k, at, sk) = match &x {
            None => (9, 0, 0),
            Some(None) => (0, 0, 0),
            Some(Some(sp)) => (1, sp.pos, w.rank(sp.split_ikey)),
        };
        ev.push(format!("[1,{},{pos},{k},{at},{sk}]", w.rank(ik)));
        let reuse = caught(|| left.can_reuse_slot0(ik)).map_or(9, u8::from);
        ev.push(format!("[2,{},{reuse}]", w.rank(ik)));
        if let Some(Some(sp)) = x {
            any = Some(sp.pos);
        }
    }
    // and split
    let all = r.chance(1, 6);
    let at = match any {
        Some(x) if r.chance(2, 3) => x,
        _ if size >= 2 => 1 + r.below(size - 1),
        _ => 0,
    };
    if at > 0 || all {
        let mut lock = left.version().lock();
        lock.mark_split();
        let new: Box<Leaf> = Leaf::new();
        let res = caught(|| unsafe { if all { left.split_all_to_right_preallocated(new, &g) } else { left.split_into_preallocated(at, new, &g) } });
        match res {
            None => ev.push("[3,0,0,0,0,[],[],0]".into()),
            Some((right, ik, target)) => {
                w.leaves.insert(p(&right) as usize, 2);
                let rank = w.rank(ik);
                let (a, b) = (w.state(&left), w.state(&right));
                ev.push(format!(
                    "[3,{},{at},{rank},{},{a},{b},{}]",
                    u8::from(all),
                    if target == InsertTarget::Left { 0 } else { 1 },
                    u8::from(right.version().is_split_locked())
                ));
                let rp = Box::into_raw(right);
                let ok = caught(|| unsafe { left.link_sibling(rp) });
                let right = unsafe { Box::from_raw(rp) };
                let st = [w.state(&left), w.state(&right), w.state(&before), w.state(&after)];
                ev.push(format!("[4,{},{}]", u8::from(ok.is_some()), st.join(",")));
                right.version().unlock_for_split();
                drop(lock);
                let st = [w.state(&left), w.state(&right)];
                ev.push(format!("[5,{}]", st.join(",")));
                drop(right);
            }
        }
    }
    drop(left);
    for f in fakes {
        unsafe { drop(Box::from_raw(f.cast::<u64>())) };
    }
    let n = ev.len();
    (format!("\"slices\":{},\"t\":{},\"ev\":[{}]", slice_table(&w.sl), w.t.json(), ev.join(",")), n)
}
