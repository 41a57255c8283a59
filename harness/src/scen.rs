//! Scenarios: a prefilled tree at an interesting brink plus a few short concurrent programs.
//! A scenario is a pure function of (kind, seed).

use crate::api::{TreeOps, Via};
use crate::keys::{self, FAMILIES, Key};
use crate::rng::Rng;
use crate::snap::{self, Node};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Get,
    Ins,
    /// number of entries; emptiness
    Len,
    Empty,
    /// a call with an over-long key that has this key as its prefix
    Long,
    /// many inserts of keys nobody else touches, not part of the history
    Bulk,
    /// several operations under one guard
    Session,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: Kind,
    pub via: Via,
    pub key: Key,
    pub bulk: Vec<Key>,
    pub inner: Vec<(bool, Via, Key)>,
}

impl Op {
    pub fn new(kind: Kind, via: Via, key: Key) -> Self {
        Op { kind, via, key, bulk: vec![], inner: vec![] }
    }
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub prefill: Vec<Key>,
    pub threads: Vec<Vec<Op>>,
    pub note: String,
}

/// Which brink the prefill drives a chosen leaf to.
#[derive(Clone, Copy, Debug)]
pub enum Brink {
    Any,
    LeafFull,
    LeafAlmost,
    InnerFull,
    Small,
}

pub struct Leafy {
    pub prefix: Vec<u8>,
    pub ents: Vec<snap::Ent>,
    pub parent_full: bool,
    /// how many ancestors in a row are full
    pub full_up: usize,
}

/// The leaves of a tree with their layer prefix, ascending within each layer.
pub fn leaves<T: TreeOps>(t: &T) -> Vec<Leafy> {
    let s = snap::walk::<T::S>(t.root() as usize);
    let mut by: BTreeMap<usize, &Node> = BTreeMap::new();
    for n in &s.nodes {
        by.insert(n.addr(), n);
    }
    let mut out = vec![];
    for l in &s.layers {
        let mut a = l.root;
        let mut guard = 0;
        while let Some(Node::Inner { kids, .. }) = by.get(&a) {
            a = kids[0];
            guard += 1;
            if guard > 50 {
                break;
            }
        }
        while let Some(Node::Leaf { ents, next, parent, .. }) = by.get(&a) {
            let parent_full = match by.get(parent) {
                Some(Node::Inner { keys, .. }) => keys.len() == 15,
                _ => *parent == 0,
            };
            let mut full_up = 0;
            let mut q = *parent;
            while let Some(Node::Inner { keys, parent: pp, .. }) = by.get(&q) {
                if keys.len() < 15 {
                    break;
                }
                full_up += 1;
                q = *pp;
            }
            out.push(Leafy { prefix: l.prefix.clone(), ents: ents.clone(), parent_full, full_up });
            a = *next;
            if a == 0 {
                break;
            }
        }
    }
    out
}

pub fn ent_key(prefix: &[u8], e: &snap::Ent) -> Key {
    let mut k = prefix.to_vec();
    let b = e.ik.to_be_bytes();
    match e.kind {
        n @ 0..=8 => k.extend(&b[..n as usize]),
        64 => {
            k.extend(b);
            k.extend(&e.suf);
        }
        _ => {
            k.extend(b);
            k.push(b'?');
        }
    }
    k.truncate(256);
    k
}

/// A key strictly inside the range of a leaf, with a slice nobody uses yet if there is room.
fn fresh_in(l: &Leafy, lo_bound: Option<u64>, hi: Option<u64>, r: &mut Rng) -> Option<Key> {
    if l.ents.is_empty() {
        return None;
    }
    for _ in 0..12 {
        let i = r.below(l.ents.len());
        let a = l.ents[i].ik;
        let b = if i + 1 < l.ents.len() { l.ents[i + 1].ik } else { hi.unwrap_or(u64::MAX) };
        let _ = lo_bound;
        if b > a && b - a > 1 {
            let span = b - a - 1;
            let x = match r.below(3) {
                0 => a + 1,
                1 => b - 1,
                _ => a + 1 + r.next() % span.max(1),
            };
            let mut k = l.prefix.clone();
            k.extend(x.to_be_bytes());
            match r.below(4) {
                0 => k.push(b's'),
                1 => {
                    while k.len() > l.prefix.len() + 1 && *k.last().unwrap() == 0 {
                        k.pop();
                    }
                }
                _ => {}
            }
            if k.len() <= 256 {
                return Some(k);
            }
        }
    }
    None
}

pub fn build<T: TreeOps>(kind: &str, seed: u64) -> Scen {
    let mut r = Rng::new(seed ^ 0x5ce0_0000);
    if kind == "far" {
        return far(&mut r);
    }
    if kind == "again" {
        return again::<T>(&mut r);
    }
    if kind == "pester" {
        return pester::<T>(&mut r);
    }
    let fam = *r.pick(FAMILIES);
    let brink = match kind {
        "leafsplit" => Brink::LeafFull,
        "innersplit" | "deep" => Brink::InnerFull,
        "small" => Brink::Small,
        "crowd" => *r.pick(&[Brink::InnerFull, Brink::InnerFull, Brink::LeafFull, Brink::Small]),
        "hold" | "update" => *r.pick(&[Brink::Small, Brink::LeafFull, Brink::LeafAlmost, Brink::Any]),
        "layer" => Brink::Any,
        "duel" => *r.pick(&[Brink::LeafFull, Brink::LeafFull, Brink::LeafFull, Brink::InnerFull, Brink::Any, Brink::Small]),
        _ => *r.pick(&[Brink::Any, Brink::LeafFull, Brink::LeafFull, Brink::LeafAlmost, Brink::InnerFull, Brink::Small]),
    };
    let n = match brink {
        Brink::InnerFull if kind == "deep" => 0,
        Brink::Small => r.below(6),
        Brink::InnerFull => *r.pick(&[190usize, 203, 204, 205, 216, 260, 330]),
        _ => *r.pick(&[10usize, 22, 23, 24, 25, 30, 36, 48, 60, 100]),
    };
    let step = 1 + r.below(4) as u32;
    let mut pre: Vec<Key> = (0..n as u32).map(|i| keys::key(fam, i * step + 1)).collect();
    let order = r.below(4);
    match order {
        0 => r.shuffle(&mut pre),
        1 => pre.reverse(),
        _ => {}
    }
    // a second family now and then, to mix layers
    if r.chance(1, 4) && !matches!(brink, Brink::Small) {
        let f2 = *r.pick(FAMILIES);
        for i in 0..r.below(14) as u32 {
            pre.push(keys::key(f2, i * 3));
        }
    }
    // probe tree: find a leaf and fill it to the brink
    let t = T::mk(0);
    let mut have: BTreeMap<Key, u64> = BTreeMap::new();
    let mut order_ins = vec![];
    for k in pre {
        if !have.contains_key(&k) {
            have.insert(k.clone(), 1);
            let _ = t.ins(Via::Owned, &k, 1);
            order_ins.push(k);
        }
    }
    if kind == "deep" {
        // two levels of interior nodes, full where the next keys go
        let long: &[u8] = if r.chance(1, 4) { b"-and-more" } else { b"" };
        let front: &[u8] = if r.chance(1, 3) { b"in-layer" } else { b"" };
        let down = r.chance(1, 3);
        let want = if r.chance(4, 5) { 2 } else { 1 };
        let mut i = 0u32;
        while i < 6000 {
            for _ in 0..12 {
                let x = if down { 900_000 - i * 50 } else { 10_000 + i * 50 };
                let mut k = front.to_vec();
                k.extend(x.to_be_bytes());
                k.extend(long);
                have.insert(k.clone(), 1);
                let _ = t.ins(Via::Owned, &k, 1);
                order_ins.push(k);
                i += 1;
            }
            if i > 900 && leaves(&t).iter().any(|l| l.full_up >= want) {
                break;
            }
        }
    }
    let target = match brink {
        Brink::LeafFull | Brink::InnerFull => 24,
        Brink::LeafAlmost => 23,
        _ => 0,
    };
    let mut pick = 0usize;
    for round in 0..60 {
        let ls = leaves(&t);
        if ls.is_empty() {
            break;
        }
        if round == 0 {
            let cand: Vec<usize> = match brink {
                Brink::InnerFull if ls.iter().any(|l| l.full_up >= 2) => (0..ls.len()).filter(|&i| ls[i].full_up >= 2).collect(),
                Brink::InnerFull => (0..ls.len()).filter(|&i| ls[i].parent_full && ls.len() > 8).collect(),
                _ => vec![],
            };
            let big: Vec<usize> = (0..ls.len()).filter(|&i| ls[i].ents.len() >= 8).collect();
            pick = if !cand.is_empty() {
                *r.pick(&cand)
            } else if !big.is_empty() {
                *r.pick(&big)
            } else {
                r.below(ls.len())
            };
        }
        let p = pick.min(ls.len() - 1);
        if ls[p].ents.len() >= target {
            break;
        }
        let hi = ls.get(p + 1).filter(|x| x.prefix == ls[p].prefix).and_then(|x| x.ents.first().map(|e| e.ik));
        match fresh_in(&ls[p], None, hi, &mut r) {
            Some(k) if !have.contains_key(&k) => {
                have.insert(k.clone(), 1);
                let _ = t.ins(Via::Owned, &k, 1);
                order_ins.push(k);
            }
            _ => {}
        }
    }
    // contested keys around the chosen leaf
    let ls = leaves(&t);
    let mut pool: Vec<Key> = vec![];
    if ls.is_empty() || ls[pick.min(ls.len() - 1)].ents.is_empty() {
        for i in 0..4 {
            pool.push(keys::key(fam, i * 2));
        }
        let x = keys::key(fam, 0);
        pool.push(keys::relative(&x, &mut r));
        pool.push(vec![]);
    } else {
        let p = pick.min(ls.len() - 1);
        let l = &ls[p];
        let hi = ls.get(p + 1).filter(|x| x.prefix == l.prefix).and_then(|x| x.ents.first().map(|e| e.ik));
        let ne = l.ents.len();
        for _ in 0..3 {
            if let Some(k) = fresh_in(l, None, hi, &mut r) {
                pool.push(k);
            }
        }
        for at in [0, ne - 1, ne / 2, r.below(ne), r.below(ne)] {
            let e = ent_key(&l.prefix, &l.ents[at]);
            if r.chance(2, 3) {
                pool.push(keys::relative(&e, &mut r));
            }
            pool.push(e);
        }
        if let Some(nx) = ls.get(p + 1) {
            if !nx.ents.is_empty() {
                pool.push(ent_key(&nx.prefix, &nx.ents[0]));
                if let Some(k) = fresh_in(nx, None, None, &mut r) {
                    pool.push(k);
                }
            }
        }
        if kind == "layer" || r.chance(1, 3) {
            // the same fresh long key and its relatives: layer creation races
            let e = ent_key(&l.prefix, r.pick(&l.ents));
            for _ in 0..2 {
                let mut x = e.clone();
                while x.len() % 8 != 0 {
                    x.push(b'q');
                }
                x.extend(b"-long-");
                x.push(b'a' + r.below(3) as u8);
                x.truncate(256);
                pool.push(keys::relative(&x, &mut r));
                pool.push(x);
            }
        }
    }
    if kind == "update" {
        return update(order_ins, pool, &mut r, fam);
    }
    if kind == "crowd" {
        return crowd(order_ins, pool, &ls, pick, &mut r, format!("{fam}/{brink:?}/n{n}/o{order}/crowd"));
    }
    if kind == "hold" {
        return hold(order_ins, pool, &ls, pick, &mut r, format!("{fam}/{brink:?}/n{n}/o{order}/hold"));
    }
    if kind == "duel" {
        return duel(order_ins, pool, &ls, pick, &mut r, format!("{fam}/{brink:?}/n{n}/o{order}"));
    }
    pool.dedup();
    let keep = 2 + r.below(5);
    r.shuffle(&mut pool);
    pool.truncate(keep.max(2));
    let nt = *r.pick(&[2usize, 2, 2, 3, 3, 4]);
    let mut threads = vec![];
    let bias = r.below(3);
    for t in 0..nt {
        let m = match nt {
            2 => 1 + r.below(3),
            3 => 1 + r.below(2),
            _ => 1,
        };
        let mut ops = vec![];
        for _ in 0..m {
            let ins = match bias {
                0 => r.chance(1, 2),
                1 => t > 0,
                _ => r.chance(4, 5),
            };
            let via = *r.pick(&[Via::Owned, Via::Guard, Via::Ref]);
            ops.push(Op::new(if ins { Kind::Ins } else { Kind::Get }, via, r.pick(&pool).clone()));
        }
        threads.push(ops);
    }
    if kind == "count" {
        for ops in &mut threads {
            let at = r.below(ops.len() + 1);
            let k = r.pick(&pool).clone();
            let kind = *r.pick(&[Kind::Len, Kind::Len, Kind::Empty, Kind::Long, Kind::Long]);
            ops.insert(at, Op::new(kind, *r.pick(&[Via::Owned, Via::Guard, Via::Ref]), k));
        }
        // somebody who only looks
        if threads.len() < 4 && r.chance(1, 2) {
            let k = r.pick(&pool).clone();
            threads.push((0..2).map(|_| Op::new(*r.pick(&[Kind::Len, Kind::Empty]), Via::Owned, k.clone())).collect());
        }
    }
    // at least one writer
    if threads.iter().flatten().all(|o| o.kind == Kind::Get) {
        threads[0][0].kind = Kind::Ins;
    }
    Scen { prefill: order_ins, threads, note: format!("{fam}/{brink:?}/n{n}/o{order}") }
}

/// A single short operation against a leaf that splits, fills up and splits again.
fn again<T: TreeOps>(r: &mut Rng) -> Scen {
    let prefix: Vec<u8> = match r.below(3) {
        0 => vec![],
        1 => b"prefix-8".to_vec(),
        _ => vec![0; 8],
    };
    let with = |mid: u32, tail: &[u8]| -> Key {
        let mut k = prefix.clone();
        k.extend(mid.to_be_bytes());
        k.extend(tail);
        k
    };
    let long: &[u8] = if r.chance(1, 3) { b"abcd-longer" } else { b"" };
    let mut prefill: Vec<Key> = (1..=24u32).map(|i| with(i * 1000, long)).collect();
    for i in 0..*r.pick(&[0u32, 0, 20, 200]) {
        prefill.push(with(100_000 + i, long));
    }
    // the first leaf is full
    let t = T::mk(0);
    for k in &prefill {
        let _ = t.ins(Via::Owned, k, 1);
    }
    for i in 0..24u32 {
        let ls = leaves(&t);
        match ls.iter().find(|l| l.prefix == prefix) {
            Some(l) if l.ents.len() < 24 => {
                let k = with((i + 1) * 1000 + 500, long);
                let _ = t.ins(Via::Owned, &k, 1);
                prefill.push(k);
            }
            _ => break,
        }
    }
    let vias = [Via::Owned, Via::Guard, Via::Ref];
    let low = |r: &mut Rng| 1001 + r.below(10_000) as u32;
    let mut fresh: Vec<u32> = vec![];
    let n = *r.pick(&[12usize, 12, 13, 13, 26, 40]);
    while fresh.len() < n + 1 {
        let x = if r.chance(2, 3) { low(r) } else { 1001 + fresh.len() as u32 };
        if x % 500 != 0 && !fresh.contains(&x) {
            fresh.push(x);
        }
    }
    let first = Op::new(Kind::Ins, *r.pick(&vias), with(fresh[0], long));
    let bulk = fresh[1..].iter().map(|&x| with(x, long)).collect();
    let kind = if r.chance(3, 4) { Kind::Get } else { Kind::Ins };
    let key = with((8 + r.below(17) as u32) * 1000 + if r.chance(1, 6) { 1 } else { 0 }, long);
    let mut ops = vec![Op::new(kind, *r.pick(&vias), key.clone())];
    if r.chance(1, 3) {
        ops.push(Op::new(Kind::Get, *r.pick(&vias), key));
    }
    let threads = vec![ops, vec![first, Op { bulk, ..Op::new(Kind::Bulk, Via::Guard, vec![]) }]];
    Scen { prefill, threads, note: format!("again/{}/{n}", prefix.len()) }
}

/// A single short operation against thousands of inserts next to where it is.
fn pester<T: TreeOps>(r: &mut Rng) -> Scen {
    let prefix: Vec<u8> = match r.below(3) {
        0 => vec![],
        1 => b"prefix-8".to_vec(),
        _ => vec![0; 8],
    };
    let long: &[u8] = if r.chance(1, 4) { b"-longer" } else { b"" };
    let with = |mid: u64| -> Key {
        let mut k = prefix.clone();
        k.extend(mid.to_be_bytes());
        k.extend(long);
        k
    };
    const GAP: u64 = 1 << 24;
    let n = *r.pick(&[60u64, 150, 300, 450]);
    let mut prefill: Vec<Key> = (1..=n).map(|i| with(i * GAP)).collect();
    let t = T::mk(0);
    for k in &prefill {
        let _ = t.ins(Via::Owned, k, 1);
    }
    // the leaf the short operation is about, full
    let mids = |t: &T, at: u64| -> Vec<u64> {
        leaves(t)
            .iter()
            .filter(|l| l.prefix == prefix)
            .map(|l| l.ents.iter().map(|e| e.ik).collect::<Vec<u64>>())
            .find(|l| l.contains(&at))
            .unwrap_or_default()
    };
    let at = (n / 4 + 1 + r.next() % (n / 2)) * GAP;
    for _ in 0..24 {
        let l = mids(&t, at);
        if l.len() >= 24 || l.is_empty() {
            break;
        }
        let k = with(*r.pick(&l) + 1 + r.next() % 1_000_000);
        if !prefill.contains(&k) {
            let _ = t.ins(Via::Owned, &k, 1);
            prefill.push(k);
        }
    }
    let l = mids(&t, at);
    let bound = l.first().copied().unwrap_or(at);
    let last = l.last().copied().unwrap_or(at);
    // either a split that meets thousands of others next door, or anything
    let main = r.chance(1, 2);
    let m = if main { 9000 } else { *r.pick(&[30u64, 300, 2000, 10_000]) };
    let from = match r.below(4) {
        _ if main => bound - 1_000_000,
        0 | 1 => bound - 1_000_000,
        2 => last + 1_000_000,
        _ => at + 1_000_000,
    };
    let mut bulk: Vec<Key> = (0..m).map(|i| with(from + i * 2)).filter(|k| !prefill.contains(k)).collect();
    if !main && r.chance(1, 4) {
        bulk.reverse();
    }
    let vias = [Via::Owned, Via::Guard, Via::Ref];
    let key = match r.below(4) {
        _ if main => with(at + 2_000_001),
        0 => with(at),
        1 => with(from + 1),
        2 => with(last),
        _ => with(at + 2_000_001),
    };
    let ops = vec![Op::new(if main || r.chance(2, 3) { Kind::Ins } else { Kind::Get }, *r.pick(&vias), key)];
    let threads = vec![ops, vec![Op { bulk, ..Op::new(Kind::Bulk, Via::Guard, vec![]) }]];
    Scen { prefill, threads, note: format!("pester/{}/{m}", prefix.len()) }
}

/// Many inserts of few keys.
fn update(prefill: Vec<Key>, mut pool: Vec<Key>, r: &mut Rng, note: &str) -> Scen {
    r.shuffle(&mut pool);
    pool.truncate(1 + r.below(4));
    let nt = 2 + r.below(4);
    let m = if r.chance(1, 6) { 12 + r.below(12) } else { 1 + r.below(if nt > 3 { 4 } else { 7 }) };
    let threads = (0..nt)
        .map(|_| {
            (0..m)
                .map(|_| {
                    let kind = if r.chance(1, 8) { Kind::Get } else { Kind::Ins };
                    Op::new(kind, *r.pick(&[Via::Owned, Via::Guard, Via::Ref]), r.pick(&pool).clone())
                })
                .collect()
        })
        .collect();
    Scen { prefill, threads, note: format!("{note}/update") }
}

/// Many threads with a handful of inserts each, all into the same stretch of keys.
fn crowd(prefill: Vec<Key>, pool: Vec<Key>, ls: &[Leafy], pick: usize, r: &mut Rng, note: String) -> Scen {
    let vias = [Via::Owned, Via::Guard, Via::Ref];
    let base = if ls.is_empty() || ls[pick.min(ls.len() - 1)].ents.is_empty() {
        vec![]
    } else {
        let l = &ls[pick.min(ls.len() - 1)];
        ent_key(&l.prefix, &l.ents[r.below(l.ents.len())])
    };
    let layer = r.chance(1, 3);
    let mut fresh = |r: &mut Rng| -> Key {
        let mut k = base.clone();
        if layer {
            while k.len() % 8 != 0 || k.is_empty() {
                k.push(b'x');
            }
        } else {
            let n = k.len() / 8 * 8 + (k.len() % 8).min(4);
            k.truncate(n);
        }
        k.extend((r.next() as u32 % 4096).to_be_bytes());
        k.truncate(256);
        k
    };
    let nt = 3 + r.below(5);
    let m = 3 + r.below(14);
    let ops = |r: &mut Rng, fresh: &mut dyn FnMut(&mut Rng) -> Key| {
        (0..m)
            .map(|_| {
                let key = if r.chance(1, 8) { r.pick(&pool).clone() } else { fresh(r) };
                Op::new(if r.chance(1, 10) { Kind::Get } else { Kind::Ins }, *r.pick(&vias), key)
            })
            .collect::<Vec<_>>()
    };
    let mut threads: Vec<Vec<Op>> = vec![];
    for _ in 0..nt {
        let o = ops(r, &mut fresh);
        threads.push(o);
    }
    Scen { prefill, threads, note }
}

/// Sessions that hold on to what they saw, against writers that replace and move it.
fn hold(prefill: Vec<Key>, pool: Vec<Key>, ls: &[Leafy], pick: usize, r: &mut Rng, note: String) -> Scen {
    let vias = [Via::Owned, Via::Guard, Via::Ref];
    let mut near: Vec<Key> = vec![];
    if !ls.is_empty() {
        let p = pick.min(ls.len() - 1);
        for q in p..(p + 2).min(ls.len()) {
            near.extend(ls[q].ents.iter().filter(|e| e.kind <= 64).map(|e| ent_key(&ls[q].prefix, e)));
        }
    }
    // new slices with a lot after them, so that the room for suffixes has to grow
    let mut bulky: Vec<Key> = vec![];
    if !ls.is_empty() {
        let l = &ls[pick.min(ls.len() - 1)];
        for _ in 0..4 {
            if let Some(mut k) = fresh_in(l, None, None, r) {
                let n = (l.prefix.len() + 8 + 5 + r.below(180)).min(256);
                k.resize(n.max(k.len()), b'L');
                bulky.push(k);
            }
        }
    }
    let mut hot: Vec<Key> = vec![];
    for _ in 0..2 + r.below(3) {
        if !near.is_empty() && r.chance(3, 4) {
            hot.push(r.pick(&near).clone());
        } else {
            hot.push(r.pick(&pool).clone());
        }
    }
    let mut threads = vec![];
    // writers: updates of the same keys, relatives that push them down, fresh keys that split
    let nw = 1 + r.below(2);
    for _ in 0..nw {
        let mut ops = vec![];
        for _ in 0..3 + r.below(4) {
            let key = match r.below(6) {
                0..=2 => r.pick(&hot).clone(),
                3 => {
                    let k = r.pick(&hot).clone();
                    keys::relative(&k, r)
                }
                4 => {
                    let mut x = r.pick(&hot).clone();
                    while x.len() % 8 != 0 || x.is_empty() {
                        x.push(b'q');
                    }
                    x.extend(b"-tail");
                    x.push(b'a' + r.below(2) as u8);
                    if r.chance(1, 3) {
                        let n = x.len() + 20 + r.below(200);
                        x.resize(n, b'L');
                    }
                    x.truncate(256);
                    x
                }
                _ if !bulky.is_empty() && r.chance(1, 2) => r.pick(&bulky).clone(),
                _ => r.pick(&pool).clone(),
            };
            let kind = if r.chance(1, 10) { Kind::Long } else if r.chance(1, 8) { Kind::Get } else { Kind::Ins };
            ops.push(Op::new(kind, *r.pick(&vias), key));
        }
        threads.push(ops);
    }
    // sessions
    for _ in 0..1 + r.below(2) {
        let mut ops = vec![];
        for _ in 0..1 + r.below(2) {
            let inner = (0..1 + r.below(4))
                .map(|_| {
                    let k = r.pick(&hot).clone();
                    let k = if r.chance(1, 6) { keys::relative(&k, r) } else { k };
                    (r.chance(1, 4), if r.chance(3, 4) { Via::Ref } else { Via::Guard }, k)
                })
                .collect();
            ops.push(Op { inner, ..Op::new(Kind::Session, Via::Guard, vec![]) });
        }
        threads.push(ops);
    }
    if r.chance(1, 2) {
        threads.reverse();
    }
    Scen { prefill, threads, note }
}

/// One or two writers against readers (or blind writers) of keys that are already there.
fn duel(prefill: Vec<Key>, pool: Vec<Key>, ls: &[Leafy], pick: usize, r: &mut Rng, note: String) -> Scen {
    let mut near: Vec<Key> = vec![];
    if !ls.is_empty() {
        let p = pick.min(ls.len() - 1);
        for q in p.saturating_sub(1)..(p + 4).min(ls.len()) {
            near.extend(ls[q].ents.iter().filter(|e| e.kind <= 64).map(|e| ent_key(&ls[q].prefix, e)));
        }
    }
    let any_key = |r: &mut Rng| -> Key {
        if !near.is_empty() && r.chance(3, 4) {
            r.pick(&near).clone()
        } else if !prefill.is_empty() {
            r.pick(&prefill).clone()
        } else {
            r.pick(&pool).clone()
        }
    };
    let mut threads = vec![];
    // the writer brings a change of structure; the other thread looks at keys already there
    let w = if r.chance(2, 3) {
        pool[0].clone()
    } else {
        let k = any_key(r);
        let rel = keys::relative(&k, r);
        if r.chance(1, 2) {
            // the pair will conflict in the suffix
            let mut x = k.clone();
            while x.len() < 9 {
                x.push(b'a');
            }
            let l = x.len() - 1;
            x[l] ^= 1;
            x
        } else {
            rel
        }
    };
    let vias = [Via::Owned, Via::Guard, Via::Ref];
    threads.push(vec![Op::new(Kind::Ins, *r.pick(&vias), w.clone())]);
    let mut ops = vec![];
    let m = 1 + r.below(2);
    for _ in 0..m {
        let key = match r.below(8) {
            0 => w.clone(),
            1 => {
                let k = any_key(r);
                keys::relative(&k, r)
            }
            2 => r.pick(&pool).clone(),
            _ => any_key(r),
        };
        ops.push(Op::new(if r.chance(1, 3) { Kind::Ins } else { Kind::Get }, *r.pick(&vias), key));
    }
    threads.push(ops);
    if r.chance(1, 4) {
        threads.push(vec![Op::new(Kind::Ins, Via::Guard, if r.chance(1, 2) { r.pick(&pool).clone() } else { any_key(r) })]);
    }
    Scen { prefill, threads, note }
}

/// One short operation against a writer that changes the tree beyond recognition meanwhile.
fn far(r: &mut Rng) -> Scen {
    let prefix: Vec<u8> = match r.below(4) {
        0 => vec![],
        1 => b"prefix-8".to_vec(),
        2 => b"prefix-8prefix16".to_vec(),
        _ => vec![0; 8],
    };
    let with = |mid: u32, tail: &[u8]| -> Key {
        let mut k = prefix.clone();
        k.extend(mid.to_be_bytes());
        k.extend(tail);
        k
    };
    let long: &[u8] = if r.chance(1, 2) { b"abcd-longer" } else { b"" };
    let mut prefill = vec![];
    for i in 0..*r.pick(&[0u32, 1, 2, 20, 24, 60]) {
        prefill.push(with(1000 + i * 3, long));
    }
    if !prefix.is_empty() {
        prefill.push(with(1, b"x"));
        prefill.push(with(1, b"y"));
    }
    let n = *r.pick(&[40u32, 200, 500, 1800, 1800, 2600]);
    let mut bulk: Vec<Key> = (0..n).map(|i| with(2000 + i, long)).collect();
    match r.below(4) {
        0 => r.shuffle(&mut bulk),
        1 => bulk.reverse(),
        _ => {}
    }
    let target = match r.below(5) {
        0 => with(2000 + n + 5, b"zz"),
        1 => with(u32::MAX, b""),
        2 => with(2000 + n / 2, b"between"),
        3 => prefill.first().cloned().unwrap_or_else(|| with(3, b"")),
        _ => with(500, b""),
    };
    let vias = [Via::Owned, Via::Guard, Via::Ref];
    let one = |r: &mut Rng, ins: bool| Op::new(if ins { Kind::Ins } else { Kind::Get }, *r.pick(&vias), target.clone());
    let first = r.chance(3, 4);
    let mut ops = vec![one(r, first)];
    if r.chance(1, 2) {
        ops.push(one(r, false));
    }
    let threads = vec![ops, vec![Op { bulk, ..Op::new(Kind::Bulk, Via::Guard, vec![]) }]];
    Scen { prefill, threads, note: format!("far/{}/{n}", prefix.len()) }
}
