//! C02: suffix storage, alone and in a leaf.

use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use masstree::leaf_trait::TreeLeafNode;
use masstree::leaf24::LeafNode24;
use masstree::permuter::Permuter;
use masstree::permuter24::Permuter24;
use masstree::suffix::SuffixBag;
use masstree::value::LeafValue;
use std::cmp::Ordering;
use std::collections::HashMap;

/// Byte strings get numbers; the table goes into the record.
#[derive(Default)]
pub struct Strings {
    ids: HashMap<Vec<u8>, usize>,
    v: Vec<Vec<u8>>,
}
impl Strings {
    pub fn id(&mut self, s: &[u8]) -> usize {
        if let Some(&i) = self.ids.get(s) {
            return i;
        }
        self.v.push(s.to_vec());
        self.ids.insert(s.to_vec(), self.v.len());
        self.v.len()
    }
    pub fn json(&self) -> String {
        list(self.v.iter().map(|s| list(s)))
    }
}

pub fn suffix(r: &mut Rng) -> Vec<u8> {
    let len = match r.below(8) {
        0 => 0,
        1 => 248,
        2 => 1,
        3 => 8 * (1 + r.below(4)),
        4 => r.below(100),
        5 => 100 + r.below(150),
        _ => 1 + r.below(20),
    };
    match r.below(3) {
        0 => (0..len).map(|_| r.below(256) as u8).collect(),
        1 => vec![r.below(3) as u8; len],
        _ => (0..len).map(|i| (i % 7) as u8 + r.below(2) as u8).collect(),
    }
}
fn sign(o: Ordering) -> i8 {
    o as i8
}

fn bag<const W: usize>(r: &mut Rng) -> (Vec<String>, Strings) {
    let mut t = Strings::default();
    let mut ev = vec![];
    let mut b = match r.below(4) {
        0 => SuffixBag::<W>::new(),
        1 => SuffixBag::<W>::default(),
        2 => SuffixBag::<W>::with_capacity(0),
        _ => SuffixBag::<W>::with_capacity(r.below(600)),
    };
    let short = r.chance(1, 2);
    let n = if short { 60 } else { 25 };
    let mut pool: Vec<Vec<u8>> = (0..6).map(|_| suffix(r)).collect();
    for step in 0..=n {
        let s = r.below(W);
        let x = if r.chance(1, 2) { r.pick(&pool).clone() } else { suffix(r) };
        if r.chance(1, 4) {
            pool.push(x.clone());
        }
        let used = b.used();
        let op = if step == 0 { 0 } else { 1 + r.below(9) };
        let mut arg = "0".to_string();
        let res: i64 = match op {
            0 => 0,
            1 | 2 => {
                arg = t.id(&x).to_string();
                caught(|| b.assign(s, &x)).map_or(-9, |()| 1)
            }
            3..=5 => {
                arg = t.id(&x).to_string();
                caught(|| b.try_assign_in_place(s, &x)).map_or(-9, i64::from)
            }
            6 => caught(|| b.clear(s)).map_or(-9, |()| 1),
            7 => {
                // some slots stay; a slot that does not exist or comes twice does no harm
                let mut act: Vec<usize> = (0..W).filter(|_| r.chance(3, 4)).collect();
                if r.chance(1, 4) {
                    act.push(W + r.below(3));
                }
                if r.chance(1, 4) && !act.is_empty() {
                    act.push(act[0]);
                }
                r.shuffle(&mut act);
                arg = list(act.iter());
                caught(|| b.compact(act.into_iter())).map_or(-9, |x| x as i64)
            }
            8 => {
                b = b.clone();
                1
            }
            _ => {
                let size = r.below(W + 1);
                let mut v: Vec<usize> = (0..W).collect();
                r.shuffle(&mut v);
                let ex = if r.chance(1, 2) { Some(r.below(W)) } else { None };
                let act: Vec<usize> = v[..size].iter().copied().filter(|x| Some(*x) != ex).collect();
                arg = list(act.iter());
                let res = if W == 24 {
                    let mut p = Permuter24::from_value(0);
                    v.iter().enumerate().for_each(|(i, &s)| p.set(i, s));
                    p.set_size(size);
                    caught(|| b.compact_with_permuter(&p, ex))
                } else {
                    let mut p = Permuter::<15>::from_value(0);
                    if W == 15 {
                        v.iter().enumerate().for_each(|(i, &s)| p.set(i, s));
                        p.set_size(size);
                        caught(|| b.compact_with_permuter(&p, ex))
                    } else {
                        let act2 = act.clone();
                        caught(|| b.compact(act2.into_iter()))
                    }
                };
                res.map_or(-9, |x| x as i64)
            }
        };
        let code = [0, 1, 1, 2, 2, 2, 3, 4, 5, 4][op];
        // everything stored, and probes with one string
        let all = caught(|| (0..W).map(|i| b.get(i).map(<[u8]>::to_vec)).collect::<Vec<_>>());
        let ids: Vec<i64> = match &all {
            Some(v) => v.iter().map(|x| x.as_ref().map_or(0, |x| t.id(x) as i64)).collect(),
            None => vec![-1; W],
        };
        let has = caught(|| (0..W).all(|i| b.has_suffix(i) == b.get(i).is_some() && b.get_or_empty(i) == b.get(i).unwrap_or(&[])));
        let q = if r.chance(1, 2) { r.pick(&pool).clone() } else { b.get(s).map_or(vec![], <[u8]>::to_vec) };
        let cmp = caught(|| (u8::from(b.suffix_equals(s, &q)), b.suffix_compare(s, &q).map_or(2, sign)));
        let (e, c) = cmp.unwrap_or((9, 9));
        ev.push(format!(
            "[{code},{s},{arg},{res},{},{},{},{},{},{},{},{e},{c}]",
            list(ids),
            u8::from(has == Some(true)),
            b.count(),
            used,
            b.used(),
            b.capacity(),
            t.id(&q)
        ));
    }
    (ev, t)
}

/// The suffixes of a leaf, with the length classes that say which slots have one.
fn leaf(r: &mut Rng) -> (Vec<String>, Strings) {
    let mut t = Strings::default();
    let mut ev = vec![];
    let col = seize::Collector::new();
    let l: Box<LeafNode24<LeafValue<u64>>> = LeafNode24::new();
    let mut pool: Vec<Vec<u8>> = (0..6).map(|_| suffix(r)).collect();
    let n = 50;
    for step in 0..=n {
        let g = col.enter();
        let s = r.below(24);
        let x = if r.chance(1, 2) { r.pick(&pool).clone() } else { suffix(r) };
        if r.chance(1, 4) {
            pool.push(x.clone());
        }
        let op = if step == 0 { 0 } else { 1 + r.below(10) };
        let mut arg = "0".to_string();
        let tr = r.chance(1, 2);
        let (code, res): (u8, i64) = match op {
            0 => (10, 0),
            1..=4 => {
                arg = t.id(&x).to_string();
                (11, caught(|| unsafe { if tr { TreeLeafNode::assign_ksuf(&*l, s, &x, &g) } else { l.assign_ksuf(s, &x, &g) } }).map_or(-9, |()| 1))
            }
            5 => (12, caught(|| unsafe { if tr { TreeLeafNode::clear_ksuf(&*l, s, &g) } else { l.clear_ksuf(s, &g) } }).map_or(-9, |()| 1)),
            6 => {
                let k = *r.pick(&[0u8, 3, 8, 128, 1, 7]);
                arg = k.to_string();
                (13, caught(|| if tr { TreeLeafNode::set_keylenx(&*l, s, k) } else { l.set_keylenx(s, k) }).map_or(-9, |()| 1))
            }
            7 => {
                let size = r.below(25);
                let mut v: Vec<usize> = (0..24).collect();
                r.shuffle(&mut v);
                let mut p = Permuter24::from_value(0);
                v.iter().enumerate().for_each(|(i, &s)| p.set(i, s));
                p.set_size(size);
                l.set_permutation(p);
                arg = list(v[..size].iter());
                (14, 1)
            }
            8 => {
                let ex = if r.chance(1, 2) { Some(s) } else { None };
                arg = ex.map_or(-1, |x| x as i64).to_string();
                (15, caught(|| unsafe { l.compact_ksuf(ex, &g) }).map_or(-9, |x| x as i64))
            }
            _ => {
                let ik = r.below(3) as u64;
                arg = ik.to_string();
                (16, caught(|| if tr { TreeLeafNode::set_ikey(&*l, s, ik) } else { l.set_ikey(s, ik) }).map_or(-9, |()| 1))
            }
        };
        let all = caught(|| (0..24).map(|i| if tr { TreeLeafNode::ksuf(&*l, i) } else { l.ksuf(i) }.map(<[u8]>::to_vec)).collect::<Vec<_>>());
        let ids: Vec<i64> = match &all {
            Some(v) => v.iter().map(|x| x.as_ref().map_or(0, |x| t.id(x) as i64)).collect(),
            None => vec![-1; 24],
        };
        let same = caught(|| {
            (0..24).all(|i| {
                l.has_ksuf(i) == (l.keylenx(i) == 64)
                    && TreeLeafNode::has_ksuf(&*l, i) == l.has_ksuf(i)
                    && l.ksuf_or_empty(i) == l.ksuf(i).unwrap_or(&[])
                    && TreeLeafNode::ksuf_or_empty(&*l, i) == l.ksuf_or_empty(i)
                    && l.is_layer(i) == (l.keylenx(i) >= 128)
            })
        });
        let p = r.below(24);
        let q = match r.below(3) {
            0 => vec![],
            1 => r.pick(&pool).clone(),
            _ => l.ksuf(p).map_or(vec![], <[u8]>::to_vec),
        };
        let ik = r.below(3) as u64;
        let kx = *r.pick(&[0u8, 3, 8, 64, l.keylenx(p)]);
        let probe = caught(|| {
            if tr {
                (
                    u8::from(TreeLeafNode::ksuf_equals(&*l, p, &q)),
                    TreeLeafNode::ksuf_compare(&*l, p, &q).map_or(2, sign),
                    u8::from(TreeLeafNode::ksuf_matches(&*l, p, ik, &q)),
                    TreeLeafNode::ksuf_match_result(&*l, p, kx, &q),
                )
            } else {
                (u8::from(l.ksuf_equals(p, &q)), l.ksuf_compare(p, &q).map_or(2, sign), u8::from(l.ksuf_matches(p, ik, &q)), l.ksuf_match_result(p, kx, &q))
            }
        });
        let (e, c, m, mr) = probe.unwrap_or((9, 9, 9, 99));
        let find = caught(|| masstree::ksearch::find_ikey_matches_leaf24(ik, &l)).unwrap_or(u32::MAX);
        let found: Vec<usize> = (0..32).filter(|i| find >> i & 1 == 1).collect();
        ev.push(format!(
            "[{code},{s},{arg},{res},{},{},{},{p},{},{e},{c},{ik},{m},{kx},{mr},{}]",
            list(ids),
            u8::from(same == Some(true)),
            list((0..24).map(|i| l.keylenx(i))),
            t.id(&q),
            list(found)
        ));
    }
    (ev, t)
}

pub fn trace(a: &Args, r: &mut Rng) -> Trace {
    let (w, (ev, t)) = match a.s("what", "bag").as_str() {
        "leaf" => (24, leaf(r)),
        _ => match r.below(5) {
            0 => (15, bag::<15>(r)),
            1 => (3, bag::<3>(r)),
            _ => (24, bag::<24>(r)),
        },
    };
    let n = ev.len();
    (format!("\"w\":{w},\"t\":{},\"ev\":[{}]", t.json(), ev.join(",")), n)
}
