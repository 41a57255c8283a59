//! C10: searches over arrays of slices, in all implementations.

use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use masstree::ksearch::{self, KeyIndexPosition, simd};
use masstree::leaf24::LeafNode24;
use masstree::permuter::Permuter;
use masstree::value::LeafValueIndex;

fn key(r: &mut Rng) -> u64 {
    const EDGE: [u64; 10] = [0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, (1 << 32) - 1, 0x8000_0000];
    match r.below(5) {
        0 | 1 => *r.pick(&EDGE),
        2 => r.below(4) as u64,
        3 => r.next(),
        _ => (r.below(4) as u64) << (8 * r.below(8)),
    }
}
fn digits(k: u64) -> String {
    list([k >> 48, (k >> 32) & 0xffff, (k >> 16) & 0xffff, k & 0xffff])
}
fn bits(m: u32) -> String {
    list((0..32).filter(|i| m >> i & 1 == 1))
}
fn at(o: Option<usize>) -> i64 {
    o.map_or(-1, |x| x as i64)
}

fn bounds<const W: usize>(ks: &[u64], perm: &[usize], t: u64) -> (Vec<String>, Vec<usize>) {
    let mut p = Permuter::<W>::make_sorted(perm.len());
    for (i, s) in perm.iter().enumerate() {
        p.set(i, *s);
    }
    let c = |s: usize| t.cmp(&ks[s]);
    let f = |k: KeyIndexPosition| format!("[{},{}]", k.i, at(k.try_slot()));
    (
        vec![f(ksearch::lower_bound_by(perm.len(), p, c)), f(ksearch::lower_bound_linear_by(perm.len(), p, c))],
        vec![ksearch::upper_bound_by(perm.len(), p, c), ksearch::upper_bound_linear_by(perm.len(), p, c)],
    )
}

pub fn trace(_a: &Args, r: &mut Rng) -> Trace {
    let sorted = r.chance(1, 3);
    let len = if sorted { r.below(16) } else { r.below(33) };
    let pool: Vec<u64> = (0..1 + r.below(6)).map(|_| key(r)).collect();
    let few = r.chance(1, 2);
    let mut ks: Vec<u64> = (0..len).map(|_| if few { *r.pick(&pool) } else { key(r) }).collect();
    let mut perm: Vec<usize> = vec![];
    if sorted {
        let mut seen = std::collections::HashSet::new();
        for k in &mut ks {
            while !seen.insert(*k) {
                *k = key(r);
            }
        }
        perm = (0..len).filter(|_| r.chance(5, 6)).collect();
        perm.sort_by_key(|s| ks[*s]);
    }
    // the arrays need not be aligned
    let shift = r.below(2);
    let mut room = vec![7u64; shift];
    room.extend(&ks);
    room.push(key(r));
    let here = &room[shift..shift + len];
    let leaf = LeafNode24::<LeafValueIndex<u64>>::new();
    let in_leaf = len >= 24;
    if in_leaf {
        (0..24).for_each(|s| leaf.set_ikey(s, ks[s]));
    }
    let mut ev = vec![];
    for _ in 0..6 + r.below(10) {
        let t = if len > 0 && r.chance(2, 3) {
            let k = *r.pick(&ks);
            *r.pick(&[k, k, k.wrapping_add(1), k.wrapping_sub(1), k ^ (1 << 63)])
        } else {
            key(r)
        };
        let n = if in_leaf && r.chance(1, 2) { 24 } else { r.below(len + 1) };
        let d = digits(t);
        let bad = |what: u8, lim: usize| format!("[{what},{d},{lim},[]]");
        match r.below(if sorted { 5 } else { 3 }) {
            0 => ev.push(
                caught(|| {
                    let v = vec![at(simd::find_exact_u64(here, t)), at(simd::find_exact_u64_scalar(here, t))];
                    format!("[0,{d},{len},{}]", list(v))
                })
                .unwrap_or_else(|| bad(9, len)),
            ),
            1 => ev.push(
                caught(|| {
                    let v = vec![simd::count_le_u64(here, n, t), simd::count_le_u64_scalar(here, n, t)];
                    format!("[1,{d},{n},{}]", list(v))
                })
                .unwrap_or_else(|| bad(9, n)),
            ),
            2 => ev.push(
                caught(|| {
                    let mut v = vec![simd::find_all_matches_u64(here, n, t), simd::find_all_matches_u64_scalar(here, n, t)];
                    if in_leaf && n == 24 {
                        v.push(ksearch::find_ikey_matches_leaf24(t, &leaf));
                    }
                    format!("[2,{d},{n},{}]", list(v.into_iter().map(bits)))
                })
                .unwrap_or_else(|| bad(9, n)),
            ),
            w => ev.push(
                caught(|| {
                    let (lo, up) = match perm.len() {
                        0..=3 if perm.iter().all(|s| *s < 3) => bounds::<3>(&ks, &perm, t),
                        0..=7 if perm.iter().all(|s| *s < 7) => bounds::<7>(&ks, &perm, t),
                        _ => bounds::<15>(&ks, &perm, t),
                    };
                    if w == 3 { format!("[3,{d},0,{}]", list(lo)) } else { format!("[4,{d},0,{}]", list(up)) }
                })
                .unwrap_or_else(|| bad(9, 0)),
            ),
        }
    }
    let k = ev.len();
    (format!("\"ks\":{},\"perm\":{},\"n\":{},\"ev\":[{}]", list(ks.iter().map(|k| digits(*k))), list(&perm), perm.len(), ev.join(",")), k)
}
