//! Tall trees: tens of thousands of keys, so that inner nodes of every layer split up to the
//! root more than once. Phases of inserts by one or more free-running threads, each with its own
//! keys, while others look up keys that no insert of the phase touches: every result is known.

use crate::api::{Gen, NewTree, Slot, TreeOps, Via};
use crate::keys::Key;
use crate::rng::Rng;
use crate::{Args, Status, esc, snap, val};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// How the keys of a run are made and in which order they come.
#[derive(Clone, Copy, Debug)]
struct Shape {
    /// common parts; key `k` is below common part `k % prefixes`
    prefixes: usize,
    depth: usize,
    mult: u64,
    tail: usize,
    /// 0 ascending, 1 descending, 2 shuffled, 3 outwards, 4 inwards, 5 ascending in strides
    order: usize,
    threads: usize,
}

fn key(s: &Shape, k: usize) -> Key {
    let mut v = vec![];
    for d in 0..s.depth {
        v.extend(b"layer");
        v.extend([d as u8, (k % s.prefixes) as u8, 0]);
    }
    if s.depth == 0 && s.prefixes > 1 {
        v.push((k % s.prefixes) as u8);
        v.extend(&(k as u64 * s.mult).to_be_bytes()[1..]);
    } else {
        v.extend((k as u64 * s.mult).to_be_bytes());
    }
    v.extend(&b"tail of a key"[..s.tail]);
    v
}

fn ordered(s: &Shape, mut v: Vec<usize>, r: &mut Rng) -> Vec<usize> {
    let n = v.len();
    match s.order {
        1 => v.reverse(),
        2 => r.shuffle(&mut v),
        3 => v = (0..n).map(|i| if i % 2 == 0 { v[n / 2 + i / 2] } else { v[n / 2 - 1 - i / 2] }).collect(),
        4 => v = (0..n).map(|i| if i % 2 == 0 { v[i / 2] } else { v[n - 1 - i / 2] }).collect(),
        5 => {
            let w = 7 + r.below(50);
            v = (0..w).flat_map(|o| v.iter().copied().skip(o).step_by(w).collect::<Vec<_>>()).collect();
        }
        _ => {}
    }
    v
}

struct Phase {
    ks: Vec<usize>,
    rs: Vec<i64>,
    gs: Vec<usize>,
    xs: Vec<i64>,
    len: i64,
    empty: bool,
}

fn run<S: Slot>(s: Shape, nk: usize, r: &mut Rng, first: usize, max_snap: usize) -> (Vec<Phase>, Vec<String>, Vec<String>)
where
    Gen<S>: TreeOps<S = S>,
{
    let keys: Vec<Key> = (0..=nk).map(|k| key(&s, k)).collect();
    let tree = Gen::<S>::mk(0);
    let errs: Mutex<Vec<String>> = Mutex::default();
    let stop = AtomicBool::new(false);
    let num = |x: crate::api::Res| match x {
        Ok(o) => o.unwrap_or(0) as i64,
        Err(e) => {
            errs.lock().unwrap().push(e);
            stop.store(true, SeqCst);
            -1
        }
    };
    let mut phases: Vec<Phase> = vec![];
    let mut snaps = vec![];
    let mut cur: BTreeMap<usize, u64> = BTreeMap::new();
    // the keys in the order of their first insertion, cut into phases
    let order = ordered(&s, (1..=nk).collect(), r);
    let mut at = 0;
    let mut v = 0;
    while !stop.load(SeqCst) && at < nk {
        v += 1;
        let n = if v == 1 { first } else { (nk / 8 + r.below(nk / 4 + 1)).max(1) }.min(nk - at);
        let mut ks: Vec<usize> = order[at..at + n].to_vec();
        at += n;
        // some keys a second time
        let old: Vec<usize> = cur.keys().copied().collect();
        let mut gs: Vec<usize> = vec![];
        if !old.is_empty() {
            let again: std::collections::BTreeSet<usize> = (0..n / 8).map(|_| *r.pick(&old)).collect();
            gs = (0..n).map(|_| *r.pick(&old)).filter(|k| !again.contains(k)).collect();
            let mut mixed = vec![];
            let mut a = again.into_iter();
            for k in ks {
                mixed.push(k);
                if mixed.len() % 8 == 7 {
                    mixed.extend(a.next());
                }
            }
            mixed.extend(a);
            ks = mixed;
        }
        gs.extend((0..20).filter_map(|_| order[at..].get(r.below(nk - at + 1)).copied()));
        let id = |k: usize| ((v - 1) * nk + k) as u64;
        // thread i has every t-th block of the inserts and a share of the lookups
        let t = s.threads;
        let block = 1 + r.below(40);
        let seeds: Vec<u64> = (0..t).map(|_| r.next()).collect();
        type Part = (Vec<(usize, i64)>, Vec<(usize, i64)>);
        let parts: Vec<Part> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..t)
                .map(|i| {
                    let (ks, gs, keys, tree, num, stop, seed) = (&ks, &gs, &keys, &tree, &num, &stop, seeds[i]);
                    let job = move || {
                        let mut r = Rng::new(seed);
                        let (mut a, mut b): Part = (vec![], vec![]);
                        let mut g = gs.iter().skip(i).step_by(t);
                        for &k in ks.chunks(block).skip(i).step_by(t).flatten() {
                            if stop.load(SeqCst) {
                                break;
                            }
                            let via = if r.chance(1, 2) { Via::Owned } else { Via::Guard };
                            a.push((k, num(TreeOps::ins(tree, via, &keys[k], id(k)))));
                            if let Some(&k) = g.next() {
                                b.push((k, num(tree.get_via(*r.pick(&[Via::Owned, Via::Guard, Via::Ref]), &keys[k]))));
                            }
                        }
                        (a, b)
                    };
                    (t > 1).then(|| sc.spawn(job)).ok_or(job)
                })
                .collect();
            hs.into_iter().map(|h| match h {
                Ok(h) => h.join().unwrap(),
                Err(job) => job(),
            }).collect()
        });
        let mut p = Phase { ks: vec![], rs: vec![], gs: vec![], xs: vec![], len: -1, empty: true };
        for (a, b) in parts {
            for (k, x) in a {
                cur.insert(k, id(k));
                p.ks.push(k);
                p.rs.push(x);
            }
            for (k, x) in b {
                p.gs.push(k);
                p.xs.push(x);
            }
        }
        if !stop.load(SeqCst) {
            p.len = TreeOps::length(&tree) as i64;
            p.empty = TreeOps::empty(&tree);
            if snaps.len() < max_snap && (at == nk || r.chance(1, 5)) {
                let mut ex: Vec<(Key, u64)> = cur.iter().map(|(k, v)| (keys[*k].clone(), *v)).collect();
                ex.sort();
                snaps.push(snap::snapshot_json(&tree, &ex, TreeOps::length(&tree)));
            }
        }
        phases.push(p);
    }
    // everything once more
    if !stop.load(SeqCst) {
        let mut p = Phase { ks: vec![], rs: vec![], gs: vec![], xs: vec![], len: -1, empty: true };
        for k in 1..=nk {
            if stop.load(SeqCst) {
                break;
            }
            p.gs.push(k);
            p.xs.push(num(tree.get_via(Via::Ref, &keys[k])));
        }
        p.len = TreeOps::length(&tree) as i64;
        p.empty = TreeOps::empty(&tree);
        phases.push(p);
    }
    if stop.load(SeqCst) {
        std::mem::forget(tree);
    }
    let e = std::mem::take(&mut *errs.lock().unwrap());
    (phases, e, snaps)
}

/// What the map would answer; used to record suspicious runs first.
fn wrong(nk: usize, ph: &[Phase]) -> bool {
    let mut m = vec![0i64; nk + 1];
    let mut n = 0;
    for (b, p) in ph.iter().enumerate() {
        if p.gs.iter().zip(&p.xs).any(|(k, x)| m[*k] != *x) {
            return true;
        }
        for (k, x) in p.ks.iter().zip(&p.rs) {
            if m[*k] != *x {
                return true;
            }
            n += i64::from(m[*k] == 0);
            m[*k] = (b * nk + k) as i64;
        }
        if p.len != n || p.empty != (n == 0) {
            return true;
        }
    }
    false
}

pub fn cmd(a: &Args) {
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let status = Status::new(&a.s("status", "/tmp/mtv.status"));
    let budget = Duration::from_millis(a.n("ms", 5000));
    let max = a.n("traces", 10) as usize;
    let max_snap = a.n("snaps", 0) as usize;
    let (one, most, threads) = (a.n("one", 0), a.n("max", 26_000) as usize, a.n("threads", 1) as usize);
    let mut seed = a.n("seed", 1);
    let stride = a.n("stride", 1);
    let start = Instant::now();
    let (mut runs, mut bad, mut nt, mut ns, mut calls) = (0u64, 0usize, 0usize, 0usize, 0usize);
    while start.elapsed() < budget && !(one > 0 && runs > 0) {
        let mut r = Rng::new(seed ^ 0x7a11_0000);
        let i = (seed / stride + seed % stride) as usize;
        let s = Shape {
            prefixes: *r.pick(&[1usize, 1, 1, 2, 3]),
            depth: (i / 4 + 1) % 3,
            mult: *r.pick(&[1u64, 2, 255, 256, 257, 0x1_0000_0001]),
            tail: *r.pick(&[0usize, 0, 0, 1, 8, 11]),
            order: (i + i / 5) % 6,
            threads: if threads > 1 { 2 + r.below(threads - 1) } else { 1 },
        };
        let inline = r.chance(1, 3);
        let nk = if r.chance(1, 4) { most / 8 + r.below(most) } else { most - r.below(most / 8) }.min(most);
        let first = if r.chance(1, 3) { 1 + r.below(40) } else { nk / 5 };
        status.set(&format!("tall {seed}                                "));
        val::reset(nk * 16);
        let snaps = max_snap - ns.min(max_snap);
        let (ph, errs, sn) = if inline {
            run::<masstree::LeafValueIndex<u64>>(s, nk, &mut r, first, snaps)
        } else {
            run::<masstree::LeafValue<val::Tracked>>(s, nk, &mut r, first, snaps)
        };
        runs += 1;
        calls += ph.iter().map(|p| p.ks.len() + p.gs.len()).sum::<usize>();
        let sus = wrong(nk, &ph);
        let run = format!("\"run\":{{\"what\":\"tall\",\"seed\":{seed},\"note\":\"{s:?}\",\"inline\":{inline}}}");
        for x in sn {
            ns += 1;
            writeln!(out, "{},{run}}}", &x[..x.len() - 1]).unwrap();
        }
        if nt < max || sus {
            nt += 1;
            bad += usize::from(sus);
            let ps: Vec<String> = ph
                .iter()
                .map(|p| {
                    // by key: -2 not inserted, otherwise what the insert returned
                    let mut ins = vec![-2; nk];
                    for (k, x) in p.ks.iter().zip(&p.rs) {
                        assert_eq!(ins[*k - 1], -2);
                        ins[*k - 1] = *x;
                    }
                    let s = format!(
                        "{{\"ins\":{ins:?},\"gs\":{:?},\"xs\":{:?},\"len\":{},\"emp\":{}}}",
                        p.gs, p.xs, p.len, u8::from(p.empty)
                    );
                    s.replace(' ', "")
                })
                .collect();
            let es: Vec<String> = errs.iter().take(3).map(|e| format!("\"{}\"", esc(e))).collect();
            writeln!(out, "{{\"kind\":\"tall\",\"nk\":{nk},\"ph\":[{}],\"susp\":{},\"errs\":[{}],{run}}}", ps.join(","), u8::from(sus), es.join(",")).unwrap();
        }
        if bad >= 3 {
            break;
        }
        seed += stride;
    }
    writeln!(out, "{{\"kind\":\"stats\",\"runs\":{runs},\"calls\":{calls},\"suspicious\":{bad},\"tall\":{nt},\"snaps\":{ns}}}").unwrap();
    out.flush().unwrap();
}
