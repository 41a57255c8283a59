//! Sequential runs with real byte keys: every result of every operation is recorded, for all
//! storage modes and lookup variants.

use crate::api::{self, ArcTree, InlineTree, NewTree, TreeOps, Via, caught};
use crate::keys::{self, FAMILIES, Key};
use crate::rng::Rng;
use crate::sched::{self, Strategy};
use crate::snap;
use crate::{Args, Status, esc, val};
use masstree::MassTreeIndex;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A pool of keys with a story; the order is the order of insertion.
pub fn pool(r: &mut Rng, n: usize) -> (Vec<Key>, &'static str) {
    let mut v: Vec<Key> = vec![];
    let note = match r.below(9) {
        0 => {
            let fam = *r.pick(FAMILIES);
            let st = 1 + r.below(3) as u32;
            v.extend((0..n as u32).map(|i| keys::key(fam, i * st)));
            "family"
        }
        1 => {
            // everything derived from a few keys
            for _ in 0..1 + r.below(4) {
                v.push(keys::wild(r));
            }
            while v.len() < n {
                let b = if r.chance(1, 3) { v.len() - 1 } else { r.below(v.len()) };
                let k = keys::relative(&v[b].clone(), r);
                v.push(k);
            }
            "relatives"
        }
        2 => {
            v.extend((0..n).map(|_| keys::wild(r)));
            "wild"
        }
        3 => {
            // neighbouring slices, each with every length class
            let base = r.next() & !0xffff_ffff | (r.next() & 0xff) << 24;
            let depth = r.below(3) * 8;
            let mut g = 0u64;
            while v.len() < n {
                let s = (base + g * (1 + (r.next() & 1) * 255)).to_be_bytes();
                for l in 0..=8 {
                    if r.chance(5, 6) {
                        let mut k = vec![b'p'; depth];
                        k.extend(&s[..l]);
                        if r.chance(1, 2) {
                            k.resize(depth + 8, 0);
                            k.truncate(depth + 1 + r.below(8));
                        }
                        v.push(k);
                    }
                }
                let mut k = vec![b'p'; depth];
                k.extend(s);
                k.extend(std::iter::repeat_n(b's', 1 + r.below(12)));
                v.push(k);
                g += 1;
            }
            "groups"
        }
        4 => {
            // a long common part, the difference anywhere
            let len = 8 + r.below(249);
            let b: Key = (0..len).map(|_| r.below(3) as u8).collect();
            for _ in 0..n {
                let mut k = b.clone();
                match r.below(4) {
                    0 => k.truncate(r.below(len + 1)),
                    1 => {
                        let at = r.below(len);
                        k[at] = k[at].wrapping_add(1 + r.below(3) as u8);
                    }
                    2 => {
                        let at = r.below(len);
                        k[at] ^= 0x80;
                        k.truncate(at + 1 + r.below(len - at));
                    }
                    _ => k.push(r.below(256) as u8),
                }
                k.truncate(256);
                v.push(k);
            }
            "long"
        }
        5 => {
            // one full leaf of same-slice groups around a split point
            let a = r.below(24);
            for s in 0..(n as u64 / 6 + 2) {
                let sl = (s * 3).to_be_bytes();
                let m = if s as usize == a { 10 } else { 1 + r.below(4) };
                for l in 0..m {
                    let mut k = sl.to_vec();
                    if l < 8 {
                        k[7] = 0;
                        k.truncate(8 - l.min(8));
                        while k.last().is_some_and(|x| *x != 0) && k.len() < 8 - l {
                            k.push(0);
                        }
                    } else {
                        k.extend(&b"suffix"[..1 + r.below(6)]);
                    }
                    v.push(k);
                }
            }
            "bunch"
        }
        6 => {
            // suffixes of all sizes in one leaf, rewritten and turned into layers
            for i in 0..n as u64 {
                let mut k = (i / 2 * 7 + 1).to_be_bytes().to_vec();
                let m = *r.pick(&[1usize, 2, 7, 8, 9, 30, 100, 200, 248]);
                k.extend((0..m).map(|j| if j + 1 == m { i as u8 } else { j as u8 }));
                v.push(k);
            }
            "suffixes"
        }
        7 => {
            // ascending or descending integers, many splits
            v.extend((0..n as u64).map(|i| (i * 257).to_be_bytes().to_vec()));
            if r.chance(1, 2) {
                for k in &mut v {
                    let mut x = b"lay".to_vec();
                    x.append(k);
                    *k = x;
                }
            }
            "ints"
        }
        _ => {
            let f1 = *r.pick(FAMILIES);
            let f2 = *r.pick(FAMILIES);
            for i in 0..n as u32 {
                match r.below(4) {
                    0 => v.push(keys::key(f1, i)),
                    1 => v.push(keys::key(f2, i)),
                    2 => v.push(keys::wild(r)),
                    _ if !v.is_empty() => {
                        let b = r.pick(&v).clone();
                        v.push(keys::relative(&b, r));
                    }
                    _ => v.push(vec![]),
                }
            }
            "mix"
        }
    };
    match r.below(4) {
        0 => r.shuffle(&mut v),
        1 => v.reverse(),
        _ => {}
    }
    v.truncate(n);
    (v, note)
}

#[derive(Clone, Debug)]
enum Step {
    Get(Via, usize),
    Ins(Via, usize, u64),
    Len,
    /// a call with an over-long key: length, entry point 0..6
    Long(usize, u8),
    /// every lookup variant of every tree
    GetAll(usize),
    InsAll(usize, u64),
    LenAll,
}

struct Trees {
    arc: ArcTree,
    inl: InlineTree,
    idx: Mutex<MassTreeIndex<u64>>,
}

fn num(r: api::Res, errs: &mut Vec<String>) -> i64 {
    match r {
        Ok(None) => 0,
        Ok(Some(v)) => v as i64,
        Err(e) => {
            errs.push(e);
            -1
        }
    }
}

/// What can be seen of a tree's structure, as two 30-bit numbers.
fn digest<S: api::Slot>(root: *mut u8, len: usize) -> (u64, u64) {
    use std::hash::{Hash, Hasher};
    let s = snap::walk::<S>(root as usize);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (root as usize, len).hash(&mut h);
    for n in &s.nodes {
        format!("{n:?}").hash(&mut h);
    }
    let v = h.finish();
    (v & 0x3fff_ffff, v >> 34)
}

fn exec(t: &Trees, main_inline: bool, table: &[Key], s: &Step, errs: &mut Vec<String>) -> Vec<i64> {
    macro_rules! main {
        ($f:expr) => {
            if main_inline { ($f)(&t.inl as &dyn Dyn) } else { ($f)(&t.arc as &dyn Dyn) }
        };
    }
    match s {
        Step::Get(v, k) => {
            let r = main!(|d: &dyn Dyn| d.get(*v, &table[*k - 1]));
            vec![0, *k as i64, 0, num(r, errs)]
        }
        Step::Ins(v, k, id) => {
            let r = main!(|d: &dyn Dyn| d.ins(*v, &table[*k - 1], *id));
            vec![1, *k as i64, *id as i64, num(r, errs)]
        }
        Step::Len => {
            let (l, e) = main!(|d: &dyn Dyn| d.len());
            vec![2, 0, 0, l as i64, i64::from(e)]
        }
        Step::Long(n, which) => {
            let k = vec![b'k'; *n];
            let d1 = main!(|d: &dyn Dyn| d.digest());
            let r = match which {
                0..=2 => main!(|d: &dyn Dyn| d.get([Via::Owned, Via::Guard, Via::Ref][*which as usize], &k)),
                3 | 4 => main!(|d: &dyn Dyn| d.ins([Via::Owned, Via::Guard][*which as usize - 3], &k, 7)),
                5 => caught(|| Ok(t.idx.lock().unwrap_or_else(|e| e.into_inner()).get(&k))),
                _ => caught(|| t.idx.lock().unwrap_or_else(|e| e.into_inner()).insert(&k, 7).map_err(|e| format!("error: {e:?}"))),
            };
            let d2 = main!(|d: &dyn Dyn| d.digest());
            // -1 refused by panic, -2 an error value, otherwise what it returned
            let x = match &r {
                Err(e) if e.starts_with("panic") => -1,
                Err(_) => -2,
                Ok(o) => o.unwrap_or(0) as i64,
            };
            vec![3, *n as i64, i64::from(*which), x, d1.0 as i64, d1.1 as i64, d2.0 as i64, d2.1 as i64]
        }
        Step::GetAll(k) => {
            let key = &table[*k - 1];
            let mut v = vec![4, *k as i64, 0];
            for d in [&t.arc as &dyn Dyn, &t.inl as &dyn Dyn] {
                for via in [Via::Owned, Via::Guard, Via::Ref] {
                    v.push(num(d.get(via, key), errs));
                }
            }
            v.push(num(caught(|| Ok(t.idx.lock().unwrap().get(key))), errs));
            v
        }
        Step::InsAll(k, id) => {
            let key = &table[*k - 1];
            let via = if id % 2 == 0 { Via::Owned } else { Via::Guard };
            let mut v = vec![5, *k as i64, *id as i64];
            v.push(num(TreeOps::ins(&t.arc, via, key, *id), errs));
            v.push(num(TreeOps::ins(&t.inl, via, key, *id), errs));
            v.push(num(caught(|| t.idx.lock().unwrap().insert(key, *id).map_err(|e| format!("error: {e:?}"))), errs));
            v
        }
        Step::LenAll => {
            let mut v = vec![6, 0, 0];
            for d in [&t.arc as &dyn Dyn, &t.inl as &dyn Dyn] {
                let (l, e) = d.len();
                v.extend([l as i64, i64::from(e)]);
            }
            let i = t.idx.lock().unwrap();
            v.extend([i.len() as i64, i64::from(i.is_empty())]);
            v
        }
    }
}

trait Dyn {
    fn get(&self, v: Via, k: &[u8]) -> api::Res;
    fn ins(&self, v: Via, k: &[u8], id: u64) -> api::Res;
    fn len(&self) -> (usize, bool);
    fn digest(&self) -> (u64, u64);
}
impl<T: TreeOps> Dyn for T {
    fn get(&self, v: Via, k: &[u8]) -> api::Res {
        self.get_via(v, k)
    }
    fn ins(&self, v: Via, k: &[u8], id: u64) -> api::Res {
        TreeOps::ins(self, v, k, id)
    }
    fn len(&self) -> (usize, bool) {
        (self.length(), self.empty())
    }
    fn digest(&self) -> (u64, u64) {
        digest::<T::S>(self.root(), self.length())
    }
}

/// What the map would answer; used to record suspicious runs first.
fn wrong(m: &mut HashMap<i64, i64>, o: &[i64]) -> bool {
    let cur = |m: &HashMap<i64, i64>, k: i64| m.get(&k).copied().unwrap_or(0);
    match o[0] {
        0 => o[3] != cur(m, o[1]),
        1 => m.insert(o[1], o[2]).unwrap_or(0) != o[3],
        2 => o[3] != m.len() as i64 || (o[4] == 1) != m.is_empty(),
        3 => o[3] != -1 || o[4] != o[6] || o[5] != o[7],
        4 => o[3..].iter().any(|x| *x != cur(m, o[1])),
        5 => {
            let old = m.insert(o[1], o[2]).unwrap_or(0);
            o[3..].iter().any(|x| *x != old)
        }
        _ => o[3..].chunks(2).any(|c| c[0] != m.len() as i64 || (c[1] == 1) != m.is_empty()),
    }
}

pub fn cmd(a: &Args) {
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let status = Status::new(&a.s("status", "/tmp/mtv.status"));
    let what = a.s("what", "keys");
    let budget = Duration::from_millis(a.n("ms", 5000));
    let max = a.n("traces", 100) as usize;
    let max_snap = a.n("snaps", 0) as usize;
    let (lo, hi) = (a.n("min", 10) as usize, a.n("max", 400) as usize);
    let all = what == "variants";
    let one = a.n("one", 0);
    let mut seed = a.n("seed", 1);
    let stride = a.n("stride", 1);
    let start = Instant::now();
    let (mut runs, mut steps, mut bad, mut nt, mut ns, mut lanes) = (0u64, 0u64, 0usize, 0usize, 0usize, 0u64);
    while start.elapsed() < budget {
        if one > 0 && runs > 0 {
            break;
        }
        let mut r = Rng::new(seed ^ 0x5e90_0000);
        let inline = r.chance(1, 3);
        status.set(&format!("{what} {seed}                                "));
        let n = match r.below(6) {
            0 => lo + r.below(20),
            1 => lo + r.below(hi - lo + 1),
            2 => hi,
            _ => lo + r.below((hi - lo) / 3 + 1),
        };
        let (pool, note) = pool(&mut r, n);
        let mut table: Vec<Key> = vec![];
        let mut idx: BTreeMap<Key, usize> = BTreeMap::new();
        let mut name = |k: &Key, table: &mut Vec<Key>| -> usize {
            *idx.entry(k.clone()).or_insert_with(|| {
                table.push(k.clone());
                table.len()
            })
        };
        let mut prog = vec![];
        let mut id = 0u64;
        let lenp = if what == "count" { 3 } else { 40 };
        let longp = match what.as_str() {
            "long" => 6,
            "count" => 25,
            _ => 0,
        };
        for i in 0..pool.len() {
            id += 1;
            let k = name(&pool[i], &mut table);
            let via = *r.pick(&[Via::Owned, Via::Guard]);
            prog.push(if all { Step::InsAll(k, id) } else { Step::Ins(via, k, id) });
            // look around
            for _ in 0..r.below(3) {
                let b = r.pick(&pool[..=i]).clone();
                let k = if r.chance(1, 2) {
                    name(&b, &mut table)
                } else {
                    let x = keys::relative(&b, &mut r);
                    name(&x, &mut table)
                };
                let via = *r.pick(&[Via::Owned, Via::Guard, Via::Ref]);
                prog.push(if all { Step::GetAll(k) } else { Step::Get(via, k) });
            }
            if r.chance(1, if what == "count" { 3 } else { 8 }) {
                id += 1;
                let b = r.pick(&pool[..=i]).clone();
                let k = name(&b, &mut table);
                prog.push(if all { Step::InsAll(k, id) } else { Step::Ins(via, k, id) });
            }
            if r.chance(1, lenp) {
                prog.push(if all { Step::LenAll } else { Step::Len });
            }
            if longp > 0 && r.chance(1, longp) {
                let n = *r.pick(&[257usize, 257, 258, 264, 300, 511, 512, 1000, 65536 + 100]);
                prog.push(Step::Long(n, r.below(7) as u8));
            }
        }
        for k in 1..=table.len() {
            prog.push(if all { Step::GetAll(k) } else { Step::Get(*r.pick(&[Via::Owned, Via::Guard, Via::Ref]), k) });
        }
        prog.push(if all { Step::LenAll } else { Step::Len });
        val::reset(id as usize + 10);
        let trees = Arc::new(Trees { arc: ArcTree::mk(0), inl: InlineTree::mk(0), idx: Mutex::new(MassTreeIndex::new()) });
        let table = Arc::new(table);
        let log: Arc<Mutex<(Vec<Vec<i64>>, Vec<String>)>> = Arc::default();
        // pieces run on different threads, one after another
        let cut = if what == "long" || what == "count" { 1 + r.below(6) } else { prog.len().max(1) };
        let cuts: Vec<Vec<Step>> = prog.chunks(cut).map(<[Step]>::to_vec).collect();
        for (i, c) in cuts.into_iter().enumerate() {
            let (t, tb, lg) = (Arc::clone(&trees), Arc::clone(&table), Arc::clone(&log));
            let o = sched::run(
                vec![(i % sched::MAXT, Box::new(move || {
                    for s in &c {
                        let mut e = vec![];
                        let v = exec(&t, inline, &tb, s, &mut e);
                        let mut l = lg.lock().unwrap();
                        l.0.push(v);
                        l.1.extend(e);
                    }
                }))],
                Strategy::Serial(vec![i % sched::MAXT]),
                200_000_000,
            );
            steps += o.steps;
            lanes += 1;
        }
        let (ops, errs) = std::mem::take(&mut *log.lock().unwrap());
        let mut m = HashMap::new();
        let sus = ops.iter().any(|o| wrong(&mut m, o));
        runs += 1;
        let run = format!("\"run\":{{\"what\":\"{what}\",\"seed\":{seed},\"note\":\"{note}\",\"inline\":{inline}}}");
        if nt < max && (nt < max * 3 / 4 || runs % 4 == 0) || sus && bad < 10 {
            nt += 1;
            bad += usize::from(sus);
            let ks: Vec<String> = table.iter().map(|k| snap::bytes(k)).collect();
            let os: Vec<String> = ops.iter().map(|o| format!("{o:?}").replace(' ', "")).collect();
            let es: Vec<String> = errs.iter().take(3).map(|e| format!("\"{}\"", esc(e))).collect();
            writeln!(
                out,
                "{{\"kind\":\"seq\",\"keys\":[{}],\"ops\":[{}],\"susp\":{},\"errs\":[{}],{run}}}",
                ks.join(","),
                os.join(","),
                u8::from(sus),
                es.join(",")
            )
            .unwrap();
        }
        if ns < max_snap {
            ns += 1;
            let mut ex: Vec<(Key, u64)> = vec![];
            let mut cur: HashMap<i64, i64> = HashMap::new();
            for o in ops.iter().filter(|o| o[0] == 1 || o[0] == 5) {
                cur.insert(o[1], o[2]);
            }
            for (k, v) in cur {
                ex.push((table[k as usize - 1].clone(), v as u64));
            }
            ex.sort();
            let s = if inline && !all {
                snap::snapshot_json(&trees.inl, &ex, trees.inl.length())
            } else {
                snap::snapshot_json(&trees.arc, &ex, trees.arc.length())
            };
            writeln!(out, "{},{run}}}", &s[..s.len() - 1]).unwrap();
        }
        if bad >= 10 {
            break;
        }
        seed += stride;
    }
    writeln!(out, "{{\"kind\":\"stats\",\"runs\":{runs},\"steps\":{steps},\"suspicious\":{bad},\"seq\":{nt},\"snaps\":{ns},\"turns\":{lanes}}}").unwrap();
    out.flush().unwrap();
}
