//! Drives the real tree and its parts; records what TLC judges. Commands write ndjson.

mod alloc;
mod api;
mod conc;
mod keys;
mod rng;
mod scen;
mod sched;
mod seq;
mod snap;
mod tall;
mod val;
mod weak;

use rng::Rng;
use sched::Strategy;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

pub struct Args(HashMap<String, String>);
impl Args {
    fn parse() -> (String, Self) {
        let v: Vec<String> = std::env::args().skip(1).collect();
        let mut m = HashMap::new();
        let mut i = 1;
        while i < v.len() {
            let k = v[i].trim_start_matches("--").to_string();
            let val = v.get(i + 1).cloned().unwrap_or_default();
            m.insert(k, val);
            i += 2;
        }
        (v.first().cloned().unwrap_or_default(), Self(m))
    }
    pub fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map_or(d, |x| x.parse().unwrap())
    }
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "'").replace('\n', " ")
}

pub struct Status(std::fs::File);
impl Status {
    pub fn new(p: &str) -> Self {
        Self(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap())
    }
    pub fn set(&self, s: &str) {
        use std::os::unix::fs::FileExt;
        let mut b = s.as_bytes().to_vec();
        b.push(b'\n');
        let _ = self.0.write_all_at(&b, 0);
    }
}

fn strategies(r: &mut Rng, local: &[u64], hot: &[Vec<u64>], cls: &[[[u32; 2]; sched::CLASSES as usize]], nt: usize, kind: &str) -> Strategy {
    let mut order: Vec<usize> = (0..nt).collect();
    r.shuffle(&mut order);
    let total: u64 = local.iter().sum::<u64>().max(1);
    let pre = |r: &mut Rng, n: usize| {
        let mut at = vec![];
        for _ in 0..n {
            let t = r.below(nt);
            let mut to = r.below(nt);
            if to == t {
                to = (t + 1) % nt;
            }
            at.push((t, 1 + r.next() % local[t].max(1), to));
        }
        at.sort_by_key(|x| x.1);
        at
    };
    // one thread stopped mid-way, another stopped between two of its writes, then the first
    // goes on for a while or to its end
    if kind == "pester" || r.chance(1, 12) {
        let victim = if kind == "pester" { 0 } else { r.below(nt) };
        let c: Vec<u8> = (1..sched::CLASSES).filter(|&c| cls.get(victim).is_some_and(|x| x[c as usize][0] > 0)).collect();
        if !c.is_empty() {
            let most = [1usize, 4, 300, 300];
            let most = *r.pick(&most);
            let times = 1 + r.below(most) as u32;
            let times = if kind == "pester" && times > 4 { 300 } else { times };
            let class = if kind == "pester" && c.contains(&5) && r.chance(1, 2) { 5 } else { *r.pick(&c) };
            let most = cls[victim][class as usize][0].min(40) as usize;
            let from = if r.chance(1, 2) { 0 } else { r.below(most + 1) as u32 };
            return Strategy::Stale { victim, class, from, skip: *r.pick(&[0u32, 0, 1, 1, 2]), times };
        }
    }
    // a victim and a writer passing each other at places both of them touch
    let most = if kind == "again" { 9 } else { 4 };
    if nt >= 2 && cls.len() == nt && r.chance(most, 10) {
        let v = if kind == "again" { 0 } else { r.below(nt) };
        let mut w = r.below(nt);
        if w == v {
            w = (v + 1) % nt;
        }
        let shared = |a: usize, b: usize| -> Vec<u8> {
            (0..sched::CLASSES)
                .filter(|&c| {
                    let (x, y) = (cls[a][c as usize], cls[b][c as usize]);
                    (x[1] > 0 && y[0] + y[1] > 0) || (y[1] > 0 && x[0] + x[1] > 0)
                })
                .collect()
        };
        let c = shared(v, w);
        if !c.is_empty() {
            let mut at = vec![];
            for i in 0..2 + r.below(4) {
                let (me, to) = if i % 2 == 0 { (v, w) } else { (w, v) };
                let k = *r.pick(&c);
                let most = (cls[me][k as usize][0] + cls[me][k as usize][1]).max(1) as usize;
                let n = match r.below(8) {
                    0..=2 => 1,
                    3 | 4 => 1 + r.below(4),
                    _ => 1 + r.below(most),
                };
                at.push((me, k, n as u32, r.chance(1, 2), to));
            }
            if r.chance(if kind == "again" { 2 } else { 1 }, 4) {
                // early, past something that changes a version, up to the last look at a link
                let n = |r: &mut Rng, t: usize, c: u8| 1 + r.below((cls[t][c as usize][0] + cls[t][c as usize][1] + 1) as usize) as u32;
                let (a, b, d) = (n(r, v, 1), n(r, w, 1), n(r, w, 3));
                let (e, f) = (r.chance(1, 2), r.chance(1, 2));
                at = vec![(v, 1, a, e, w), (w, 1, b, f, v), (v, 3, 1, false, w), (w, 3, d, true, v)];
            }
            order.retain(|&x| x != v);
            order.insert(0, v);
            return Strategy::Direct { order, at };
        }
    }
    if kind == "far" {
        // the long thread runs as a whole at one point of the short one, or all but a tail of it
        let i = 1 + r.next() % local[0].max(1);
        let mut at = vec![(0, i, 1)];
        if r.chance(1, 3) && !hot[1].is_empty() {
            at.push((1, *r.pick(&hot[1]) + r.next() % 2, 0));
        }
        return Strategy::Preempt { order: vec![0, 1], at };
    }
    let ws: Vec<usize> = (0..nt).filter(|&t| !hot[t].is_empty()).collect();
    if nt >= 2 && !ws.is_empty() && r.chance(1, 2) {
        let w = *r.pick(&ws);
        let mut v = r.below(nt);
        if v == w {
            v = (w + 1) % nt;
        }
        let i = 1 + r.next() % local[v].max(1);
        let j = *r.pick(&hot[w]) + r.next() % 2;
        let mut at = vec![(v, i, w), (w, j, v)];
        if r.chance(1, 2) {
            let k = i + 1 + r.next() % (*r.pick(&[4, 10, 25, 60]));
            at.push((v, k, w));
            if r.chance(1, 2) {
                at.push((w, j + 1 + r.next() % (*r.pick(&[3, 10, 60])), v));
            }
        }
        order.retain(|&x| x != v);
        order.insert(0, v);
        return Strategy::Preempt { order, at };
    }
    match r.below(10) {
        0..=3 => {
            let at = pre(r, 1);
            let t = at[0].0;
            order.retain(|&x| x != t);
            order.insert(0, t);
            Strategy::Preempt { order, at }
        }
        4 | 5 => Strategy::Preempt { at: pre(r, 2), order },
        6 => Strategy::Preempt { at: pre(r, 3), order },
        7 => Strategy::Pct { seed: r.next() >> 20, d: 1 + r.below(4) as u32, k: total as u32 },
        8 => Strategy::Random { seed: r.next() >> 20, num: 1, den: *r.pick(&[60, 200, 600]) },
        _ => Strategy::Random { seed: r.next() >> 20, num: 1, den: *r.pick(&[12, 30, 1500]) },
    }
}

/// Where the fields of nodes are, from a small tree.
fn learn<S>()
where
    S: api::Slot,
    api::Gen<S>: api::TreeOps<S = S> + 'static,
{
    use api::{NewTree, TreeOps};
    let t = api::Gen::<S>::mk(0);
    for i in 0..60u32 {
        let _ = t.ins(api::Via::Owned, &i.to_be_bytes(), 1);
    }
    let s = snap::walk::<S>(t.root() as usize);
    let find = |leaf: bool| s.nodes.iter().map(|n| n.addr()).find(|&a| snap::is_leaf(a) == leaf);
    if let (Some(l), Some(n)) = (find(true), find(false)) {
        alloc::node_sizes(
            std::mem::size_of::<masstree::leaf24::LeafNode24<S>>(),
            std::mem::size_of::<masstree::internode::InternodeNode<S, 15>>(),
        );
        snap::learn_fields::<S>(l, n);
    }
}

fn conc_cmd<S>(a: &Args)
where
    S: api::Slot,
    api::Gen<S>: api::TreeOps<S = S> + 'static,
{
    let kind = a.s("kind", "any");
    learn::<S>();
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let status = Status::new(&a.s("status", "/tmp/mtv.status"));
    let seed0 = a.n("seed", 1);
    let budget = Duration::from_millis(a.n("ms", 5000));
    let per = a.n("per", 60);
    let max_hist = a.n("hist", 1000) as usize;
    let max_nodes = a.n("nodes", 0) as usize;
    let max_snap = a.n("snaps", 0) as usize;
    let max_life = a.n("lives", 0) as usize;
    let batch = a.n("batch", 0) as usize;
    let limit = a.n("limit", 400_000);
    let mode = a.s("mode", "arc");
    let start = Instant::now();
    let mut seen: HashSet<String> = HashSet::new();
    let (mut nh, mut nn, mut ns, mut nl) = (0usize, 0usize, 0usize, 0usize);
    let (mut runs, mut scens, mut susp, mut steps, mut uniq) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let replay = a.s("replay", "");
    let mut odd = 0u64;
    let spread = a.n("spread", 1);
    let mut seed = seed0;
    let stride = a.n("stride", 1);
    let weak = a.n("weak", 0);
    let max_order = a.n("orders", 0);
    let (mut no, mut stale, mut racy) = (0u64, 0u64, 0u64);
    let via = a.s("via", "");
    'outer: loop {
        let mut sc = scen::build::<api::Gen<S>>(&kind, seed);
        if let Some(v) = match via.as_str() {
            "ref" => Some(api::Via::Ref),
            "owned" => Some(api::Via::Owned),
            "guard" => Some(api::Via::Guard),
            _ => None,
        } {
            sc.threads.iter_mut().flatten().for_each(|o| o.via = v);
        }
        scens += 1;
        let mut r = Rng::new(seed.wrapping_mul(77) + 5);
        let nt = sc.threads.len();
        let mut local = vec![1u64; nt];
        let mut hot: Vec<Vec<u64>> = vec![vec![]; nt];
        let mut cls = vec![];
        for i in 0..per {
            if start.elapsed() > budget && replay.is_empty() {
                break 'outer;
            }
            let st = if !replay.is_empty() {
                Strategy::decode(&replay)
            } else if i == 0 {
                Strategy::Serial((0..nt).collect())
            } else {
                strategies(&mut r, &local, &hot, &cls, nt, &kind)
            };
            let wk = if weak > 1 { weak } else if weak == 1 { seed * 1000 + i + 2 } else { 0 };
            status.set(&format!("{kind} {seed} {mode} {batch} {} {} {wk}                              ", st.encode(), if via.is_empty() { "-" } else { &via }));
            let want = conc::Want {
                nodes: nn < max_nodes && (!replay.is_empty() || i % 7 == 0),
                snap: ns < max_snap,
                life: max_life > 0 || wk > 0,
                batch,
                weak: wk,
                order: max_order > 0,
            };
            let o = conc::run::<S>(&sc, st.clone(), limit, want);
            runs += 1;
            steps += o.out.steps;
            if i == 0 {
                hot.clone_from(&o.out.hot);
                cls.clone_from(&o.out.cls);
            }
            for (t, l) in o.out.local.iter().enumerate() {
                local[t] = local[t].max(*l);
            }
            let meta = format!(
                "\"run\":{{\"kind\":\"{kind}\",\"seed\":{seed},\"mode\":\"{mode}\",\"batch\":{batch},\"via\":\"{via}\",\"weak\":{wk},\"strategy\":\"{}\",\"note\":\"{}\"}}",
                st.encode(),
                sc.note
            );
            let tag = |s: &str| format!("{},{}}}\n", &s[..s.len() - 1], meta);
            let fresh = seen.insert(o.hist.clone());
            uniq += u64::from(fresh);
            if o.suspicious {
                susp += 1;
            }
            if fresh && (nh < max_hist || (o.suspicious && susp < 30)) {
                nh += 1;
                let e: Vec<String> = o.errs.iter().take(3).map(|e| format!("\"{}\"", esc(e))).collect();
                let h = format!("{},\"susp\":{},\"errs\":[{}]}}", &o.hist[..o.hist.len() - 1], u8::from(o.suspicious), e.join(","));
                out.write_all(tag(&h).as_bytes()).unwrap();
            }
            if let Some(n) = &o.nodes {
                if seen.insert(n.clone()) {
                    nn += 1;
                    out.write_all(tag(n).as_bytes()).unwrap();
                }
            }
            stale += o.stale;
            if let Some(n) = o.order.as_ref().filter(|n| (!o.races.is_empty() && racy < 20) || (no < max_order && n.len() < 60_000 && (o.stale > 0 || !replay.is_empty()))) {
                if seen.insert(n.clone()) {
                    no += 1;
                    racy += u64::from(!o.races.is_empty());
                    let e: Vec<String> = o.races.iter().take(3).map(|e| format!("\"{}\"", esc(e))).collect();
                    let n = format!("{},\"races\":[{}]}}", &n[..n.len() - 1], e.join(","));
                    out.write_all(tag(&n).as_bytes()).unwrap();
                }
            }
            if let Some(n) = &o.snap {
                if seen.insert(n.clone()) {
                    ns += 1;
                    out.write_all(tag(n).as_bytes()).unwrap();
                }
            }
            if let Some(n) = o.life.as_ref().filter(|_| (o.life_odd && max_life > 0) || (nl < max_life && (i == 0 || i % spread == r.next() % spread))) {
                odd += u64::from(o.life_odd);
                nl += 1;
                out.write_all(tag(n).as_bytes()).unwrap();
            }
            if !replay.is_empty() {
                break 'outer;
            }
            if susp >= 30 || odd >= 30 || racy >= 20 {
                break 'outer;
            }
        }
        seed += stride;
    }
    writeln!(
        out,
        "{{\"kind\":\"stats\",\"runs\":{runs},\"scenarios\":{scens},\"suspicious\":{susp},\"steps\":{steps},\"unique\":{uniq},\"hist\":{nh},\"nodes\":{nn},\"snaps\":{ns},\"lives\":{nl},\"orders\":{no},\"stale\":{stale},\"racy\":{racy},\"next_seed\":{seed}}}"
    )
    .unwrap();
    out.flush().unwrap();
}

fn warm() {
    let t = <api::ArcTree as api::NewTree>::mk(0);
    for i in 0..3u8 {
        let _ = t.insert(&[i], val::Tracked::new(0));
    }
    let _ = t.get(&[1]);
    let t = <api::InlineTree as api::NewTree>::mk(0);
    let _ = t.insert(&[1], 1);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (cmd, a) = Args::parse();
    sched::init();
    warm();
    sched::on_each_worker(warm);
    match cmd.as_str() {
        "conc" => {
            if a.s("mode", "arc") == "arc" {
                conc_cmd::<masstree::LeafValue<val::Tracked>>(&a);
            } else {
                conc_cmd::<masstree::LeafValueIndex<u64>>(&a);
            }
        }
        "seq" => seq::cmd(&a),
        "tall" => tall::cmd(&a),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}
