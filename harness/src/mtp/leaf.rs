//! C11: a leaf as a record of fields, by one thread; and claims of its slots by several.

use crate::alloc::{self, tracked as t};
use crate::log;
use crate::rec::{Args, Trace, list};
use crate::rng::Rng;
use crate::sched;
use crate::slot::{Mode, Val};
use masstree::key::Key;
use masstree::leaf_trait::{LayerCapableLeaf, TreeLeafNode};
use masstree::leaf24::{LeafNode24, ModState24};
use masstree::permuter24::Permuter24;
use masstree::value::{LeafValue, LeafValueIndex};
use std::sync::Arc;

const W: usize = 24;
const NK: usize = 6;
type Leaf<S> = LeafNode24<S>;

fn fake<T>(k: usize) -> *mut T {
    std::ptr::without_provenance_mut(k * 64)
}
fn b(x: bool) -> u8 {
    u8::from(x)
}
/// One answer by the type's own method and by the trait's.
fn same<T: PartialEq>(x: T, y: T, bad: T) -> T {
    if x == y { x } else { bad }
}

struct World {
    keys: Vec<u64>,
    sufs: Vec<Vec<u8>>,
    raws: Vec<(*mut u8, usize)>,
}
impl World {
    fn key(&self, k: u64) -> i64 {
        self.keys.iter().position(|x| *x == k).map_or(-1, |x| x as i64)
    }
    fn suf(&self, s: Option<&[u8]>) -> i64 {
        s.map_or(-1, |s| self.sufs.iter().position(|x| x == s).map_or(-2, |x| x as i64))
    }
    fn val(&self, p: *mut u8) -> usize {
        if p.is_null() {
            0
        } else if p.addr() < 0x10000 {
            p.addr() / 64
        } else {
            self.raws.iter().rev().find(|x| x.0 == p).map_or(99, |x| x.1)
        }
    }
}

fn go<S: Mode>(r: &mut Rng) -> (u8, Vec<String>)
where
    S::Value: Send + Sync,
    S::Output: Send + Sync,
    Leaf<S>: LayerCapableLeaf<S> + TreeLeafNode<S, Perm = Permuter24>,
{
    let mut keys = vec![0];
    while keys.len() < NK {
        let k = match r.below(3) {
            0 => r.next(),
            1 => keys[r.below(keys.len())] ^ (1 << r.below(64)),
            _ => (1 + r.below(255) as u64) << (8 * r.below(8)),
        };
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    let mut sufs: Vec<Vec<u8>> = vec![];
    while sufs.len() < 6 {
        let m = if r.chance(1, 4) { 60 } else { 9 };
        let s: Vec<u8> = (0..1 + r.below(m)).map(|_| r.below(3) as u8).collect();
        if !sufs.contains(&s) {
            sufs.push(s);
        }
    }
    let mut w = World { keys, sufs, raws: vec![] };
    let col = seize::Collector::new().batch_size(*r.pick(&[1, 3]));
    let root = r.below(3);
    let mut l: Box<Leaf<S>> = t(|| match (root, r.below(2)) {
        (0, 0) => Leaf::new(),
        (0, _) => TreeLeafNode::new_boxed(),
        (1, 0) => Leaf::new_root(),
        (1, _) => TreeLeafNode::new_root_boxed(),
        (_, 0) => Leaf::new_layer_root(),
        _ => TreeLeafNode::new_layer_root_boxed(),
    });
    let mut ev = vec![];
    let (mut eyes, mut blocks): (Vec<S::Eye>, Vec<(usize, usize)>) = (vec![], vec![]);
    let mut nv = 0;
    let narrow = if r.chance(1, 2) { 4 } else { W };
    let mut perm: Vec<usize> = vec![];
    // what would break the rules of use: a value under a layer's class or the other way round
    let make = |nv: &mut usize, eyes: &mut Vec<S::Eye>| {
        *nv += 1;
        let o = t(|| S::into_output(S::make(*nv)));
        eyes.push(S::eye(&o));
        o
    };
    for _ in 0..30 + r.below(120) {
        let s = if r.chance(1, 6) { *r.pick(&[0, W - 1]) } else { r.below(narrow) };
        let p = l.leaf_value_ptr(s);
        let has = w.val(p);
        let layer = l.keylenx(s) >= 128;
        let own = r.chance(1, 2);
        let class = |r: &mut Rng| -> u8 {
            match (has, layer) {
                (0, _) => *r.pick(&[0, 3, 8, 64, 127, 128, 255]),
                (_, true) => *r.pick(&[128, 129, 192, 255]),
                _ => *r.pick(&[0, 1, 5, 8, 63, 64, 65, 127]),
            }
        };
        let k = r.below(NK);
        let q = s + 1;
        let e: Option<String> = match r.below(32) {
            0 => {
                if own { l.set_ikey(s, w.keys[k]) } else { TreeLeafNode::set_ikey(&*l, s, w.keys[k]) }
                Some(format!("[1,{q},{k}"))
            }
            1 => {
                let x = class(r);
                if own { l.set_keylenx(s, x) } else { TreeLeafNode::set_keylenx(&*l, s, x) }
                Some(format!("[2,{q},{x}"))
            }
            2 | 3 if has == 0 && !layer && nv < 40 => {
                let o = make(&mut nv, &mut eyes);
                let raw = t(|| S::output_consume_to_raw(o));
                w.raws.push((raw, nv));
                blocks.push((nv, S::block(raw)));
                if own { l.set_leaf_value_ptr(s, raw) } else { TreeLeafNode::set_leaf_value_ptr(&*l, s, raw) }
                Some(format!("[3,{q},{nv}"))
            }
            2..=4 if has == 0 && layer => {
                let n = 100 + r.below(9);
                l.set_leaf_value_ptr(s, fake(n));
                Some(format!("[3,{q},{n}"))
            }
            5 => {
                let x = if own { l.take_leaf_value_ptr(s) } else { TreeLeafNode::take_leaf_value_ptr(&*l, s) };
                let v = w.val(x);
                if v > 0 && v < 99 {
                    t(|| unsafe { S::cleanup_value_ptr(x) });
                }
                Some(format!("[4,{q},{v}"))
            }
            6 | 7 if !layer && nv < 40 => {
                let o = make(&mut nv, &mut eyes);
                let raw = t(|| S::output_consume_to_raw(o));
                w.raws.push((raw, nv));
                blocks.push((nv, S::block(raw)));
                let exp = if r.chance(2, 3) { p } else { *r.pick(&[std::ptr::null_mut(), fake(50), raw]) };
                let ev = if exp == raw { nv } else { w.val(exp) };
                let x = if own { l.cas_slot_value(s, exp, raw) } else { TreeLeafNode::cas_slot_value(&*l, s, exp, raw) };
                let new = nv;
                match x {
                    Ok(()) => {
                        if has > 0 {
                            t(|| unsafe { S::cleanup_value_ptr(p) });
                        }
                        Some(format!("[5,{q},{ev},{new},1,0"))
                    }
                    Err(a) => {
                        t(|| unsafe { S::cleanup_value_ptr(raw) });
                        Some(format!("[5,{q},{ev},{new},0,{}", w.val(a)))
                    }
                }
            }
            8 => {
                let x = class(r);
                unsafe {
                    if own { l.store_key_data_for_cas(s, w.keys[k], x) } else { TreeLeafNode::store_key_data_for_cas(&*l, s, w.keys[k], x) }
                }
                Some(format!("[6,{q},{k},{x}"))
            }
            9 => {
                let (n, m) = (r.below(4), r.below(2));
                let x: *mut Leaf<S> = fake::<Leaf<S>>(n).map_addr(|a| a | m);
                if own { l.set_next(x) } else { TreeLeafNode::set_next(&*l, x) }
                Some(format!("[7,{n},{m}"))
            }
            10 | 11 => {
                let m = r.below(2);
                match (m, own) {
                    (1, true) => l.mark_next(),
                    (1, false) => TreeLeafNode::mark_next(&*l),
                    (_, true) => l.unmark_next(),
                    _ => TreeLeafNode::unmark_next(&*l),
                }
                Some(format!("[8,{m}"))
            }
            12 => {
                let n = r.below(4);
                if own { l.set_prev(fake(n)) } else { TreeLeafNode::set_prev(&*l, fake(n)) }
                Some(format!("[9,{n}"))
            }
            13 => {
                let n = r.below(4);
                if own { l.set_parent(fake(n)) } else { TreeLeafNode::set_parent(&*l, fake(n)) }
                Some(format!("[10,{n}"))
            }
            14 => {
                let m = r.below(3);
                l.set_modstate([ModState24::Insert, ModState24::Remove, ModState24::DeletedLayer][m]);
                Some(format!("[11,{m}"))
            }
            15 => {
                let mut x = Permuter24::empty();
                perm.clear();
                for _ in 0..*r.pick(&[0, 1, 5, 23, 24]) {
                    let i = r.below(perm.len() + 1);
                    perm.insert(i, x.insert_from_back(i) + 1);
                }
                if own { l.set_permutation(x) } else { TreeLeafNode::set_permutation(&*l, x) }
                Some(format!("[12,{}", list(&perm)))
            }
            16 if !(layer && has > 0) => {
                let f = r.below(w.sufs.len());
                let g = col.enter();
                t(|| unsafe {
                    if own { l.assign_ksuf(s, &w.sufs[f], &g) } else { TreeLeafNode::assign_ksuf(&*l, s, &w.sufs[f], &g) }
                });
                Some(format!("[13,{q},{f}"))
            }
            17 if !(layer && has > 0) => {
                let g = col.enter();
                t(|| unsafe {
                    if own { l.clear_ksuf(s, &g) } else { TreeLeafNode::clear_ksuf(&*l, s, &g) }
                });
                Some(format!("[14,{q}"))
            }
            18..=20 if has == 0 && nv < 40 => {
                let o = make(&mut nv, &mut eyes);
                let (f, len) = if r.chance(1, 2) { (r.below(w.sufs.len()) as i64, 8) } else { (-1, r.below(9)) };
                let depth = if f < 0 && len == 0 { 0 } else { r.below(3) };
                let mut bytes = vec![7u8; depth * 8];
                // a slice of fewer than eight bytes ends in zeros, or the key is another one
                let kk = if len < 8 { 0 } else { k };
                bytes.extend(&w.keys[kk].to_be_bytes()[..len]);
                if f >= 0 {
                    bytes.extend(&w.sufs[f as usize]);
                }
                let mut key = Key::new(&bytes);
                (0..depth).for_each(|_| key.shift());
                let g = col.enter();
                t(|| unsafe { LayerCapableLeaf::assign_from_key_arc(&*l, s, &key, Some(o), &g) });
                let raw = l.leaf_value_ptr(s);
                w.raws.push((raw, nv));
                blocks.push((nv, S::block(raw)));
                Some(format!("[15,{q},{kk},{len},{f},{nv}"))
            }
            21 if r.chance(1, 4) => {
                l.make_layer_root();
                Some("[16,0".to_string())
            }
            22..=25 => {
                let (kx, kt) = (l.keylenx(s), TreeLeafNode::keylenx(&*l, s));
                let v = same(w.val(l.leaf_value_ptr(s)), w.val(TreeLeafNode::leaf_value_ptr(&*l, s)), 98);
                let v2 = same(w.val(l.load_slot_value(s)), w.val(TreeLeafNode::load_slot_value(&*l, s)), 98);
                let la = same(l.is_layer(s), TreeLeafNode::is_layer(&*l, s), false);
                let la = b(la) + 2 * b(la != Leaf::<S>::keylenx_is_layer(kx));
                let ks = same(l.has_ksuf(s), TreeLeafNode::has_ksuf(&*l, s), false);
                let ks = b(ks) + 2 * b(ks != Leaf::<S>::keylenx_has_ksuf(kx));
                let sf = same(w.suf(l.ksuf(s)), w.suf(TreeLeafNode::ksuf(&*l, s)), -3);
                let e = same(l.ksuf_or_empty(s), TreeLeafNode::ksuf_or_empty(&*l, s), b"?") == l.ksuf(s).unwrap_or(&[]);
                let sf = if e { sf } else { -4 };
                let ik = same(w.key(l.ikey(s)), w.key(TreeLeafNode::ikey(&*l, s)), -2);
                Some(format!("[20,{q},[{ik},{},{},{la},{ks},{},{sf}]", same(kx, kt, 99), same(v, v2, 97), b(l.is_slot_empty(s))))
            }
            26 | 27 => {
                let nx = l.next_raw();
                let nx2 = TreeLeafNode::next_raw(&*l);
                let safe = same(l.safe_next(), TreeLeafNode::safe_next(&*l), fake(77));
                let mark = same(l.next_is_marked(), TreeLeafNode::next_is_marked(&*l), nx == nx2);
                let ok = nx == nx2 && masstree::is_marked(nx) == mark && masstree::unmark_ptr(nx) == safe && masstree::mark_ptr(safe).addr() == safe.addr() | 1;
                let pm = l.permutation();
                let live: Vec<usize> = (0..pm.size()).map(|i| pm.get(i) + 1).collect();
                let pm2 = TreeLeafNode::permutation(&*l);
                let raw = same(l.permutation_raw(), TreeLeafNode::permutation_raw(&*l), 0);
                let live = if pm2 == pm && raw == pm.value() { live } else { vec![99] };
                let n = same(l.size(), TreeLeafNode::size(&*l), 99);
                let kb = if pm.size() > 0 { l.keylenx_bound() as i64 } else { -1 };
                Some(format!(
                    "[21,[{},{},{},{},{},{},{},{n},{},{},{kb}],{}",
                    same(w.key(l.ikey_bound()), w.key(TreeLeafNode::ikey_bound(&*l)), -2),
                    if ok { safe.addr() / 64 } else { 88 },
                    b(mark),
                    same(l.prev(), TreeLeafNode::prev(&*l), fake(77)).addr() / 64,
                    same(l.parent(), TreeLeafNode::parent(&*l), fake(77)).addr() / 64,
                    l.modstate() as u8,
                    b(same(l.version().is_root(), TreeLeafNode::version(&*l).is_root(), false)) + 2 * b(!l.version().is_leaf()),
                    same(b(l.is_empty()), b(TreeLeafNode::is_empty(&*l)), 7),
                    same(b(l.is_full()), b(TreeLeafNode::is_full(&*l)), 7),
                    list(live)
                ))
            }
            28 => {
                let x = same(b(l.can_reuse_slot0(w.keys[k])), b(TreeLeafNode::can_reuse_slot0(&*l, w.keys[k])), 7);
                Some(format!("[22,{k},{x}"))
            }
            29 => {
                let m = [TreeLeafNode::find_ikey_matches(&*l, w.keys[k]), masstree::ksearch::find_ikey_matches_leaf24(w.keys[k], &*l)];
                let m = m.iter().map(|m| list((0..32).filter(|i| m >> i & 1 == 1).map(|i| i + 1)));
                Some(format!("[23,{k},{},{}", list(l.load_all_ikeys().iter().map(|k| w.key(*k))), list(m)))
            }
            30 | 31 => {
                let o = t(|| LayerCapableLeaf::try_clone_output(&*l, s));
                Some(format!("[24,{q},{}", o.as_ref().map_or(0, S::name)))
            }
            _ => None,
        };
        if let Some(e) = e {
            ev.push(format!("{e},{}]", crate::slot::see::<S>(&eyes, &blocks)));
        }
    }
    t(|| drop(l));
    ev.push(format!("[25,0,{}]", crate::slot::see::<S>(&eyes, &blocks)));
    t(|| drop(col));
    drop(eyes);
    (u8::from(root > 0), ev)
}

pub fn trace(_a: &Args, r: &mut Rng) -> Trace {
    alloc::start();
    let arc = r.chance(1, 2);
    let (root, mut ev) = if arc { go::<LeafValue<Val>>(r) } else { go::<LeafValueIndex<[usize; 3]>>(r) };
    let rep = alloc::finish(0);
    let none = ev.last().map_or("[]".to_string(), |e| e[e.find(",[").unwrap() + 1..e.len() - 1].to_string());
    ev.push(format!("[26,[{},{},{}],{none}]", rep.leaked_blocks, rep.double, rep.dirty_after_release));
    let n = ev.len();
    (format!("\"root\":{root},\"ev\":{}", list(ev)), n)
}

// Several threads on the slots of one leaf.

type Plain = LeafNode24<LeafValueIndex<u64>>;
const AT: [usize; 3] = [0, 11, 23];

fn call(t: usize, op: u8, s: usize, rest: &[usize]) {
    let rest: String = rest.iter().map(|x| format!(",{x}")).collect();
    log::put(format!("[0,{t},{op},{s}{rest}]"));
}
fn ret(t: usize, x: i64) {
    log::put(format!("[1,{t},{x}]"));
}
fn num(p: *mut u8) -> i64 {
    (p.addr() / 64) as i64
}

fn claimer(me: usize, l: &Plain, r: &mut Rng) {
    for i in 0..2 + r.below(3) {
        let s = 1 + r.below(3);
        let at = AT[s - 1];
        // every stored number tells who stored it and when
        let n = me * 10 + i;
        match r.below(10) {
            0..=3 => {
                let exp = if r.chance(3, 4) {
                    0
                } else {
                    call(me, 1, s, &[]);
                    let v = num(l.load_slot_value(at));
                    ret(me, v);
                    v as usize
                };
                call(me, 2, s, &[exp, n]);
                let x = if r.chance(1, 2) { l.cas_slot_value(at, fake(exp), fake(n)) } else { TreeLeafNode::cas_slot_value(l, at, fake(exp), fake(n)) };
                ret(me, x.map_or_else(num, |()| -1));
                if x.is_ok() && exp == 0 {
                    call(me, 10, s, &[n, n]);
                    unsafe { l.store_key_data_for_cas(at, n as u64, n as u8) };
                    ret(me, 0);
                    if r.chance(1, 2) {
                        call(me, 2, s, &[n, 0]);
                        let x = l.cas_slot_value(at, fake(n), fake(0));
                        ret(me, x.map_or_else(num, |()| -1));
                    }
                }
            }
            4 => {
                call(me, 3, s, &[]);
                let x = l.take_leaf_value_ptr(at);
                ret(me, num(x));
            }
            5 => {
                call(me, 4, s, &[n]);
                l.set_leaf_value_ptr(at, fake(n));
                ret(me, 0);
            }
            6 => {
                call(me, 5, s, &[]);
                let x = l.is_slot_empty(at);
                ret(me, i64::from(x));
            }
            7 => {
                call(me, 6, s, &[]);
                let x = l.ikey(at);
                ret(me, x as i64);
                call(me, 7, s, &[]);
                let x = l.keylenx(at);
                ret(me, i64::from(x));
            }
            8 => {
                call(me, 8, s, &[n]);
                l.set_ikey(at, n as u64);
                ret(me, 0);
            }
            _ => {
                call(me, 9, s, &[n]);
                l.set_keylenx(at, n as u8);
                ret(me, 0);
            }
        }
    }
}

pub fn claim(_a: &Args, r: &mut Rng) -> Trace {
    log::begin();
    let leaf: Arc<Box<Plain>> = Arc::new(Plain::new());
    let n = 2 + r.below(3);
    let mut tasks: Vec<(usize, Box<dyn FnOnce() + Send>)> = vec![];
    for t in 0..n {
        let l = leaf.clone();
        let mut r = Rng::new(r.next());
        tasks.push((t, Box::new(move || claimer(t + 1, &l, &mut r))));
    }
    let st = log::strategy(r, n, 24);
    sched::run(tasks, st, 200_000);
    let l = log::end();
    AT.iter().for_each(|s| leaf.set_leaf_value_ptr(*s, std::ptr::null_mut()));
    let k = l.ev.len();
    (format!("\"nt\":{n},\"ev\":{}", list(l.ev)), k)
}
