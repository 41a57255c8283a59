//! C09: value slots and raw value pointers.

use crate::alloc;
use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use masstree::slot::ValueSlot;
use masstree::value::{LeafValue, LeafValueIndex};
use std::sync::{Arc, Weak};

const SLOTS: usize = 4;

/// What the two storage modes have besides the common trait.
pub trait Mode: ValueSlot + Clone + Default {
    const ARC: bool;
    /// the value a number stands for
    fn make(n: usize) -> Self::Value;
    fn name(o: &Self::Output) -> usize;
    /// something to count holders of the value with
    type Eye;
    fn eye(o: &Self::Output) -> Self::Eye;
    fn count(e: &Self::Eye) -> usize;
    /// the same questions by the type's own methods: empty, value, layer, which value, which layer
    fn own(&self) -> (bool, bool, bool, usize, usize);
    /// the panicking accessors: value and layer, 0 after a panic
    fn hard(&mut self) -> (usize, usize);
    fn block(p: *mut u8) -> usize;
}

#[derive(Debug)]
pub struct Val(usize, #[allow(dead_code)] [u64; 3]);

impl Mode for LeafValue<Val> {
    const ARC: bool = true;
    fn make(n: usize) -> Val {
        Val(n, [n as u64; 3])
    }
    fn name(o: &Arc<Val>) -> usize {
        o.0
    }
    type Eye = Weak<Val>;
    fn eye(o: &Arc<Val>) -> Weak<Val> {
        Arc::downgrade(o)
    }
    fn count(e: &Weak<Val>) -> usize {
        e.strong_count()
    }
    fn own(&self) -> (bool, bool, bool, usize, usize) {
        let v = self.try_as_value().map_or(0, |x| x.0);
        let c = self.try_clone_arc().map_or(0, |x| x.0);
        (Self::is_empty(self), Self::is_value(self), Self::is_layer(self), if v == c { v } else { 98 }, self.try_as_layer().map_or(0, |p| p as usize))
    }
    fn hard(&mut self) -> (usize, usize) {
        let a = caught(|| self.as_value().0).unwrap_or(0);
        let b = caught(|| self.clone_arc().0).unwrap_or(0);
        let c = caught(|| self.as_value_mut().0).unwrap_or(0);
        (if a == b && b == c { a } else { 98 }, caught(|| self.as_layer() as usize).unwrap_or(0))
    }
    fn block(p: *mut u8) -> usize {
        p as usize - 16
    }
}

impl Mode for LeafValueIndex<[usize; 3]> {
    const ARC: bool = false;
    fn make(n: usize) -> [usize; 3] {
        [n; 3]
    }
    fn name(o: &[usize; 3]) -> usize {
        if o[0] == o[1] && o[1] == o[2] { o[0] } else { 97 }
    }
    type Eye = ();
    fn eye(_: &[usize; 3]) {}
    fn count(_: &()) -> usize {
        0
    }
    fn own(&self) -> (bool, bool, bool, usize, usize) {
        (Self::is_empty(self), Self::is_value(self), Self::is_layer(self), self.try_value().map_or(0, |x| Self::name(&x)), self.try_as_layer().map_or(0, |p| p as usize))
    }
    fn hard(&mut self) -> (usize, usize) {
        (caught(|| Self::name(&self.value())).unwrap_or(0), caught(|| self.as_layer() as usize).unwrap_or(0))
    }
    fn block(p: *mut u8) -> usize {
        p as usize
    }
}

use alloc::tracked as t;

fn go<S: Mode>(r: &mut Rng) -> Vec<String> {
    let mut ev = vec![];
    let mut slots: Vec<S> = (0..SLOTS).map(|_| S::default()).collect();
    let mut outs: Vec<S::Output> = vec![];
    let mut raws: Vec<(usize, *mut u8)> = vec![];
    let mut eyes: Vec<S::Eye> = vec![];
    let mut blocks: Vec<(usize, usize)> = vec![];
    let (mut nv, mut nr) = (0, 0);
    let steps = 40 + r.below(200);
    for _ in 0..steps {
        let (s, d) = (r.below(SLOTS), r.below(SLOTS));
        let op = 1 + r.below(15);
        let e: Option<String> = match op {
            1 if nv < 8 => {
                nv += 1;
                let o = t(|| S::into_output(S::make(nv)));
                eyes.push(S::eye(&o));
                let e = format!("[1,{nv},{}", S::name(&o));
                outs.push(o);
                Some(e)
            }
            2 if !outs.is_empty() => {
                let o = outs.swap_remove(r.below(outs.len()));
                let v = S::name(&o);
                slots[s] = t(|| S::from_output(o));
                Some(format!("[2,{},{v}", s + 1))
            }
            3 => {
                let o = t(|| slots[s].try_get());
                let v = o.as_ref().map_or(0, S::name);
                outs.extend(o);
                Some(format!("[3,{},{v}", s + 1))
            }
            4 if !outs.is_empty() && !ValueSlot::is_layer(&slots[s]) => {
                let o = outs.swap_remove(r.below(outs.len()));
                let v = S::name(&o);
                let old = t(|| slots[s].swap_output(o));
                let x = old.as_ref().map_or(0, S::name);
                outs.extend(old);
                Some(format!("[4,{},{v},{x}", s + 1))
            }
            5 if s != d => {
                slots[d] = t(|| slots[s].take());
                Some(format!("[5,{},{}", s + 1, d + 1))
            }
            6 if s != d => {
                slots[d] = t(|| slots[s].clone());
                Some(format!("[6,{},{}", s + 1, d + 1))
            }
            7 | 8 if r.chance(1, 2) => {
                let k = 1 + r.below(5);
                let p = std::ptr::without_provenance_mut(k * 64);
                if op == 7 {
                    slots[s].set_layer(p);
                } else {
                    slots[s] = t(|| S::layer(p));
                }
                Some(format!("[7,{},{k}", s + 1))
            }
            9 if !outs.is_empty() => {
                let o = outs.swap_remove(r.below(outs.len()));
                let e = format!("[9,{}", S::name(&o));
                drop(o);
                Some(e)
            }
            10 | 12 if !outs.is_empty() && raws.len() < 8 => {
                let i = r.below(outs.len());
                let v = S::name(&outs[i]);
                let p = if op == 10 { t(|| S::output_to_raw(&outs[i])) } else { { let o = outs.swap_remove(i); t(|| S::output_consume_to_raw(o)) } };
                nr += 1;
                raws.push((nr, p));
                blocks.push((v, S::block(p)));
                Some(format!("[{op},{nr},{v}"))
            }
            11 if !raws.is_empty() => {
                let (n, p) = *r.pick(&raws);
                let o = t(|| unsafe { S::output_from_raw(p) });
                let e = format!("[11,{n},{}", S::name(&o));
                outs.push(o);
                Some(e)
            }
            13 if !raws.is_empty() => {
                let (n, p) = raws.swap_remove(r.below(raws.len()));
                t(|| unsafe { S::cleanup_value_ptr(p) });
                Some(format!("[13,{n}"))
            }
            14 => {
                let x = &slots[s];
                let q = (ValueSlot::is_empty(x), ValueSlot::is_value(x), ValueSlot::is_layer(x), x.try_get().map_or(0, |o| S::name(&o)), x.try_layer().map_or(0, |p| p as usize));
                let o = x.own();
                let k = u8::from(q.0) + 2 * u8::from(q.1) + 4 * u8::from(q.2);
                Some(format!("[14,{},{k},{},{},{}", s + 1, q.3, q.4 / 64, u8::from(q == o)))
            }
            15 => {
                let (v, l) = slots[s].hard();
                Some(format!("[15,{},{v},{}", s + 1, l / 64))
            }
            _ => None,
        };
        if let Some(e) = e {
            ev.push(format!("{e},{}]", see::<S>(&eyes, &blocks)));
        }
    }
    drop(slots);
    drop(outs);
    for (_, p) in raws {
        t(|| unsafe { S::cleanup_value_ptr(p) });
    }
    ev.push(format!("[16,{}]", see::<S>(&eyes, &blocks)));
    ev
}

/// How often each value is held; in the inline mode, how many of its blocks exist.
pub fn see<S: Mode>(eyes: &[S::Eye], blocks: &[(usize, usize)]) -> String {
    if S::ARC {
        list(eyes.iter().map(S::count))
    } else {
        // a block is counted once, also when its address was used again
        let mut c = vec![0; eyes.len()];
        let mut seen = std::collections::HashSet::new();
        for &(v, b) in blocks.iter().rev() {
            if seen.insert(b) && alloc::is_live(b) {
                c[v - 1] += 1;
            }
        }
        list(c)
    }
}

pub fn trace(_a: &Args, r: &mut Rng) -> Trace {
    alloc::start();
    let arc = r.chance(1, 2);
    let mut ev = if arc { go::<LeafValue<Val>>(r) } else { go::<LeafValueIndex<[usize; 3]>>(r) };
    let rep = alloc::finish(0);
    ev.push(format!("[17,{},{},{}]", rep.leaked_blocks, rep.double, rep.dirty_after_release));
    let n = ev.len();
    (format!("\"arc\":{},\"ev\":{}", u8::from(arc), list(ev)), n)
}
