//! C01: slot permutations of both widths, and the atomic cell.

use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use masstree::leaf_trait::TreePermutation;
use masstree::permuter::Permuter;
use masstree::permuter24::{AtomicPermuter24, Permuter24};
use masstree::suffix::PermutationProvider;
use std::sync::atomic::Ordering::*;

/// The inherent operations of the two permutation types.
pub trait Perm: TreePermutation + PermutationProvider + Copy {
    fn i_empty() -> Self;
    fn i_sorted(n: usize) -> Self;
    fn i_size(&self) -> usize;
    fn i_get(&self, i: usize) -> usize;
    fn i_back(&self) -> usize;
    fn i_back_at(&self, o: usize) -> usize;
    fn i_set_size(&mut self, n: usize);
    fn i_set(&mut self, i: usize, s: usize);
    fn i_swap_free(&mut self, i: usize, j: usize);
    fn i_insert(&mut self, i: usize) -> usize;
    fn i_insert_im(&self, i: usize) -> (Self, usize);
    fn i_remove_to_back(&mut self, i: usize);
    fn i_remove(&mut self, i: usize);
    fn i_exchange(&mut self, i: usize, j: usize);
    fn i_rotate(&mut self, i: usize, j: usize);
    fn i_copy(&self) -> Self;
    fn i_raw(&self) -> String;
    fn blank() -> Self;
}
macro_rules! perm {
    ([$($g:tt)*] $t:ty) => {
        impl $($g)* Perm for $t {
            fn i_empty() -> Self { Self::empty() }
            fn i_sorted(n: usize) -> Self { Self::make_sorted(n) }
            fn i_size(&self) -> usize { self.size() }
            fn i_get(&self, i: usize) -> usize { self.get(i) }
            fn i_back(&self) -> usize { self.back() }
            fn i_back_at(&self, o: usize) -> usize { self.back_at_offset(o) }
            fn i_set_size(&mut self, n: usize) { self.set_size(n) }
            fn i_set(&mut self, i: usize, s: usize) { self.set(i, s) }
            fn i_swap_free(&mut self, i: usize, j: usize) { self.swap_free_slots(i, j) }
            fn i_insert(&mut self, i: usize) -> usize { self.insert_from_back(i) }
            fn i_insert_im(&self, i: usize) -> (Self, usize) { self.insert_from_back_immutable(i) }
            fn i_remove_to_back(&mut self, i: usize) { self.remove_to_back(i) }
            fn i_remove(&mut self, i: usize) { self.remove(i) }
            fn i_exchange(&mut self, i: usize, j: usize) { self.exchange(i, j) }
            fn i_rotate(&mut self, i: usize, j: usize) { self.rotate(i, j) }
            fn i_copy(&self) -> Self { Self::from_value(self.value()) }
            fn i_raw(&self) -> String { format!("{:x}", self.value()) }
            fn blank() -> Self { Self::from_value(0) }
        }
    };
}
perm!([] Permuter24);
perm!([<const W: usize>] Permuter<W>);

/// [size, slots, what is read from the back]
fn state<P: Perm>(p: &P, w: usize) -> String {
    let r = caught(|| {
        let size = p.i_size();
        let tr = PermutationProvider::size(p) == size && TreePermutation::size(p) == size;
        let slots: Vec<usize> = (0..w).map(|i| p.i_get(i)).collect();
        let tr = tr && (0..w).all(|i| PermutationProvider::get(p, i) == slots[i] && TreePermutation::get(p, i) == slots[i]);
        let mut back: Vec<usize> = vec![p.i_back(), TreePermutation::back(p)];
        back.extend((0..w.saturating_sub(size)).map(|o| {
            let b = p.i_back_at(o);
            if TreePermutation::back_at_offset(p, o) == b { b } else { 99 }
        }));
        let tr = tr && <P as TreePermutation>::from_value(TreePermutation::value(p)) == *p;
        let frozen = P::is_frozen_raw(TreePermutation::value(p));
        format!("{},{},{},{}", size, list(slots), list(back), u8::from(tr && !frozen))
    });
    r.unwrap_or_else(|| "-1,[],[],0".into())
}

fn walk<P: Perm>(w: usize, r: &mut Rng, steps: usize) -> Vec<String> {
    let mut ev = vec![];
    let mut p = P::i_empty();
    ev.push(format!("[0,0,0,0,{}]", state(&p, w)));
    let mut grow = true;
    for _ in 0..steps {
        let size = p.i_size();
        if size == w {
            grow = false;
        }
        if size == 0 {
            grow = true;
        }
        let tr = r.chance(1, 2);
        let c = r.below(20);
        let op = match c {
            0 => 1,
            1 => 11,
            2 => 9,
            3 => 6,
            4 => 7,
            5 => 8,
            6 if r.chance(1, 10) => 0,
            _ if size < w && (grow || size == 0 || r.chance(1, 4)) => 2,
            _ if size > 0 => 4 + r.below(2),
            _ => 2,
        };
        ev.push(step(&mut p, w, op, r, tr, None));
        if p.i_size() > w {
            break;
        }
        p = p.i_copy();
    }
    ev
}

fn step<P: Perm>(p: &mut P, w: usize, op: usize, r: &mut Rng, tr: bool, args: Option<(usize, usize)>) -> String {
    let size = p.i_size();
    let mut arg = |n: usize, lo: usize| lo + r.below(n - lo);
    let (a, b) = args.unwrap_or_else(|| match op {
        1 | 9 => (arg(w + 1, 0), 0),
        2 => (arg(size + 1, 0), 0),
        4 | 5 => (arg(size, 0), 0),
        6 => (arg(w, 0), arg(w, 0)),
        7 if size < w => (arg(w, size), arg(w, size)),
        8 => {
            let i = arg(w + 1, 0);
            (i, arg(w + 1, i))
        }
        _ => (0, 0),
    });
    let op = if op == 7 && size >= w { 6 } else { op };
    match op {
        2 => {
            let im = caught(|| if tr { TreePermutation::insert_from_back_immutable(p, a) } else { p.i_insert_im(a) });
            let s = caught(|| if tr { TreePermutation::insert_from_back(p, a) } else { p.i_insert(a) });
            let (ip, is) = match &im {
                Some((ip, is)) => (format!("{},{}", ip.i_size(), list((0..w).map(|i| ip.i_get(i)))), *is as i64),
                None => ("-1,[]".into(), -1),
            };
            format!("[2,{a},0,{},{},{},{}]", s.map_or(-1, |x| x as i64), state(p, w), is, ip)
        }
        11 => {
            // any permutation, written slot by slot
            let mut v: Vec<usize> = (0..w).collect();
            r.shuffle(&mut v);
            let n = r.below(w + 1);
            let ok = caught(|| {
                for (i, &s) in v.iter().enumerate() {
                    p.i_set(i, s);
                }
                p.i_set_size(n);
            });
            format!("[11,{n},0,{},{},{}]", ok.map_or(-1, |()| 0), state(p, w), list(v))
        }
        _ => {
            let ok = caught(|| match op {
                0 => *p = if tr { <P as TreePermutation>::empty() } else { P::i_empty() },
                1 => *p = if tr { <P as TreePermutation>::make_sorted(a) } else { P::i_sorted(a) },
                4 => p.i_remove_to_back(a),
                5 => p.i_remove(a),
                6 => p.i_exchange(a, b),
                7 => {
                    if tr {
                        TreePermutation::swap_free_slots(p, a, b);
                    } else {
                        p.i_swap_free(a, b);
                    }
                }
                8 => p.i_rotate(a, b),
                9 => {
                    if tr {
                        TreePermutation::set_size(p, a);
                    } else {
                        p.i_set_size(a);
                    }
                }
                _ => unreachable!(),
            });
            format!("[{op},{a},{b},{},{}]", ok.map_or(-1, |()| 0), state(p, w))
        }
    }
}

/// Every operation with every argument, from one permutation with every size.
fn all<P: Perm>(w: usize, which: u64, r: &mut Rng) -> Vec<String> {
    let mut left: Vec<usize> = (0..w).collect();
    let mut v = vec![];
    let mut k = which;
    for n in (1..=w as u64).rev() {
        v.push(left.remove((k % n) as usize));
        k /= n;
    }
    let mut ev = vec![];
    for size in 0..=w {
        let mut base = P::blank();
        for (i, &s) in v.iter().enumerate() {
            base.i_set(i, s);
        }
        base.i_set_size(size);
        let make = format!("[11,{size},0,0,{},{}]", state(&base, w), list(v.clone()));
        let mut ops = vec![];
        if size < w {
            ops.extend((0..=size).map(|i| (2, i, 0)));
            for i in size..w {
                ops.extend((size..w).map(|j| (7, i, j)));
            }
        }
        for i in 0..size {
            ops.push((4, i, 0));
            ops.push((5, i, 0));
        }
        for i in 0..w {
            ops.extend((0..w).map(|j| (6, i, j)));
        }
        for i in 0..=w {
            ops.extend((i..=w).map(|j| (8, i, j)));
            ops.push((9, i, 0));
            ops.push((1, i, 0));
        }
        for (op, a, b) in ops {
            let mut p = base;
            ev.push(make.clone());
            ev.push(step(&mut p, w, op, r, r.clone().chance(1, 2), Some((a, b))));
        }
    }
    ev
}

/// The atomic cell: values are compared as words.
fn cell(r: &mut Rng) -> Vec<String> {
    let mut seen = vec![Permuter24::empty()];
    let c = if r.chance(1, 2) { AtomicPermuter24::new() } else { AtomicPermuter24::default() };
    let mut ev = vec![format!("[20,\"{}\"]", seen[0].i_raw())];
    for _ in 0..60 {
        let old = *r.pick(&seen);
        let mut new = old;
        if new.size() < 24 && r.chance(2, 3) {
            let at = r.below(new.size() + 1);
            let _ = new.insert_from_back(at);
        } else if new.size() > 0 {
            let at = r.below(new.size());
            new.remove(at);
        }
        seen.push(new);
        let cur = c.load(Acquire);
        ev.push(format!("[21,\"{}\"]", cur.i_raw()));
        let exp = if r.chance(1, 2) { cur } else { *r.pick(&seen) };
        let fmt = |op: u8, res: Result<String, String>| {
            let (k, g) = match res {
                Ok(g) => (1, g),
                Err(g) => (0, g),
            };
            format!("[{op},\"{}\",\"{}\",{k},\"{g}\"]", exp.i_raw(), new.i_raw())
        };
        match r.below(5) {
            0 => {
                c.store(new, Release);
                ev.push(format!("[20,\"{}\"]", new.i_raw()));
            }
            1 => ev.push(fmt(22, c.compare_exchange(exp, new, AcqRel, Acquire).map(|x| x.i_raw()).map_err(|x| x.i_raw()))),
            2 => ev.push(fmt(23, c.compare_exchange_weak(exp, new, AcqRel, Acquire).map(|x| x.i_raw()).map_err(|x| x.i_raw()))),
            3 => ev.push(fmt(22, c.compare_exchange_raw(exp.value(), new.value(), AcqRel, Acquire).map(|x| format!("{x:x}")).map_err(|x| format!("{x:x}")))),
            _ => {
                c.store_raw(new.value(), Release);
                ev.push(format!("[20,\"{}\"]", new.i_raw()));
                ev.push(format!("[21,\"{:x}\"]", c.load_raw(Acquire)));
            }
        }
    }
    ev
}

pub fn trace(a: &Args, r: &mut Rng) -> Trace {
    let seed = a.n("seed", 0);
    let _ = seed;
    let (w, ev) = match a.s("what", "walk").as_str() {
        "cell" => (24, cell(r)),
        "all3" => (3, all::<Permuter<3>>(3, r.next() % 6, r)),
        "all4" => (4, all::<Permuter<4>>(4, r.next() % 24, r)),
        "all" => {
            let k = r.next();
            match r.below(4) {
                0 => (2, all::<Permuter<2>>(2, k % 2, r)),
                1 => (3, all::<Permuter<3>>(3, k % 6, r)),
                2 => (4, all::<Permuter<4>>(4, k % 24, r)),
                _ => (5, all::<Permuter<5>>(5, k % 120, r)),
            }
        }
        _ => {
            let n = 150;
            match r.below(10) {
                0 => (1, walk::<Permuter<1>>(1, r, n)),
                1 => (7, walk::<Permuter<7>>(7, r, n)),
                2 => (14, walk::<Permuter<14>>(14, r, n)),
                3 | 4 => (15, walk::<Permuter<15>>(15, r, n)),
                _ => (24, walk::<Permuter24>(24, r, n)),
            }
        }
    };
    let n = ev.len();
    (format!("\"w\":{w},\"ev\":[{}]", ev.join(",")), n)
}
