//! C04: keys seen as eight-byte slices.

use crate::rec::{Args, Trace, caught, list};
use crate::rng::Rng;
use masstree::key::Key;
use std::cmp::Ordering;

fn bytes(r: &mut Rng, len: usize) -> Vec<u8> {
    match r.below(4) {
        0 => (0..len).map(|_| r.below(256) as u8).collect(),
        1 => (0..len).map(|_| r.below(2) as u8).collect(),
        2 => (0..len).map(|_| *r.pick(&[0u8, 0x7f, 0x80, 0xff])).collect(),
        _ => vec![*r.pick(&[0u8, 1, 0xff]); len],
    }
}
fn length(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.below(10),
        1 => 8 * r.below(33),
        2 => (8 * r.below(33)).saturating_sub(1),
        3 => (8 * r.below(32)) + 1,
        4 => 250 + r.below(7),
        _ => r.below(257),
    }
}
fn related(r: &mut Rng, k: &[u8]) -> Vec<u8> {
    let mut v = k.to_vec();
    for _ in 0..1 + r.below(2) {
        match r.below(6) {
            0 => v.truncate(r.below(v.len() + 1)),
            1 => v.push(*r.pick(&[0u8, 1, 0xff])),
            2 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = v[i].wrapping_add(*r.pick(&[1u8, 0x80, 0xff]));
            }
            3 => v.extend(std::iter::repeat_n(0, r.below(10))),
            4 => v.truncate(v.len() / 8 * 8),
            _ => {}
        }
    }
    v.truncate(256);
    v
}
fn sign(o: Ordering) -> i8 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
/// what a key shows: slice, current length, has a suffix, suffix, its length, shifts, suffix start, length, empty, shifted
fn view(k: &Key<'_>) -> String {
    caught(|| {
        format!(
            "{},{},{},{},{},{},{},{},{},{}",
            list(k.ikey().to_be_bytes()),
            k.current_len(),
            u8::from(k.has_suffix()),
            list(k.suffix()),
            k.suffix_len(),
            k.shift_count(),
            k.suffix_start(),
            k.len(),
            u8::from(k.is_empty()),
            u8::from(k.is_shifted())
        )
    })
    .unwrap_or_else(|| "[],-1,-1,[],-1,-1,-1,-1,-1,-1".into())
}

pub fn trace(_a: &Args, r: &mut Rng) -> Trace {
    let l = length(r);
    let d = bytes(r, l);
    let o = match r.below(3) {
        0 => {
            let l = length(r);
            bytes(r, l)
        }
        _ => related(r, &d),
    };
    let mut ev = vec![];
    let mut k = if r.chance(1, 2) { Key::new(&d) } else { Key::from_suffix(&d) };
    ev.push(format!("[0,0,{}]", view(&k)));
    for _ in 0..2 + r.below(40) {
        let more = k.has_suffix();
        let (op, a): (u8, usize) = match r.below(8) {
            0..=2 if more => (1, 0),
            3 if more => {
                let left = k.suffix_len().div_ceil(8);
                (2, 8 * r.below(left + 1))
            }
            4 | 5 if k.is_shifted() => (3, 0),
            6 => (4, 0),
            7 => {
                // compare with any slice and length
                let s: u64 = if r.chance(2, 3) { k.ikey().wrapping_add(r.below(3) as u64).wrapping_sub(1) } else { r.next() };
                let len = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 64, 128, k.current_len()]);
                let c = caught(|| k.compare(s, len)).map_or(-9, sign);
                let ci = caught(|| Key::compare_ikey(k.ikey(), s)).map_or(-9, sign);
                ev.push(format!("[5,{},{len},{c},{ci}]", list(s.to_be_bytes())));
                continue;
            }
            _ => {
                let at = if r.chance(1, 2) { 8 * r.below(34) } else { r.below(270) };
                let got = caught(|| Key::read_ikey(&d, at)).map_or(vec![], |x| x.to_be_bytes().to_vec());
                ev.push(format!("[6,{at},{}]", list(got)));
                continue;
            }
        };
        let ok = caught(|| match op {
            1 => k.shift(),
            2 => k.shift_by(a),
            3 => k.unshift(),
            _ => k.unshift_all(),
        });
        if ok.is_none() {
            ev.push(format!("[{op},-1,{}]", view(&k)));
            break;
        }
        ev.push(format!("[{op},{a},{}]", view(&k)));
    }
    ev.push(format!("[8,{}]", list(k.full_data())));
    // a slice alone, and the bytes of an incomplete one
    let s: u64 = if r.chance(1, 2) { k.ikey() } else { r.next() << (8 * r.below(8)) };
    let f = Key::from_ikey(s);
    ev.push(format!("[9,{},{},{},{}]", list(s.to_be_bytes()), list(f.ikey().to_be_bytes()), f.suffix_start(), u8::from(f.is_shifted())));
    let few = &d[..r.below(8).min(d.len())];
    let got = caught(|| Key::read_ikey_slow(few)).map_or(vec![], |x| x.to_be_bytes().to_vec());
    ev.push(format!("[10,{},{}]", list(few), list(got)));
    // order as a tree sees it: slice by slice, then lengths
    let res = caught(|| {
        let (mut x, mut y) = (Key::new(&d), Key::new(&o));
        loop {
            let c = x.compare(y.ikey(), if y.has_suffix() { 9 } else { y.current_len() });
            if c != Ordering::Equal || !x.has_suffix() || !y.has_suffix() {
                return sign(c);
            }
            x.shift();
            y.shift();
        }
    });
    ev.push(format!("[7,{},{}]", list(&o), res.unwrap_or(-9)));
    // the slices put together again
    let back = caught(|| {
        let mut x = Key::new(&d);
        let mut v = vec![];
        loop {
            let n = x.current_len().min(8);
            v.extend_from_slice(&x.ikey().to_be_bytes()[..n]);
            if !x.has_suffix() {
                return v;
            }
            x.shift();
        }
    });
    ev.push(format!("[8,{}]", list(back.unwrap_or(vec![0; 300]))));
    let n = ev.len();
    (format!("\"data\":{},\"ev\":[{}]", list(&d), ev.join(",")), n)
}
