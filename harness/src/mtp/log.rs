//! The common log of a run: calls, returns and changes of words in their one true order.

use crate::rng::Rng;
use crate::sched::{self, Strategy};
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Default)]
pub struct Log {
    pub ev: Vec<String>,
    pub ids: HashMap<u128, usize>,
}
pub static LOG: Mutex<Option<Log>> = Mutex::new(None);

pub fn begin() {
    *LOG.lock().unwrap() = Some(Log::default());
}
pub fn end() -> Log {
    LOG.lock().unwrap().take().unwrap_or_default()
}
pub fn with<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    sched::quiet(|| f(LOG.lock().unwrap().as_mut().unwrap()))
}
pub fn put(s: String) {
    with(|l| l.ev.push(s));
}
/// A word gets a number.
pub fn id(w: u128) -> usize {
    with(|l| {
        let n = l.ids.len() + 1;
        *l.ids.entry(w).or_insert(n)
    })
}

pub fn strategy(r: &mut Rng, n: usize, steps: u64) -> Strategy {
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    match r.below(8) {
        0 => Strategy::Pct { seed: r.next() >> 20, d: 1 + r.below(5) as u32, k: steps as u32 },
        1..=3 => Strategy::Random { seed: r.next() >> 20, num: 1, den: *r.pick(&[7, 14, 30, 70]) },
        _ => {
            let k = 1 + r.below(5);
            let mut at: Vec<(usize, u64, usize)> = (0..k)
                .map(|_| {
                    let t = r.below(n);
                    (t, 1 + r.next() % (steps / n as u64).max(1), (t + 1 + r.below(n.max(2) - 1)) % n)
                })
                .collect();
            at.sort_by_key(|x| x.1);
            Strategy::Preempt { order, at }
        }
    }
}
