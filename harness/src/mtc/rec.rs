//! Arguments, the loop over seeds, and small helpers for writing records.

use crate::rng::Rng;
use std::collections::HashMap;
use std::io::Write;
use std::time::{Duration, Instant};

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn parse() -> (String, Self) {
        let v: Vec<String> = std::env::args().skip(1).collect();
        let mut m = HashMap::new();
        let mut i = 1;
        while i < v.len() {
            let k = v[i].trim_start_matches("--").to_string();
            m.insert(k, v.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        }
        (v.first().cloned().unwrap_or_default(), Self(m))
    }
    pub fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map_or(d, |x| x.parse().unwrap())
    }
}

/// One record: the body of a json object without the braces, and its number of events.
pub type Trace = (String, usize);

/// Record traces for seeds seed, seed+stride, ... until `traces` or `ms` are used up.
pub fn drive(a: &Args, kind: &str, f: fn(&Args, &mut Rng) -> Trace) {
    use std::os::unix::fs::FileExt;
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let status = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(a.s("status", "/tmp/mtc.status")).unwrap();
    let what = a.s("what", "all");
    let (mut seed, stride, max) = (a.n("seed", 1), a.n("stride", 1), a.n("traces", 100));
    let budget = Duration::from_millis(a.n("ms", 5000));
    let start = Instant::now();
    let (mut n, mut ev) = (0u64, 0u64);
    while n < max && (n == 0 || start.elapsed() < budget) {
        let _ = status.write_all_at(format!("{what} {seed}                    \n").as_bytes(), 0);
        let (body, k) = f(a, &mut Rng::new(seed));
        writeln!(out, "{{\"kind\":\"{kind}\",\"run\":{{\"what\":\"{what}\",\"seed\":{seed}}},{body}}}").unwrap();
        n += 1;
        ev += k as u64;
        seed += stride;
    }
    writeln!(out, "{{\"kind\":\"stats\",\"traces\":{n},\"events\":{ev},\"next_seed\":{seed}}}").unwrap();
    out.flush().unwrap();
}

/// What a call returned, or None when it panicked.
pub fn caught<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

pub fn list<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let s: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}
