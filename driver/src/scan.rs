//! `--scan`: evaluates very many calls on the crate under test and on its pinned copy and reports
//! the ones whose outcomes differ, so that they get recorded and judged by the specification.
//! Nothing is decided here.
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Duration;

/// A call of the crate under test that takes longer is reported instead of waited for.
const PATIENCE: u64 = 12;

fn size(name: &str, x: &[u64], y: &[u64]) -> f64 {
    if x.len() != y.len() {
        return 1e300;
    }
    let mut m = 0.0f64;
    for (i, (&x, &y)) in x.iter().zip(y).enumerate() {
        if x == y {
            continue;
        }
        let (u, v) = (f64::from_bits(x), f64::from_bits(y));
        let d = if name == "frexp" && i == 1 {
            1.0
        } else if u.is_finite() != v.is_finite() {
            1e200
        } else if u == v {
            1e-3 // the sign of zero
        } else {
            (u - v).abs() / u.abs().max(v.abs()).max(1e-307)
        };
        m = m.max(if d.is_nan() { 1e200 } else { d });
    }
    m
}

pub fn run(out: &mut dyn Write) {
    static DONE: AtomicU64 = AtomicU64::new(u64::MAX);
    std::thread::spawn(|| {
        let (mut last, mut since) = (u64::MAX, 0);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let d = DONE.load(Relaxed);
            since = if d == last && d != u64::MAX { since + 1 } else { 0 };
            last = d;
            if since >= PATIENCE {
                eprintln!("hang {d}");
                std::process::exit(3);
            }
        }
    });
    for (i, l) in io::stdin().lock().lines().enumerate() {
        let l = l.unwrap();
        let p: Vec<&str> = l.split_whitespace().collect();
        DONE.store(i as u64, Relaxed);
        let x = catch_unwind(AssertUnwindSafe(|| super::now::call(p[0], &p[1..]))).unwrap_or_default();
        DONE.store(u64::MAX, Relaxed);
        let y = catch_unwind(AssertUnwindSafe(|| super::pinned::call(p[0], &p[1..]))).unwrap_or_default();
        if i % 1000 == 0 {
            out.flush().unwrap();
        }
        if x != y {
            writeln!(out, "{i} {:e}", size(p[0], &x, &y)).unwrap();
        }
    }
    writeln!(out, "end").unwrap();
}
