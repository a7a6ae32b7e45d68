//! Conformance driver: executes call plans against the real puruspe crate and
//! records one event per call.  Every public numeric entry point is reachable
//! as `name args...` where f64 arguments/results travel as hexadecimal IEEE-754 bits and
//! integers in decimal.  It never judges anything: the Quint specification does.
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod cache;

fn f(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).expect("hex f64"))
}

/// Result bits; every NaN is reported as the same one.
fn b(v: f64) -> u64 {
    if v.is_nan() {
        return 0x7ff8_0000_0000_0000;
    }
    v.to_bits()
}

mod now {
    use puruspe as api;
    include!("table.rs");
}
mod pinned {
    use puruspe_pinned as api;
    include!("table.rs");
}
mod scan;
pub use now::call;

fn outcome(p: &[&str]) -> String {
    match catch_unwind(AssertUnwindSafe(|| call(p[0], &p[1..]))) {
        Ok(r) => {
            let r: Vec<String> = r.iter().map(|v| format!("{v:016x}")).collect();
            format!("ok {}", r.join(" "))
        }
        Err(_) => "panic".into(),
    }
}

/// All calls on `n` threads at once, `rounds` times, each thread in its own order.  One line per
/// call: every distinct outcome seen, separated by ` | `.  A negative number of rounds is a time in seconds.
/// The last line is then the number of rounds of the busiest thread.
fn threads(lines: Vec<String>, n: usize, rounds: i64, out: &mut dyn Write) {
    let lines = std::sync::Arc::new(lines);
    let gate = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (lines, gate) = (lines.clone(), gate.clone());
            std::thread::spawn(move || {
                let mut seen: Vec<Vec<String>> = vec![Vec::new(); lines.len()];
                let mut rng = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(t as u64 + 1) | 1;
                let mut order: Vec<usize> = (0..lines.len()).collect();
                let start = std::time::Instant::now();
                let mut r = 0;
                while if rounds < 0 { start.elapsed().as_secs() < -rounds as u64 } else { r < rounds } {
                    if r % 2 == 1 {
                        for i in (1..order.len()).rev() {
                            rng ^= rng << 13;
                            rng ^= rng >> 7;
                            rng ^= rng << 17;
                            order.swap(i, (rng % (i as u64 + 1)) as usize);
                        }
                    }
                    if rounds > 0 {
                        gate.wait();
                    }
                    r += 1;
                    for &i in &order {
                        let p: Vec<&str> = lines[i].split_whitespace().collect();
                        let o = outcome(&p);
                        if !seen[i].contains(&o) {
                            seen[i].push(o);
                        }
                    }
                }
                (seen, r)
            })
        })
        .collect();
    let mut most = 0;
    let mut all: Vec<Vec<String>> = vec![Vec::new(); lines.len()];
    for h in hs {
        let (seen, r) = h.join().expect("driver: thread");
        most = most.max(r);
        for (a, s) in all.iter_mut().zip(seen) {
            for o in s {
                if !a.contains(&o) {
                    a.push(o);
                }
            }
        }
    }
    for a in all {
        writeln!(out, "{}", a.join(" | ")).unwrap();
    }
    if rounds < 0 {
        writeln!(out, "{most}").unwrap();
    }
}

/// `cache op slot ...` works on the session's caches, anything else is a plain call
fn line(session: &mut cache::Session, l: &str) -> String {
    let p: Vec<&str> = l.split_whitespace().collect();
    if p[0] == "cache" {
        session.run(&p[1..])
    } else {
        outcome(&p)
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let stdin = io::stdin();
    let out = io::stdout();
    let mut out = io::BufWriter::new(out.lock());
    if let Some(i) = args.iter().position(|a| a == "--threads") {
        let lines = stdin.lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect();
        threads(lines, args[i + 1].parse().unwrap(), args[i + 2].parse().unwrap(), &mut out);
        return;
    }
    if args.iter().any(|a| a == "--sessions") {
        // sessions separated by `---`, each on its own thread with its own caches, all at once
        let text: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).collect();
        let hs: Vec<_> = text
            .split(|l| l == "---")
            .map(|s| {
                let s: Vec<String> = s.to_vec();
                std::thread::spawn(move || {
                    let mut session = cache::Session::default();
                    s.iter().map(|l| line(&mut session, l)).collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            for o in h.join().expect("driver: session") {
                writeln!(out, "{o}").unwrap();
            }
            writeln!(out, "---").unwrap();
        }
        return;
    }
    if args.iter().any(|a| a == "--scan") {
        scan::run(&mut out);
        return;
    }
    let flush = args.iter().any(|a| a == "--flush");
    let mut session = cache::Session::default();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l.trim().is_empty() {
            continue;
        }
        let o = line(&mut session, &l);
        writeln!(out, "{o}").unwrap();
        if flush {
            out.flush().unwrap();
        }
    }
}
