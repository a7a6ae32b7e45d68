//! Cache sessions: named slots hold real puruspe caches; every operation is reported as one line.
use crate::{b, f};
use puruspe::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One retained-or-rejected entry: nu, x, values, kept
pub type Visit = (u64, u64, Vec<u64>, bool);

pub enum Keep {
    All,
    Nothing,
    OddBits,
    NuBelow(f64),
    XBelow(f64),
    Positive,
    EverySecond,
    Listed(Vec<(u64, u64)>),
    NotNu(u64),
}

impl Keep {
    fn parse(a: &[&str]) -> Keep {
        match a[0] {
            "all" => Keep::All,
            "none" => Keep::Nothing,
            "odd" => Keep::OddBits,
            "nu" => Keep::NuBelow(f(a[1])),
            "x" => Keep::XBelow(f(a[1])),
            "pos" => Keep::Positive,
            "second" => Keep::EverySecond,
            "list" => Keep::Listed(a[1..].chunks(2).map(|c| (f(c[0]).to_bits(), f(c[1]).to_bits())).collect()),
            o => panic!("driver: predicate {o}"),
        }
    }
    fn decide(&self, i: usize, nu: f64, x: f64, v: &[u64]) -> bool {
        match self {
            Keep::All => true,
            Keep::Nothing => false,
            Keep::NotNu(b) => nu.to_bits() != *b,
            Keep::OddBits => (nu.to_bits() ^ (x.to_bits() >> 7)) & 1 == 1,
            Keep::NuBelow(t) => nu < *t,
            Keep::XBelow(t) => x < *t,
            Keep::Positive => f64::from_bits(v[0]) > 0.0,
            Keep::EverySecond => i % 2 == 0,
            Keep::Listed(l) => l.contains(&(nu.to_bits(), x.to_bits())),
        }
    }
}

trait Flat {
    fn flat(&self) -> Vec<u64>;
}
impl Flat for (f64, f64) {
    fn flat(&self) -> Vec<u64> {
        vec![b(self.0), b(self.1)]
    }
}
impl Flat for (f64, f64, f64, f64) {
    fn flat(&self) -> Vec<u64> {
        vec![b(self.0), b(self.1), b(self.2), b(self.3)]
    }
}

trait Cache {
    fn call(&mut self, nu: f64, x: f64) -> Vec<u64>;
    fn contains_(&self, nu: f64, x: f64) -> bool;
    /// the uncached function
    fn plain(&self, nu: f64, x: f64) -> Vec<u64>;
    fn get_(&self, nu: f64, x: f64) -> Option<Vec<u64>>;
    fn len_(&self) -> usize;
    fn is_empty_(&self) -> bool;
    fn clear_(&mut self);
    fn shrink_(&mut self);
    fn reserve_(&mut self, n: usize);
    fn retain_(&mut self, k: &Keep) -> Vec<Visit>;
    fn dup(&self) -> Box<dyn Cache>;
    fn dup_from(&mut self, o: &dyn Cache);
    fn same(&self, o: &dyn Cache) -> bool;
    fn any(&self) -> &dyn std::any::Any;
}

macro_rules! cache {
    ($t:ty, $call:ident) => {
        impl Cache for $t {
            fn call(&mut self, nu: f64, x: f64) -> Vec<u64> {
                self.$call(nu, x).flat()
            }
            fn plain(&self, nu: f64, x: f64) -> Vec<u64> {
                $call(nu, x).flat()
            }
            fn contains_(&self, nu: f64, x: f64) -> bool {
                self.contains(nu, x)
            }
            fn get_(&self, nu: f64, x: f64) -> Option<Vec<u64>> {
                self.get(nu, x).map(|v| v.flat())
            }
            fn len_(&self) -> usize {
                self.len()
            }
            fn is_empty_(&self) -> bool {
                self.is_empty()
            }
            fn clear_(&mut self) {
                self.clear()
            }
            fn shrink_(&mut self) {
                self.shrink_to_fit()
            }
            fn reserve_(&mut self, n: usize) {
                self.reserve(n)
            }
            fn retain_(&mut self, k: &Keep) -> Vec<Visit> {
                let mut seen = Vec::new();
                self.retain(|(nu, x), v| {
                    let v = v.flat();
                    let keep = k.decide(seen.len(), nu, x, &v);
                    seen.push((nu.to_bits(), x.to_bits(), v, keep));
                    keep
                });
                seen
            }
            fn dup(&self) -> Box<dyn Cache> {
                Box::new(self.clone())
            }
            fn dup_from(&mut self, o: &dyn Cache) {
                self.clone_from(o.any().downcast_ref::<$t>().expect("driver: kinds differ"))
            }
            fn same(&self, o: &dyn Cache) -> bool {
                self == o.any().downcast_ref::<$t>().expect("driver: kinds differ")
            }
            fn any(&self) -> &dyn std::any::Any {
                self
            }
        }
    };
}
cache!(CachedBesselJY, besseljy);
cache!(CachedBesselIK, besselik);
cache!(CachedJnuYnu, Jnu_Ynu);
cache!(CachedInuKnu, Inu_Knu);

fn make(kind: &str, how: &str, n: usize) -> Box<dyn Cache> {
    macro_rules! mk {
        ($t:ty) => {
            match how {
                "new" => Box::new(<$t>::new()) as Box<dyn Cache>,
                "default" => Box::new(<$t>::default()),
                "cap" => Box::new(<$t>::with_capacity(n)),
                o => panic!("driver: constructor {o}"),
            }
        };
    }
    match kind {
        "0" => mk!(CachedBesselJY),
        "1" => mk!(CachedBesselIK),
        "2" => mk!(CachedJnuYnu),
        "3" => mk!(CachedInuKnu),
        o => panic!("driver: kind {o}"),
    }
}

fn member(p: &[&str], i: usize) -> f64 {
    f64::from_bits(f(p[3]).to_bits() + i as u64 * p[4].parse::<u64>().unwrap())
}

fn hex(v: &[u64]) -> String {
    v.iter().map(|w| format!(" {w:016x}")).collect()
}

#[derive(Default)]
pub struct Session {
    slots: HashMap<String, Box<dyn Cache>>,
}

impl Session {
    /// `op slot args...`; one line back.  `panic` when the crate panicked.
    pub fn run(&mut self, p: &[&str]) -> String {
        match catch_unwind(AssertUnwindSafe(|| self.inner(p))) {
            Ok(s) => s,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                assert!(!m.starts_with("driver:"), "{m}");
                "panic".into()
            }
        }
    }
    fn inner(&mut self, p: &[&str]) -> String {
        let n = |i: usize| -> usize { p[i].parse().unwrap() };
        let slot = p[1].to_string();
        if p[0] == "make" {
            self.slots.insert(slot, make(p[2], p[3], n(4)));
            return "ok".into();
        }
        if p[0] == "clone" {
            let c = self.slots[p[2]].dup();
            self.slots.insert(slot, c);
            return "ok".into();
        }
        if p[0] == "clonefrom" {
            let mut c = self.slots.remove(p[1]).expect("driver: slot");
            c.dup_from(&**self.slots.get(p[2]).expect("driver: slot"));
            self.slots.insert(slot, c);
            return "ok".into();
        }
        if p[0] == "eq" {
            return format!("ok {}", self.slots[p[1]].same(&*self.slots[p[2]]) as u8);
        }
        let c = self.slots.get_mut(p[1]).expect("driver: slot");
        match p[0] {
            // a crowd: n keys (nu, x) with x counted up from x0 in steps of `stride` units in the last place
            "crowd" => {
                let (nu, n) = (f(p[2]), n(5));
                let mut same = 0;
                for i in 0..n {
                    let x = member(p, i);
                    same += (c.call(nu, x) == c.plain(nu, x)) as usize;
                }
                format!("ok {same:x}")
            }
            "seen" => {
                let (nu, n) = (f(p[2]), n(5));
                let (mut there, mut right) = (0, 0);
                for i in 0..n {
                    let x = member(p, i);
                    there += c.contains_(nu, x) as usize;
                    right += (c.get_(nu, x).is_some_and(|v| v == c.plain(nu, x))) as usize;
                }
                format!("ok {there:x} {right:x}")
            }
            "drop" => format!("ok {:x}", c.retain_(&Keep::NotNu(f(p[2]).to_bits())).len()),
            "call" => format!("ok{}", hex(&c.call(f(p[2]), f(p[3])))),
            "contains" => format!("ok {}", c.contains_(f(p[2]), f(p[3])) as u8),
            "get" => match c.get_(f(p[2]), f(p[3])) {
                Some(v) => format!("ok{}", hex(&v)),
                None => "ok".into(),
            },
            "len" => format!("ok {}", c.len_()),
            "empty" => format!("ok {}", c.is_empty_() as u8),
            "clear" => {
                c.clear_();
                "ok".into()
            }
            "shrink" => {
                c.shrink_();
                "ok".into()
            }
            "reserve" => {
                c.reserve_(n(2));
                "ok".into()
            }
            "retain" => {
                let v: Vec<String> = c
                    .retain_(&Keep::parse(&p[2..]))
                    .iter()
                    .map(|(nu, x, v, k)| format!("{nu:016x} {x:016x}{} {}", hex(v), *k as u8))
                    .collect();
                format!("ok {}", v.join(" | "))
            }
            o => panic!("driver: operation {o}"),
        }
    }
}
