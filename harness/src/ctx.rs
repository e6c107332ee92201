//! What a case has at hand, and what it records of what the monitors saw.
use crate::rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

#[derive(Debug)]
pub struct Fail {
    /// Short, stable name of what went wrong (key of the known findings)
    pub sig: String,
    pub msg: String,
    pub input: Option<Vec<u8>>,
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! bail {
    ($sig:expr, $($a:tt)*) => {
        return Err($crate::ctx::Fail { sig: $sig.to_string(), msg: format!($($a)*), input: None })
    };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c { $crate::bail!($sig, $($a)*) }
    };
}

pub trait WithInput {
    fn input(self, b: &[u8]) -> Self;
}
impl<T> WithInput for Result<T, Fail> {
    fn input(self, b: &[u8]) -> Self {
        self.map_err(|mut f| {
            if f.input.is_none() {
                f.input = Some(b.to_vec());
            }
            f
        })
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub stats: Stats,
    /// Scratch directory of the worker
    pub dir: PathBuf,
}

impl Ctx {
    /// Count an event observed by a monitor
    pub fn count(&mut self, key: &str, n: u64) {
        if let Some(c) = self.stats.counters.get_mut(key) {
            *c += n;
        } else {
            self.stats.counters.insert(key.to_string(), n);
        }
    }
    pub fn max(&mut self, key: &str, n: u64) {
        let key = format!("max {key}");
        let c = self.stats.counters.entry(key).or_insert(0);
        *c = (*c).max(n);
    }
    /// One execution judged by the oracle, identified by the hash of what was observed. `nontrivial` tells whether it
    /// counts as such.
    pub fn seen(&mut self, hash: u64, nontrivial: bool) {
        self.stats.evals += 1;
        if nontrivial && self.stats.hashes.len() < 200_000 {
            self.stats.hashes.insert(mix(hash));
        }
    }
    pub fn seen_dbg<T: std::fmt::Debug>(&mut self, t: &T, nontrivial: bool) {
        let s = format!("{t:?}");
        self.seen(hash_bytes(s.as_bytes()), nontrivial);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stats.samples.len() < 2 {
            let mut s = f();
            if s.len() > 700 {
                let mut n = 700;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.stats.samples.push(s);
        }
    }
}
