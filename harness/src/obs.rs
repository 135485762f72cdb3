//! What the monitors observed.

use std::collections::BTreeMap;

#[derive(Default)]
pub struct Obs {
    /// Observed events, summed over all cases.
    pub counters: BTreeMap<&'static str, u64>,
    /// The recorded history (or input) of the current case.
    pub trace: Vec<String>,
    /// Fingerprints of the current case, if it was non-trivial.
    pub fps: Vec<u64>,
    /// Findings that are already listed in the known-findings file and were observed again.
    pub known: Vec<String>,
}

impl Obs {
    pub fn begin(&mut self) {
        self.trace.clear();
    }

    pub fn hit(&mut self, name: &'static str) {
        self.add(name, 1);
    }

    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }

    pub fn log(&mut self, s: String) {
        self.trace.push(s);
    }

    /// Marks the current case as non-trivial.
    pub fn nontrivial(&mut self, fp: u64) {
        self.fps.push(fp);
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}
