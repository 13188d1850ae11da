use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a worker has observed, and the trace of the running case.
pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub trace: Vec<String>,
    pub scratch: PathBuf,
    pub tier: Tier,
    pub inconclusive: Option<String>,
    /// the harness's own view of the seed, for checks that derive more streams
    pub seed: u64,
}

impl Ctx {
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }

    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }

    pub fn log(&mut self, line: String) {
        if self.trace.len() < 4000 {
            self.trace.push(line);
        }
    }

    /// records the case (or situation) as a distinct non-trivial one
    pub fn distinct(&mut self, h: u64) {
        self.hashes.insert(h);
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub type CaseResult = Result<(), String>;

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    /// Err is a violation of the property; panics of the code under test are violations too.
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult;
    /// number of parallel workers
    fn workers(&self) -> usize {
        8
    }
    /// seconds without progress before a case is tried again alone
    fn stall_secs(&self) -> u64 {
        40
    }
    fn assumptions(&self) -> Vec<&'static str> {
        Vec::new()
    }
    /// counters that must not stay at zero for the run to count as an observation
    fn required(&self) -> Vec<&'static str> {
        Vec::new()
    }
    /// the cases are workloads, judged by the sanitizer alone
    fn only_sanitizer_reports(&self) -> bool {
        false
    }
    /// address-space limit for workers, in MiB
    fn memory_mb(&self) -> u64 {
        6000
    }
}
