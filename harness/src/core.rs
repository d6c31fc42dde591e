//! Property registry, case loop, shrinking, replay and supervision.
//!
//! A property consists of parts; a part has a proptest strategy for its cases and a check.
//! Every case is a pure function of (VERIF_SEED, property, part, index): each index gets its own RNG, so a case
//! can be regenerated in a fresh process, which is what makes crashes and hangs reproducible.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use crate::guide::{cpu_time, Corpus};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a check tells the runner about one case.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub sample: Option<String>,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub type Outcome = Result<(), String>;

pub trait Part {
    type Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static;
    fn name(&self) -> &'static str;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(&self, tier: Tier) -> u64;
    /// A case that needs more CPU time than this is suspected not to terminate. Ordinary cases take micro- to milliseconds
    /// (the largest repetitive ones a few seconds), so only non-termination comes near it.
    fn cpu_limit_s(&self) -> u64 {
        30
    }
    fn check(&self, case: &Self::Case, cx: &mut Cx) -> Outcome;
}

pub struct Failure {
    pub case_json: serde_json::Value,
    pub message: String,
    pub shrink_steps: u32,
}

#[derive(Serialize, Deserialize, Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial_hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// cases made from changed choices, inputs kept because of new coverage
    pub guided: u64,
    pub kept: u64,
}

/// Object-safe view of a part.
pub trait DynPart {
    fn name(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn cpu_limit_s(&self) -> u64;
    fn run_one(&self, tier: Tier, rng: TestRng, corpus: &mut Corpus, stats: &mut Stats, seen: &mut HashSet<u64>, want_sample: bool, found: &mut dyn FnMut(&Failure)) -> Option<Failure>;
    fn dump(&self, tier: Tier, rng: TestRng) -> serde_json::Value;
    fn replay(&self, case: &serde_json::Value) -> Result<(), String>;
    /// Shrinks with an external judge (used for crashes and hangs, where the judge is a child process).
    fn shrink_with(&self, tier: Tier, rng: TestRng, max: u32, judge: &mut dyn FnMut(&serde_json::Value) -> bool) -> serde_json::Value;
}

fn runner(rng: TestRng) -> TestRunner {
    let cfg = Config { failure_persistence: None, cases: 1, ..Config::default() };
    TestRunner::new_with_rng(cfg, rng)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

fn guarded(f: impl FnOnce() -> Outcome) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            let at = crate::LAST_PANIC.with(|l| l.borrow().clone());
            if m.starts_with("HARNESS:") {
                // an error of the check itself, never a verdict about the code
                eprintln!("{m}");
                std::process::exit(3);
            }
            Err(format!("panicked: {m} {at}"))
        }
    }
}

/// A part plus its (expensive to build) strategy.
pub struct Holder<P: Part> {
    part: P,
    strat: std::cell::RefCell<Option<(Tier, BoxedStrategy<P::Case>)>>,
}

pub fn part<P: Part + 'static>(p: P) -> Box<dyn DynPart> {
    Box::new(Holder { part: p, strat: Default::default() })
}

impl<P: Part> Holder<P> {
    fn strategy(&self, tier: Tier) -> BoxedStrategy<P::Case> {
        let mut s = self.strat.borrow_mut();
        match &*s {
            Some((t, b)) if *t == tier => b.clone(),
            _ => {
                let b = self.part.strategy(tier);
                *s = Some((tier, b.clone()));
                b
            }
        }
    }
}

impl<P: Part> DynPart for Holder<P> {
    fn name(&self) -> &'static str {
        self.part.name()
    }
    fn cases(&self, tier: Tier) -> u64 {
        self.part.cases(tier)
    }
    fn cpu_limit_s(&self) -> u64 {
        self.part.cpu_limit_s()
    }
    fn run_one(&self, tier: Tier, rng: TestRng, corpus: &mut Corpus, stats: &mut Stats, seen: &mut HashSet<u64>, want_sample: bool, found: &mut dyn FnMut(&Failure)) -> Option<Failure> {
        let mut r = runner(rng);
        let strat = self.strategy(tier);
        let t0 = cpu_time();
        let mut tree = strat.new_tree(&mut r).expect("HARNESS: strategy rejected");
        let case = tree.current();
        let mut cx = Cx::default();
        let res = if let Some(mut c) = corpus.seen.take() {
            c.reset();
            let res = guarded(|| self.part.check(&case, &mut cx));
            let (new, rare) = c.add();
            if new > 0 && corpus.cheap(t0) {
                corpus.add(r.bytes_used(), rare);
            }
            corpus.spend(t0);
            corpus.seen = Some(c);
            res
        } else {
            guarded(|| self.part.check(&case, &mut cx))
        };
        stats.evaluations += 1;
        for l in cx.labels.iter() {
            *stats.labels.entry(format!("{}:{}", self.part.name(), l)).or_insert(0) += 1;
        }
        if cx.nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            self.part.name().hash(&mut h);
            serde_json::to_string(&case).unwrap_or_default().hash(&mut h);
            let h = h.finish();
            if seen.insert(h) {
                stats.nontrivial_hashes.push(h);
            }
            if want_sample {
                let s = cx.sample.take().unwrap_or_else(|| serde_json::to_string(&case).unwrap_or_default());
                stats.samples.push(format!("{}: {}", self.part.name(), clip(&s, 700)));
            }
        }
        let mut message = match res {
            Ok(()) => return None,
            Err(m) => m,
        };
        let mut best = case;
        let mut steps = 0u32;
        // the unshrunk case is recorded first: a smaller candidate may crash or hang
        found(&Failure { case_json: serde_json::to_value(&best).unwrap(), message: message.clone(), shrink_steps: 0 });
        let mut noted = std::time::Instant::now();
        let t0 = std::time::Instant::now();
        if tree.simplify() {
            for _ in 0..4000 {
                if t0.elapsed().as_secs() > 40 {
                    break;
                }
                let cand = tree.current();
                let mut cx = Cx::default();
                let moved = match guarded(|| self.part.check(&cand, &mut cx)) {
                    Err(m) => {
                        message = m;
                        best = cand;
                        steps += 1;
                        if noted.elapsed().as_millis() > 200 {
                            noted = std::time::Instant::now();
                            found(&Failure { case_json: serde_json::to_value(&best).unwrap(), message: message.clone(), shrink_steps: steps });
                        }
                        tree.simplify()
                    }
                    Ok(()) => tree.complicate(),
                };
                if !moved {
                    break;
                }
            }
        }
        Some(Failure { case_json: serde_json::to_value(&best).unwrap(), message, shrink_steps: steps })
    }
    fn dump(&self, tier: Tier, rng: TestRng) -> serde_json::Value {
        let mut r = runner(rng);
        let tree = self.strategy(tier).new_tree(&mut r).expect("HARNESS: strategy rejected");
        serde_json::to_value(tree.current()).unwrap()
    }
    fn replay(&self, case: &serde_json::Value) -> Result<(), String> {
        let case: P::Case = serde_json::from_value(case.clone()).unwrap_or_else(|e| panic!("HARNESS: bad replay case: {e}"));
        let mut cx = Cx::default();
        guarded(|| self.part.check(&case, &mut cx))
    }
    fn shrink_with(&self, tier: Tier, rng: TestRng, max: u32, judge: &mut dyn FnMut(&serde_json::Value) -> bool) -> serde_json::Value {
        let mut r = runner(rng);
        let mut tree = self.strategy(tier).new_tree(&mut r).expect("HARNESS: strategy rejected");
        let mut best = serde_json::to_value(tree.current()).unwrap();
        if tree.simplify() {
            for _ in 0..max {
                let cand = serde_json::to_value(tree.current()).unwrap();
                let moved = if judge(&cand) {
                    best = cand;
                    tree.simplify()
                } else {
                    tree.complicate()
                };
                if !moved {
                    break;
                }
            }
        }
        best
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Box<dyn DynPart>>,
}


/// 32 bytes of seed, followed by choices: these are drawn first.
pub fn choice_rng(s: &[u8]) -> TestRng {
    TestRng::from_seed(RngAlgorithm::PassThrough, s)
}

pub fn case_seed(seed: u64, prop: &str, part: &str, index: u64) -> [u8; 32] {
    // splitmix over a FNV hash: explicit, so that it is stable across Rust versions
    let mut h: u64 = 0xcbf29ce484222325;
    for b in prop.bytes().chain([0]).chain(part.bytes()).chain([0]).chain(seed.to_le_bytes()).chain(index.to_le_bytes()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut s = [0u8; 32];
    for c in s.chunks_mut(8) {
        h = h.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    s
}
