//! Workload engine: seeded cases, monitors' verdicts, evidence.
use std::{
    collections::{BTreeMap, HashSet},
    fs::File,
    hash::{Hash, Hasher},
    os::unix::fs::FileExt,
};

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Self(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn ps(&mut self, v: &[&'static str]) -> &'static str {
        v[self.below(v.len())]
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a: stable between runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.0
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x1000_0001).wrapping_add(hash_of(prop)));
    let a = r.next();
    Rng::new(a ^ index.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub input: String,
    pub case: u64,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub findings: Vec<String>,
    pub cur: Option<File>,
    pub case: u64,
    pub input: String,
    pub verbose: bool,
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier) -> Self {
        Self {
            prop,
            tier,
            evals: 0,
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            viols: vec![],
            findings: vec![],
            cur: None,
            case: 0,
            input: String::new(),
            verbose: false,
        }
    }

    /// Announce the input that is going to be executed (survives a crash).
    pub fn input(&mut self, s: &str) {
        self.input.clear();
        self.input.push_str(s);
        if let Some(f) = &self.cur {
            let s = &s.as_bytes()[..s.len().min(60_000)];
            let mut b = Vec::with_capacity(s.len() + 16);
            b.extend_from_slice(&self.case.to_le_bytes());
            b.extend_from_slice(&(s.len() as u64).to_le_bytes());
            b.extend_from_slice(s);
            let _ = f.write_all_at(&b, 0);
        }
    }

    /// One oracle decision was taken.
    pub fn eval(&mut self) {
        self.evals += 1;
    }

    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }

    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }

    /// A distinct non-trivial case.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, t: &T) {
        self.distinct.insert(hash_of(t));
    }

    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 3 {
            let mut s: String = s.into();
            if s.chars().count() > 400 {
                s = s.chars().take(400).collect::<String>() + "…";
            }
            self.samples.push(s);
        }
    }

    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let v = Viol {
            sig: sig.into(),
            detail: detail.into(),
            input: self.input.clone(),
            case: self.case,
        };
        if self.verbose {
            println!("FAIL [{}] {}\n--- input\n{}\n---", v.sig, v.detail, v.input);
        }
        if self.viols.len() < 50 {
            self.viols.push(v);
        }
        self.count("violations");
    }

    /// A failure that is recorded in the file of the known findings, or not.
    pub fn known(&mut self, sig: &str, detail: &str) {
        let file = std::path::Path::new(&std::env::var("YPMON_VERIF").unwrap_or_else(|_| "/verif".into())).join("KNOWN_FINDINGS.txt");
        let line = format!("known: property={} {sig}", self.prop);
        if std::fs::read_to_string(file).unwrap_or_default().lines().any(|l| l.trim_end() == line) {
            self.count("known findings");
            self.findings.push(format!("{sig} ({detail})"));
        } else {
            self.fail(sig, detail);
        }
    }

    /// Check a condition, report if it does not hold.
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.eval();
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
}

/// A monitored property.
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Deterministic enumerated part, run by shard 0 (or all shards by index).
    pub fixed: Option<fn(&mut Ctx)>,
    pub case: fn(&mut Ctx, &mut Rng),
    pub quick: u64,
    pub thorough: u64,
    /// Events that must have been observed, or the run is inconclusive.
    pub must: &'static [&'static str],
    /// Stack of the thread that runs the code, in bytes.
    pub stack: usize,
    pub assumptions: &'static [&'static str],
}
