//! A small property-based testing engine in the style of Hypothesis: every random decision of a
//! case is one recorded number below a bound, so that a case is a pure function of its choice
//! sequence. Shrinking edits that sequence; 0 is always the simplest choice.
use std::collections::BTreeMap;
use std::path::PathBuf;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h);
    r.next()
}

const MAX_DRAWS: usize = 400_000;

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Rng::new(seed), replay: None, rec: vec![] }
    }
    pub fn replay(choices: Vec<u32>) -> Src {
        Src { rng: Rng::new(0), replay: Some(choices), rec: vec![] }
    }
    /// A number in 0..n
    pub fn u(&mut self, n: usize) -> usize {
        assert!(n >= 1 && n < u32::MAX as usize);
        let v = match &self.replay {
            Some(seq) => match seq.get(self.rec.len()) {
                Some(v) => (*v as usize) % n,
                None => 0,
            },
            None => {
                if self.rec.len() > MAX_DRAWS {
                    0
                } else {
                    ((self.rng.next() >> 11) as usize) % n
                }
            }
        };
        self.rec.push(v as u32);
        v
    }
    /// A number in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }
    /// true with probability num/den; false is simpler
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.u(den) >= den - num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &'a [&'a T]) -> &'a T {
        xs[self.u(xs.len())]
    }
    pub fn pick_of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.u(xs.len())]
    }
    /// Index with the given weights
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.u(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }
    /// A random 64-bit value
    pub fn u64(&mut self) -> u64 {
        (self.u(1 << 22) as u64) | ((self.u(1 << 22) as u64) << 22) | ((self.u(1 << 20) as u64) << 44)
    }
    pub fn exhausted(&self) -> bool {
        self.rec.len() > MAX_DRAWS
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub what: String,
    /// A stable signature used to match known findings
    pub sig: String,
}

impl Failure {
    pub fn new(what: impl Into<String>) -> Failure {
        let what = what.into();
        Failure { sig: String::new(), what }
    }
}

pub type R<T = ()> = Result<T, Failure>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::engine::Failure::new(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err($crate::engine::Failure::new(format!($($arg)*))) } };
}

pub struct Ctx {
    /// Scratch directory of this worker; wiped between cases by `fresh_dir`
    pub scratch: PathBuf,
    pub stats: BTreeMap<String, u64>,
    /// hashes of the non-trivial inputs of this case
    pub nontrivial: Vec<u64>,
    /// (name, text) of what was fed to the code under test
    pub inputs: Vec<(String, String)>,
    pub dict: crate::dict::Dict,
    pub bins: PathBuf,
    pub thorough: bool,
    dir_count: usize,
}

impl Ctx {
    pub fn new(scratch: PathBuf, bins: PathBuf, thorough: bool) -> Ctx {
        Ctx {
            scratch,
            stats: BTreeMap::new(),
            nontrivial: vec![],
            inputs: vec![],
            dict: crate::dict::Dict::load(),
            bins,
            thorough,
            dir_count: 0,
        }
    }
    pub fn count(&mut self, what: &str) {
        *self.stats.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, what: &str, n: u64) {
        *self.stats.entry(what.to_string()).or_insert(0) += n;
    }
    pub fn input(&mut self, name: impl Into<String>, text: impl Into<String>) {
        self.inputs.push((name.into(), text.into()));
    }
    pub fn nontrivial(&mut self, text: &str) {
        self.nontrivial.push(hash_str(text));
    }
    /// An empty directory for this case; its path does not depend on the case number
    pub fn fresh_dir(&mut self) -> PathBuf {
        let dir = self.scratch.join("case");
        self.dir_count += 1;
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch dir");
        dir
    }
}

/// Shrinks a failing choice sequence. `fails` runs a sequence and returns the (possibly
/// normalised, i.e. truncated to what was drawn) sequence if it still fails.
pub fn shrink(
    mut best: Vec<u32>,
    budget: usize,
    mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
    let mut evals = 0;
    let mut improved = true;
    let better = |a: &[u32], b: &[u32]| (a.len(), a) < (b.len(), b);
    while improved && evals < budget {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).clamp(1, 4096);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if evals >= budget {
                    return best;
                }
                if i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    evals += 1;
                    if let Some(n) = fails(&cand) {
                        if better(&n, &best) {
                            best = n;
                            improved = true;
                        }
                    } else if i > 0 && best[i - 1] > 0 && size <= 64 {
                        // maybe the number before is a length
                        let mut cand = best.clone();
                        cand.drain(i..i + size);
                        cand[i - 1] -= 1;
                        evals += 1;
                        if let Some(n) = fails(&cand) {
                            if better(&n, &best) {
                                best = n;
                                improved = true;
                            }
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [32usize, 8, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                if evals >= budget {
                    return best;
                }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    evals += 1;
                    if let Some(n) = fails(&cand) {
                        if better(&n, &best) {
                            best = n;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u32;
            while i < best.len() && best[i] > lo {
                if evals >= budget {
                    return best;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                evals += 1;
                match fails(&cand) {
                    Some(n) if better(&n, &best) => {
                        best = n;
                        improved = true;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    best
}
