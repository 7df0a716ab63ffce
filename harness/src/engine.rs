//! A small property-based testing engine.
//!
//! A case is a finite sequence of choices (`u64`s). Generators draw choices from a [`Src`]; a
//! random source records what it hands out, so a failing case can be replayed from the record and
//! shrunk by deleting, zeroing and lowering choices (every generator makes 0 its simplest value).
//! Cases are independent: case `i` of a property is a function of (seed, property, i).

use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Clone)]
pub struct Rng(u64, u64);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let mut h = 0x9E37_79B9_7F4A_7C15u64;
        for p in parts {
            h = mix(h ^ p.wrapping_add(0x9E37_79B9_7F4A_7C15)).wrapping_add(h << 6);
        }
        Rng(mix(h), mix(h ^ 0xD1B5_4A32_D192_ED03) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1);
        mix(self.0)
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}

/// More choices than any sensible case makes: ends a runaway generator.
const MAX_CHOICES: usize = 200_000;

impl Src {
    pub fn random(rng: Rng) -> Self {
        Src { rng: Some(rng), replay: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: None, replay: choices, pos: 0, rec: vec![] }
    }

    /// 0..n, uniform. n > 0.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0 && self.rec.len() < MAX_CHOICES);
        let v = match &mut self.rng {
            Some(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            None => self.replay.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn word(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => self.replay.get(self.pos).copied().unwrap_or(0),
        };
        assert!(self.rec.len() < MAX_CHOICES);
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True `num` times out of `den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }
    /// An index with the given weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// 0..=max, small values likely, the ends too.
    pub fn skewed(&mut self, max: u128) -> u128 {
        if max == 0 {
            return 0;
        }
        let bits = 128 - max.leading_zeros() as u64;
        match self.below(16) {
            0 => 0,
            1 => max,
            2 => max - 1,
            3..=5 => {
                // uniform
                let v = ((self.word() as u128) << 64) | self.word() as u128;
                if max == u128::MAX { v } else { v % (max + 1) }
            }
            6..=7 => {
                // about a power of two
                let b = self.below(bits);
                let v = 1u128 << b;
                let v = match self.below(3) {
                    0 => v,
                    1 => v - 1,
                    _ => v + 1,
                };
                v.min(max)
            }
            8 => {
                // about a power of ten
                let e = self.below(39) as u32;
                let v = 10u128.checked_pow(e).unwrap_or(max);
                match self.below(3) {
                    0 => v,
                    1 => v - 1,
                    _ => v.saturating_add(1),
                }
                .min(max)
            }
            _ => {
                let b = self.below(bits) as u32 + 1;
                let v = ((self.word() as u128) << 64) | self.word() as u128;
                (v >> (128 - b)).min(max)
            }
        }
    }
    /// A 64-bit word with interesting values likely.
    pub fn limb(&mut self) -> u64 {
        match self.below(8) {
            0 | 1 => 0,
            2 => 1,
            3 => u64::MAX,
            4 => 1 << self.below(64),
            _ => self.word(),
        }
    }
}

/// Observations of one case.
#[derive(Default)]
pub struct Ctx {
    pub trace: Vec<String>,
    pub tracing: bool,
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    /// Evaluations beyond one per case (a case that checks many inputs counts them here).
    pub evals: u64,
    pub known: Vec<(String, String)>,
    extra_digest: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn label_n(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_default() += n;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    pub fn digest<T: Hash>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (self.extra_digest, t).hash(&mut h);
        self.extra_digest = h.finish();
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    /// A short stable name of what failed (no numbers): used to match known findings.
    pub signature: String,
    pub message: String,
}

pub type Res = Result<(), Failure>;

pub fn fail<T>(signature: &str, message: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { signature: signature.into(), message: message.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

pub struct Property {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> Res,
    /// Cases of the quick tier and of the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// The cases enumerate a finite space (case index = point), nothing random about them.
    pub exhaustive: Option<fn(u64, &mut Ctx) -> Res>,
}

pub struct Outcome {
    pub result: Res,
    pub ctx: Ctx,
    pub choices: Vec<u64>,
}

static INIT: std::sync::Once = std::sync::Once::new();

/// Panics are outcomes here: they are caught and looked at, not printed.
pub fn quiet_panics() {
    INIT.call_once(|| {
        if std::env::var_os("HARNESS_PANICS").is_none() {
            std::panic::set_hook(Box::new(|_| {}));
        }
    });
}

/// The value, or None if the call panics.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(x) = crate::panic_extra(&*e) {
        x
    } else {
        "panic".into()
    }
}

pub enum Case {
    Random(Rng),
    Choices(Vec<u64>),
    Index(u64),
}

pub fn run_case(p: &Property, case: Case, tracing: bool) -> Outcome {
    let mut ctx = Ctx { tracing, ..Default::default() };
    let (mut src, index) = match case {
        Case::Random(r) => (Src::random(r), None),
        Case::Choices(c) => (Src::replay(c), None),
        Case::Index(i) => (Src::replay(vec![]), Some(i)),
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (index, p.exhaustive) {
        (Some(i), Some(f)) => f(i, &mut ctx),
        _ => (p.run)(&mut src, &mut ctx),
    }));
    let result = r.unwrap_or_else(|e| fail("panic", format!("panicked: {}", panic_text(e))));
    Outcome { result, ctx, choices: std::mem::take(&mut src.rec) }
}

pub fn case_digest(o: &Outcome, index: u64, p: &Property) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    if p.exhaustive.is_some() {
        index.hash(&mut h);
    }
    o.choices.hash(&mut h);
    o.ctx.extra_digest.hash(&mut h);
    h.finish()
}

/// Shrinks a failing choice sequence, keeping the signature of the failure.
pub fn shrink(p: &Property, start: Vec<u64>, signature: &str, seconds: u64) -> Vec<u64> {
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(seconds);
    let mut best = start;
    let fails = |c: &Vec<u64>| -> Option<Vec<u64>> {
        let o = run_case(p, Case::Choices(c.clone()), false);
        match &o.result {
            Err(f) if f.signature == signature => Some(o.choices),
            _ => None,
        }
    };
    // canonical record (drops choices the case never makes)
    if let Some(c) = fails(&best) {
        best = c;
    }
    let better = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if std::time::Instant::now() > deadline {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                match fails(&c) {
                    Some(c) if better(&c, &best) => best = c,
                    _ => i += size.max(1),
                }
            }
            size /= 2;
        }
        // zero, then lower each choice
        let mut i = 0;
        while i < best.len() {
            if std::time::Instant::now() > deadline {
                return best;
            }
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                match fails(&c) {
                    Some(c) if better(&c, &best) => best = c,
                    _ => {
                        let (mut lo, mut hi) = (0, best[i]);
                        while hi - lo > 1 && std::time::Instant::now() < deadline {
                            let mid = lo + (hi - lo) / 2;
                            let mut c = best.clone();
                            c[i] = mid;
                            match fails(&c) {
                                Some(c) if better(&c, &best) => {
                                    best = c;
                                    hi = mid;
                                    if i >= best.len() {
                                        break;
                                    }
                                }
                                _ => lo = mid,
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
