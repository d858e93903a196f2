//! Choice source, run context, violations.
use std::collections::BTreeMap;
use std::fmt::{self, Write as _};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for &p in parts {
        h = Rng::new(h ^ p).next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut f = Fnv::default();
    f.bytes(s.as_bytes());
    f.0
}

pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Fnv {
    pub fn bytes(&mut self, b: &[u8]) {
        for &x in b {
            self.0 ^= x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
impl fmt::Write for Fnv {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}

pub const TOO_LONG: &str = "harness: choice sequence too long";

/// Every decision of a run is one entry of this sequence. 0 is always the simplest alternative.
pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    limit: usize,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Rng::new(seed), replay: None, rec: Vec::new(), limit: 2_000_000 }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { rng: Rng::new(0), replay: Some(choices), rec: Vec::new(), limit: 2_000_000 }
    }
    fn draw(&mut self, bound: u64) -> u64 {
        // bound 0 means the full range
        let pos = self.rec.len();
        if pos >= self.limit {
            panic!("{TOO_LONG}");
        }
        let v = match &self.replay {
            Some(c) => {
                let v = c.get(pos).copied().unwrap_or(0);
                if bound != 0 {
                    v.min(bound - 1)
                } else {
                    v
                }
            }
            None => {
                let v = self.rng.next();
                if bound != 0 {
                    ((v as u128 * bound as u128) >> 64) as u64
                } else {
                    v
                }
            }
        };
        self.rec.push(v);
        spill(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple case
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let mut v = self.draw(total.max(1));
        for (i, &x) in w.iter().enumerate() {
            if v < x as u64 {
                return i;
            }
            v -= x as u64;
        }
        0
    }
    /// small length, geometric-ish
    pub fn len(&mut self, max: usize) -> usize {
        let w: Vec<u32> = (0..=max).map(|i| 64u32 >> i.min(5)).collect();
        self.weighted(&w)
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // a zero choice leaves the order unchanged
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below(xs.len() - i);
            xs.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($sig:expr, $($a:tt)*) => { $crate::core::Viol { sig: String::from($sig), msg: format!($($a)*) } };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err($crate::viol!($sig, $($a)*)); } };
}

pub struct Ctx {
    pub src: Src,
    pub stats: BTreeMap<String, u64>,
    pub steps: u64,
    digest: Fnv,
    pub trace: Option<Vec<String>>,
    pub faults: u64,
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
}

impl Ctx {
    pub fn new(prop: &'static str, src: Src, trace: bool) -> Ctx {
        Ctx {
            src,
            stats: BTreeMap::new(),
            steps: 0,
            digest: Fnv::default(),
            trace: if trace { Some(Vec::new()) } else { None },
            faults: 0,
            prop,
            thorough: false,
            seed: 0,
        }
    }
    pub fn count(&mut self, kind: &str, name: &str) {
        *self.stats.entry(format!("{kind}.{name}")).or_insert(0) += 1;
    }
    /// a fault that actually fired
    pub fn fault(&mut self, name: &str) {
        self.faults += 1;
        self.count("fault", name);
        self.note(format_args!("fault {name}"));
    }
    pub fn probe(&mut self, name: &str) {
        self.count("probe", name);
    }
    /// one simulated step; the text is part of the run's identity
    pub fn step(&mut self, a: fmt::Arguments) {
        self.steps += 1;
        self.note(a);
    }
    pub fn note(&mut self, a: fmt::Arguments) {
        let _ = self.digest.write_fmt(a);
        self.digest.bytes(b"\n");
        if let Some(t) = &mut self.trace {
            let mut s = String::new();
            let _ = s.write_fmt(a);
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            t.push(s);
        }
    }
    pub fn set_digest(&mut self, d: u64) {
        self.digest.0 = d;
    }
    pub fn digest(&self) -> u64 {
        self.digest.0
    }
}

static SPILL: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
static SPILLING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Writes every choice to a file as it is drawn, for runs that kill the process.
pub fn set_spill(path: &str) {
    *SPILL.lock().unwrap() = std::fs::File::create(path).ok();
    SPILLING.store(true, std::sync::atomic::Ordering::SeqCst);
}
fn spill(v: u64) {
    if SPILLING.load(std::sync::atomic::Ordering::Relaxed) {
        if let Some(f) = SPILL.lock().unwrap().as_mut() {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
    }
}
