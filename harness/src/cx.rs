//! Case runner: every case is identified by (group, index); failures are collected, panics caught.
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            s.swap(i, j);
        }
    }
}

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static TICK: AtomicU64 = AtomicU64::new(0);

pub struct Fail {
    pub group: String,
    pub idx: u64,
    pub desc: String,
    pub msg: String,
}

pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub fails: Vec<Fail>,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub trivial: u64,
    pub samples: Vec<(String, u64, String)>,
    pub groups: std::collections::BTreeMap<String, u64>,
    pub trace: bool,
    pub small: bool,
    counters: std::collections::HashMap<String, u64>,
}

fn fnv(s: &str, mut h: u64) -> u64 {
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

fn fingerprint(group: &str, d: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    group.hash(&mut h);
    d.hash(&mut h);
    h.finish()
}

pub fn clip(s: String) -> String {
    if s.len() <= 3000 {
        return s;
    }
    let mut e = 3000;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} characters)", &s[..e], s.len())
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

impl Cx {
    pub fn new(seed: u64, thorough: bool, only: Option<(String, u64)>, trace: bool, small: bool) -> Self {
        Self {
            seed, thorough, only, trace, small,
            fails: vec![], evals: 0, seen: HashSet::new(), trivial: 0, samples: vec![],
            groups: Default::default(), counters: Default::default(),
        }
    }

    /// Number of repetitions: quick / thorough / small (sanitizer or interpreter runs).
    pub fn reps(&self, quick: u64, thorough: u64) -> u64 {
        if self.small { (quick / 10).max(1) } else if self.thorough { thorough } else { quick }
    }

    pub fn rng(&self, group: &str, i: u64) -> Rng {
        let mut r = Rng(fnv(group, self.seed ^ 0xcbf2_9ce4_8422_2325).wrapping_add(i.wrapping_mul(0x1234_5678_9abc_def1)));
        r.next();
        r
    }

    /// Runs one case. `d` is the complete input of the case; the body decides it.
    pub fn case<D: Debug + Hash>(&mut self, group: &str, d: &D, nontrivial: bool, body: impl FnOnce(&D) -> R) {
        let n = self.counters.entry(group.to_string()).or_insert(0);
        let idx = *n;
        *n += 1;
        if let Some((g, i)) = &self.only {
            if g != group || *i != idx {
                return;
            }
        }
        if self.fails.len() >= 5 {
            return;
        }
        if self.trace {
            eprintln!("CASE {group} {idx}");
        }
        if let Ok(mut c) = CURRENT.lock() {
            c.clear();
            c.push_str(group);
            c.push(' ');
            c.push_str(&idx.to_string());
        }
        TICK.fetch_add(1, Ordering::Relaxed);
        self.evals += 1;
        *self.groups.entry(group.to_string()).or_insert(0) += 1;
        let fresh = self.seen.insert(fingerprint(group, d));
        if !nontrivial || !fresh {
            self.trivial += 1;
        }
        if idx == 3 && self.samples.len() < 40 {
            let s = clip(format!("{d:?}"));
            self.samples.push((group.to_string(), idx, if s.len() > 400 { s.chars().take(400).collect::<String>() + "…" } else { s }));
        }
        let res = catch_unwind(AssertUnwindSafe(|| body(d)));
        let msg = match res {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => format!("unexpected panic: {}", panic_text(&*p)),
        };
        self.fails.push(Fail { group: group.to_string(), idx, desc: clip(format!("{d:?}")), msg: clip(msg) });
    }
}

/// True when the call panics.
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let _ = f();
    }))
    .is_err()
}
