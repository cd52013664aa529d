//! A small property-based testing engine.
//!
//! Every random decision of a case is a draw from a [`Src`], which records the
//! draws.  A failing case is therefore described by its draw sequence, which is
//! shrunk (deleting blocks, zeroing and reducing draws) and written to the
//! replay file.  Cases are a pure function of (code, seed, check, index).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// splitmix64 / xorshift based deterministic generator
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    // FNV-1a, stable between builds
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Source of all random choices of one case.
pub struct Src {
    pub rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    rng: Rng,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rec: vec![], replay: None, rng: Rng::new(seed) }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { rec: vec![], replay: Some(choices), rng: Rng::new(0) }
    }
    /// Uniform value in `0..n`. Shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(c) => c.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => {
                if n == 1 {
                    0
                } else {
                    self.rng.next() % n
                }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }
    /// true in `num` of `den` cases; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // draw 0 means "keep in place"
            let j = i - self.idx(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    /// short stable name for the violated relation
    pub sig: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Failure>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Failure { sig: sig.into(), msg: msg.into() })
}

/// An operation that has to succeed returned an error.
pub trait MustExt<T> {
    fn must(self, what: &str) -> R<T>;
}
impl<T, E: std::fmt::Display> MustExt<T> for Result<T, E> {
    fn must(self, what: &str) -> R<T> {
        match self {
            Ok(v) => Ok(v),
            Err(e) => fail(format!("error:{what}"), format!("{what} failed: {e}")),
        }
    }
}

pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    pub fingerprint: u64,
    pub case: u64,
    /// grows from 0 to 100 over the run
    pub size: usize,
    scratch_base: PathBuf,
    scratch: Vec<tempfile::TempDir>,
    pub thorough: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        let s: String = s.into();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.fingerprint.hash(&mut h);
        s.hash(&mut h);
        self.fingerprint = h.finish();
        self.notes.push(s);
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    /// A fresh scratch directory, deleted after the case.
    pub fn dir(&mut self) -> PathBuf {
        let d = tempfile::Builder::new()
            .prefix("c")
            .tempdir_in(&self.scratch_base)
            .expect("scratch dir");
        let p = d.path().to_path_buf();
        self.scratch.push(d);
        p
    }
}

/// How often checks whose outcome depends on the schedule repeat a case.
pub static REPEAT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

#[derive(Clone)]
pub struct Check {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub checks: Vec<Check>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

pub static LAST_OTHER_PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let payload = info.payload();
        let m = if let Some(s) = payload.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = payload.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let full = format!("panic at {loc}: {m}");
        let in_case = IN_CASE.with(|c| *c.borrow());
        if in_case {
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(full));
        } else {
            // a panic in a background thread of the code under test
            if let Ok(mut l) = LAST_OTHER_PANIC.lock() {
                *l = Some(full);
            }
        }
    }));
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = IN_CASE.with(|c| std::mem::replace(&mut *c.borrow_mut(), true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| *c.borrow_mut() = old);
    r.map_err(|_| {
        PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic (unknown)".into())
    })
}

pub struct CaseResult {
    pub outcome: R,
    pub ctx: Ctx,
    pub choices: Vec<u64>,
}

pub fn run_case(f: CaseFn, mut src: Src, case: u64, size: usize, base: &Path, thorough: bool) -> CaseResult {
    let mut ctx = Ctx {
        labels: BTreeMap::new(),
        notes: vec![],
        nontrivial: false,
        fingerprint: 0,
        case,
        size,
        scratch_base: base.to_path_buf(),
        scratch: vec![],
        thorough,
    };
    if let Ok(mut l) = LAST_OTHER_PANIC.lock() {
        *l = None;
    }
    let t0 = std::time::Instant::now();
    let r = catch(|| f(&mut src, &mut ctx));
    if let Ok(file) = std::env::var("VH_SLOW")
        && t0.elapsed().as_secs() >= 2
        && let Ok(mut w) = std::fs::OpenOptions::new().create(true).append(true).open(file)
    {
        use std::io::Write;
        let _ = writeln!(w, "case {case} took {:?}\n  {}", t0.elapsed(), ctx.notes.join("\n  "));
    }
    let mut outcome = match r {
        Ok(r) => r,
        Err(m) => {
            // signature: the panic location without the line
            let loc = m.split(':').next().unwrap_or("panic").to_string();
            Err(Failure { sig: format!("panic:{loc}"), msg: m })
        }
    };
    if outcome.is_ok()
        && let Ok(mut l) = LAST_OTHER_PANIC.lock()
        && let Some(m) = l.take()
    {
        outcome = fail("panic:background", format!("panic in another thread: {m}"));
    }
    ctx.scratch.clear();
    CaseResult { outcome, ctx, choices: src.rec }
}

pub fn case_seed(seed: u64, prop: &str, check: &str, i: u64) -> u64 {
    let mut r = Rng::new(seed ^ hash_str(prop).rotate_left(17) ^ hash_str(check).rotate_left(31));
    let a = r.next();
    let mut r2 = Rng::new(a ^ i.wrapping_mul(0xD134_2543_DE82_EF95));
    r2.next()
}

pub fn size_for(i: u64, n: u64) -> usize {
    // cycle through the sizes so that every shard sees all of them
    if n == 0 { 0 } else { ((i * 37) % 101) as usize }
}

/// Shrink the draws of a failing case.
pub fn shrink(
    f: CaseFn,
    case: u64,
    size: usize,
    base: &Path,
    thorough: bool,
    start: Vec<u64>,
    failure: Failure,
    budget: Duration,
) -> (Vec<u64>, Failure, Vec<String>, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_fail = failure.clone();
    let mut best_notes = vec![];
    let mut attempts = 0usize;
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let family = |s: &str| s.split(':').next().unwrap_or("").to_string();
    let want = family(&failure.sig);
    let mut try_one = |c: &Vec<u64>, attempts: &mut usize| -> Option<(Vec<u64>, Failure, Vec<String>)> {
        if !seen.insert(c.clone()) {
            return None;
        }
        *attempts += 1;
        let r = run_case(f, Src::replay(c.clone()), case, size, base, thorough);
        match r.outcome {
            Err(fl) if family(&fl.sig) == want => {
                // normalise to the draws really used
                let mut used = r.choices;
                while used.last() == Some(&0) {
                    used.pop();
                }
                Some((used, fl, r.ctx.notes))
            }
            _ => None,
        }
    };
    macro_rules! attempt {
        ($c:expr) => {{
            let c: Vec<u64> = $c;
            let mut ok = false;
            if t0.elapsed() < budget && attempts < 6000 {
                if let Some((u, fl, n)) = try_one(&c, &mut attempts) {
                    if (u.len(), &u) < (best.len(), &best) || best_notes.is_empty() {
                        best = u;
                        best_fail = fl;
                        best_notes = n;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    let first = best.clone();
    attempt!(first);
    loop {
        let before = best.clone();
        // delete blocks
        let mut block = best.len() / 2;
        while block >= 1 {
            let mut i = 0;
            while i + block <= best.len() {
                if t0.elapsed() > budget {
                    break;
                }
                let mut c = best.clone();
                c.drain(i..i + block);
                if !attempt!(c) {
                    i += block.max(1);
                }
            }
            block /= 2;
        }
        // zero blocks, then reduce single values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let mut lo = 0u64;
                    let mut hi = best.get(i).copied().unwrap_or(0);
                    while lo + 1 < hi && t0.elapsed() < budget {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        // delete a draw while reducing an earlier one (lengths of collections)
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            if best[i] > 0 && best[i] < 64 {
                for del in 1..=6usize {
                    for off in 1..=8usize {
                        if i + off + del <= best.len() {
                            let mut c = best.clone();
                            c[i] -= 1;
                            c.drain(i + off..i + off + del);
                            if attempt!(c) {
                                break;
                            }
                        }
                        if i >= best.len() || best[i] == 0 {
                            break;
                        }
                    }
                    if i >= best.len() || best[i] == 0 {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > budget || attempts >= 6000 {
            break;
        }
    }
    (best, best_fail, best_notes, attempts)
}
