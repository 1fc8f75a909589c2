//! Generic property engine: tape-driven generation, parallel search, shrinking, evidence.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// splitmix64
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// stable hash (FNV-1a 64) - independent of std's hasher seeds
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Fnv { pub fn new() -> Self { Fnv(0xcbf29ce484222325) } }
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 ^= *x as u64; self.0 = self.0.wrapping_mul(0x100000001b3); } }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fnv::new(); t.hash(&mut h); h.finish() }

/// Source of choices. 0 is always the simplest choice.
pub struct Src { pub tape: Vec<u64>, pos: usize, rng: Option<Rng>, echo: std::collections::VecDeque<u64>, vary: u64 }
const MAX_TAPE: usize = 400_000;
impl Src {
    pub fn random(seed: u64) -> Self { Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), echo: Default::default(), vary: 0 } }
    pub fn replay(tape: &[u64]) -> Self { Src { tape: tape.to_vec(), pos: 0, rng: None, echo: Default::default(), vary: 0 } }
    pub fn used(&self) -> usize { self.pos.min(self.tape.len()) }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if let Some(r) = self.rng.as_mut() {
            if self.tape.len() >= MAX_TAPE { 0 } else { 
                let e = self.echo.pop_front().filter(|_| self.vary == 0 || r.next() % self.vary != 0);
                let v = e.unwrap_or_else(|| r.next()) % n; self.tape.push(v); v }
        } else if self.pos < self.tape.len() { self.tape[self.pos] % n } else { 0 };
        self.pos += 1;
        v
    }
    /// where the choices made from here on are recorded
    pub fn mark(&self) -> usize { self.tape.len() }
    /// With probability 1/den the coming choices are those recorded in one of the spans, each of them varied with a
    /// small probability or never: the same thing is made again, or nearly. (On replay the tape holds the outcome.)
    pub fn again(&mut self, spans: &[(usize, usize)], den: u64) -> bool {
        // the same draws whether or not anything comes of them
        if !self.chance(1, den) { return false; }
        let k = self.u(spans.len()).min(self.u(spans.len())); let v = [0, 0, 8, 32][self.u(4)];
        if spans.is_empty() || self.rng.is_none() || !self.echo.is_empty() { return false; }
        let (a, b) = spans[spans.len() - 1 - k];
        self.echo = self.tape[a..b.min(self.tape.len())].iter().copied().collect(); self.vary = v;
        true
    }
    /// ends what `again` has started
    pub fn fresh(&mut self) { self.echo.clear(); }
    pub fn u(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    /// true with probability num/den; the simplest choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    pub fn bits(&mut self) -> u64 {
        // full 64-bit draw, recorded as two halves so that shrinking works
        let hi = self.below(1 << 32); let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.u(xs.len()); &xs[i] }
    /// weighted choice: index
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() { if v < *w { return i; } v -= w; }
        ws.len() - 1
    }
    /// geometric-ish length in lo..=hi, biased to small
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        let span = hi - lo;
        match self.weighted(&[4, 3, 1]) {
            0 => lo + self.u(span.min(2) + 1),
            1 => lo + self.u(span.min(5) + 1),
            _ => lo + self.u(span + 1),
        }
    }
    /// a length in lo..=hi, rarely far beyond `hi` (up to `cap` more)
    pub fn many(&mut self, lo: usize, hi: usize, cap: usize) -> usize {
        if self.chance(1, 120) {
            if self.chance(1, 3) { const AT: [usize; 24] = [9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300]; return AT[self.u(24)].clamp(lo, hi + cap); }
            let top = [cap / 16, cap / 4, cap][self.weighted(&[5, 3, 1])].max(1); return hi + self.u(top + 1);
        }
        self.len(lo, hi)
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        // 0-draws leave the order unchanged
        for i in 0..v.len() { let j = i + self.u(v.len() - i); v.swap(i, j); }
    }
}

/// Per-case context: what the case exercised.
#[derive(Default)]
pub struct Ctx {
    pub input: String,
    pub evals: u64,
    pub nontrivial: Vec<u64>,
    pub sample: Option<String>,
    pub labels: Vec<&'static str>,
}
impl Ctx {
    pub fn eval(&mut self, n: u64) { self.evals += n; }
    pub fn non_trivial<T: Hash + ?Sized>(&mut self, key: &T) { self.nontrivial.push(hash_of(key)); }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.sample.is_none() { self.sample = Some(s()); } }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;
/// A deterministic check run once; returns known-finding lines to print.
pub type ProbeFn = fn(&mut Ctx) -> Result<Vec<String>, String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
    pub probes: &'static [ProbeFn],
}

thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default() }

/// Runs code under test; a panic becomes Err("panic: ..").
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", last_panic()))
}

pub struct Outcome { pub res: Res, pub ctx: Ctx, pub tape: Vec<u64> }

pub fn run_case(f: CaseFn, mut src: Src) -> Outcome {
    let mut ctx = Ctx::default();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut src, &mut ctx)));
    let res = match r { Ok(r) => r, Err(_) => Err(format!("panic: {}", last_panic())) };
    if ctx.evals == 0 { ctx.evals = 1; }
    let used = src.used();
    let mut tape = src.tape; tape.truncate(used);
    Outcome { res, ctx, tape }
}

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 { hash_of(&(seed, id, i)) }

/// Shrinks a failing tape. `deadline` bounds the effort.
pub fn shrink(f: CaseFn, tape: Vec<u64>, first: Outcome, deadline: Instant) -> (Vec<u64>, Outcome, u64) {
    let mut best = tape; let mut out = first; let mut runs = 0u64;
    let try_tape = |t: &[u64], runs: &mut u64| -> Option<Outcome> {
        *runs += 1;
        let o = run_case(f, Src::replay(t));
        if o.res.is_err() { Some(o) } else { None }
    };
    loop {
        let mut improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > deadline { return (best, out, runs); }
                let mut t = best.clone();
                let end = (i + size).min(t.len());
                t.drain(i..end);
                if let Some(o) = try_tape(&t, &mut runs) { best = o.tape.clone(); if best.len() > t.len() { best = t; } out = o; improved = true; } else { i += size; }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > deadline { return (best, out, runs); }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[i..end] { *x = 0; }
                    if let Some(o) = try_tape(&t, &mut runs) { best = t; out = o; improved = true; }
                }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        // lower single values
        for i in 0..best.len() {
            if i >= best.len() { break; }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                if Instant::now() > deadline { return (best, out, runs); }
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone(); t[i] = mid;
                if let Some(o) = try_tape(&t, &mut runs) { best = t; out = o; hi = mid; improved = true; } else { lo = mid + 1; }
            }
        }
        if !improved { return (best, out, runs); }
    }
}

pub struct Report {
    pub evaluations: u64, pub cases: u64, pub nontrivial: HashSet<u64>, pub samples: Vec<String>,
    pub labels: std::collections::BTreeMap<&'static str, u64>,
    pub failure: Option<(Vec<u64>, String, String)>, // tape, message, input
    pub shrink_runs: u64, pub known: Vec<String>, pub capped: bool,
}

pub struct RunCfg { pub seed: u64, pub cases: u64, pub threads: usize, pub cap: Duration, pub progress: Option<std::path::PathBuf>, pub prelim: Option<std::path::PathBuf>, pub skip: Vec<u64> }

/// One progress slot per thread: (case index + 1, start millis); mirrored to a file so that the parent can see it.
pub fn run(p: &'static Prop, cfg: &RunCfg) -> Report {
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..cfg.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let rep = Arc::new(Mutex::new(Report { evaluations: 0, cases: 0, nontrivial: HashSet::new(), samples: vec![], labels: Default::default(), failure: None, shrink_runs: 0, known: vec![], capped: false }));
    let best_fail: Arc<Mutex<Option<(u64, Outcome)>>> = Arc::new(Mutex::new(None));
    let prog = cfg.progress.as_ref().map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap());
    let prog = Arc::new(prog);

    // probes first; a probe that does not end is a failure
    let probes_done = Arc::new(AtomicBool::new(false));
    if !p.probes.is_empty() {
        let (d, pre) = (probes_done.clone(), cfg.prelim.clone());
        std::thread::spawn(move || {
            for _ in 0..1500 { std::thread::sleep(Duration::from_millis(100)); if d.load(Ordering::Relaxed) { return; } }
            if let Some(f) = pre { let _ = std::fs::write(f, "0\na fixed probe does not end within 150 s"); }
            std::process::exit(3);
        });
    }
    for pr in p.probes {
        let mut ctx = Ctx::default();
        let r = catch_unwind(AssertUnwindSafe(|| pr(&mut ctx))).unwrap_or_else(|_| Err(format!("panic: {}", last_panic())));
        let mut g = rep.lock().unwrap();
        g.evaluations += ctx.evals.max(1);
        g.nontrivial.extend(ctx.nontrivial.iter());
        match r {
            Ok(k) => g.known.extend(k),
            Err(m) => { if g.failure.is_none() { g.failure = Some((vec![], format!("fixed probe: {m}"), ctx.input)); } }
        }
    }
    probes_done.store(true, Ordering::Relaxed);
    if rep.lock().unwrap().failure.is_some() { return Arc::try_unwrap(rep).ok().unwrap().into_inner().unwrap(); }

    let done = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for t in 0..cfg.threads {
        let (next, stop, slots, rep, best_fail, prog) = (next.clone(), stop.clone(), slots.clone(), rep.clone(), best_fail.clone(), prog.clone());
        let (seed, total, cap, skip) = (cfg.seed, cfg.cases, cfg.cap, cfg.skip.clone());
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            use std::os::unix::fs::FileExt;
            loop {
                if stop.load(Ordering::Relaxed) { break; }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= total { break; }
                if skip.contains(&i) { continue; }
                if start.elapsed() > cap { rep.lock().unwrap().capped = true; break; }
                slots[t].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                slots[t].0.store(i + 1, Ordering::Relaxed);
                if let Some(f) = prog.as_ref() { let _ = f.write_at(&(i + 1).to_le_bytes(), (t * 8) as u64); }
                let o = run_case(p.case, Src::random(case_seed(seed, p.id, i)));
                slots[t].0.store(0, Ordering::Relaxed);
                if let Some(f) = prog.as_ref() { let _ = f.write_at(&0u64.to_le_bytes(), (t * 8) as u64); }
                if o.res.is_err() {
                    stop.store(true, Ordering::Relaxed);
                    let mut g = best_fail.lock().unwrap();
                    if g.as_ref().map(|(j, _)| i < *j).unwrap_or(true) { *g = Some((i, o)); }
                    break;
                }
                let mut g = rep.lock().unwrap();
                g.cases += 1; g.evaluations += o.ctx.evals;
                for l in &o.ctx.labels { *g.labels.entry(l).or_insert(0) += 1; }
                let nt = !o.ctx.nontrivial.is_empty();
                g.nontrivial.extend(o.ctx.nontrivial);
                if nt && g.samples.len() < 12 && (i % 17 == 3 || g.samples.len() < 3) { if let Some(s) = o.ctx.sample { g.samples.push(s); } }
            }
        }).unwrap());
    }
    // watchdog: a single case stuck for very long -> exit code 3, the parent investigates in isolation
    let wd = { let (slots, done) = (slots.clone(), done.clone()); std::thread::spawn(move || {
        while !done.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(200));
            let now = start.elapsed().as_millis() as u64;
            for s in slots.iter() {
                let i = s.0.load(Ordering::Relaxed);
                if i != 0 && now.saturating_sub(s.1.load(Ordering::Relaxed)) > 60_000 { println!("STUCK case {}", i - 1); std::process::exit(3); }
            }
        }
    }) };
    for h in hs { let _ = h.join(); }
    done.store(true, Ordering::Relaxed);
    let _ = wd.join();
    let fail = best_fail.lock().unwrap().take();
    let mut g = Arc::try_unwrap(rep).ok().unwrap().into_inner().unwrap();
    if let Some((i, o)) = fail {
        if let Some(p) = &cfg.prelim { let _ = std::fs::write(p, format!("{i}\n{}", o.res.clone().err().unwrap_or_default())); }
        let deadline = Instant::now() + Duration::from_secs(std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30));
        // shrinking may run into an input that never ends: the parent then reports the unshrunk case
        std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(100)); std::process::exit(3); });
        let tape = o.tape.clone();
        let (t, o, n) = shrink(p.case, tape, o, deadline);
        g.shrink_runs = n;
        g.failure = Some((t, o.res.err().unwrap_or_default(), o.ctx.input));
    }
    g
}
