//! A stateless, exhaustive explorer.
//!
//! A *suite* is a closed program over the real `traffic_sim` crate whose every source of
//! nondeterminism is a call to [`Ctx::choose`]. One execution is identified by the vector of
//! choices it made; the explorer enumerates every such vector (depth first, odometer order),
//! distributing subtrees over worker threads. Nothing is sampled: a suite either enumerates its
//! whole tree or the run is reported as incomplete (error exit).

use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// The verdict of one execution.
pub enum Stop {
    /// A precondition of the property does not hold on this execution.
    Prune,
    /// The property is violated.
    Violation(String),
}

pub type Res = Result<(), Stop>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Stop::Violation(format!($($a)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Stop::Violation(format!($($a)*))); } };
}

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x.wrapping_mul(0x9E3779B97F4A7C15);
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-style mixing of 64 bit words.
#[derive(Clone, Copy)]
pub struct Mix(pub u64);
impl Mix {
    pub fn new() -> Self {
        Mix(0xcbf29ce484222325)
    }
    pub fn u(&mut self, x: u64) -> &mut Self {
        let mut h = self.0 ^ x;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 29;
        self.0 = h;
        self
    }
    /// Hashes a float quantised to 1e-6.
    pub fn f(&mut self, x: f64) -> &mut Self {
        self.u((x * 1e6).round() as i64 as u64)
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub sim_steps: u64,
    pub checks: u64,
    pub states: IdSet,
    pub outcomes: IdSet,
    pub cover: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, f64>,
    pub samples: Vec<Vec<u32>>,
    pub max_depth: usize,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.executions += o.executions;
        self.pruned += o.pruned;
        self.transitions += o.transitions;
        self.sim_steps += o.sim_steps;
        self.checks += o.checks;
        if self.states.len() < o.states.len() {
            let mine = std::mem::replace(&mut self.states, o.states);
            self.states.extend(mine);
        } else {
            self.states.extend(o.states);
        }
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.cover {
            *self.cover.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(f64::NEG_INFINITY);
            *e = e.max(v);
        }
        self.samples.extend(o.samples);
        self.max_depth = self.max_depth.max(o.max_depth);
    }
}

/// The execution context: the only source of nondeterminism available to a suite.
pub struct Ctx {
    prefix: Vec<u32>,
    choices: Vec<(u32, u32)>,
    budget: usize,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub st: Stats,
    pub thorough: bool,
    obs: Mix,
    exec_t: u64,
}

impl Ctx {
    fn new(thorough: bool) -> Self {
        Ctx {
            prefix: vec![],
            choices: vec![],
            budget: 0,
            tracing: false,
            trace: vec![],
            st: Stats::default(),
            thorough,
            obs: Mix::new(),
            exec_t: 0,
        }
    }

    /// Picks one of `n` alternatives; every alternative is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("DIVERGENCE: recorded choice {} out of range {} at point {}", c, n, i);
        }
        self.choices.push((c, n as u32));
        c as usize
    }

    /// Picks an element of a slice.
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.choose(xs.len())]
    }

    /// Sets the deviation budget for [`Ctx::dev`].
    pub fn set_budget(&mut self, n: usize) {
        self.budget = n;
    }

    pub fn budget(&self) -> usize {
        self.budget
    }

    /// Picks among `n` alternatives, where 0 is the default environment answer and anything else
    /// costs one deviation from the budget.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.budget -= 1;
        }
        c
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }

    /// Records a transition into a state with the given hash.
    pub fn state(&mut self, h: u64) {
        self.st.transitions += 1;
        if self.st.states.len() < 6_000_000 {
            self.st.states.insert(h);
        }
    }

    /// Feeds the observation digest of this execution.
    pub fn observe(&mut self, x: u64) {
        self.obs.u(x);
    }

    pub fn cover(&mut self, tag: &'static str) {
        *self.st.cover.entry(tag).or_insert(0) += 1;
    }

    pub fn max(&mut self, tag: &'static str, v: f64) {
        let e = self.st.maxima.entry(tag).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }

    /// Counts one oracle evaluation.
    pub fn checked(&mut self) {
        self.st.checks += 1;
    }

    pub fn prune<T>(&self) -> Result<T, Stop> {
        Err(Stop::Prune)
    }

    pub fn steps(&mut self, n: u64) {
        self.st.sim_steps += n;
        self.exec_t += n;
    }
}

pub type Body = Arc<dyn Fn(&mut Ctx) -> Res + Send + Sync>;

#[derive(Clone)]
pub struct Suite {
    pub name: &'static str,
    /// What is enumerated, in words (goes into the evidence).
    pub bounds: &'static str,
    pub body: Body,
    /// Cover tags that the exploration must reach, or else the run is vacuous (an error).
    pub must_cover: Vec<&'static str>,
    /// A history that is recorded in known-findings.txt.
    pub known: bool,
}

impl Suite {
    pub fn reaching(mut self, tags: &[&'static str]) -> Self {
        self.must_cover = tags.to_vec();
        self
    }

    pub fn known(mut self) -> Self {
        self.known = true;
        self
    }

    pub fn new(
        name: &'static str,
        bounds: &'static str,
        f: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static,
    ) -> Self {
        Suite {
            name,
            bounds,
            body: Arc::new(f),
            must_cover: vec![],
            known: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub suite: &'static str,
    pub choices: Vec<u32>,
    pub message: String,
    pub trace: Vec<String>,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

enum Outcome {
    Ok,
    Pruned,
    Fail(String),
    EngineError(String),
}

fn run_one(ctx: &mut Ctx, body: &Body) -> Outcome {
    ctx.choices.clear();
    ctx.trace.clear();
    ctx.budget = 0;
    ctx.obs = Mix::new();
    ctx.exec_t = 0;
    ctx.st.executions += 1;
    let r = catch_unwind(AssertUnwindSafe(|| body(ctx)));
    ctx.st.max_depth = ctx.st.max_depth.max(ctx.choices.len());
    match r {
        Ok(Ok(())) => {
            let o = ctx.obs.0;
            if ctx.st.outcomes.len() < 2_000_000 {
                ctx.st.outcomes.insert(o);
            }
            Outcome::Ok
        }
        Ok(Err(Stop::Prune)) => {
            ctx.st.pruned += 1;
            Outcome::Pruned
        }
        Ok(Err(Stop::Violation(m))) => Outcome::Fail(m),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if m.starts_with("DIVERGENCE") || m.starts_with("empty choice") || m.contains("HARNESS") {
                Outcome::EngineError(m)
            } else {
                Outcome::Fail(format!("panic in the code under test: {}", m))
            }
        }
    }
}

/// Replays one choice vector with tracing on. Returns the failure message, if any, and the trace.
pub fn replay(suite: &Suite, choices: &[u32], thorough: bool) -> (Option<String>, Vec<String>, u64) {
    let mut ctx = Ctx::new(thorough);
    ctx.tracing = true;
    ctx.prefix = choices.to_vec();
    let r = run_one(&mut ctx, &suite.body);
    let msg = match r {
        Outcome::Ok => None,
        Outcome::Pruned => Some("(pruned)".into()),
        Outcome::Fail(m) => Some(m),
        Outcome::EngineError(m) => Some(format!("ENGINE: {}", m)),
    };
    (msg, ctx.trace, ctx.obs.0)
}

struct Slot {
    started: AtomicU64, // ms since epoch start + 1, 0 = idle
    choices: Mutex<Vec<u32>>,
}

pub struct Report {
    pub stats: Stats,
    pub failure: Option<Failure>,
    pub complete: bool,
    pub engine_error: Option<String>,
}

/// Exhaustively explores a suite.
pub fn explore(suite: &Suite, thorough: bool, threads: usize, hang_s: u64, deadline: Instant) -> Report {
    let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let pending = AtomicUsize::new(1);
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let incomplete = AtomicBool::new(false);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let engine_error: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let t0 = Instant::now();
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            started: AtomicU64::new(0),
            choices: Mutex::new(vec![]),
        })
        .collect();
    let alive = AtomicUsize::new(threads);
    let journal = std::env::var("TSMC_JOURNAL")
        .ok()
        .and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok());
    let journal = &journal;

    std::thread::scope(|s| {
        for w in 0..threads {
            let (queue, pending, idle, stop, incomplete, failure, engine_error, total, slots, alive) = (
                &queue, &pending, &idle, &stop, &incomplete, &failure, &engine_error, &total, &slots, &alive,
            );
            let builder = std::thread::Builder::new().stack_size(8 << 20);
            builder
                .spawn_scoped(s, move || {
                    let mut ctx = Ctx::new(thorough);
                    let mut is_idle = false;
                    'outer: loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let job = queue.lock().unwrap().pop();
                        let job = match job {
                            Some(j) => j,
                            None => {
                                if pending.load(SeqCst) == 0 {
                                    break;
                                }
                                if !is_idle {
                                    idle.fetch_add(1, SeqCst);
                                    is_idle = true;
                                }
                                std::thread::sleep(Duration::from_micros(50));
                                continue;
                            }
                        };
                        if is_idle {
                            idle.fetch_sub(1, SeqCst);
                            is_idle = false;
                        }
                        let mut base = job.len();
                        ctx.prefix = job;
                        loop {
                            slots[w].choices.lock().unwrap().clone_from(&ctx.prefix);
                            if let Some(j) = &journal {
                                write_journal(j, w, suite.name, &ctx.prefix);
                            }
                            slots[w].started.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                            let out = run_one(&mut ctx, &suite.body);
                            slots[w].started.store(0, Relaxed);
                            match out {
                                Outcome::Ok => {
                                    if ctx.st.samples.is_empty() {
                                        let c: Vec<u32> = ctx.choices.iter().map(|c| c.0).collect();
                                        ctx.st.samples.push(c);
                                    }
                                }
                                Outcome::Pruned => {}
                                Outcome::Fail(message) => {
                                    let choices = ctx.choices.iter().map(|c| c.0).collect();
                                    let mut f = failure.lock().unwrap();
                                    if f.is_none() {
                                        *f = Some(Failure {
                                            suite: suite.name,
                                            choices,
                                            message,
                                            trace: vec![],
                                        });
                                    }
                                    stop.store(true, SeqCst);
                                    break 'outer;
                                }
                                Outcome::EngineError(m) => {
                                    *engine_error.lock().unwrap() = Some(m);
                                    stop.store(true, SeqCst);
                                    break 'outer;
                                }
                            }
                            if stop.load(Relaxed) {
                                break 'outer;
                            }
                            if ctx.st.executions % 16 == 0 && Instant::now() > deadline {
                                incomplete.store(true, SeqCst);
                                stop.store(true, SeqCst);
                                break 'outer;
                            }
                            // Donate the shallowest unexplored alternatives to idle workers.
                            if idle.load(Relaxed) > 0 {
                                if let Some(i) = (base..ctx.choices.len())
                                    .find(|&i| ctx.choices[i].0 + 1 < ctx.choices[i].1)
                                {
                                    let mut new = vec![];
                                    for alt in (ctx.choices[i].0 + 1..ctx.choices[i].1).rev() {
                                        let mut p: Vec<u32> =
                                            ctx.choices[..i].iter().map(|c| c.0).collect();
                                        p.push(alt);
                                        new.push(p);
                                    }
                                    pending.fetch_add(new.len(), SeqCst);
                                    queue.lock().unwrap().extend(new);
                                    base = i + 1;
                                }
                            }
                            // Advance the odometer.
                            let mut next = None;
                            for i in (base..ctx.choices.len()).rev() {
                                if ctx.choices[i].0 + 1 < ctx.choices[i].1 {
                                    let mut p: Vec<u32> = ctx.choices[..=i].iter().map(|c| c.0).collect();
                                    p[i] += 1;
                                    next = Some(p);
                                    break;
                                }
                            }
                            match next {
                                Some(p) => ctx.prefix = p,
                                None => break,
                            }
                        }
                        pending.fetch_sub(1, SeqCst);
                    }
                    total.lock().unwrap().merge(std::mem::take(&mut ctx.st));
                    alive.fetch_sub(1, SeqCst);
                })
                .expect("HARNESS: spawn");
        }
        // Watchdog: an execution that does not terminate is reported, the process then exits.
        while alive.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for sl in &slots {
                let st = sl.started.load(Relaxed);
                if st != 0 && now > st + hang_s * 1000 {
                    let choices = sl.choices.lock().unwrap().clone();
                    crate::hang(Failure {
                        suite: suite.name,
                        choices,
                        message: format!(
                            "an execution did not terminate within {} s (normally milliseconds)",
                            hang_s
                        ),
                        trace: vec![],
                    });
                }
            }
        }
    });

    let f = failure.lock().unwrap().take();
    let e = engine_error.lock().unwrap().take();
    let mut stats = std::mem::take(&mut *total.lock().unwrap());
    stats.samples.truncate(3);
    Report {
        stats,
        failure: f,
        complete: !incomplete.load(SeqCst),
        engine_error: e,
    }
}

const JOURNAL_REC: usize = 1024;

/// Records what worker `w` is about to execute, to be read if the process dies.
fn write_journal(f: &std::fs::File, w: usize, suite: &str, prefix: &[u32]) {
    use std::os::unix::fs::FileExt;
    let mut buf = Vec::with_capacity(JOURNAL_REC);
    buf.push(suite.len() as u8);
    buf.extend_from_slice(suite.as_bytes());
    buf.extend_from_slice(&(prefix.len() as u16).to_le_bytes());
    for c in prefix {
        buf.extend_from_slice(&(*c as u16).to_le_bytes());
    }
    if buf.len() <= JOURNAL_REC {
        let _ = f.write_at(&buf, (w * JOURNAL_REC) as u64);
    }
}

pub fn read_journal(path: &std::path::Path) -> Vec<(String, Vec<u32>)> {
    let data = std::fs::read(path).unwrap_or_default();
    let mut out = vec![];
    for rec in data.chunks(JOURNAL_REC) {
        let n = *rec.first().unwrap_or(&0) as usize;
        if n == 0 || rec.len() < n + 3 {
            continue;
        }
        let Ok(name) = std::str::from_utf8(&rec[1..1 + n]) else { continue };
        let k = u16::from_le_bytes([rec[1 + n], rec[2 + n]]) as usize;
        if rec.len() < 3 + n + 2 * k {
            continue;
        }
        let c = (0..k)
            .map(|i| u16::from_le_bytes([rec[3 + n + 2 * i], rec[4 + n + 2 * i]]) as u32)
            .collect();
        out.push((name.to_string(), c));
    }
    out
}
