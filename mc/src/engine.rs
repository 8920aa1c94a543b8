//! Stateless explorer: enumerates every resolution of the choice points of a scenario by re-executing it.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51_afd7_ed55_8ccd);
        x ^= x >> 33;
        x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        x ^ (x >> 33)
    }
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            self.0 ^= u64::from(c);
            self.0 = self.0.wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Debug)]
pub enum Stop {
    /// This execution is not continued (already visited state, or nothing more to do)
    Prune,
    /// A violation was recorded
    Violation,
}
pub type R<T = ()> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub scenario: String,
    pub choices: Vec<u32>,
    pub log: Vec<String>,
}

#[derive(Default)]
pub struct Shared {
    visited: Vec<Mutex<HashSet<u64>>>,
}
impl Shared {
    fn new() -> Self {
        Shared { visited: (0..64).map(|_| Mutex::new(HashSet::new())).collect() }
    }
    fn insert(&self, h: u64) -> bool {
        self.visited[(h >> 58) as usize].lock().unwrap().insert(h)
    }
    fn len(&self) -> usize {
        self.visited.iter().map(|m| m.lock().unwrap().len()).sum()
    }
}

#[derive(Default)]
struct Local {
    executions: u64,
    transitions: u64,
    pruned: u64,
    deviating: u64,
    nontrivial: u64,
    max_depth: usize,
    max_choices: usize,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    counters: BTreeMap<String, u64>,
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    trace: Vec<(u32, u32)>, // (choice, arity as seen by the explorer: 1 = forced)
    budget: u32,
    dev_used: u32,
    steps: usize,
    logging: bool,
    pub log: Vec<String>,
    violation: Option<(String, String)>,
    found: Vec<(String, String, usize)>,
    diverged: bool,
    local: &'a mut Local,
    shared: &'a Shared,
    known: &'a HashSet<String>,
    pub thorough: bool,
    digest: u64,
}

impl<'a> Ctx<'a> {
    fn pick(&mut self, n: u32) -> usize {
        let pos = self.trace.len();
        let c = if pos < self.prefix.len() { self.prefix[pos] } else { 0 };
        if c >= n {
            // divergence while replaying a prefix is a hard error of the engine, never a verdict
            self.diverged = true;
            self.trace.push((0, n));
            return 0;
        }
        self.trace.push((c, n));
        c as usize
    }
    /// Free nondeterministic choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.pick(n as u32)
    }
    pub fn pick_from<'t, T>(&mut self, items: &'t [T]) -> &'t T {
        let i = self.choose(items.len());
        &items[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Choice whose alternatives other than 0 cost one deviation.
    pub fn deviate(&mut self, n: usize) -> usize {
        if n <= 1 || self.budget == 0 {
            return 0;
        }
        let c = self.pick(n as u32);
        if c > 0 {
            self.budget -= 1;
            self.dev_used += 1;
        }
        c
    }
    #[allow(dead_code)]
    pub fn budget(&self) -> u32 {
        self.budget
    }
    /// One transition of the system under test was executed.
    pub fn step(&mut self) {
        self.steps += 1;
        self.local.transitions += 1;
    }
    fn replaying(&self) -> bool {
        self.trace.len() < self.prefix.len()
    }
    /// Records an abstract state (coverage only).
    pub fn state<T: Hash>(&mut self, s: &T) {
        let h = h64(s);
        self.local.states.insert(h);
    }
    /// Explicit-state pruning: stops this execution when the state was expanded before.
    pub fn first_visit<T: Hash>(&mut self, s: &T) -> R {
        let h = h64(s);
        self.local.states.insert(h);
        if self.replaying() {
            return Ok(());
        }
        if self.shared.insert(h) {
            Ok(())
        } else {
            Err(Stop::Prune)
        }
    }
    /// Records an observed outcome (for vacuity control).
    pub fn observe<T: Hash + ?Sized>(&mut self, s: &T) {
        let h = h64(s);
        self.digest = h64(&(self.digest, h));
    }
    pub fn count(&mut self, what: &str) {
        self.count_n(what, 1)
    }
    pub fn count_n(&mut self, what: &str, n: u64) {
        if let Some(c) = self.local.counters.get_mut(what) {
            *c += n;
        } else {
            self.local.counters.insert(what.to_string(), n);
        }
    }
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        if self.logging {
            let s = f();
            self.log.push(s);
        }
    }
    /// Reports a violation. Known findings are counted and the execution goes on.
    pub fn report<F: FnOnce() -> String>(&mut self, key: &str, msg: F) -> R {
        if self.known.contains(key) {
            let n = format!("known:{}", key);
            let first = !self.local.counters.contains_key(&n);
            self.count(&n);
            if first || self.logging {
                let m = msg();
                self.log(|| format!("known finding {}: {}", key, m));
                self.found.push((key.to_string(), m, self.trace.len()));
            }
            return Ok(());
        }
        let m = msg();
        self.log(|| format!("VIOLATION {}: {}", key, m));
        self.violation = Some((key.to_string(), m));
        Err(Stop::Violation)
    }
    pub fn check<F: FnOnce() -> String>(&mut self, ok: bool, key: &str, msg: F) -> R {
        if ok {
            Ok(())
        } else {
            self.report(key, msg)
        }
    }
}

pub struct Scenario {
    pub name: String,
    pub deviations: u32,
    pub note: String,
    pub body: Box<dyn Fn(&mut Ctx) -> R + Send + Sync>,
}
pub fn scenario<F: Fn(&mut Ctx) -> R + Send + Sync + 'static>(
    name: &str,
    deviations: u32,
    note: &str,
    f: F,
) -> Scenario {
    Scenario { name: name.to_string(), deviations, note: note.to_string(), body: Box::new(f) }
}

#[derive(Default, Clone, Debug)]
pub struct ScenarioStats {
    pub name: String,
    pub note: String,
    pub deviations: u32,
    pub executions: u64,
    pub transitions: u64,
    pub pruned: u64,
    pub deviating: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub visited: u64,
    pub outcomes: u64,
    pub max_depth: usize,
    pub max_choices: usize,
    pub counters: BTreeMap<String, u64>,
    pub exhausted: bool,
    pub wall_s: f64,
    pub sample: Vec<String>,
    pub sample_choices: Vec<u32>,
}

pub struct Exploration {
    pub stats: ScenarioStats,
    pub violations: Vec<Violation>,
    pub known: Vec<Violation>,
    pub error: Option<String>,
}

struct Work {
    queue: Mutex<(Vec<Vec<u32>>, usize)>, // prefixes, idle workers
    cv: Condvar,
    stop: AtomicBool,
    waiting: AtomicUsize,
}

pub struct RunOut {
    pub choices: Vec<u32>,
    pub log: Vec<String>,
    pub digest: u64,
    pub violation: Option<(String, String)>,
    pub diverged: bool,
    pub panicked: Option<String>,
}

pub static LIMIT_VIOLATIONS: usize = 40;

fn run_one<'a>(
    sc: &Scenario,
    prefix: &'a [u32],
    local: &'a mut Local,
    shared: &'a Shared,
    known: &'a HashSet<String>,
    thorough: bool,
    logging: bool,
) -> (Vec<(u32, u32)>, RunOut, Vec<(String, String, usize)>) {
    crate::sut::begin_execution(&sc.name, prefix);
    let mut ctx = Ctx {
        prefix,
        trace: Vec::with_capacity(prefix.len() + 16),
        budget: sc.deviations,
        dev_used: 0,
        steps: 0,
        logging,
        log: Vec::new(),
        violation: None,
        found: Vec::new(),
        diverged: false,
        local,
        shared,
        known,
        thorough,
        digest: 0,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.body)(&mut ctx)));
    crate::sut::end_execution();
    let panicked = match &r {
        Err(e) => Some(crate::sut::panic_msg(&**e)),
        Ok(_) => None,
    };
    ctx.local.executions += 1;
    if ctx.dev_used > 0 {
        ctx.local.deviating += 1;
    }
    if let Ok(Err(Stop::Prune)) = r {
        ctx.local.pruned += 1;
    } else if ctx.steps > 0 {
        ctx.local.nontrivial += 1;
    }
    ctx.local.max_depth = ctx.local.max_depth.max(ctx.steps);
    ctx.local.max_choices = ctx.local.max_choices.max(ctx.trace.len());
    let d = ctx.digest;
    ctx.local.outcomes.insert(d);
    if ctx.trace.len() < ctx.prefix.len() {
        ctx.diverged = true;
    }
    let out = RunOut {
        choices: ctx.trace.iter().map(|t| t.0).collect(),
        log: std::mem::replace(&mut ctx.log, Vec::new()),
        digest: d,
        violation: ctx.violation.take(),
        diverged: ctx.diverged,
        panicked,
    };
    let found = std::mem::replace(&mut ctx.found, Vec::new());
    (std::mem::replace(&mut ctx.trace, Vec::new()), out, found)
}

/// Re-executes one recorded list of choices with logging.
pub fn replay(sc: &Scenario, choices: &[u32], known: &HashSet<String>, thorough: bool) -> RunOut {
    let mut local = Local::default();
    let shared = Shared::new();
    let (_, out, _) = run_one(sc, choices, &mut local, &shared, known, thorough, true);
    out
}

pub fn explore(
    sc: &Scenario,
    known: &HashSet<String>,
    thorough: bool,
    threads: usize,
    max_wall: Duration,
) -> Exploration {
    let t0 = Instant::now();
    let work = Work {
        queue: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        waiting: AtomicUsize::new(0),
    };
    let shared = Shared::new();
    let merged = Mutex::new((Local::default(), Vec::<Violation>::new(), Vec::<Violation>::new(), None::<String>));
    let timed_out = AtomicBool::new(false);
    let nviol = AtomicUsize::new(0);
    let first_viol_ms = AtomicU64::new(u64::max_value());
    let known_seen: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut local = Local::default();
                let mut viols = Vec::new();
                let mut knowns = Vec::new();
                let mut error: Option<String> = None;
                let mut stack: Vec<Vec<u32>> = Vec::new();
                'outer: loop {
                    if work.stop.load(Relaxed) {
                        break;
                    }
                    let prefix = match stack.pop() {
                        Some(p) => p,
                        None => {
                            let mut q = work.queue.lock().unwrap();
                            loop {
                                if work.stop.load(Relaxed) {
                                    break 'outer;
                                }
                                if let Some(p) = q.0.pop() {
                                    break p;
                                }
                                q.1 += 1;
                                work.waiting.store(q.1, Relaxed);
                                if q.1 == threads {
                                    work.stop.store(true, Relaxed);
                                    work.cv.notify_all();
                                    break 'outer;
                                }
                                q = work.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                                q.1 -= 1;
                                work.waiting.store(q.1, Relaxed);
                            }
                        }
                    };
                    let (trace, out, found) =
                        run_one(sc, &prefix, &mut local, &shared, known, thorough, false);
                    if let Some(p) = out.panicked {
                        error = Some(format!("harness panic in {} {:?}: {}", sc.name, out.choices, p));
                        work.stop.store(true, Relaxed);
                        break;
                    }
                    if out.diverged {
                        error = Some(format!("divergence while replaying a prefix: {} {:?}", sc.name, prefix));
                        work.stop.store(true, Relaxed);
                        break;
                    }
                    for (key, msg, at) in found {
                        if known_seen.lock().unwrap().insert(key.clone()) {
                            knowns.push(Violation {
                                key,
                                msg,
                                scenario: sc.name.clone(),
                                choices: out.choices[..at].to_vec(),
                                log: vec![],
                            });
                        }
                    }
                    if let Some((key, msg)) = out.violation {
                        viols.push(Violation {
                            key,
                            msg,
                            scenario: sc.name.clone(),
                            choices: out.choices.clone(),
                            log: vec![],
                        });
                        let ms = t0.elapsed().as_millis() as u64;
                        first_viol_ms.fetch_min(ms, Relaxed);
                        if nviol.fetch_add(1, Relaxed) + 1 >= LIMIT_VIOLATIONS
                            || ms > first_viol_ms.load(Relaxed) + 5_000
                        {
                            work.stop.store(true, Relaxed);
                        }
                    }
                    // enqueue alternatives (deepest last so that the stack stays small)
                    for i in prefix.len()..trace.len() {
                        let (c, n) = trace[i];
                        debug_assert!(c == 0);
                        for alt in (1..n).rev() {
                            let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                            p.extend(trace[..i].iter().map(|t| t.0));
                            p.push(alt);
                            stack.push(p);
                        }
                    }
                    if stack.len() > 1 && work.waiting.load(Relaxed) > 0 {
                        // donate the shallow half (largest subtrees)
                        let k = (stack.len() + 1) / 2;
                        let give: Vec<_> = stack.drain(..k).collect();
                        let mut q = work.queue.lock().unwrap();
                        q.0.extend(give);
                        work.cv.notify_all();
                    }
                    if local.executions % 64 == 0 && t0.elapsed() > max_wall {
                        timed_out.store(true, Relaxed);
                        work.stop.store(true, Relaxed);
                    }
                }
                work.cv.notify_all();
                let mut m = merged.lock().unwrap();
                m.0.executions += local.executions;
                m.0.transitions += local.transitions;
                m.0.pruned += local.pruned;
                m.0.deviating += local.deviating;
                m.0.nontrivial += local.nontrivial;
                m.0.max_depth = m.0.max_depth.max(local.max_depth);
                m.0.max_choices = m.0.max_choices.max(local.max_choices);
                if m.0.states.is_empty() {
                    m.0.states = local.states;
                } else {
                    m.0.states.extend(local.states);
                }
                if m.0.outcomes.is_empty() {
                    m.0.outcomes = local.outcomes;
                } else {
                    m.0.outcomes.extend(local.outcomes);
                }
                for (k, v) in local.counters {
                    *m.0.counters.entry(k).or_insert(0) += v;
                }
                m.1.extend(viols);
                m.2.extend(knowns);
                if m.3.is_none() {
                    m.3 = error;
                }
            });
        }
    });
    let (l, mut viols, knowns, error) = merged.into_inner().unwrap();
    viols.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    // a sample: the log of the all-default execution
    let sample = replay(sc, &[], known, thorough);
    Exploration {
        stats: ScenarioStats {
            name: sc.name.clone(),
            note: sc.note.clone(),
            deviations: sc.deviations,
            executions: l.executions,
            transitions: l.transitions,
            pruned: l.pruned,
            deviating: l.deviating,
            nontrivial: l.nontrivial,
            states: l.states.len() as u64,
            visited: shared.len() as u64,
            outcomes: l.outcomes.len() as u64,
            max_depth: l.max_depth,
            max_choices: l.max_choices,
            counters: l.counters,
            exhausted: !timed_out.load(SeqCst) && viols.is_empty() && error.is_none(),
            wall_s: t0.elapsed().as_secs_f64(),
            sample: sample.log.into_iter().take(40).collect(),
            sample_choices: sample.choices,
        },
        violations: viols,
        known: knowns,
        error,
    }
}
