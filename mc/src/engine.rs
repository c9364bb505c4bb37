//! Stateless model checker: enumerates every execution of a harness body.
//!
//! A body is a deterministic function of the answers it gets from [`Ch`]. The explorer runs the
//! body once per sequence of answers ("tape"), depth first, in parallel over subtrees, until every
//! tape has been run. A body drives the real implementation and returns `Err` on a violation; a
//! panic of the implementation is a violation too. Crashes and hangs are caught by the parent
//! process, see `supervise.rs`.
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::alloc;
use crate::supervise::Slot;

pub type BodyFn = Box<dyn Fn(&mut Ch) -> Result<(), String> + Send + Sync>;

pub struct Body {
    pub name: String,
    pub run: BodyFn,
    /// Maximum number of deviations (non-default answers to `Ch::deviate`) per execution.
    pub max_dev: u32,
    /// Must this body run on one thread only (it uses process-wide resources)?
    pub serial: bool,
}

pub fn body(
    name: impl Into<String>,
    f: impl Fn(&mut Ch) -> Result<(), String> + Send + Sync + 'static,
) -> Body {
    Body {
        name: name.into(),
        run: Box::new(f),
        max_dev: u32::MAX,
        serial: false,
    }
}

impl Body {
    pub fn dev(mut self, n: u32) -> Self {
        self.max_dev = n;
        self
    }
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Pt {
    pub choice: u32,
    pub arity: u32,
    pub dev: bool,
}

/// Payload of a panic raised by the harness itself to stop an execution.
pub struct Stop(pub Halt);
pub enum Halt {
    /// The implementation exceeded the horizon (too many operations): livelock.
    Violation(String),
    /// The harness is wrong.
    Engine(String),
    Diverged(String),
}

pub fn violation_unwind(msg: impl Into<String>) -> ! {
    std::panic::panic_any(Stop(Halt::Violation(msg.into())))
}
pub fn engine_unwind(msg: impl Into<String>) -> ! {
    std::panic::panic_any(Stop(Halt::Engine(msg.into())))
}

/// The source of all nondeterminism of a body.
pub struct Ch<'a> {
    prefix: &'a [Pt],
    pub trace: Vec<Pt>,
    max_dev: u32,
    devs: u32,
    slot: Option<&'a Slot>,
    pub steps: u64,
    pub fps: Vec<u64>,
    pub outcome: u64,
    pub log: Option<Vec<String>>,
    seed: u64,
}

impl<'a> Ch<'a> {
    fn next(&mut self, n: usize, dev: bool) -> usize {
        assert!(n >= 1, "choice with no alternatives");
        let i = self.trace.len();
        let arity = n as u32;
        let choice = if i < self.prefix.len() {
            let p = self.prefix[i];
            if p.arity != arity || p.dev != dev {
                std::panic::panic_any(Stop(Halt::Diverged(format!(
                    "replay diverged at point {i}: recorded arity {} got {arity}",
                    p.arity
                ))));
            }
            p.choice
        } else {
            0
        };
        let pt = Pt { choice, arity, dev };
        if dev && choice != 0 {
            self.devs += 1;
        }
        self.trace.push(pt);
        if let Some(s) = self.slot {
            s.push(i, pt);
        }
        choice as usize
    }
    /// A choice among `n` alternatives, all of which are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        self.next(n, false)
    }
    /// A choice whose answer 0 is the default and whose other answers count as deviations.
    pub fn deviate(&mut self, n: usize) -> usize {
        if n == 1 || self.devs >= self.max_dev {
            return 0;
        }
        self.next(n, true)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Report one transition of the system under test and the state reached by it.
    pub fn step<T: Hash>(&mut self, state: T) {
        self.steps += 1;
        let mut h = DefaultHasher::new();
        self.seed.hash(&mut h);
        state.hash(&mut h);
        self.fps.push(h.finish());
    }
    /// Fold something observed into the outcome of this execution.
    pub fn observe<T: Hash>(&mut self, x: T) {
        let mut h = DefaultHasher::new();
        self.outcome.hash(&mut h);
        x.hash(&mut h);
        self.outcome = h.finish();
    }
    /// Describe what the execution does; only evaluated when the execution is to be written out.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(f());
        }
    }
}

pub enum Ran {
    Ok,
    Violation(String),
    Engine(String),
    /// The execution did not follow its tape.
    Diverged(String),
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Stop>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let in_harness = info
            .location()
            .is_some_and(|l| l.file().starts_with("src/"));
        PANIC_MSG.with(|m| {
            *m.borrow_mut() = Some(format!(
                "{}{msg}{loc}",
                if in_harness { "\u{1}" } else { "" }
            ))
        });
    }));
}

pub fn run_once<'a>(
    b: &Body,
    bi: usize,
    prefix: &'a [Pt],
    slot: Option<&'a Slot>,
    log: bool,
) -> (Ran, Ch<'a>) {
    let mut ch = Ch {
        prefix,
        trace: Vec::with_capacity(prefix.len() + 16),
        max_dev: b.max_dev,
        devs: 0,
        slot,
        steps: 0,
        fps: vec![],
        outcome: 0,
        log: log.then(Vec::new),
        seed: bi as u64,
    };
    if let Some(s) = slot {
        s.begin(bi);
    }
    PANIC_MSG.with(|m| *m.borrow_mut() = None);
    alloc::begin();
    let r = catch_unwind(AssertUnwindSafe(|| (b.run)(&mut ch)));
    alloc::end();
    let ran = match r {
        Ok(Ok(())) => {
            if ch.trace.len() < prefix.len() {
                Ran::Diverged(format!(
                    "replay diverged: {} points recorded, {} reached",
                    prefix.len(),
                    ch.trace.len()
                ))
            } else {
                Ran::Ok
            }
        }
        Ok(Err(m)) => Ran::Violation(m),
        Err(p) => match p.downcast::<Stop>() {
            Ok(s) => match s.0 {
                Halt::Violation(m) => Ran::Violation(m),
                Halt::Engine(m) => Ran::Engine(m),
                Halt::Diverged(m) => Ran::Diverged(m),
            },
            Err(_) => {
                let m = PANIC_MSG
                    .with(|m| m.borrow_mut().take())
                    .unwrap_or_else(|| "panic".into());
                // A panic at a line of the harness is one of its own `unwrap`s or indexings on what
                // the implementation returned.
                match m.strip_prefix('\u{1}') {
                    Some(m) => Ran::Violation(format!("unexpected result: {m}")),
                    None => Ran::Violation(format!("panicked: {m}")),
                }
            }
        },
    };
    if let Some(s) = slot {
        s.end();
    }
    (ran, ch)
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub max_depth: usize,
    pub per_body: Vec<(String, u64, u64)>,
    pub samples: Vec<String>,
    pub capped: bool,
    pub state_cap: bool,
}

pub struct Found {
    pub body: usize,
    pub tape: Vec<Pt>,
    pub msg: String,
    pub log: Vec<String>,
}

pub enum Verdict {
    Holds,
    Violated(Found),
    Engine(String),
}

const STATE_CAP: usize = 6_000_000; // per thread

struct Shared {
    queue: Mutex<(VecDeque<Vec<Pt>>, usize)>,
    cv: Condvar,
    hungry: AtomicBool,
    stop: AtomicBool,
    execs: AtomicU64,
    found: Mutex<Option<Result<Found, String>>>,
    diverged: Mutex<Option<String>>,
}

/// Next position to branch at, at or after `base`.
fn backtrack(trace: &[Pt], base: usize, max_dev: u32) -> Option<Vec<Pt>> {
    let mut devs_before: Vec<u32> = Vec::with_capacity(trace.len());
    let mut d = 0;
    for p in trace {
        devs_before.push(d);
        if p.dev && p.choice != 0 {
            d += 1;
        }
    }
    for i in (base..trace.len()).rev() {
        let p = trace[i];
        if p.choice + 1 < p.arity {
            if p.dev && p.choice == 0 && devs_before[i] >= max_dev {
                continue;
            }
            let mut t = trace[..=i].to_vec();
            t[i].choice += 1;
            return Some(t);
        }
    }
    None
}

pub fn explore(
    bodies: &[Body],
    threads: usize,
    slots: &[Slot],
    deadline: Instant,
) -> (Stats, Verdict) {
    let mut total = Stats::default();
    let mut diverged: Option<String> = None;
    let all: Vec<usize> = (0..bodies.len()).collect();
    for bi in all {
        let b = &bodies[bi];
        let n = if b.serial { 1 } else { threads };
        let sh = Shared {
            queue: Mutex::new((VecDeque::from([vec![]]), 0)),
            cv: Condvar::new(),
            hungry: AtomicBool::new(true),
            stop: AtomicBool::new(false),
            execs: AtomicU64::new(0),
            found: Mutex::new(None),
            diverged: Mutex::new(None),
        };
        let capped = AtomicBool::new(false);
        let depth = AtomicUsize::new(0);
        let parts: Mutex<Vec<(u64, HashSet<u64>, HashSet<u64>)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for slot in &slots[..n] {
                let (sh, capped, depth, parts) = (&sh, &capped, &depth, &parts);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        slot.bind();
                        worker(b, bi, n, slot, sh, capped, depth, parts, deadline)
                    })
                    .unwrap();
            }
        });
        let mut bt = 0;
        for (t, s, o) in parts.into_inner().unwrap() {
            bt += t;
            if s.len() >= STATE_CAP {
                total.state_cap = true;
            }
            if total.states.is_empty() {
                total.states = s;
            } else {
                total.states.extend(s);
            }
            total.outcomes.extend(o);
        }
        if let Some(m) = sh.diverged.into_inner().unwrap() {
            diverged.get_or_insert(m);
        }
        let ex = sh.execs.load(Ordering::Relaxed);
        total.executions += ex;
        total.transitions += bt;
        total.max_depth = total.max_depth.max(depth.load(Ordering::Relaxed));
        total.per_body.push((b.name.clone(), ex, bt));
        if capped.load(Ordering::Relaxed) {
            total.capped = true;
        }
        if let Some(f) = sh.found.into_inner().unwrap() {
            return match f {
                Ok(f) => (total, Verdict::Violated(f)),
                Err(m) => (total, Verdict::Engine(m)),
            };
        }
        // write out one sample: the first execution and, for variety, none other
        let (_, ch) = run_once(b, bi, &[], None, true);
        let log = ch.log.unwrap_or_default();
        if total.samples.len() < 12 {
            let mut s = format!("{}: {}", b.name, log.join("; "));
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            total.samples.push(s);
        }
        if total.capped {
            break;
        }
    }
    match diverged {
        Some(m) => (total, Verdict::Engine(m)),
        None => (total, Verdict::Holds),
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    b: &Body,
    bi: usize,
    n: usize,
    slot: &Slot,
    sh: &Shared,
    capped: &AtomicBool,
    depth: &AtomicUsize,
    parts: &Mutex<Vec<(u64, HashSet<u64>, HashSet<u64>)>>,
    deadline: Instant,
) {
    let mut transitions = 0u64;
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    'tasks: loop {
        let task = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break None;
                }
                if let Some(t) = q.0.pop_front() {
                    q.1 += 1;
                    sh.hungry.store(q.0.len() < n, Ordering::Relaxed);
                    break Some(t);
                }
                if q.1 == 0 {
                    sh.cv.notify_all();
                    break None;
                }
                sh.hungry.store(true, Ordering::Relaxed);
                q = sh
                    .cv
                    .wait_timeout(q, Duration::from_millis(20))
                    .unwrap()
                    .0;
            }
        };
        let Some(mut tape) = task else { break };
        let mut base = tape.len();
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                break 'tasks;
            }
            if Instant::now() > deadline {
                capped.store(true, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
                sh.cv.notify_all();
                break 'tasks;
            }
            let (ran, ch) = run_once(b, bi, &tape, Some(slot), false);
            sh.execs.fetch_add(1, Ordering::Relaxed);
            transitions += ch.steps;
            if states.len() < STATE_CAP {
                states.extend(ch.fps.iter().copied());
            }
            outcomes.insert(ch.outcome);
            depth.fetch_max(ch.trace.len(), Ordering::Relaxed);
            let trace = ch.trace;
            match ran {
                Ran::Ok => {}
                Ran::Violation(msg) => {
                    // Replay: the same tape must fail again. One that does not (in 64 tries) depends
                    // on something outside the execution, such as random hash keys or state that
                    // the implementation keeps between calls; that is reported as such.
                    let mut log = vec![];
                    let mut again = 0;
                    for i in 0..64 {
                        let (r, c) = run_once(b, bi, &trace, Some(slot), true);
                        if log.is_empty() {
                            log = c.log.clone().unwrap_or_default();
                        }
                        if matches!(r, Ran::Violation(_)) {
                            again += 1;
                            log = c.log.unwrap_or_default();
                            if again == i + 1 && again == 2 {
                                break;
                            }
                        }
                    }
                    let msg = match again {
                        0 => format!("{msg} (not repeatable in isolation: the implementation keeps state between executions)"),
                        2 => msg,
                        k => format!("{msg} (in {k} of 64 repetitions: depends on state outside the execution)"),
                    };
                    let mut f = sh.found.lock().unwrap();
                    if f.is_none() {
                        *f = Some(Ok(Found {
                            body: bi,
                            tape: trace,
                            msg,
                            log,
                        }));
                    }
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                    break 'tasks;
                }
                Ran::Diverged(msg) => {
                    // Leave this subtree, look for a violation elsewhere; without one this is an
                    // error of the run.
                    sh.diverged
                        .lock()
                        .unwrap()
                        .get_or_insert_with(|| format!("{}: {msg}", b.name));
                    break;
                }
                Ran::Engine(msg) => {
                    let mut f = sh.found.lock().unwrap();
                    if f.is_none() {
                        *f = Some(Err(format!("{}: {msg}", b.name)));
                    }
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                    break 'tasks;
                }
            }
            // Give away the siblings at the shallowest open point when others are idle.
            if n > 1 && sh.hungry.load(Ordering::Relaxed) {
                let mut devs = trace[..base.min(trace.len())]
                    .iter()
                    .filter(|p| p.dev && p.choice != 0)
                    .count() as u32;
                let mut given = vec![];
                while base < trace.len() && given.is_empty() {
                    let p = trace[base];
                    if !(p.dev && p.choice == 0 && devs >= b.max_dev) {
                        for c in p.choice + 1..p.arity {
                            let mut t = trace[..=base].to_vec();
                            t[base].choice = c;
                            given.push(t);
                        }
                    }
                    if p.dev && p.choice != 0 {
                        devs += 1;
                    }
                    base += 1;
                }
                if !given.is_empty() {
                    let mut q = sh.queue.lock().unwrap();
                    q.0.extend(given);
                    sh.hungry.store(q.0.len() < n, Ordering::Relaxed);
                    sh.cv.notify_all();
                }
            }
            match backtrack(&trace, base, b.max_dev) {
                Some(t) => tape = t,
                None => break,
            }
        }
        let mut q = sh.queue.lock().unwrap();
        q.1 -= 1;
        if q.1 == 0 && q.0.is_empty() {
            sh.cv.notify_all();
        }
    }
    parts.lock().unwrap().push((transitions, states, outcomes));
}

pub fn hash_of<T: Hash>(x: T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub type Map<K, V> = HashMap<K, V>;

/// `ensure!(cond, "message {}", x)`: return a violation unless `cond`.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
