//! Executors under the control of the explorer.
//!
//! [`block_on`] drives one future; a future that is pending without having arranged to be woken
//! can never finish, which is reported as a violation. [`Sched`] drives several tasks and an
//! environment of outstanding source requests; every choice of the next step (which woken task to
//! poll, which request to answer and how, which task to drop) is made by the explorer.
use std::future::Future;
use std::ops::Range;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use bytes::Bytes;

use crate::engine::{engine_unwind, violation_unwind, Ch};

pub struct Flag(AtomicBool);
impl Flag {
    pub fn new(b: bool) -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(b)))
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
    pub fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

const POLL_HORIZON: usize = 2_000_000;

/// Run a future to completion on this thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let flag = Flag::new(true);
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..POLL_HORIZON {
        if !flag.take() {
            violation_unwind("the operation is pending and nothing will ever wake it");
        }
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    violation_unwind("the operation does not finish")
}

/// Poll a future once.
pub fn poll_once<F: Future + ?Sized>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
    match f.poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

/// Pending exactly once.
pub async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

// ---------------------------------------------------------------------------------------------
// Tokio's cooperative budget turns every lock acquisition beyond the first of a poll into a
// scheduling point: each poll of a task runs with a budget of one.

thread_local! {
    static RT: tokio::runtime::Runtime = {
        let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
        // Check the assumption about the size of the budget.
        rt.block_on(std::future::poll_fn(|_| {
            for i in 0..=INITIAL_BUDGET {
                let ready = consume().is_ready();
                if ready != (i < INITIAL_BUDGET) {
                    engine_unwind("unexpected cooperative budget");
                }
            }
            Poll::Ready(())
        }));
        rt
    };
}
const INITIAL_BUDGET: usize = 128;

fn consume() -> Poll<()> {
    let mut cx = Context::from_waker(Waker::noop());
    let f = std::pin::pin!(tokio::task::consume_budget());
    f.poll(&mut cx)
}

/// Poll once with a cooperative budget of one.
fn poll_tight<T>(f: Pin<&mut dyn Future<Output = T>>, waker: &Waker) -> Poll<T> {
    let mut f = Some(f);
    let mut got = None;
    RT.with(|rt| {
        rt.block_on(std::future::poll_fn(|cx| match f.take() {
            Some(f) => {
                for _ in 0..INITIAL_BUDGET - 1 {
                    let _ = consume();
                }
                got = Some(f.poll(&mut Context::from_waker(waker)));
                // One more round, in which the runtime delivers deferred wake-ups.
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            None => Poll::Ready(()),
        }))
    });
    got.unwrap()
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Answer {
    Full,
    /// Only the first byte(s): half of what exists.
    Short,
    Fail,
}

pub struct Op {
    pub id: usize,
    pub range: Range<u64>,
    pub waker: Option<Waker>,
    pub done: Option<Answer>,
    pub dropped: bool,
}

/// The environment: requests issued to the source and not yet answered.
#[derive(Default)]
pub struct Env {
    pub ops: Vec<Op>,
}

#[derive(Clone)]
pub struct GateEnv(pub Arc<Mutex<Env>>);

impl std::fmt::Debug for GateEnv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("GateEnv")
    }
}

impl GateEnv {
    pub fn new() -> Self {
        GateEnv(Arc::new(Mutex::new(Env::default())))
    }
    /// Issue a request; the future resolves when the explorer answers it.
    pub fn issue(&self, range: Range<u64>) -> GateFut {
        let mut e = self.0.lock().unwrap();
        let id = e.ops.len();
        if id > 400 {
            drop(e);
            violation_unwind("requests without end");
        }
        e.ops.push(Op {
            id,
            range,
            waker: None,
            done: None,
            dropped: false,
        });
        GateFut {
            env: self.clone(),
            id,
            ready: false,
        }
    }
}

pub struct GateFut {
    env: GateEnv,
    id: usize,
    ready: bool,
}
impl Future for GateFut {
    type Output = Answer;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Answer> {
        let env = self.env.clone();
        let mut e = env.0.lock().unwrap();
        let op = &mut e.ops[self.id];
        match op.done {
            Some(a) => {
                self.ready = true;
                Poll::Ready(a)
            }
            None => {
                op.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for GateFut {
    fn drop(&mut self) {
        if !self.ready {
            if let Ok(mut e) = self.env.0.lock() {
                e.ops[self.id].dropped = true;
                e.ops[self.id].waker = None;
            }
        }
    }
}

#[derive(Debug)]
pub struct Injected(pub usize);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}
impl std::error::Error for Injected {}

pub fn injected(n: usize) -> AsyncTiffError {
    AsyncTiffError::External(Box::new(Injected(n)))
}
/// The number of the injected failure this error carries, if it is one.
pub fn injected_of(e: &AsyncTiffError) -> Option<usize> {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(e);
    if let AsyncTiffError::External(b) = e {
        if let Some(i) = b.downcast_ref::<Injected>() {
            return Some(i.0);
        }
    }
    if let AsyncTiffError::IOError(io) = e {
        if let Some(i) = io.get_ref().and_then(|r| r.downcast_ref::<Injected>()) {
            return Some(i.0);
        }
    }
    for _ in 0..8 {
        let c = cur?;
        if let Some(i) = c.downcast_ref::<Injected>() {
            return Some(i.0);
        }
        if let Some(io) = c.downcast_ref::<std::io::Error>() {
            if let Some(i) = io.get_ref().and_then(|r| r.downcast_ref::<Injected>()) {
                return Some(i.0);
            }
        }
        cur = c.source();
    }
    None
}

/// A source whose requests are answered by the explorer.
#[derive(Clone)]
pub struct Gated {
    pub env: GateEnv,
    pub data: Bytes,
}
impl std::fmt::Debug for Gated {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Gated")
    }
}
impl Gated {
    pub fn new(data: Bytes) -> Self {
        Gated {
            env: GateEnv::new(),
            data,
        }
    }
    pub async fn read(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        let f = self.env.issue(range.clone());
        let id = f.id;
        let len = self.data.len() as u64;
        let s = range.start.min(len) as usize;
        let e = (range.end.min(len) as usize).max(s);
        match f.await {
            Answer::Full => Ok(self.data.slice(s..e)),
            Answer::Short => Ok(self.data.slice(s..s + (e - s) / 2)),
            Answer::Fail => Err(injected(id)),
        }
    }
}

pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    Poll(usize),
    Answer(usize, Answer),
    Drop(usize),
}

pub struct Limits {
    pub drops: usize,
    pub faults: usize,
    pub answers: &'static [Answer],
}

pub struct Run {
    pub acts: Vec<Act>,
    pub dropped: Vec<bool>,
    pub finished: Vec<bool>,
}

/// Run the tasks under every schedule the limits allow. `after` is called after every step.
pub fn sched<'a>(
    ch: &mut Ch,
    tasks: Vec<Option<Task<'a>>>,
    env: &GateEnv,
    limits: Limits,
    after: impl FnMut(&mut Ch, &Act, &[bool]) -> Result<(), String>,
) -> Result<Run, String> {
    sched_with(ch, tasks, env, limits, false, after)
}

fn sched_with<'a>(
    ch: &mut Ch,
    mut tasks: Vec<Option<Task<'a>>>,
    env: &GateEnv,
    limits: Limits,
    bounded: bool,
    mut after: impl FnMut(&mut Ch, &Act, &[bool]) -> Result<(), String>,
) -> Result<Run, String> {
    let n = tasks.len();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Flag::new(true)).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let mut finished = vec![false; n];
    let mut dropped = vec![false; n];
    let mut started = vec![false; n];
    let (mut drops, mut faults) = (limits.drops, limits.faults);
    let mut acts = vec![];
    let mut steps = 0;
    loop {
        if tasks.iter().all(|t| t.is_none()) {
            break;
        }
        let mut progress: Vec<Act> = vec![];
        for t in 0..n {
            if tasks[t].is_some() && flags[t].get() {
                progress.push(Act::Poll(t));
            }
        }
        {
            let e = env.0.lock().unwrap();
            for op in e.ops.iter() {
                if op.done.is_none() && !op.dropped {
                    for a in limits.answers {
                        if *a == Answer::Full || faults > 0 {
                            progress.push(Act::Answer(op.id, *a));
                        }
                    }
                }
            }
        }
        if progress.is_empty() {
            let left: Vec<usize> = (0..n).filter(|t| tasks[*t].is_some()).collect();
            return Err(format!(
                "deadlock: tasks {left:?} can never finish after {acts:?}"
            ));
        }
        let mut all = progress;
        if drops > 0 {
            for t in 0..n {
                if tasks[t].is_some() && started[t] {
                    all.push(Act::Drop(t));
                }
            }
        }
        let act = if bounded {
            all[ch.deviate(all.len())]
        } else {
            all[ch.choose(all.len())]
        };
        acts.push(act);
        ch.note(|| format!("{act:?}"));
        match act {
            Act::Poll(t) => {
                flags[t].take();
                started[t] = true;
                let task = tasks[t].as_mut().unwrap();
                if poll_tight(task.as_mut(), &wakers[t]).is_ready() {
                    tasks[t] = None;
                    finished[t] = true;
                }
            }
            Act::Answer(id, a) => {
                if a != Answer::Full {
                    faults -= 1;
                }
                let w = {
                    let mut e = env.0.lock().unwrap();
                    e.ops[id].done = Some(a);
                    e.ops[id].waker.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
            }
            Act::Drop(t) => {
                drops -= 1;
                dropped[t] = true;
                tasks[t] = None;
            }
        }
        after(ch, &act, &finished)?;
        steps += 1;
        if steps > 3000 {
            return Err(format!("livelock: {steps} steps without all tasks finishing"));
        }
    }
    Ok(Run {
        acts,
        dropped,
        finished,
    })
}

/// Like [`sched`], but the next step is the first possible one in a fixed order, and every other
/// choice counts as a deviation (context-bounded exploration of long executions).
pub fn sched_rr<'a>(
    ch: &mut Ch,
    tasks: Vec<Option<Task<'a>>>,
    env: &GateEnv,
    limits: Limits,
    after: impl FnMut(&mut Ch, &Act, &[bool]) -> Result<(), String>,
) -> Result<Run, String> {
    sched_with(ch, tasks, env, limits, true, after)
}
