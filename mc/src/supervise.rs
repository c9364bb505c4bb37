//! Parent/child split: the child explores, the parent turns crashes and hangs into verdicts.
use std::cell::Cell;
use std::ffi::CString;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::engine::{Body, Pt};

pub const MAX_PTS: usize = 8000;

#[repr(C)]
pub struct SlotMem {
    /// Odd while an execution runs.
    seq: AtomicU64,
    tid: AtomicU64,
    body: AtomicU32,
    len: AtomicU32,
    pts: [AtomicU64; MAX_PTS],
}

#[repr(C)]
pub struct Mem {
    /// 1 + index of the slot whose thread got a fatal signal
    crash_slot: AtomicU32,
    crash_sig: AtomicU32,
    slots: [SlotMem; SLOTS],
}

pub const SLOTS: usize = 16;

#[derive(Clone, Copy)]
pub struct Slot {
    i: usize,
    m: &'static SlotMem,
}

thread_local! { static MY_SLOT: Cell<usize> = const { Cell::new(0) }; }
static mut MEM: Option<&'static Mem> = None;

impl Slot {
    pub fn bind(&self) {
        MY_SLOT.with(|s| s.set(self.i + 1));
        self.m
            .tid
            .store(unsafe { libc::gettid() } as u64, Ordering::Relaxed);
    }
    pub fn begin(&self, body: usize) {
        self.m.body.store(body as u32, Ordering::Relaxed);
        self.m.len.store(0, Ordering::Relaxed);
        self.m.seq.fetch_add(1, Ordering::Release);
    }
    pub fn end(&self) {
        self.m.seq.fetch_add(1, Ordering::Release);
    }
    #[inline]
    pub fn push(&self, i: usize, p: Pt) {
        if i < MAX_PTS {
            self.m.pts[i].store(
                p.choice as u64 | (p.arity as u64) << 24 | (p.dev as u64) << 48,
                Ordering::Relaxed,
            );
            self.m.len.store(i as u32 + 1, Ordering::Relaxed);
        }
    }
}

impl SlotMem {
    fn tape(&self) -> (usize, Vec<Pt>) {
        let n = self.len.load(Ordering::Relaxed) as usize;
        let v = (0..n)
            .map(|i| {
                let x = self.pts[i].load(Ordering::Relaxed);
                Pt {
                    choice: (x & 0xff_ffff) as u32,
                    arity: (x >> 24 & 0xff_ffff) as u32,
                    dev: x >> 48 & 1 == 1,
                }
            })
            .collect();
        (self.body.load(Ordering::Relaxed) as usize, v)
    }
}

fn map(path: &Path, create: bool) -> &'static Mem {
    let size = std::mem::size_of::<Mem>();
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(create)
        .open(path)
        .expect("slot file");
    if create {
        f.set_len(size as u64).unwrap();
    }
    use std::os::fd::AsRawFd;
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Mem)
    }
}

extern "C" fn on_fatal(sig: libc::c_int) {
    unsafe {
        #[allow(static_mut_refs)]
        if let Some(m) = MEM {
            let s = MY_SLOT.with(|s| s.get());
            m.crash_sig.store(sig as u32, Ordering::Relaxed);
            m.crash_slot.store(s as u32, Ordering::SeqCst);
        }
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

/// Child side: map the slots and catch fatal signals.
pub fn attach(path: &Path) -> Vec<Slot> {
    let m = map(path, false);
    unsafe {
        MEM = Some(m);
        for sig in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_fatal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
    limit_memory();
    (0..SLOTS).map(|i| Slot { i, m: &m.slots[i] }).collect()
}

pub fn limit_memory() {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 26 << 30,
            rlim_max: 26 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

pub enum End {
    Exit(i32),
    /// The execution in this slot crashed or hung.
    Suspects(String, Vec<(usize, Vec<Pt>)>),
    Broken(String),
}

fn thread_cpu(pid: u32, tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/task/{tid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64)
}

/// CPU seconds after which an execution counts as an endless loop, and wall seconds after which
/// it counts as blocked for ever. Executions normally take micro- to milliseconds.
const HANG_CPU: f64 = 25.0;
const HANG_WALL: f64 = 200.0;

pub fn supervise(exe: &Path, args: &[&str], slots: &Path) -> End {
    let m = map(slots, true);
    let mut child = match Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return End::Broken(format!("cannot start child: {e}")),
    };
    let pid = child.id();
    let mut last: Vec<(u64, Instant, Option<f64>)> =
        (0..SLOTS).map(|_| (0, Instant::now(), None)).collect();
    let status: ExitStatus = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(Duration::from_millis(100));
        for (i, l) in last.iter_mut().enumerate() {
            let s = &m.slots[i];
            let seq = s.seq.load(Ordering::Acquire);
            let tid = s.tid.load(Ordering::Relaxed);
            if seq != l.0 || seq.is_multiple_of(2) {
                *l = (seq, Instant::now(), None);
                continue;
            }
            let cpu = thread_cpu(pid, tid);
            if l.2.is_none() {
                l.2 = cpu;
            }
            let used = match (l.2, cpu) {
                (Some(a), Some(b)) => b - a,
                _ => 0.0,
            };
            let wall = l.1.elapsed().as_secs_f64();
            if used > HANG_CPU || wall > HANG_WALL {
                let t = s.tape();
                let _ = child.kill();
                let _ = child.wait();
                return End::Suspects(
                    format!("does not terminate ({used:.0} s CPU, {wall:.0} s wall in one execution)"),
                    vec![t],
                );
            }
        }
    };
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(c), _) => End::Exit(c),
        (None, Some(sig)) => {
            let cs = m.crash_slot.load(Ordering::SeqCst) as usize;
            let why = format!("process died with signal {sig}");
            if cs > 0 {
                End::Suspects(why, vec![m.slots[cs - 1].tape()])
            } else {
                let v = m
                    .slots
                    .iter()
                    .filter(|s| s.seq.load(Ordering::Relaxed) % 2 == 1)
                    .map(|s| s.tape())
                    .collect();
                End::Suspects(why, v)
            }
        }
        _ => End::Broken("child ended oddly".into()),
    }
}

pub fn tape_str(t: &[Pt]) -> String {
    t.iter()
        .map(|p| format!("{}/{}{}", p.choice, p.arity, if p.dev { "d" } else { "" }))
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn parse_tape(s: &str) -> Vec<Pt> {
    s.split_whitespace()
        .map(|w| {
            let (dev, w) = match w.strip_suffix('d') {
                Some(w) => (true, w),
                None => (false, w),
            };
            let (c, a) = w.split_once('/').expect("tape");
            Pt {
                choice: c.parse().unwrap(),
                arity: a.parse().unwrap(),
                dev,
            }
        })
        .collect()
}

pub fn write_replay(
    dir: &Path,
    id: &str,
    tier: &str,
    b: &Body,
    tape: &[Pt],
    msg: &str,
    log: &[String],
) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let h = crate::engine::hash_of((&b.name, tape_str(tape)));
    let p = dir.join(format!("{id}-{:08x}.replay", h as u32));
    let mut s = format!(
        "property {id}\ntier {tier}\nbody {}\ntape {}\nviolation {}\n",
        b.name,
        tape_str(tape),
        msg.replace('\n', " ")
    );
    for l in log {
        s.push_str("step ");
        s.push_str(&l.replace('\n', " "));
        s.push('\n');
    }
    s.push_str("# replay with: mc/target/release/mc replay <this file>\n");
    let _ = std::fs::write(&p, s);
    p
}

/// Run one tape in its own process; true if it violates, crashes or hangs again.
pub fn confirm(exe: &Path, replay: &Path) -> bool {
    let _ = CString::new("");
    let Ok(mut c) = Command::new(exe)
        .arg("replay")
        .arg(replay)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    else {
        return false;
    };
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return s.code() != Some(0) && s.code() != Some(2);
        }
        if t.elapsed().as_secs_f64() > HANG_CPU + 5.0 {
            let _ = c.kill();
            let _ = c.wait();
            return true;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
