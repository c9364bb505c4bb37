//! Byte sources with recorded requests and planned answers.
use std::collections::HashMap;
use std::io;
use std::ops::Range;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::MetadataFetch;
use async_tiff::reader::AsyncFileReader;
use async_trait::async_trait;
use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

use crate::engine::violation_unwind;
use crate::exec::{injected, yield_once, Gated};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Req {
    One(Range<u64>),
    Many(Vec<Range<u64>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ans {
    Full,
    /// At most this many bytes of the answer.
    Short(u64),
    Err,
}

/// What a source does with a range that reaches past its end.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Eof {
    /// Answer with the bytes there are (as `get_range` of object stores and HTTP servers do).
    Clamp,
    /// Fail.
    Error,
}

#[derive(Default)]
struct State {
    log: Vec<Req>,
    plan: HashMap<usize, Ans>,
    /// Answer to every request without a plan.
    all: Option<Ans>,
    served: u64,
}

struct Inner {
    segs: Vec<(u64, Bytes)>,
    len: u64,
    eof: Eof,
    limit: usize,
    pending: bool,
    state: Mutex<State>,
}

/// In-memory source. `Mem` implements [`AsyncFileReader`] (and so `MetadataFetch`) with the
/// library's default multi-range method; [`MemMulti`] has a multi-range method of its own.
#[derive(Clone)]
pub struct Mem(Arc<Inner>);

impl std::fmt::Debug for Mem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mem")
    }
}

impl Mem {
    pub fn new(data: impl Into<Bytes>) -> Mem {
        let data = data.into();
        let len = data.len() as u64;
        Mem::sparse(vec![(0, data)], len)
    }
    /// A source of `len` bytes, zero outside the segments.
    pub fn sparse(segs: Vec<(u64, Bytes)>, len: u64) -> Mem {
        Mem(Arc::new(Inner {
            segs,
            len,
            eof: Eof::Clamp,
            limit: 3_000_000,
            pending: false,
            state: Mutex::new(State::default()),
        }))
    }
    fn edit(self, f: impl FnOnce(&mut Inner)) -> Mem {
        let mut i = Arc::try_unwrap(self.0).ok().expect("not shared yet");
        f(&mut i);
        Mem(Arc::new(i))
    }
    pub fn eof(self, eof: Eof) -> Mem {
        self.edit(|i| i.eof = eof)
    }
    /// Every request is pending once before it is answered.
    pub fn pending(self, p: bool) -> Mem {
        self.edit(|i| i.pending = p)
    }
    /// More requests than this are a violation (the reading never ends).
    pub fn limit(self, n: usize) -> Mem {
        self.edit(|i| i.limit = n)
    }
    pub fn plan(&self, i: usize, a: Ans) {
        self.0.state.lock().unwrap().plan.insert(i, a);
    }
    pub fn clear_plan(&self) {
        let mut s = self.0.state.lock().unwrap();
        s.plan.clear();
        s.all = None;
    }
    pub fn log(&self) -> Vec<Req> {
        self.0.state.lock().unwrap().log.clone()
    }
    pub fn count(&self) -> usize {
        self.0.state.lock().unwrap().log.len()
    }
    pub fn clear_log(&self) {
        self.0.state.lock().unwrap().log.clear();
    }
    /// Bytes handed out so far.
    pub fn served(&self) -> u64 {
        self.0.state.lock().unwrap().served
    }
    pub fn len(&self) -> u64 {
        self.0.len
    }
    pub fn strict(&self) -> bool {
        self.0.eof == Eof::Error
    }
    /// What the range holds, cut off at the end.
    pub fn at(&self, r: &Range<u64>) -> Bytes {
        let len = self.0.len;
        let (s, e) = (r.start.min(len), r.end.min(len));
        if e <= s {
            return Bytes::new();
        }
        if let [(o, b)] = &self.0.segs[..] {
            if s >= *o && e - o <= b.len() as u64 {
                return b.slice((s - o) as usize..(e - o) as usize);
            }
        }
        let mut v = vec![0; (e - s) as usize];
        for (o, b) in &self.0.segs {
            let be = o + b.len() as u64;
            let (x, y) = (s.max(*o), e.min(be));
            if x < y {
                v[(x - s) as usize..(y - s) as usize]
                    .copy_from_slice(&b[(x - o) as usize..(y - o) as usize]);
            }
        }
        v.into()
    }
    fn record(&self, r: Req) -> (usize, Ans) {
        let mut s = self.0.state.lock().unwrap();
        let i = s.log.len();
        if i >= self.0.limit {
            drop(s);
            violation_unwind(format!("more than {} requests to the source", self.0.limit));
        }
        s.log.push(r);
        let a = s.plan.get(&i).copied().or(s.all).unwrap_or(Ans::Full);
        (i, a)
    }
    fn answer(&self, r: &Range<u64>, i: usize, a: Ans) -> AsyncTiffResult<Bytes> {
        if a == Ans::Err {
            return Err(injected(i));
        }
        if r.end > self.0.len && self.0.eof == Eof::Error {
            return Err(AsyncTiffError::EndOfFile(r.end - r.start, self.0.len.saturating_sub(r.start)));
        }
        let mut b = self.at(r);
        if let Ans::Short(n) = a {
            b.truncate(n.min(b.len() as u64) as usize);
        }
        self.0.state.lock().unwrap().served += b.len() as u64;
        Ok(b)
    }
}

#[async_trait]
impl AsyncFileReader for Mem {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        let (i, a) = self.record(Req::One(r.clone()));
        if self.0.pending {
            yield_once().await;
        }
        self.answer(&r, i, a)
    }
}

/// A source with a multi-range method of its own, so that it shows which method was called.
#[derive(Clone, Debug)]
pub struct MemMulti(pub Mem);

#[async_trait]
impl AsyncFileReader for MemMulti {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.get_bytes(r).await
    }
    async fn get_byte_ranges(&self, rs: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        let (i, a) = self.0.record(Req::Many(rs.clone()));
        if self.0 .0.pending {
            yield_once().await;
        }
        if a == Ans::Err {
            return Err(injected(i));
        }
        rs.iter().map(|r| self.0.answer(r, i, a)).collect()
    }
}

#[async_trait]
impl AsyncFileReader for Gated {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.read(r).await
    }
}

/// A metadata source that is not a file reader.
#[derive(Clone, Debug)]
pub struct MetaOnly(pub Mem);

#[async_trait]
impl MetadataFetch for MetaOnly {
    async fn fetch(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.get_bytes(r).await
    }
}

// ---------------------------------------------------------------------------------------------

/// What a seekable stream does at one step.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Io {
    /// Read as much as asked for.
    All,
    /// Read at most this many bytes.
    Few(usize),
    /// Return `Pending` (and wake at once), then go on with the next step.
    Pending,
    /// Fail with an I/O error.
    Fail,
    /// Fail with `Interrupted`.
    Interrupted,
}

/// A seekable stream that follows a script of steps (`All` when the script has ended).
pub struct Stream {
    pub data: Bytes,
    pub pos: u64,
    pub script: Arc<Mutex<Script>>,
}
#[derive(Default)]
pub struct Script {
    pub steps: Vec<Io>,
    pub next: usize,
    /// Steps of seeks, taken from the same script if set.
    pub seeks: bool,
    pub ops: usize,
    pub seeking: Option<u64>,
    /// A seek was started and not completed: reading now is wrong use of the stream.
    pub misuse: Option<String>,
    pub fails: usize,
}
impl std::fmt::Debug for Stream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Stream")
    }
}
impl Script {
    fn take(&mut self) -> Io {
        self.ops += 1;
        if self.ops > 1_000_000 {
            violation_unwind("stream operations without end");
        }
        let s = self.steps.get(self.next).copied().unwrap_or(Io::All);
        if self.next < self.steps.len() {
            self.next += 1;
        }
        s
    }
}

impl AsyncRead for Stream {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        let step = {
            let mut s = me.script.lock().unwrap();
            s.take()
        };
        let n = match step {
            Io::All => usize::MAX,
            Io::Few(n) => n,
            Io::Pending => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Io::Fail => {
                me.script.lock().unwrap().fails += 1;
                return Poll::Ready(Err(io::Error::other(crate::exec::Injected(7))));
            }
            Io::Interrupted => {
                return Poll::Ready(Err(io::Error::new(
                    io::ErrorKind::Interrupted,
                    crate::exec::Injected(8),
                )));
            }
        };
        let len = me.data.len() as u64;
        let s = me.pos.min(len) as usize;
        let n = n.min(me.data.len() - s).min(buf.remaining());
        buf.put_slice(&me.data[s..s + n]);
        me.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for Stream {
    fn start_seek(self: Pin<&mut Self>, p: io::SeekFrom) -> io::Result<()> {
        let me = self.get_mut();
        let mut s = me.script.lock().unwrap();
        if s.seeking.is_some() {
            // as tokio::fs::File: an operation in progress must be completed first
            return Err(io::Error::other("other file operation is pending, call poll_complete before start_seek"));
        }
        let len = me.data.len() as i128;
        let t: i128 = match p {
            io::SeekFrom::Start(n) => n as i128,
            io::SeekFrom::Current(d) => me.pos as i128 + d as i128,
            io::SeekFrom::End(d) => len + d as i128,
        };
        if t < 0 || t > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek"));
        }
        s.seeking = Some(t as u64);
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        let me = self.get_mut();
        let mut s = me.script.lock().unwrap();
        if s.seeking.is_none() {
            return Poll::Ready(Ok(me.pos));
        }
        if s.seeks {
            match s.take() {
                Io::Pending => {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                Io::Fail => {
                    s.seeking = None;
                    s.fails += 1;
                    return Poll::Ready(Err(io::Error::other(crate::exec::Injected(9))));
                }
                _ => {}
            }
        }
        me.pos = s.seeking.take().unwrap();
        Poll::Ready(Ok(me.pos))
    }
}

/// Does the range lie within the source?
pub fn within(r: &Range<u64>, len: u64) -> bool {
    r.end <= len && r.start <= r.end
}

/// A byte of a content without a period that a buffer size or an index width could hide in.
pub fn wide_byte(i: u64) -> u8 {
    (i.wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 53) as u8
}

/// 64 MiB of such a content, shared.
pub fn wide() -> Bytes {
    static W: std::sync::OnceLock<Bytes> = std::sync::OnceLock::new();
    W.get_or_init(|| (0..64u64 << 20).map(wide_byte).collect::<Vec<_>>().into()).clone()
}

/// Five GiB of address space, zero but for the 8-byte marks at `huge_marks`; `None` where the
/// system does not give that much address space.
pub fn huge() -> Option<Bytes> {
    static H: std::sync::OnceLock<Option<Bytes>> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let n = 5usize << 30;
        // SAFETY: a fresh private mapping that is never unmapped and not written to after this.
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if p == libc::MAP_FAILED {
                return None;
            }
            let s = std::slice::from_raw_parts_mut(p as *mut u8, n);
            for m in huge_marks() {
                for k in 0..8 {
                    s[m as usize + k] = wide_byte(m + k as u64);
                }
            }
            Some(Bytes::from_static(std::slice::from_raw_parts(p as *const u8, n)))
        }
    })
    .clone()
}
pub fn huge_marks() -> [u64; 7] {
    [0, 100, (1 << 31) - 4, 3 << 30, (1 << 32) - 4, (1 << 32) + 100, (5 << 30) - 8]
}
