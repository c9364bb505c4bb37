//! C05: the adapter for seekable streams.
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::ops::Range;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{ready, Context, Poll};

use async_tiff::reader::{AsyncFileReader, TokioReader};
use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

use super::c02::{content, ranges};
use super::{about, About};
use crate::alloc;
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{
    block_on, injected_of, sched, Act, Answer, GateEnv, GateFut, Injected, Limits, Task,
};
use crate::sources::{wide, Io, Script, Stream};
use crate::Tier;

/// A history of requests on one reader over a stream that follows a script.
fn scripted(ch: &mut Ch, len: usize, reqs: usize, depth: usize, seeks: bool, choices: &[Io]) -> Result<(), String> {
    let data = content(len);
    let script = Arc::new(Mutex::new(Script {
        seeks,
        ..Default::default()
    }));
    let r = TokioReader::new(Stream {
        data: data.clone(),
        pos: ch.choose(2) as u64,
        script: script.clone(),
    });
    let rs = ranges(len as u64 + 1);
    for k in 0..reqs {
        let range = rs[ch.choose(rs.len())].clone();
        // the script of this request, up to its last unusual step
        let steps: Vec<Io> = (0..depth)
            .map(|_| choices[ch.deviate(choices.len())])
            .collect();
        {
            let mut s = script.lock().unwrap();
            s.steps = steps.clone();
            s.next = 0;
            s.fails = 0;
        }
        let got = block_on(r.get_bytes(range.clone()));
        let s = script.lock().unwrap();
        let used = &steps[..s.next];
        ch.note(|| format!("len={len} request {k}: {range:?} with steps {used:?} -> {got:?}"));
        ch.step((len, &range, used, k));
        let (a, b) = (range.start as usize, range.end as usize);
        let disturbed = used
            .iter()
            .any(|x| matches!(x, Io::Interrupted | Io::Few(0)));
        match got {
            Ok(v) => {
                if a == b {
                    ensure!(v.is_empty(), "{range:?} gave {v:?}");
                    continue;
                }
                ensure!(
                    b <= len,
                    "{range:?} reaches past the end ({len}) and gave {v:?}"
                );
                ensure!(
                    v[..] == data[a..b],
                    "{range:?} gave {v:?} instead of {:?}",
                    &data[a..b]
                );
                ensure!(s.fails == 0, "{range:?} succeeded although the stream failed");
                ch.observe(&v[..]);
            }
            Err(e) => {
                ch.observe("error");
                if s.fails > 0 {
                    ensure!(
                        injected_of(&e).is_some(),
                        "the error of the stream was replaced by {e:?}"
                    );
                } else {
                    ensure!(
                        b > len || disturbed,
                        "{range:?} failed although the stream has it: {e:?}"
                    );
                }
            }
        }
    }
    Ok(())
}

/// A stream whose operations complete when the explorer says so. As with `tokio::fs::File`, an
/// operation that was started goes on when the future that started it is dropped.
struct GStream {
    env: GateEnv,
    data: Bytes,
    pos: u64,
    cur: Option<(bool, GateFut)>,
    seeking: Option<u64>,
}
impl std::fmt::Debug for GStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("GStream")
    }
}
impl AsyncRead for GStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        if me.cur.is_none() {
            let r = me.pos..me.pos + buf.remaining().min(64) as u64;
            me.cur = Some((true, me.env.issue(r)));
        }
        let (_, f) = me.cur.as_mut().unwrap();
        let a = ready!(Pin::new(f).poll(cx));
        me.cur = None;
        let n = match a {
            Answer::Fail => return Poll::Ready(Err(io::Error::other(Injected(5)))),
            Answer::Short => 1,
            Answer::Full => usize::MAX,
        };
        let s = (me.pos as usize).min(me.data.len());
        let n = n.min(me.data.len() - s).min(buf.remaining());
        buf.put_slice(&me.data[s..s + n]);
        me.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for GStream {
    fn start_seek(self: Pin<&mut Self>, p: io::SeekFrom) -> io::Result<()> {
        let me = self.get_mut();
        if me.cur.is_some() {
            return Err(io::Error::other("other file operation is pending, call poll_complete before start_seek"));
        }
        let t = match p {
            io::SeekFrom::Start(n) => n,
            io::SeekFrom::Current(d) => me.pos.saturating_add_signed(d),
            io::SeekFrom::End(d) => (me.data.len() as u64).saturating_add_signed(d),
        };
        me.seeking = Some(t);
        me.cur = Some((false, me.env.issue(t..t)));
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        let me = self.get_mut();
        while let Some((read, f)) = me.cur.as_mut() {
            let read = *read;
            let a = ready!(Pin::new(f).poll(cx));
            me.cur = None;
            if read {
                // bytes of an abandoned read: consumed, and lost to whoever does not seek
                if a != Answer::Fail {
                    me.pos = (me.pos + 1).min(me.data.len() as u64);
                }
                continue;
            }
            let t = me.seeking.take();
            if a == Answer::Fail {
                return Poll::Ready(Err(io::Error::other(Injected(6))));
            }
            me.pos = t.unwrap_or(me.pos);
        }
        Poll::Ready(Ok(me.pos))
    }
}

/// A stream longer than any memory: the byte at each position is a function of the position.
#[derive(Debug)]
struct Far {
    pos: u64,
    end: u64,
    piece: usize,
}
fn far_byte(p: u64) -> u8 {
    (p.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as u8
}
impl AsyncRead for Far {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = (self.piece.min(buf.remaining()) as u64).min(self.end.saturating_sub(self.pos));
        let v: Vec<u8> = (0..n).map(|i| far_byte(self.pos + i)).collect();
        buf.put_slice(&v);
        self.pos += n;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Far {
    fn start_seek(mut self: Pin<&mut Self>, p: io::SeekFrom) -> io::Result<()> {
        let t: i128 = match p {
            io::SeekFrom::Start(n) => n as i128,
            io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
            io::SeekFrom::End(d) => self.end as i128 + d as i128,
        };
        self.pos = u64::try_from(t).map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "seek"))?;
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> {
        Poll::Ready(Ok(self.pos))
    }
}

/// Histories of requests anywhere in a stream of up to the largest file size.
fn far(ch: &mut Ch, reqs: usize) -> Result<(), String> {
    let end = ch.pick(&[i64::MAX as u64, (1 << 32) + 3, (1 << 31) + 2]);
    let r = TokioReader::new(Far { pos: ch.pick(&[0, 1 << 32, i64::MAX as u64]), end, piece: ch.pick(&[1, 3, 64]) });
    for k in 0..reqs {
        let at = ch.pick(&[0, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 40, 1 << 53, 1 << 62, i64::MAX as u64]);
        let (a, n) = ch.pick(&[(-2i64, 5u64), (0, 2), (-1, 1), (-2, 2), (-5, 3), (0, 0)]);
        let s = at.saturating_add_signed(a);
        let e = (s + n).min(i64::MAX as u64);
        let s = s.min(e);
        let got = block_on(r.get_bytes(s..e));
        ch.note(|| format!("stream of {end}: request {k} {s}..{e} -> {got:?}"));
        ch.step((end, s, e, k));
        match got {
            Ok(b) => {
                if s == e {
                    ensure!(b.is_empty(), "{s}..{e} gave {b:?}");
                    continue;
                }
                ensure!(e <= end, "{s}..{e} reaches past the end ({end}) and gave {b:?}");
                let want: Vec<u8> = (s..e).map(far_byte).collect();
                ensure!(b[..] == want[..], "{s}..{e} gave {b:?} instead of {want:?}");
                ch.observe((s, e));
            }
            Err(x) => ensure!(e > end, "{s}..{e} failed although the stream has it: {x:?}"),
        }
    }
    Ok(())
}

type Res = Vec<(Range<u64>, Result<Bytes, String>)>;

fn concurrent(ch: &mut Ch, tasks: usize, per: usize, cand: &[Range<u64>], drops: usize, faults: usize) -> Result<(), String> {
    let len = 6;
    let data = content(len);
    let env = GateEnv::new();
    let r = TokioReader::new(GStream {
        env: env.clone(),
        data: data.clone(),
        pos: 0,
        cur: None,
        seeking: None,
    });
    let asks: Vec<Vec<Range<u64>>> = (0..tasks)
        .map(|_| (0..per).map(|_| ch.pick(cand)).collect())
        .collect();
    ch.note(|| format!("tasks ask for {asks:?}"));
    let results: RefCell<Vec<Res>> = RefCell::new(vec![vec![]; tasks]);
    let run = {
        let ts: Vec<Option<Task>> = asks
            .iter()
            .enumerate()
            .map(|(t, rs)| {
                let (r, results) = (&r, &results);
                Some(Box::pin(async move {
                    for x in rs {
                        let g = r.get_bytes(x.clone()).await;
                        results.borrow_mut()[t].push((
                            x.clone(),
                            g.map_err(|e| match injected_of(&e) {
                                Some(_) => "injected".to_string(),
                                None => e.to_string(),
                            }),
                        ));
                    }
                }) as Task)
            })
            .collect();
        sched(
            ch,
            ts,
            &env,
            Limits {
                drops,
                faults,
                answers: if faults > 0 {
                    &[Answer::Full, Answer::Short, Answer::Fail]
                } else {
                    &[Answer::Full]
                },
            },
            |ch, act, fin| {
                let n = env.0.lock().unwrap().ops.len();
                let got: usize = results.borrow().iter().map(|r| r.len()).sum();
                ch.step((&asks, act, fin, n, got));
                Ok(())
            },
        )?
    };
    let failed = run
        .acts
        .iter()
        .filter(|a| matches!(a, Act::Answer(_, Answer::Fail)))
        .count();
    let mut errs = 0;
    let check = |x: &Range<u64>, g: &Result<Bytes, String>, errs: &mut usize| -> Result<(), String> {
        let inside = x.end <= len as u64;
        match g {
            Ok(b) => {
                ensure!(inside, "{x:?} reaches past the end and gave {b:?}");
                let want = &data[x.start as usize..x.end as usize];
                ensure!(b[..] == *want, "{x:?} gave {b:?} instead of {want:?}");
            }
            Err(m) if m == "injected" => *errs += 1,
            Err(m) => ensure!(!inside, "{x:?} failed although the stream has it: {m}"),
        }
        Ok(())
    };
    for (t, rs) in results.borrow().iter().enumerate() {
        ensure!(!run.finished[t] || rs.len() == per, "task {t} finished early");
        for (x, g) in rs {
            check(x, g, &mut errs).map_err(|m| format!("task {t}: {m}"))?;
            ch.observe((t, g.is_ok()));
        }
    }
    ensure!(errs <= failed, "{errs} errors for {failed} failed operations");
    // The reader still works afterwards.
    let after = RefCell::new(None);
    {
        let (r, after) = (&r, &after);
        let t: Task = Box::pin(async move {
            // the outcome of an operation nobody waited for may surface once
            let mut g = r.get_bytes(1..5).await;
            if g.as_ref().is_err_and(|e| injected_of(e).is_some()) {
                g = r.get_bytes(1..5).await;
            }
            *after.borrow_mut() = Some(g.map_err(|e| e.to_string()));
        });
        sched(
            ch,
            vec![Some(t)],
            &env,
            Limits {
                drops: 0,
                faults: 0,
                answers: &[Answer::Full],
            },
            |_, _, _| Ok(()),
        )
        .map_err(|m| format!("a later access: {m}"))?;
    }
    let got = after.into_inner().unwrap();
    ensure!(
        got.as_ref().is_ok_and(|b| b[..] == data[1..5]),
        "a later access to 1..5 gave {got:?}"
    );
    Ok(())
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    const GOOD: [Io; 4] = [Io::All, Io::Few(1), Io::Few(2), Io::Pending];
    const BAD: [Io; 7] = [
        Io::All,
        Io::Few(1),
        Io::Pending,
        Io::Fail,
        Io::Interrupted,
        Io::Few(0),
        Io::Few(2),
    ];
    let c3 = vec![0..2, 1..5, 3..6];
    let c4 = vec![0..2, 1..5, 3..6, 4..8, 2..2];
    let th = t.thorough();
    let bodies = vec![
        body("one request, every way of splitting and delaying it", move |ch| {
            let len = ch.pick(&[0, 1, 2, 4, 6][..t.sel(4, 5)]);
            scripted(ch, len, 1, t.sel(8, 10), true, &GOOD)
        })
        .dev(t.sel(4, 6)),
        body("histories of requests with failures", move |ch| {
            let len = ch.pick(&[0, 1, 3]);
            let seeks = ch.flag();
            scripted(ch, len, t.sel(2, 3), 6, seeks, &BAD)
        })
        .dev(t.sel(2, 3)),
        body("large streams", move |ch| {
            // more than any internal buffer
            let len = 20_000;
            let data = content(len);
            let script = Arc::new(Mutex::new(Script::default()));
            let k = ch.pick(&[1000, 4096, 8191, 20_000]);
            script.lock().unwrap().steps = vec![Io::Few(k); 30];
            let r = TokioReader::new(Stream { data: data.clone(), pos: 0, script });
            let (s, e) = ch.pick(&[(0u64, 20_000u64), (1, 19_999), (10_000, 20_000), (0, 8192), (19_000, 20_001), (0, u64::MAX), (u64::MAX - 1, u64::MAX)]);
            let g = block_on(r.get_bytes(s..e));
            ch.step((k, s, e));
            if e <= len as u64 {
                ensure!(g.as_ref().is_ok_and(|b| b[..] == data[s as usize..e as usize]), "{s}..{e} gave wrong bytes or an error");
            } else {
                ensure!(g.is_err(), "{s}..{e} reaches past the end and succeeded");
            }
            ensure!(alloc::peak() < 1 << 20, "{s}..{e} of a {len}-byte stream allocated {} bytes", alloc::peak());
            Ok(())
        }),
        body("reads of many buffers", move |ch| {
            let data = wide();
            let script = Arc::new(Mutex::new(Script::default()));
            let k = ch.pick(&[8191, 65536, 1 << 20, (1 << 21) + 1, usize::MAX]);
            script.lock().unwrap().steps = vec![Io::Few(k); 9000];
            let r = TokioReader::new(Stream { data: data.clone(), pos: 0, script });
            for _ in 0..2 {
                let s = ch.pick(&[0u64, 1, 65535, (1 << 24) + 1]);
                let n = ch.pick(&[65535u64, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) + 3, (16 << 20) + 1, 33 << 20]);
                let e = s + n;
                let g = block_on(r.get_bytes(s..e));
                ch.note(|| format!("{s}..{e} in pieces of {k}"));
                ch.step((k, s, e));
                ensure!(g.as_ref().is_ok_and(|b| b[..] == data[s as usize..e as usize]), "{s}..{e} in pieces of {k} gave wrong bytes or an error");
            }
            Ok(())
        }),
        body("far into streams of up to 2^63 bytes", move |ch| far(ch, t.sel(2, 3))),
        {
            let c = t.sel(c3.clone(), c4.clone());
            body("2 tasks x 1 request, 2 dropped, 1 failed or short", move |ch| concurrent(ch, 2, 1, &c, 2, 1))
        },
        {
            let c = c4.clone();
            body("2 tasks x 2 requests, 1 dropped", move |ch| concurrent(ch, 2, 2, &c[..if th { 5 } else { 3 }], 1, 0))
        },
        {
            let c = c3.clone();
            body("3 tasks x 1 request, 1 dropped", move |ch| concurrent(ch, 3, 1, &c, 1, usize::from(th)))
        },
    ];
    (
        bodies,
        about(
            format!("streams of 0-{} bytes, every range up to one byte past the end; every placement of up to {} short reads and delays in the first {} operations of a request, up to {} failures, interruptions and early ends in histories of {} requests; histories of {} requests around 11 positions up to 2^63-1; histories of 2 reads of up to 33 MiB in 5 piece sizes; 2-3 concurrent tasks under every interleaving of polls and completions with dropped tasks and failed operations", t.sel(4, 6), t.sel(4, 6), t.sel(8, 10), t.sel(2, 3), t.sel(2, 3), t.sel(2, 3)),
            &["the stream behaves like tokio::fs::File: an operation in progress is completed by poll_complete, and reading while seeking is not defined", "a read of no bytes means the end of the stream"],
        ),
    )
}
