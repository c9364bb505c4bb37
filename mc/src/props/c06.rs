//! C06: multi-range reads.
use std::cell::RefCell;
use std::ops::Range;
use std::sync::{Arc, Mutex};

use async_tiff::reader::{AsyncFileReader, ObjectReader};
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::BoxStream;
use futures::StreamExt;
use object_store::path::Path;
use object_store::{
    CopyOptions, GetOptions, GetRange, GetResult, GetResultPayload, ListResult, MultipartUpload,
    ObjectMeta, ObjectStore, PutMultipartOptions, PutOptions, PutPayload, PutResult,
};

use super::c01::{reader, reader_of, Via, VIAS};
use super::c02::{content, many, ranges};
use super::{about, About};
use crate::engine::{body, violation_unwind, Body, Ch};
use crate::ensure;
use crate::exec::{
    block_on, injected_of, sched, Act, Answer, GateEnv, Gated, Injected, Limits, Task,
};
use crate::sources::{wide, Ans, Mem, MemMulti, Req};
use crate::Tier;

/// An object store whose get requests are answered by the explorer.
#[derive(Debug)]
struct Store {
    env: GateEnv,
    /// The object has these bytes at `base` (nothing asks for others).
    data: Bytes,
    base: u64,
    path: Path,
    seen: Mutex<Vec<(Path, Range<u64>)>>,
}
impl std::fmt::Display for Store {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Store")
    }
}
fn no<T>() -> object_store::Result<T> {
    Err(object_store::Error::NotImplemented {
        operation: "x".into(),
        implementer: "Store".into(),
    })
}
#[async_trait]
impl ObjectStore for Store {
    async fn put_opts(&self, _: &Path, _: PutPayload, _: PutOptions) -> object_store::Result<PutResult> {
        no()
    }
    async fn put_multipart_opts(&self, _: &Path, _: PutMultipartOptions) -> object_store::Result<Box<dyn MultipartUpload>> {
        no()
    }
    async fn get_opts(&self, location: &Path, options: GetOptions) -> object_store::Result<GetResult> {
        let len = self.base + self.data.len() as u64;
        let r = match &options.range {
            Some(r) => r
                .as_range(len)
                .map_err(|e| object_store::Error::Generic {
                    store: "Store",
                    source: Box::new(e),
                })?,
            None => 0..len,
        };
        let asked = match &options.range {
            Some(GetRange::Bounded(b)) => b.clone(),
            _ => r.clone(),
        };
        self.seen.lock().unwrap().push((location.clone(), asked.clone()));
        let a = self.env.issue(asked).await;
        if a == Answer::Fail || *location != self.path {
            return Err(object_store::Error::Generic {
                store: "Store",
                source: Box::new(Injected(3)),
            });
        }
        if r.start < self.base {
            violation_unwind(format!("request for {r:?}, where nothing was asked for"));
        }
        let b = self.data.slice((r.start - self.base) as usize..(r.end - self.base) as usize);
        // the body comes in two pieces
        let m = b.len() / 2;
        let parts = vec![Ok(b.slice(..m)), Ok(b.slice(m..))];
        Ok(GetResult {
            payload: GetResultPayload::Stream(futures::stream::iter(parts).boxed()),
            meta: ObjectMeta {
                location: location.clone(),
                last_modified: Default::default(),
                size: len,
                e_tag: None,
                version: None,
            },
            range: r,
            attributes: Default::default(),
            extensions: Default::default(),
        })
    }
    fn delete_stream(&self, l: BoxStream<'static, object_store::Result<Path>>) -> BoxStream<'static, object_store::Result<Path>> {
        l
    }
    fn list(&self, _: Option<&Path>) -> BoxStream<'static, object_store::Result<ObjectMeta>> {
        futures::stream::empty().boxed()
    }
    async fn list_with_delimiter(&self, _: Option<&Path>) -> object_store::Result<ListResult> {
        no()
    }
    async fn copy_opts(&self, _: &Path, _: &Path, _: CopyOptions) -> object_store::Result<()> {
        no()
    }
}

fn lists(ch: &mut Ch, rs: &[Range<u64>], max: usize) -> Vec<Range<u64>> {
    let n = ch.choose(max + 1);
    (0..n).map(|_| ch.pick(rs)).collect()
}

fn judge(
    got: &Result<Vec<Bytes>, Option<usize>>,
    rs: &[Range<u64>],
    data: &Bytes,
    base: u64,
    may_refuse_empty: bool,
    failed: bool,
) -> Result<(), String> {
    match got {
        Ok(v) => {
            ensure!(!failed, "{rs:?} succeeded although a part failed");
            ensure!(v.len() == rs.len(), "{} buffers for {rs:?}", v.len());
            for (i, (b, r)) in v.iter().zip(rs).enumerate() {
                let want = &data[(r.start - base) as usize..(r.end - base) as usize];
                ensure!(
                    b[..] == *want,
                    "buffer {i} of {rs:?} has {} bytes {:?}.. instead of {} bytes {:?}..",
                    b.len(),
                    &b[..b.len().min(8)],
                    want.len(),
                    &want[..want.len().min(8)]
                );
            }
        }
        Err(i) => {
            if failed {
                ensure!(i.is_some(), "the error of the backend was replaced for {rs:?}");
            } else {
                ensure!(
                    may_refuse_empty && rs.iter().any(|r| r.is_empty()),
                    "{rs:?} failed although every part is there"
                );
            }
        }
    }
    Ok(())
}

/// A gated reader wrapped in various ways.
fn gated(ch: &mut Ch, faults: usize) -> Result<(), String> {
    let data = content(8);
    let src = Gated::new(data.clone());
    let wrap = ch.choose(3);
    let r: Arc<dyn AsyncFileReader> = match wrap {
        0 => Arc::new(src.clone()),
        1 => Arc::new(Box::new(src.clone()) as Box<dyn AsyncFileReader>),
        _ => Arc::new(Arc::new(src.clone()) as Arc<dyn AsyncFileReader>),
    };
    let rs = lists(ch, &[0..2, 1..5, 6..8, 3..3], 3);
    ch.note(|| format!("wrap {wrap} ranges {rs:?}"));
    drive(ch, &r, &src.env, rs, &data, 0, faults, false)
}

fn drive(ch: &mut Ch, r: &dyn AsyncFileReader, env: &GateEnv, rs: Vec<Range<u64>>, data: &Bytes, base: u64, faults: usize, refuse: bool) -> Result<(), String> {
    let got = RefCell::new(None);
    let run = {
        let (got, ask) = (&got, rs.clone());
        let t: Task = Box::pin(async move {
            let g = r.get_byte_ranges(ask).await;
            *got.borrow_mut() = Some(g.map_err(|e| injected_of(&e)));
        });
        sched(
            ch,
            vec![Some(t)],
            env,
            Limits {
                drops: 0,
                faults,
                answers: if faults > 0 { &[Answer::Full, Answer::Fail] } else { &[Answer::Full] },
            },
            |ch, act, fin| {
                let n = env.0.lock().unwrap().ops.len();
                ch.step((&rs, act, fin, n));
                Ok(())
            },
        )?
    };
    let failed = run
        .acts
        .iter()
        .any(|a| matches!(a, Act::Answer(_, Answer::Fail)));
    let got = got.into_inner().unwrap();
    ch.observe((rs.len(), got.is_ok()));
    judge(&got, &rs, data, base, refuse, failed)
}

/// The object-store reader over a gated store: requests of one call run at the same time.
fn object(ch: &mut Ch, cand: &[Range<u64>], data: &Bytes, base: u64, max: usize, faults: usize) -> Result<(), String> {
    let env = GateEnv::new();
    let path = Path::from("dir/file.tif");
    let store = Arc::new(Store {
        env: env.clone(),
        data: data.clone(),
        base,
        path: path.clone(),
        seen: Mutex::default(),
    });
    let r = ObjectReader::new(store.clone(), path.clone());
    let rs = lists(ch, cand, max);
    ch.note(|| format!("ranges {rs:?}"));
    drive(ch, &r, &env, rs.clone(), data, base, faults, true)?;
    for (p, _) in store.seen.lock().unwrap().iter() {
        ensure!(*p == path, "request for {p} instead of {path}");
    }
    // the single-range method of the same reader
    if let [x] = &rs[..] {
        let got = RefCell::new(None);
        {
            let (r, got, x) = (&r, &got, x.clone());
            let t: Task = Box::pin(async move {
                let g = r.get_bytes(x).await;
                *got.borrow_mut() = Some(g.map(|b| vec![b]).map_err(|e| injected_of(&e)));
            });
            sched(ch, vec![Some(t)], &env, Limits { drops: 0, faults: 0, answers: &[Answer::Full] }, |_, _, _| Ok(()))?;
        }
        judge(&got.into_inner().unwrap(), &rs, data, base, true, false)?;
    }
    Ok(())
}

fn short(e: &str) -> String {
    e.chars().take(400).collect()
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let th = t.thorough();
    let mb = 1u64 << 20;
    let big: Bytes = (0..5 * mb).map(|i| (i ^ (i >> 8) ^ (i >> 15)) as u8).collect::<Vec<_>>().into();
    let bodies = vec![
        body("all lists of ranges, every reader", move |ch| {
            let len = t.sel(5, 8);
            let via = ch.pick(&VIAS);
            let rs = lists(ch, &ranges(t.sel(5, 8)), 3);
            let data = content(len);
            let r = reader(via, data.to_vec());
            let got = block_on(r.get_byte_ranges(rs.clone())).map_err(|e| injected_of(&e));
            ch.note(|| format!("{via:?} {rs:?} -> {got:?}"));
            ch.step((via, &rs));
            ch.observe(&rs);
            judge(&got, &rs, &data, 0, via == Via::Object, false)?;
            if let [x] = &rs[..] {
                let one = block_on(r.get_bytes(x.clone())).map(|b| vec![b]).map_err(|e| injected_of(&e));
                judge(&one, &rs, &data, 0, via == Via::Object, false)?;
            }
            Ok(())
        }),
        body("lists of many small ranges in every order, every reader", move |ch| {
            let via = ch.pick(&VIAS);
            let rs = lists(ch, &[0..1, 1..2, 2..3, 3..5, 0..5, 1..3], t.sel(6, 7));
            let data = content(5);
            let r = reader(via, data.to_vec());
            let got = block_on(r.get_byte_ranges(rs.clone())).map_err(|e| injected_of(&e));
            ch.note(|| format!("{via:?} {rs:?} -> {got:?}"));
            ch.step((via, &rs));
            ch.observe(&rs);
            judge(&got, &rs, &data, 0, false, false)
        }),
        body("long lists of ranges, every reader", move |ch| {
            let via = ch.pick(&VIAS);
            let n = ch.pick(&many(t.sel(4097, 70_000)));
            let data = wide().slice(..5 << 20);
            let len = data.len() as u64;
            let size = ch.pick(&[3u64, 700]);
            if n as u64 * size > 40 << 20 {
                return Ok(());
            }
            // ascending side by side, descending with gaps, scattered
            let kind = ch.choose(3);
            let rs: Vec<Range<u64>> = (0..n as u64)
                .map(|i| {
                    let s = match kind {
                        0 => i * size,
                        1 => (n as u64 - i) * (size + 40),
                        _ => crate::tiffw::mix(i),
                    } % (len - size);
                    s..s + 1 + (i % size)
                })
                .collect();
            let r = reader_of(via, data.clone());
            let got = block_on(r.get_byte_ranges(rs.clone())).map_err(|e| injected_of(&e));
            ch.note(|| format!("{via:?} {n} ranges of up to {size} bytes, kind {kind}"));
            ch.step((via, n, kind, size));
            ch.observe((n, kind));
            judge(&got, &rs, &data, 0, false, false).map_err(|e| short(&e))
        }),
        body("single large ranges, every reader", move |ch| {
            let via = ch.pick(&VIAS);
            let data = wide();
            let r = reader_of(via, data.clone());
            let n = ch.pick(&[(64u64 << 10) - 1, 64 << 10, 1 << 20, (1 << 20) + 1, (8 << 20) + 1, (16 << 20) + 1, 33 << 20, (64 << 20) - 5]);
            let at = ch.pick(&[0u64, 1, 4]);
            let rs = [at..at + n, 7..9];
            let got = block_on(r.get_byte_ranges(rs.to_vec())).map_err(|e| injected_of(&e));
            ch.note(|| format!("{via:?} {rs:?}"));
            ch.step((via, n, at));
            judge(&got, &rs, &data, 0, false, false)?;
            let one = block_on(r.get_bytes(rs[0].clone())).map(|b| vec![b]).map_err(|e| injected_of(&e));
            judge(&one, &rs[..1], &data, 0, false, false)
        }),
        body("wrapped readers forward a multi-range request as one request", move |ch| {
            let data = content(6);
            let mem = Mem::new(data.clone()).pending(ch.flag());
            let m = MemMulti(mem.clone());
            let wrap = ch.choose(5);
            let r: Arc<dyn AsyncFileReader> = match wrap {
                0 => Arc::new(m),
                1 => Arc::new(Box::new(m) as Box<dyn AsyncFileReader>),
                2 => Arc::new(Arc::new(m) as Arc<dyn AsyncFileReader>),
                3 => Arc::new(Box::new(Arc::new(m) as Arc<dyn AsyncFileReader>) as Box<dyn AsyncFileReader>),
                _ => Arc::new(Arc::new(Box::new(m) as Box<dyn AsyncFileReader>) as Arc<dyn AsyncFileReader>),
            };
            let rs = lists(ch, &ranges(if th { 6 } else { 4 }), if th { 3 } else { 2 });
            let fail = ch.flag();
            if fail {
                mem.plan(0, Ans::Err);
            }
            let got = block_on(r.get_byte_ranges(rs.clone())).map_err(|e| injected_of(&e));
            ch.note(|| format!("wrap {wrap} {rs:?} -> {got:?}"));
            ch.step((wrap, &rs, fail));
            judge(&got, &rs, &data, 0, false, fail)?;
            ensure!(mem.log() == [Req::Many(rs.clone())], "wrap {wrap}: {rs:?} became the requests {:?}", mem.log());
            // and a single range as a single request
            mem.clear_log();
            mem.clear_plan();
            let got = block_on(r.get_bytes(1..4)).map_err(|e| e.to_string())?;
            ensure!(got[..] == data[1..4], "1..4 gave {got:?}");
            ensure!(mem.log() == [Req::One(1..4)], "1..4 became the requests {:?}", mem.log());
            Ok(())
        }),
        body("default multi-range method, every failing part", move |ch| {
            let data = content(6);
            let mem = Mem::new(data.clone());
            let rs = lists(ch, &ranges(3), 3);
            let k = ch.choose(rs.len() + 1);
            mem.plan(k, Ans::Err);
            let got = block_on(mem.get_byte_ranges(rs.clone())).map_err(|e| injected_of(&e));
            ch.note(|| format!("{rs:?} part {k} fails -> {got:?}"));
            ch.step((&rs, k));
            judge(&got, &rs, &data, 0, false, k < rs.len())
        }),
        body("gated readers, every order of completion", move |ch| gated(ch, 1)),
        {
            let d = content(8);
            let c = vec![0..2, 1..5, 6..8, 0..8, 3..3];
            body("object store, nearby ranges", move |ch| object(ch, &c[..if th { 5 } else { 4 }], &d, 0, 3, 1))
        },
        {
            let d = big.clone();
            let c = vec![0..3, 2 * mb..2 * mb + 5, 2 * mb + 3..2 * mb + 4, 4 * mb..4 * mb + 2, mb - 1..mb + 3];
            body("object store, distant ranges requested at the same time", move |ch| object(ch, &c[..if th { 5 } else { 4 }], &d, 0, if th { 4 } else { 3 }, 1))
        },
        {
            let d = content(8);
            body("object store, far into a large object", move |ch| {
                let base = ch.pick(&[(1u64 << 31) - 4, 1 << 31, (1 << 32) - 4, 1 << 32, (1 << 32) + (1 << 31), (1 << 53) - 3, 1 << 62, i64::MAX as u64 - 8, u64::MAX - 8]);
                let c = [0..2, 1..5, 6..8, 3..4].map(|r| base + r.start..base + r.end);
                object(ch, &c, &d, base, 2, 0)
            })
        },
    ];
    (
        bodies,
        about(
            format!("6 readers x every list of up to 3 of the ranges within {} bytes; every list of up to {} of 6 of them; lists of up to {} ranges (every length to 40 and around powers of two) in 3 orders; ranges of up to 64 MiB; 5 wrappings of a reader; every failing part; object store with requests answered in every order, one of which may fail, over lists of up to {} ranges nearby, megabytes apart, and at 9 positions from 2^31 to the end of the 64-bit range", t.sel(5, 8), t.sel(6, 7), t.sel(4097, 70_000), t.sel(3, 4)),
            &["ranges lie within the file", "object stores may refuse empty ranges"],
        ),
    )
}
