//! C20: faults of the source.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use async_tiff::decoder::DecoderRegistry;
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::reader::AsyncFileReader;
use async_tiff::ImageFileDirectory;

use super::{about, base_w, bits_of, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{block_on, injected_of, poll_once};
use crate::sources::{Ans, Eof, Mem, MemMulti, Req};
use crate::tiffw::{e, Comp, FileSpec, Fmt, IfdSpec, Img, Layout, Tab, FMTS, LAYOUTS, V};
use crate::Tier;

thread_local! {
    static REG: DecoderRegistry = DecoderRegistry::default();
}

/// The steps of a reading history.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Open,
    Next,
    /// All directories that are left.
    Rest,
    /// The same as a whole file.
    Whole,
    Tile(usize, usize, usize),
    Tiles(usize, Vec<(usize, usize)>),
}

/// What a step shows.
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Opened(bool, bool, Option<u64>),
    Dir(Option<Box<ImageFileDirectory>>, Option<u64>),
    /// The directories from this offset on.
    Dirs(Option<u64>, Vec<ImageFileDirectory>),
    /// Raw bytes and decoded tile.
    Tiles(Vec<(usize, usize, [usize; 3], &'static str, Vec<u64>)>),
}

struct World<F> {
    fetch: F,
    pixels: Arc<dyn AsyncFileReader>,
    reader: Option<TiffMetadataReader>,
    dirs: Vec<ImageFileDirectory>,
}

fn decode(ts: Vec<async_tiff::Tile>) -> AsyncTiffResult<Seen> {
    let mut v = vec![];
    for t in ts {
        let (x, y) = (t.x(), t.y());
        let a = REG.with(|r| t.decode(r))?;
        let (n, b) = bits_of(a.data());
        v.push((x, y, a.shape(), n, b));
    }
    Ok(Seen::Tiles(v))
}

impl<F: MetadataFetch> World<F> {
    fn run(&mut self, op: &Op) -> AsyncTiffResult<Seen> {
        block_on(self.step(op))
    }
    async fn step(&mut self, op: &Op) -> AsyncTiffResult<Seen> {
        match op {
            Op::Open => {
                let r = TiffMetadataReader::try_open(&self.fetch).await?;
                let s = Seen::Opened(r.endianness() == async_tiff::reader::Endianness::BigEndian, r.bigtiff(), r.next_ifd_offset());
                self.reader = Some(r);
                Ok(s)
            }
            Op::Next => {
                let r = self.reader.as_mut().unwrap();
                let before = r.next_ifd_offset();
                let d = r.read_next_ifd(&self.fetch).await;
                if d.is_err() && r.next_ifd_offset() != before {
                    return Err(AsyncTiffError::General(format!("VIOLATION the position moved from {before:?} to {:?}", r.next_ifd_offset())));
                }
                let d = d?;
                if let Some(d) = &d {
                    self.dirs.push(d.clone());
                }
                Ok(Seen::Dir(d.map(Box::new), r.next_ifd_offset()))
            }
            Op::Rest | Op::Whole => {
                // the directories read by an attempt that failed are gone with it
                let at = self.reader.as_ref().unwrap().next_ifd_offset();
                let r = self.reader.as_mut().unwrap();
                let v = match op {
                    Op::Rest => r.read_all_ifds(&self.fetch).await?,
                    _ => r.read(&self.fetch).await?.ifds().to_vec(),
                };
                self.dirs.extend(v.clone());
                Ok(Seen::Dirs(at, v))
            }
            Op::Tile(d, x, y) => {
                let t = self.dirs[*d].fetch_tile(*x, *y, &*self.pixels).await?;
                decode(vec![t])
            }
            Op::Tiles(d, xy) => decode(self.dirs[*d].fetch_tiles(xy, &*self.pixels).await?),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Stack {
    Direct,
    Multi,
    Cache(u64, u32),
}

/// A reading history with faults at the given requests.
fn history<F: MetadataFetch>(ch: &mut Ch, mut w: World<F>, mem: &Mem, ops: &[Op], want: &[Seen], map: &[(u64, usize)], faults: &[(usize, Ans)]) -> Result<(), String> {
    // offsets of the directories; the directory the (first) fault is in
    let offs: Vec<u64> = map.iter().map(|m| m.0).collect();
    let failed = map.iter().position(|m| faults[0].0 < m.1).unwrap_or(map.len());
    mem.clear_plan();
    mem.clear_log();
    for (i, a) in faults {
        mem.plan(*i, *a);
    }
    for (k, op) in ops.iter().enumerate() {
        let mut tries = 0;
        loop {
            let from = mem.count();
            let r = w.run(op);
            let hit: Vec<(usize, Ans)> = faults.iter().copied().filter(|(i, _)| (from..mem.count()).contains(i)).collect();
            ch.step((k, op, tries, mem.count(), r.is_ok()));
            match r {
                Ok(s) => {
                    ensure!(hit.iter().all(|h| h.1 != Ans::Err), "{op:?} succeeded although request {hit:?} failed");
                    let w = match (&s, &want[k]) {
                        (Seen::Dirs(at, _), Seen::Dirs(_, all)) if tries > 0 => {
                            // goes on with the first directory not read yet
                            let i = offs.iter().position(|o| Some(*o) == *at);
                            let Some(i) = i else { return Err(format!("{op:?} goes on at {at:?}, which is no directory")) };
                            ensure!(faults.len() > 1 || i <= failed, "{op:?} goes on with directory {i} although directory {failed} was not read");
                            let skip = i + all.len() - offs.len();
                            for d in &all[..skip] {
                                w.dirs.insert(w.dirs.len() - (offs.len() - i), d.clone());
                            }
                            Seen::Dirs(*at, all[skip..].to_vec())
                        }
                        (_, w) => w.clone(),
                    };
                    ensure!(s == w, "{op:?} after {tries} failures, short answers {hit:?}: {s:?} instead of {w:?}");
                    break;
                }
                Err(AsyncTiffError::General(m)) if m.starts_with("VIOLATION") => return Err(format!("{op:?}: {m}")),
                Err(e) => {
                    ensure!(!hit.is_empty(), "{op:?} failed without a fault (attempt {tries}): {e}");
                    if let Some((i, Ans::Err)) = hit.last() {
                        ensure!(injected_of(&e) == Some(*i), "{op:?}: the error of request {i} was replaced by {e:?}");
                    }
                }
            }
            tries += 1;
            ensure!(tries <= faults.len() + 1, "{op:?} does not recover");
        }
    }
    ch.observe((mem.count(), faults.len()));
    Ok(())
}

fn len_of(r: &Req) -> u64 {
    match r {
        Req::One(r) => r.end - r.start,
        Req::Many(rs) => rs.iter().map(|r| r.end - r.start).max().unwrap_or(0),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Plan {
    fmt: Fmt,
    layout: Layout,
    kind: usize,
}

type Dry = (Vec<Seen>, Vec<u64>, Vec<(u64, usize)>);
type Known = (Vec<u8>, Vec<Op>, Result<Dry, String>);

/// A file, its history and the undisturbed run of it, computed once.
fn known(p: &Plan, stack: Stack) -> Arc<Known> {
    static ALL: Mutex<Option<HashMap<(Plan, Stack), Arc<Known>>>> = Mutex::new(None);
    let k = (p.clone(), stack);
    if let Some(x) = ALL.lock().unwrap().get_or_insert_default().get(&k) {
        return x.clone();
    }
    let (bytes, ops) = file(p);
    let d = dry(&bytes, &ops, stack);
    let x = Arc::new((bytes, ops, d));
    ALL.lock().unwrap().get_or_insert_default().insert(k, x.clone());
    x
}

fn file(p: &Plan) -> (Vec<u8>, Vec<Op>) {
    let fmt = p.fmt;
    let img = |w, h, tw, th, spp, planar, sf, bits, comp, pred| Img { fmt, w, h, tw, th, spp, planar, sf, bits, comp, pred, seed: 3 };
    let (ifds, ops): (Vec<IfdSpec>, Vec<Op>) = match p.kind {
        0 => {
            let a = img(4, 4, 2, 2, 1, false, 1, 16, Comp::None, 0);
            let mut d = a.ifd();
            d.entries.push(e(270, V::ascii("some text")));
            d.entries.push(e(282, V::Rational(vec![(72, 1)])));
            d.entries.push(e(33550, V::double(&[1.0, 2.0, 3.0])));
            d.entries.sort_by_key(|x| x.tag);
            (vec![d], vec![Op::Open, Op::Next, Op::Next, Op::Tile(0, 0, 0), Op::Tile(0, 1, 1), Op::Tiles(0, vec![(1, 0), (0, 1), (1, 0)])])
        }
        1 => {
            let a = img(2, 4, 2, 2, 3, true, 1, 8, Comp::Deflate, 2);
            let b = img(2, 2, 2, 2, 3, true, 2, 16, Comp::Lzw, 0);
            (
                vec![a.ifd(), b.ifd()],
                vec![Op::Open, Op::Next, Op::Next, Op::Next, Op::Tile(0, 0, 1), Op::Tile(1, 0, 0), Op::Tiles(0, vec![(0, 1), (0, 0)])],
            )
        }
        2 => {
            let mut v = vec![];
            for i in 0..3 {
                let mut es = base_w(10 + i);
                es.push(e(305, V::ascii("text number one")));
                es.push(e(34735, V::Short(vec![1, 1, 0, 2, 1024, 0, 1, 1, 1026, 34737, 3, 0])));
                es.push(e(34737, V::ascii("abc|")));
                es.push(e(65000, V::Byte(vec![1, 2, 3])));
                es.push(e(65001, V::SRational(vec![(1, 2), (-3, 4)])));
                v.push(IfdSpec { entries: es, blocks: vec![vec![i as u8; 35]], tables: Some((273, 279, Tab::Long, Tab::Short)) });
            }
            (v, vec![Op::Open, Op::Next, Op::Rest])
        }
        3 => {
            let a = img(8, 8, 8, 8, 3, false, 1, 8, Comp::Jpeg(true), 0);
            (vec![a.ifd()], vec![Op::Open, Op::Rest, Op::Tile(0, 0, 0), Op::Tiles(0, vec![(0, 0)])])
        }
        4 => {
            let a = img(24, 16, 24, 16, 1, false, 1, 8, Comp::Jpeg(false), 0);
            (vec![a.ifd()], vec![Op::Open, Op::Next, Op::Tile(0, 0, 0), Op::Tiles(0, vec![(0, 0)])])
        }
        5 => {
            let a = img(32, 32, 32, 32, 1, false, 1, 8, Comp::J2k, 0);
            (vec![a.ifd()], vec![Op::Open, Op::Next, Op::Tile(0, 0, 0), Op::Tiles(0, vec![(0, 0)])])
        }
        6 => {
            let a = img(4, 4, 4, 4, 3, false, 1, 8, Comp::WebP, 0);
            (vec![a.ifd()], vec![Op::Open, Op::Next, Op::Tile(0, 0, 0), Op::Tiles(0, vec![(0, 0)])])
        }
        7 => {
            let a = img(4, 4, 4, 4, 1, false, 3, 32, Comp::Lerc(Some(2)), 0);
            let b = img(4, 4, 4, 4, 2, false, 3, 32, Comp::Zstd, 3);
            (
                vec![a.ifd(), b.ifd()],
                vec![Op::Open, Op::Rest, Op::Tile(0, 0, 0), Op::Tile(1, 0, 0), Op::Tiles(1, vec![(0, 0)])],
            )
        }
        8 => {
            let a = img(8, 4, 8, 2, 1, false, 1, 1, Comp::None, 0);
            let b = img(4, 4, 2, 2, 2, false, 2, 16, Comp::Lzma, 2);
            (
                vec![a.ifd(), b.ifd()],
                vec![Op::Open, Op::Next, Op::Next, Op::Tile(0, 0, 1), Op::Tile(1, 1, 1), Op::Tiles(0, vec![(0, 0), (0, 1)])],
            )
        }
        9 => {
            // a pyramid, read at once
            let v = [16, 8, 4, 2, 1].map(|n| img(n, n, 16, 16, 1, false, 1, 8, Comp::Deflate, 2).ifd());
            (v.into(), vec![Op::Open, Op::Whole, Op::Tile(4, 0, 0), Op::Tile(0, 0, 0)])
        }
        _ => {
            let a = img(4, 4, 2, 2, 1, false, 1, 8, Comp::Lzw, 0);
            (vec![a.ifd()], vec![Op::Open, Op::Next, Op::Tile(0, 0, 1), Op::Tiles(0, vec![(0, 0), (1, 1)])])
        }
    };
    (FileSpec::new(fmt, ifds).layout(p.layout).build().bytes, ops)
}
const KINDS: usize = 11;

fn world(stack: Stack, mem: &Mem) -> World<Fetch> {
    let pixels: Arc<dyn AsyncFileReader> = match stack {
        Stack::Multi => Arc::new(MemMulti(mem.clone())),
        _ => Arc::new(mem.clone()),
    };
    let fetch = match stack {
        Stack::Direct => Fetch::Mem(mem.clone()),
        Stack::Multi => Fetch::Multi(MemMulti(mem.clone())),
        Stack::Cache(i, m) => Fetch::Cache(ReadaheadMetadataCache::new(mem.clone()).with_initial_size(i).with_multiplier(m as f64 / 10.0)),
    };
    World { fetch, pixels, reader: None, dirs: vec![] }
}

#[derive(Debug)]
enum Fetch {
    Mem(Mem),
    Multi(MemMulti),
    Cache(ReadaheadMetadataCache<Mem>),
}
#[async_trait::async_trait]
impl MetadataFetch for Fetch {
    async fn fetch(&self, r: std::ops::Range<u64>) -> AsyncTiffResult<bytes::Bytes> {
        match self {
            Fetch::Mem(m) => m.fetch(r).await,
            Fetch::Multi(m) => m.fetch(r).await,
            Fetch::Cache(m) => m.fetch(r).await,
        }
    }
}

/// The undisturbed run: what every step shows and how long the answers are.
fn dry(bytes: &[u8], ops: &[Op], stack: Stack) -> Result<(Vec<Seen>, Vec<u64>, Vec<(u64, usize)>), String> {
    let mem = Mem::new(bytes.to_vec()).eof(Eof::Clamp);
    let mut w = world(stack, &mem);
    let mut seen = vec![];
    for op in ops {
        seen.push(w.run(op).map_err(|e| format!("{op:?}: {e}"))?);
    }
    // where each directory is and after how many requests it has been read
    let map = {
        let mem = Mem::new(bytes.to_vec()).eof(Eof::Clamp);
        let mut w = world(stack, &mem);
        let mut map = vec![];
        w.run(&Op::Open).map_err(|e| e.to_string())?;
        while let Some(o) = w.reader.as_ref().unwrap().next_ifd_offset() {
            w.run(&Op::Next).map_err(|e| e.to_string())?;
            map.push((o, mem.count()));
        }
        map
    };
    let len = mem.len();
    let l = mem
        .log()
        .iter()
        .map(|r| match r {
            Req::One(r) => r.end.min(len).saturating_sub(r.start),
            r => len_of(r),
        })
        .collect();
    Ok((seen, l, map))
}

const STACKS: [Stack; 7] = [
    Stack::Direct,
    Stack::Multi,
    Stack::Cache(32 << 10, 20),
    Stack::Cache(1, 20),
    Stack::Cache(16, 10),
    Stack::Cache(64, 15),
    Stack::Cache(100, 30),
];

fn answers(n: u64, all: bool) -> Vec<Ans> {
    let mut v = vec![Ans::Err];
    if all || n <= 16 {
        v.extend((0..n).map(Ans::Short));
    } else {
        let mut s: Vec<u64> = vec![0, 1, 2, 7, 8, n / 2, n - 9, n - 2, n - 1];
        s.retain(|x| *x < n);
        s.sort();
        s.dedup();
        v.extend(s.into_iter().map(Ans::Short));
    }
    v
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let thorough = t.thorough();
    let bodies = vec![
        body("one fault at every request", move |ch| {
            let plan = Plan { fmt: FMTS[ch.choose(4)], layout: ch.pick(&LAYOUTS), kind: ch.choose(KINDS) };
            let stack = ch.pick(&STACKS);
            if !thorough && (3..5).contains(&plan.kind) && (plan.layout != Layout::Cog || matches!(stack, Stack::Cache(n, _) if n != 64)) {
                // JPEG decoding starts threads and is slow
                return Ok(());
            }
            let k = known(&plan, stack);
            let (bytes, ops, d) = (&k.0, &k.1, &k.2);
            let (want, lens, map) = d.as_ref().map_err(|e| e.clone())?;
            let i = ch.choose(lens.len());
            // the JPEG family: every length matters
            let a = ch.pick(&answers(lens[i], thorough || plan.kind >= 3 && stack == Stack::Direct && plan.layout == Layout::Cog));
            ch.note(|| format!("{plan:?} {stack:?} {ops:?}: request {i} of {} answered with {a:?}", lens.len()));
            let mem = Mem::new(bytes.clone()).eof(if ch.flag() { Eof::Error } else { Eof::Clamp });
            if stack != Stack::Direct && stack != Stack::Multi && mem.strict() {
                // a cache reads ahead past the end, where a strict source costs a second request: other numbers
                return Ok(());
            }
            let w = world(stack, &mem);
            history(ch, w, &mem, ops, want, map, &[(i, a)])
        }),
        body("two faults", move |ch| {
            let plan = Plan {
                fmt: FMTS[if thorough { ch.choose(4) } else { ch.pick(&[0, 3]) }],
                layout: if thorough { ch.pick(&LAYOUTS) } else { ch.pick(&[Layout::Cog, Layout::Reversed]) },
                kind: ch.choose(3),
            };
            let stack = ch.pick(&STACKS[..5]);
            let k = known(&plan, stack);
            let (bytes, ops, d) = (&k.0, &k.1, &k.2);
            let (want, lens, map) = d.as_ref().map_err(|e| e.clone())?;
            let n = lens.len();
            let i = ch.choose(n);
            // the second fault: up to as many requests later as the history has
            let reach = if thorough { 40 } else { 12 };
            let j = i + 1 + ch.choose(reach.min(n + 4 - i));
            let a = ch.pick(&[Ans::Err, Ans::Short(0), Ans::Short(1)]);
            let b = ch.pick(&[Ans::Err, Ans::Short(0), Ans::Short(3)]);
            ch.note(|| format!("{plan:?} {stack:?}: requests {i} and {j} of {n} answered with {a:?} and {b:?}"));
            let mem = Mem::new(bytes.clone()).eof(Eof::Clamp);
            let w = world(stack, &mem);
            history(ch, w, &mem, ops, want, map, &[(i, a), (j, b)])
        }),
        body("runs of consecutive faults", move |ch| {
            let plan = Plan { fmt: FMTS[ch.choose(4)], layout: ch.pick(&LAYOUTS), kind: ch.choose(3) };
            let stack = ch.pick(&STACKS);
            let k = known(&plan, stack);
            let (bytes, ops, d) = (&k.0, &k.1, &k.2);
            let (want, lens, map) = d.as_ref().map_err(|e| e.clone())?;
            let i = ch.choose(lens.len());
            let n = ch.pick(&[3usize, 5]);
            let a = ch.pick(&[Ans::Err, Ans::Short(0)]);
            let faults: Vec<(usize, Ans)> = (i..i + n).map(|k| (k, a)).collect();
            ch.note(|| format!("{plan:?} {stack:?}: requests {i}.. ({n}) answered with {a:?}"));
            let mem = Mem::new(bytes.clone()).eof(Eof::Clamp);
            let w = world(stack, &mem);
            history(ch, w, &mem, ops, want, map, &faults)
        }),
        body("a step dropped at any of its polls, then repeated", move |ch| {
            let plan = Plan { fmt: FMTS[if thorough { ch.choose(4) } else { ch.pick(&[0, 3]) }], layout: ch.pick(&LAYOUTS), kind: ch.choose(KINDS) };
            let stack = ch.pick(&STACKS);
            let k = known(&plan, stack);
            let (bytes, ops, d) = (&k.0, &k.1, &k.2);
            let (want, _, map) = d.as_ref().map_err(|e| e.clone())?;
            let mem = Mem::new(bytes.clone()).eof(Eof::Clamp).pending(true);
            let mut w = world(stack, &mem);
            let victim = ch.choose(ops.len());
            for (k, op) in ops.iter().enumerate() {
                let mut skipped = vec![];
                let expect = if k == victim {
                    // every request is pending once: the number of polls of the dropped attempt
                    let before = mem.count();
                    let at = w.reader.as_ref().and_then(|r| r.next_ifd_offset());
                    let mut polls = 0;
                    let done = {
                        let mut f = Box::pin(w.step(op));
                        loop {
                            if ch.flag() {
                                break None;
                            }
                            polls += 1;
                            if let Some(x) = poll_once(f.as_mut()) {
                                break Some(x);
                            }
                        }
                    };
                    ch.note(|| format!("{plan:?} {stack:?}: {op:?} dropped after {polls} polls, {} requests", mem.count() - before));
                    ch.step((&plan, stack, k, polls));
                    match done {
                        Some(Ok(s)) => {
                            ensure!(s == want[k], "{op:?} gives {s:?} instead of {:?}", want[k]);
                            continue;
                        }
                        Some(Err(e)) => return Err(format!("{op:?} failed: {e}")),
                        None => {}
                    }
                    let now = w.reader.as_ref().and_then(|r| r.next_ifd_offset());
                    match (op, &want[k]) {
                        (Op::Rest | Op::Whole, Seen::Dirs(_, all)) => {
                            let pos = |o: Option<u64>| map.iter().position(|m| Some(m.0) == o);
                            let (Some(i), Some(j)) = (pos(at), pos(now)) else {
                                return Err(format!("{op:?} dropped after {polls} polls: the position is {now:?}"));
                            };
                            let read = map.iter().filter(|m| m.1 <= mem.count()).count();
                            ensure!(i <= j && j <= read.max(i), "{op:?} dropped after {polls} polls: goes on with directory {j} although {read} were read");
                            skipped = all[..j - i].to_vec();
                            Seen::Dirs(now, all[j - i..].to_vec())
                        }
                        (_, w) => {
                            ensure!(at == now, "{op:?} dropped after {polls} polls: the position moved from {at:?} to {now:?}");
                            w.clone()
                        }
                    }
                } else {
                    want[k].clone()
                };
                let n = w.dirs.len();
                w.dirs.extend(skipped);
                let s = w.run(op).map_err(|e| format!("{op:?} failed after a dropped attempt: {e}"))?;
                ensure!(s == expect, "{op:?} after a dropped attempt: {s:?} instead of {expect:?}");
                ch.observe((k, n));
            }
            Ok(())
        }),
        body("files that end early", move |ch| {
            // the source serves a prefix only: errors, never other metadata or pixels
            let plan = Plan { fmt: FMTS[ch.choose(4)], layout: ch.pick(&LAYOUTS), kind: ch.choose(KINDS) };
            let stack = ch.pick(&STACKS[..if thorough { 7 } else { 4 }]);
            if !thorough && (3..5).contains(&plan.kind) && (plan.layout != Layout::Cog || stack != Stack::Direct) {
                return Ok(());
            }
            let k = known(&plan, Stack::Direct);
            let (bytes, ops, d) = (&k.0, &k.1, &k.2);
            let (want, _, _) = d.as_ref().map_err(|e| e.clone())?;
            let n = ch.choose(bytes.len());
            ch.note(|| format!("{plan:?} {stack:?} cut to {n} of {} bytes", bytes.len()));
            let mem = Mem::new(bytes[..n].to_vec()).eof(Eof::Clamp);
            let mut w = world(stack, &mem);
            for (op, want) in ops.iter().zip(want) {
                match w.run(op) {
                    Ok(s) => ensure!(s == *want, "{op:?} gives {s:?} instead of {want:?}"),
                    Err(_) => {
                        ch.observe((n, op));
                        if matches!(op, Op::Tile(..) | Op::Tiles(..)) {
                            continue;
                        }
                        break;
                    }
                }
                ch.step((op, n));
            }
            Ok(())
        }),
    ];
    (
        bodies,
        about(
            "11 files (raw, deflate, LZW, LZMA, zstd, LERC, WebP, JPEG, JPEG 2000 tiles; chunky and planar; strips; texts, geographic keys) x 4 formats x 5 layouts x 7 reader stacks: an error or any short answer at every request of opening, reading all directories and fetching tiles, then retry on the same objects; pairs of faults; runs of 3 and 5; each step dropped at each of its polls and repeated; every truncation of the file",
            &["a short answer is a prefix of the right bytes", "an answer that still holds all that was needed may be accepted"],
        ),
    )
}

