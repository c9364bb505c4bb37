//! C25: uses of readers, directories, tiles and registries do not influence each other.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Range;
use std::sync::{Arc, OnceLock};

use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::reader::AsyncFileReader;
use async_tiff::tags::{Compression, PhotometricInterpretation};
use async_tiff::{ImageFileDirectory, Tile, TIFF};
use bytes::Bytes;

use super::{about, bits_of, check_array, expect_type, open, open_async, type_name, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{block_on, injected, injected_of, sched, sched_rr, Act, Answer, Gated, Limits, Run, Task};
use crate::sources::{Eof, Mem};
use crate::tiffw::{Comp, FileSpec, Img, Layout, FMTS};
use crate::Tier;

fn img(planar: bool, comp: Comp, bits: u16, pred: u16, seed: u64) -> Img {
    Img { fmt: FMTS[0], w: 5, h: 4, tw: 3, th: 2, spp: 2, planar, sf: 1, bits, comp, pred, seed }
}
fn file(im: &[&Img]) -> Vec<u8> {
    FileSpec::new(im[0].fmt, im.iter().map(|i| i.ifd()).collect()).build().bytes
}

/// A gated source with a multi-range request of its own, answered as a whole.
#[derive(Debug, Clone)]
struct Multi(Gated);
#[async_trait::async_trait]
impl AsyncFileReader for Multi {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.read(r).await
    }
    async fn get_byte_ranges(&self, rs: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        let n = self.0.data.len() as u64;
        let all = self.0.read(0..n).await?;
        Ok(rs.into_iter().map(|r| all.slice(r.start as usize..r.end as usize)).collect())
    }
}

#[derive(Clone, Debug, Hash)]
enum Ask {
    One(usize, usize),
    Batch(Vec<(usize, usize)>),
}
impl Ask {
    fn coords(&self) -> Vec<(usize, usize)> {
        match self {
            Ask::One(x, y) => vec![(*x, *y)],
            Ask::Batch(v) => v.clone(),
        }
    }
}
async fn ask(d: &ImageFileDirectory, a: &Ask, r: &dyn AsyncFileReader) -> AsyncTiffResult<Vec<Tile>> {
    match a {
        Ask::One(x, y) => Ok(vec![d.fetch_tile(*x, *y, r).await?]),
        Ask::Batch(v) => d.fetch_tiles(v, r).await,
    }
}

fn tile_is(t: &Tile, im: &Img, x: usize, y: usize, reg: &DecoderRegistry, who: &str) -> Result<(), String> {
    ensure!((t.x(), t.y()) == (x, y), "{who}: tile {},{} instead of {x},{y}", t.x(), t.y());
    let a = t.clone().decode(reg).map_err(|e| format!("{who}: decode {x},{y}: {e}"))?;
    check_array(&a, expect_type(im.sf, im.bits).unwrap(), im.shape(), &im.tile_expect(x as u32, y as u32), &format!("{who}: tile {x},{y}"))
}

fn failed(run: &Run) -> Vec<usize> {
    run.acts
        .iter()
        .filter_map(|a| match a {
            Act::Answer(i, Answer::Fail) => Some(*i),
            _ => None,
        })
        .collect()
}

struct Plan {
    tasks: usize,
    drops: usize,
    faults: usize,
    asks: Vec<Ask>,
    /// A reader that fetches one range after the other, or those that fetch all at once?
    single: bool,
}

/// Several tasks fetch tiles of one directory through one reader.
fn concurrent(ch: &mut Ch, p: &Plan) -> Result<(), String> {
    let k = ch.choose(2);
    let im = [img(false, Comp::None, 8, 1, 5), img(true, Comp::Deflate, 16, 2, 9)][k];
    let data = file(&[&im]);
    let d = open(&Mem::new(data.clone()).eof(Eof::Error)).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
    let src = Gated::new(data.into());
    let how = if p.single { 0 } else { 1 + ch.choose(3) };
    let reader: Box<dyn AsyncFileReader> = match how {
        0 => Box::new(src.clone()),
        1 => Box::new(Multi(src.clone())),
        2 => Box::new(Arc::new(Multi(src.clone())) as Arc<dyn AsyncFileReader>),
        _ => Box::new(Box::new(Multi(src.clone())) as Box<dyn AsyncFileReader>),
    };
    let asks: Vec<Ask> = (0..p.tasks).map(|_| ch.pick(&p.asks)).collect();
    ch.note(|| format!("{im:?}, reader {how}, tasks ask for {asks:?}"));
    type Got = Option<Result<Vec<Tile>, Option<usize>>>;
    let results: RefCell<Vec<Got>> = RefCell::new(vec![None; p.tasks]);
    let reg = DecoderRegistry::default();
    let run = {
        let ts: Vec<Option<Task>> = asks
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let (d, results, reader) = (&d, &results, &reader);
                Some(Box::pin(async move {
                    let r = ask(d, a, reader.as_ref()).await.map_err(|e| injected_of(&e));
                    results.borrow_mut()[i] = Some(r);
                }) as Task)
            })
            .collect();
        let env = src.env.clone();
        let limits = Limits { drops: p.drops, faults: p.faults, answers: if p.faults > 0 { &[Answer::Full, Answer::Fail] } else { &[Answer::Full] } };
        sched(ch, ts, &src.env, limits, |ch, act, fin| {
            let n = env.0.lock().unwrap().ops.len();
            ch.step((k, how, &asks, act, fin, n));
            Ok(())
        })?
    };
    let failed = failed(&run);
    let mut errs = vec![];
    for (i, r) in results.borrow().iter().enumerate() {
        ensure!(r.is_some() == run.finished[i], "task {i} has no result");
        match r {
            None => {}
            Some(Err(f)) => {
                let f = f.ok_or_else(|| format!("task {i} ({:?}) got an error although no request of it failed", asks[i]))?;
                ensure!(failed.contains(&f) && !errs.contains(&f), "task {i} got the failure {f}; failed: {failed:?}, already reported: {errs:?}");
                errs.push(f);
                ch.observe("error");
            }
            Some(Ok(v)) => {
                let c = asks[i].coords();
                ensure!(v.len() == c.len(), "task {i} got {} tiles for {} coordinates", v.len(), c.len());
                for (t, (x, y)) in v.iter().zip(&c) {
                    tile_is(t, &im, *x, *y, &reg, &format!("task {i}"))?;
                    ch.observe((x, y));
                }
            }
        }
    }
    Ok(())
}

/// One task opens the file and fetches a tile while others fetch tiles with a directory read before.
fn open_and_fetch(ch: &mut Ch) -> Result<(), String> {
    let im = img(ch.flag(), Comp::None, 8, 1, 6);
    let other = img(false, Comp::Lzw, 16, 2, 7);
    let data = file(&[&im, &other]);
    let d = open(&Mem::new(data.clone()).eof(Eof::Error)).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
    let src = Gated::new(data.into());
    let cached = ch.flag();
    let n = 1 + ch.choose(2);
    type Got = Option<Result<(Vec<(Tile, usize)>, usize), Option<usize>>>;
    let results: RefCell<Vec<Got>> = RefCell::new(vec![None; n + 1]);
    let reader = Multi(src.clone());
    let cache = ReadaheadMetadataCache::new(reader.clone()).with_initial_size(40).with_multiplier(1.0);
    let run = {
        let mut ts: Vec<Option<Task>> = vec![];
        {
            let (results, reader, cache) = (&results, &reader, &cache);
            ts.push(Some(Box::pin(async move {
                let r = async {
                    let t = if cached { open_async(cache).await? } else { open_async(reader).await? };
                    let mut v = vec![];
                    for k in 0..t.ifds().len().min(2) {
                        v.push((t.ifds()[k].fetch_tile(1, 1, reader).await?, k));
                    }
                    Ok((v, t.ifds().len()))
                };
                let r: AsyncTiffResult<_> = r.await;
                results.borrow_mut()[0] = Some(r.map_err(|e| injected_of(&e)));
            })));
        }
        for i in 1..=n {
            let (d, results, reader) = (&d, &results, &reader);
            ts.push(Some(Box::pin(async move {
                let r = d.fetch_tiles(&[(i - 1, 1), (0, 0)], reader).await;
                results.borrow_mut()[i] = Some(r.map(|v| (v.into_iter().map(|t| (t, 0)).collect(), 2)).map_err(|e| injected_of(&e)));
            })));
        }
        let env = src.env.clone();
        sched_rr(ch, ts, &src.env, Limits { drops: 1, faults: 1, answers: &[Answer::Full, Answer::Fail] }, |ch, act, fin| {
            let n = env.0.lock().unwrap().ops.len();
            ch.step((cached, act, fin, n));
            Ok(())
        })?
    };
    let failed = failed(&run);
    let reg = DecoderRegistry::default();
    for (i, r) in results.borrow().iter().enumerate() {
        ensure!(r.is_some() == run.finished[i], "task {i} has no result");
        match r {
            None => {}
            Some(Err(f)) => ensure!(f.is_some_and(|f| failed.contains(&f)), "task {i} got an error although no request failed"),
            Some(Ok((v, dirs))) => {
                ensure!(*dirs == 2 && v.len() == 2, "task {i}: {dirs} directories, {} tiles", v.len());
                for (j, (t, k)) in v.iter().enumerate() {
                    let (x, y) = if i == 0 { (1, 1) } else { [(i - 1, 1), (0, 0)][j] };
                    tile_is(t, [&im, &other][*k], x, y, &reg, &format!("task {i}"))?;
                }
            }
        }
    }
    Ok(())
}

/// What a decoding gives, in comparable form.
type Out = Result<(&'static str, [usize; 3], Vec<u64>), ()>;
fn outcome(t: &Tile, reg: &DecoderRegistry) -> Out {
    let a = t.clone().decode(reg).map_err(|_| ())?;
    Ok((type_name(a.data_type()), a.shape(), bits_of(a.data()).1))
}

/// Tiles of all sorts with what they decode to; damaged ones are to give what they give at first.
type Pool = Vec<(String, Tile, Out)>;
const POOL: usize = 18;
fn pool() -> Pool {
    let mut o = vec![];
    let mut add = |im: Img, x: u32, damage: usize| {
        let mut data = FileSpec::new(im.fmt, vec![im.ifd()]).build().bytes;
        let d = open(&Mem::new(data.clone())).expect("file").ifds()[0].clone();
        if damage > 0 {
            // spoil the stored bytes of the tile
            let at: Vec<Range<u64>> = match d.tile_byte_range(x as usize, 0).expect("range") {
                async_tiff::TileByteRange::Chunky(r) => vec![r],
                async_tiff::TileByteRange::Planar(v) => v,
            };
            let r = at.last().expect("range");
            for i in (r.start + (r.end - r.start) / 2..r.end).take(damage) {
                data[i as usize] ^= 0x5a;
            }
        }
        let t = block_on(d.fetch_tile(x as usize, 0, &Mem::new(data))).expect("tile");
        let want = if damage > 0 {
            outcome(&t, &DecoderRegistry::default())
        } else {
            Ok((expect_type(im.sf, im.bits).unwrap(), im.shape(), im.tile_expect(x, 0)))
        };
        o.push((format!("{im:?} tile {x} damage {damage}"), t, want));
    };
    let p = |planar: bool, comp: Comp, bits: u16, pred: u16, spp: u16| Img { spp, ..img(planar, comp, bits, pred, 30) };
    add(p(false, Comp::None, 8, 1, 2), 0, 0);
    add(p(false, Comp::None, 8, 1, 2), 1, 0);
    add(Img { seed: 31, ..p(false, Comp::None, 8, 1, 2) }, 0, 0);
    add(p(true, Comp::Deflate, 16, 2, 2), 0, 0);
    add(Img { seed: 32, ..p(true, Comp::Deflate, 16, 2, 2) }, 0, 0);
    add(p(true, Comp::Deflate, 16, 2, 3), 0, 3);
    add(Img { fmt: FMTS[1], sf: 3, ..p(false, Comp::Zstd, 32, 3, 3) }, 1, 0);
    add(Img { sf: 3, ..p(false, Comp::Zstd, 64, 3, 1) }, 0, 0);
    add(p(false, Comp::Zstd, 16, 2, 1), 0, 4);
    add(Img { w: 9, tw: 9, h: 7, th: 7, ..p(false, Comp::Lzw, 32, 2, 4) }, 0, 0);
    add(p(true, Comp::Lzw, 8, 2, 1), 1, 0);
    add(p(false, Comp::Lzma, 8, 1, 3), 0, 0);
    add(p(false, Comp::Lzma, 8, 1, 3), 0, 6);
    add(p(false, Comp::WebP, 8, 1, 3), 0, 0);
    add(p(false, Comp::WebP, 8, 1, 4), 1, 0);
    add(p(false, Comp::Lerc(Some(2)), 16, 1, 1), 0, 0);
    add(p(true, Comp::Lerc(Some(0)), 32, 1, 2), 0, 0);
    add(p(false, Comp::J2k, 8, 1, 3), 0, 0);
    assert_eq!(o.len(), POOL);
    o
}

#[derive(Debug)]
struct Fill(u8, bool);
impl Decoder for Fill {
    fn decode_tile(&self, b: Bytes, _: PhotometricInterpretation, _: Option<&[u8]>, _: u16, _: u16, _: Option<&[u32]>) -> AsyncTiffResult<Vec<u8>> {
        if self.1 {
            return Err(injected(self.0 as usize));
        }
        Ok(b.iter().map(|x| x ^ self.0).collect())
    }
}

/// A registry under every history of registrations and decodings.
fn registry(ch: &mut Ch, len: usize) -> Result<(), String> {
    // uncompressed bytes, announced under codes with and without a built-in decoder
    let codes = [1u16, 34925, 4711];
    let im = img(false, Comp::None, 8, 1, 12);
    let blocks = im.tile_blocks(0, 0);
    let tiles: Vec<Tile> = codes
        .iter()
        .map(|c| {
            let mut s = super::kit::Spec::new(3, 2, 2, false, 1, 8);
            s.comp = *c;
            s.fetch(&blocks)
        })
        .collect::<Result<_, _>>()?;
    let px = im.tile_expect(0, 0);
    let empty = ch.flag();
    let mut reg = if empty { DecoderRegistry::empty() } else { DecoderRegistry::default() };
    // who decodes which code: None: the built-in one
    let mut model: BTreeMap<u16, Option<(u8, bool)>> = BTreeMap::new();
    if !empty {
        model.insert(1, None);
        model.insert(34925, None);
    }
    let mut seen = vec![];
    for _ in 0..len {
        let op = ch.choose(12);
        let c = codes[op % 3];
        let code = Compression::from_u16_exhaustive(c);
        seen.push((op / 3, c));
        match op / 3 {
            0 => {
                reg.as_mut().remove(&code);
                model.remove(&c);
            }
            1 => {
                reg.as_mut().insert(code, Box::new(Fill(0x11, false)));
                model.insert(c, Some((0x11, false)));
            }
            2 => {
                reg.as_mut().insert(code, Box::new(Fill(0x22, true)));
                model.insert(c, Some((0x22, true)));
            }
            _ => {}
        }
        // every step is followed by a decoding of each code
        for (t, c) in tiles.iter().zip(codes) {
            let r = t.clone().decode(&reg);
            ch.step((empty, &seen, c));
            match (model.get(&c), r) {
                (None, r) => ensure!(r.is_err(), "after {seen:?}: code {c} has no decoder and is decoded"),
                (Some(Some((w, true))), r) => {
                    let e = r.err().ok_or_else(|| format!("after {seen:?}: the failing decoder of {c} was not asked"))?;
                    ensure!(injected_of(&e) == Some(*w as usize), "after {seen:?}: error {e} from another decoder");
                }
                (Some(Some((w, false))), r) => {
                    let a = r.map_err(|e| format!("after {seen:?}: code {c}: {e}"))?;
                    let want: Vec<u64> = px.iter().map(|x| x ^ *w as u64).collect();
                    ensure!(bits_of(a.data()).1 == want, "after {seen:?}: code {c} decoded by another decoder");
                }
                (Some(None), r) => match c {
                    1 => {
                        let a = r.map_err(|e| format!("after {seen:?}: {e}"))?;
                        ensure!(bits_of(a.data()).1 == px, "after {seen:?}: wrong samples");
                    }
                    // the bytes are no such stream
                    _ => ensure!(r.is_err(), "after {seen:?}: raw bytes decoded as {c}"),
                },
            }
        }
    }
    ch.observe(&seen);
    Ok(())
}

fn shown(d: &ImageFileDirectory) -> String {
    format!("{:?} {:?} {:?} {:?} {:?}", d.image_width(), d.tile_count(), d.tile_offsets(), d.compression(), d.predictor())
}

/// Two files of the same make and different contents, used in every order.
fn mixed(ch: &mut Ch, len: usize) -> Result<(), String> {
    let planar = ch.flag();
    let ims = [[img(planar, Comp::None, 8, 1, 40), img(planar, Comp::None, 8, 1, 41)], [img(planar, Comp::None, 8, 1, 42), img(planar, Comp::None, 8, 1, 43)]];
    let files: Vec<Mem> = ims.iter().map(|v| Mem::new(file(&[&v[0], &v[1]])).eof(Eof::Error)).collect();
    let ts: Vec<TIFF> = files.iter().map(open).collect::<Result<_, _>>().map_err(|e| format!("refused: {e}"))?;
    let before: Vec<Vec<String>> = ts.iter().map(|t| t.ifds().iter().map(shown).collect()).collect();
    let reg = DecoderRegistry::default();
    let mut done = vec![];
    for _ in 0..len {
        let f = ch.choose(2);
        let k = ch.choose(2);
        let a = ch.pick(&[Ask::One(0, 0), Ask::One(1, 0), Ask::Batch(vec![(1, 1), (0, 0)]), Ask::One(2, 0)]);
        // a clone of the directory, or the bytes of the other file, which has the same make
        let how = ch.choose(3);
        done.push((f, k, a.clone(), how));
        ch.step((planar, &done));
        let copy;
        let d = if how == 1 {
            copy = ts[f].ifds()[k].clone();
            &copy
        } else {
            &ts[f].ifds()[k]
        };
        let from = if how == 2 { 1 - f } else { f };
        let r = block_on(ask(d, &a, &files[from]));
        if let Ask::One(2, _) = a {
            ensure!(r.is_err(), "after {done:?}: a tile outside the grid");
            continue;
        }
        let v = r.map_err(|e| format!("after {done:?}: {e}"))?;
        ensure!(v.len() == a.coords().len(), "after {done:?}: {} tiles", v.len());
        for (t, (x, y)) in v.iter().zip(a.coords()) {
            tile_is(t, &ims[from][k], x, y, &reg, &format!("after {done:?}"))?;
        }
        ensure!(before[f][k] == shown(&ts[f].ifds()[k]), "after {done:?}: the directory has changed");
    }
    Ok(())
}

/// Two metadata readers over one source, stepped in every order.
fn readers(ch: &mut Ch, len: usize) -> Result<(), String> {
    let ims: Vec<Img> = (0..3).map(|k| Img { w: 5 + k, ..img(false, Comp::None, 8, 1, 50) }).collect();
    let layout = ch.pick(&[Layout::Cog, Layout::Reversed]);
    let b = FileSpec::new(FMTS[ch.choose(4)], ims.iter().map(|i| i.ifd()).collect()).layout(layout).build();
    let m = Mem::new(b.bytes).eof(Eof::Error);
    let cached = ch.flag();
    let cache = ReadaheadMetadataCache::new(m.clone()).with_initial_size(64).with_multiplier(1.5);
    async fn go<F: MetadataFetch>(ch: &mut Ch<'_>, f: &F, len: usize) -> Result<(), String> {
        let new = || async { TiffMetadataReader::try_open(f).await.map_err(|e| format!("open: {e}")) };
        let mut rs = [new().await?, new().await?];
        let mut at = [0usize; 2];
        let mut done = vec![];
        for _ in 0..len {
            let w = ch.choose(2);
            let op = ch.choose(3);
            done.push((w, op));
            ch.step(&done);
            match op {
                0 => {
                    ensure!(rs[w].has_next_ifd() == (at[w] < 3), "after {done:?}: has_next_ifd");
                    let d = rs[w].read_next_ifd(f).await.map_err(|e| format!("after {done:?}: {e}"))?;
                    let want = (at[w] < 3).then_some(5 + at[w] as u32);
                    ensure!(d.as_ref().map(|d| d.image_width()) == want, "after {done:?}: directory {:?} instead of {want:?}", d.map(|d| d.image_width()));
                    at[w] = (at[w] + 1).min(3);
                }
                1 => {
                    let v = rs[w].read_all_ifds(f).await.map_err(|e| format!("after {done:?}: {e}"))?;
                    let got: Vec<u32> = v.iter().map(|d| d.image_width()).collect();
                    let want: Vec<u32> = (at[w]..3).map(|k| 5 + k as u32).collect();
                    ensure!(got == want, "after {done:?}: directories {got:?} instead of {want:?}");
                    at[w] = 3;
                }
                _ => {
                    rs[w] = new().await?;
                    at[w] = 0;
                }
            }
        }
        ch.observe(&done);
        Ok(())
    }
    if cached {
        block_on(go(ch, &cache, len))
    } else {
        block_on(go(ch, &m, len))
    }
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let all = vec![Ask::One(0, 0), Ask::One(1, 0), Ask::One(1, 1), Ask::Batch(vec![(1, 1), (0, 0)]), Ask::Batch(vec![(0, 1), (0, 1), (1, 0)])];
    let few = vec![Ask::One(0, 0), Ask::One(1, 1), Ask::Batch(vec![(1, 0), (0, 0)])];
    let n = POOL;
    let depth = t.sel(3usize, 4);
    let mk = |name: &str, p: Plan| body(name, move |ch| concurrent(ch, &p));
    let bodies = vec![
        mk("2 tasks fetch tiles, one dropped, one failed answer", Plan { tasks: 2, drops: 1, faults: 1, asks: all.clone(), single: false }),
        mk("2 tasks fetch tiles range by range, one dropped, one failed answer", Plan { tasks: 2, drops: 1, faults: 1, asks: vec![Ask::One(0, 0), Ask::One(1, 1)], single: true }),
        mk("3 tasks fetch tiles", Plan { tasks: 3, drops: t.sel(0, 1), faults: 0, asks: t.sel(few.clone(), all.clone()), single: false }),
        mk("3 tasks fetch tiles, one failed answer", Plan { tasks: 3, drops: 0, faults: 1, asks: vec![Ask::One(1, 0), Ask::Batch(vec![(1, 1), (0, 0)])], single: false }),
        body("a file is opened while tiles are fetched", open_and_fetch).dev(t.sel(2, 4)),
        body("every order of decoding tiles of all sorts", move |ch| {
            static TILES: OnceLock<Pool> = OnceLock::new();
            let tiles = TILES.get_or_init(pool);
            let reg = DecoderRegistry::default();
            let mut done = vec![];
            for _ in 0..depth {
                let i = ch.choose(n);
                done.push(i);
                ch.step(&done);
                let (what, tile, want) = &tiles[i];
                let got = outcome(tile, &reg);
                ensure!(got == *want, "{what} decoded after {done:?}: {got:?} instead of {want:?}");
                ch.observe((i, want.is_ok()));
            }
            Ok(())
        }),
        body("every history of registrations and decodings", move |ch| registry(ch, t.sel(3, 5))),
        body("two files of the same make in every order", move |ch| mixed(ch, t.sel(2, 3))),
        body("two metadata readers in every order", move |ch| readers(ch, t.sel(5, 7))),
    ];
    (
        bodies,
        about(
            format!("2-3 tasks with one single or batch fetch each through one reader (4 kinds), 2 images, every interleaving of polls and answers with up to one dropped task and one failed answer; opening and fetching at once with at most {} deviations from round-robin order; every sequence of {depth} decodings out of {n} tiles (all codecs, damaged ones included) with one registry; every history of {} registrations; every sequence of {} fetches from two files of the same make; every sequence of {} steps of two metadata readers over one source", t.sel(2, 4), t.sel(3, 5), t.sel(2, 3), t.sel(5, 7)),
            &["tasks are polled one at a time; a decoding is one step"],
        ),
    )
}
