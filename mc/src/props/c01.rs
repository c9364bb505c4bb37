//! C01: every tile of every supported file decodes to the stored pixels.
use std::sync::Arc;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::reader::{AsyncFileReader, ObjectReader, TokioReader};
use async_tiff::TIFF;
use bytes::Bytes;
use object_store::memory::InMemory;
use object_store::ObjectStoreExt;

use super::kit::unrelated;
use super::{about, check_array, expect_type, open, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::block_on;
use crate::sources::{Eof, Io, Mem, MemMulti, Script, Stream};
use crate::codecs;
use crate::tiffw::{e, write_ifd, Comp, Entry, FileSpec, Fmt, Img, Layout, Tab, FMTS, LAYOUTS, CONST0, CONST1, ROWS, SLOPE, TILED, V};
use crate::Tier;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Via {
    Mem,
    MemErr,
    Multi,
    Boxed,
    Stream,
    Object,
}
pub const VIAS: [Via; 6] = [
    Via::Mem,
    Via::MemErr,
    Via::Multi,
    Via::Boxed,
    Via::Stream,
    Via::Object,
];

pub fn reader(via: Via, bytes: Vec<u8>) -> Arc<dyn AsyncFileReader> {
    reader_of(via, bytes.into())
}

pub fn reader_of(via: Via, bytes: Bytes) -> Arc<dyn AsyncFileReader> {
    match via {
        Via::Mem => Arc::new(Mem::new(bytes)),
        Via::MemErr => Arc::new(Mem::new(bytes).eof(Eof::Error)),
        Via::Multi => Arc::new(MemMulti(Mem::new(bytes).pending(true))),
        Via::Boxed => Arc::new(Box::new(Mem::new(bytes).pending(true)) as Box<dyn AsyncFileReader>),
        Via::Stream => {
            let steps = (0..64)
                .map(|i| [Io::Few(3), Io::Pending, Io::Few(1), Io::All][i % 4])
                .collect();
            Arc::new(TokioReader::new(Stream {
                data: bytes,
                pos: 5,
                script: Arc::new(std::sync::Mutex::new(Script {
                    steps,
                    seeks: true,
                    ..Default::default()
                })),
            }))
        }
        Via::Object => {
            let store = InMemory::new();
            let path = object_store::path::Path::from("a/b.tif");
            block_on(store.put(&path, bytes.into())).unwrap();
            Arc::new(ObjectReader::new(Arc::new(store), path))
        }
    }
}

pub fn open_via(r: &Arc<dyn AsyncFileReader>, cache: Option<(u64, f64)>) -> Result<TIFF, String> {
    match cache {
        None => open(r),
        Some((i, m)) => open(
            &ReadaheadMetadataCache::new(r.clone())
                .with_initial_size(i)
                .with_multiplier(m),
        ),
    }
    .map_err(|e| format!("a well-formed file is refused: {e}"))
}

pub fn check_image(ch: &mut Ch, r: &Arc<dyn AsyncFileReader>, t: &TIFF, i: usize, img: &Img, reg: &DecoderRegistry) -> Result<(), String> {
    let ifd = &t.ifds()[i];
    ensure!(
        ifd.tile_count() == Some((img.cols() as usize, img.rows() as usize)),
        "grid {:?} instead of {} x {}",
        ifd.tile_count(),
        img.cols(),
        img.rows()
    );
    let ty = expect_type(img.sf, img.bits).expect("a supported type");
    for y in 0..img.rows() {
        for x in 0..img.cols() {
            let what = format!("tile {x},{y} of {img:?}");
            let tile = block_on(ifd.fetch_tile(x as usize, y as usize, r))
                .map_err(|e| format!("{what}: fetch: {e}"))?;
            ensure!(
                tile.x() == x as usize && tile.y() == y as usize,
                "{what}: labelled {},{}",
                tile.x(),
                tile.y()
            );
            let a = tile
                .decode(reg)
                .map_err(|e| format!("{what}: decode: {e}"))?;
            let want = img.tile_expect(x, y);
            check_array(&a, ty, img.shape(), &want, &what)?;
            ch.step((img, x, y));
            ch.observe((x, y, ty, want));
        }
    }
    Ok(())
}

fn one(ch: &mut Ch, img: Img, layout: Layout, via: Via, cache: Option<(u64, f64)>, rev: bool) -> Result<(), String> {
    let mut spec = FileSpec::new(img.fmt, vec![img.ifd()]).layout(layout);
    spec.rev_blocks = rev;
    let built = spec.build();
    ch.note(|| format!("{img:?} {layout:?} via {via:?} cache {cache:?}"));
    let r = reader(via, built.bytes);
    let t = open_via(&r, cache)?;
    ensure!(t.ifds().len() == 1, "{} directories", t.ifds().len());
    check_image(ch, &r, &t, 0, &img, &DecoderRegistry::default())
}

pub const TYPES: [(u16, u16); 11] = [
    (1, 8),
    (1, 1),
    (1, 16),
    (1, 32),
    (1, 64),
    (2, 8),
    (2, 16),
    (2, 32),
    (2, 64),
    (3, 32),
    (3, 64),
];
pub const BYTEWISE: [Comp; 6] = [
    Comp::None,
    Comp::Deflate,
    Comp::OldDeflate,
    Comp::Lzw,
    Comp::Zstd,
    Comp::Lzma,
];

/// Predictors that apply to a type.
pub fn preds(sf: u16, bits: u16) -> &'static [u16] {
    match (sf, bits) {
        (_, 1) => &[0, 1],
        (3, _) => &[0, 1, 2, 3],
        _ => &[0, 1, 2],
    }
}

/// Width, height, tile width, tile height.
const GEO: [(u32, u32, u32, u32); 5] = [
    (5, 5, 2, 3),
    (3, 2, 3, 2),
    (1, 7, 4, 2),
    (9, 1, 3, 1),
    (4, 6, 1, 3),
];
const GEO1: [(u32, u32, u32, u32); 3] = [(20, 3, 8, 2), (8, 2, 8, 2), (17, 1, 16, 1)];

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let th = t.thorough();
    let mut bodies = vec![];
    // sample types x organisation x compression x predictor x geometry
    bodies.push(body("types, organisations, codecs, predictors, geometries", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let (sf, bits) = ch.pick(&TYPES);
        let comp = ch.pick(&BYTEWISE);
        let pred = ch.pick(preds(sf, bits));
        let planar = ch.flag();
        let spp = ch.pick(&[1u16, 2, 3, 4, 5][..if th { 5 } else { 4 }]);
        let (w, h, tw, th_) = if bits == 1 {
            ch.pick(&GEO1)
        } else {
            ch.pick(&GEO[..if th { 5 } else { 3 }])
        };
        let seed = if th { ch.choose(3) as u64 } else { 0 } + 7 * spp as u64;
        let img = Img { fmt, w, h, tw, th: th_, spp, planar, sf, bits, comp, pred, seed };
        one(ch, img, Layout::Cog, Via::Mem, None, false)
    }));
    // readers x caches x layouts
    bodies.push(body("readers, caches, layouts", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let (sf, bits) = ch.pick(&[(1, 8), (1, 16), (3, 32)]);
        let planar = ch.flag();
        let spp = ch.pick(&[1, 3]);
        let comp = ch.pick(&[Comp::None, Comp::Deflate]);
        let via = ch.pick(&VIAS);
        let layout = ch.pick(&LAYOUTS);
        let rev = ch.flag();
        let cache = ch.pick(&[
            None,
            Some((1u64, 1.0)),
            Some((16, 0.5)),
            Some((100, 2.0)),
            Some((32 * 1024, 2.0)),
        ]);
        let img = Img { fmt, w: 5, h: 5, tw: 2, th: 3, spp, planar, sf, bits, comp, pred: ch.pick(&[0, 2]), seed: 3 };
        one(ch, img, layout, via, cache, rev)
    }));
    // codecs that define their own sample layout
    bodies.push(body("image codecs", move |ch| {
        let big = ch.flag();
        let planar = ch.flag();
        let comps = [
            Comp::WebP,
            Comp::Lerc(None),
            Comp::Lerc(Some(0)),
            Comp::Lerc(Some(1)),
            Comp::Lerc(Some(2)),
            Comp::Jpeg(false),
            Comp::Jpeg(true),
            Comp::J2k,
        ];
        let comp = ch.pick(&comps);
        let types: &[(u16, u16)] = match comp {
            Comp::Lerc(_) => &[(1, 8), (2, 8), (1, 16), (2, 16), (1, 32), (2, 32), (3, 32), (3, 64)],
            Comp::J2k => &[(1, 8), (1, 16), (2, 8), (2, 16)],
            _ => &[(1, 8)],
        };
        let (sf, bits) = ch.pick(types);
        let spps: &[u16] = match (comp, planar) {
            (Comp::WebP, false) => &[3, 4],
            (Comp::WebP, true) => return Ok(()),
            (Comp::Jpeg(_), false) => &[1, 3, 4],
            _ => &[1, 2, 3, 4],
        };
        let spp = ch.pick(spps);
        // the byte order of multi-byte samples inside these codecs is not that of the file
        let be = bits == 8 && ch.flag();
        let (w, h, tw, th_) = match comp {
            Comp::Jpeg(_) => ch.pick(&[(20, 9, 16, 8), (8, 8, 8, 16)]),
            _ => ch.pick(&[(9, 5, 4, 3), (16, 16, 16, 16)]),
        };
        let seed = ch.choose(if th { 6 } else { 2 }) as u64;
        let seed = if comp == Comp::WebP && spp == 4 && ch.flag() { 15 } else { seed };
        let img = Img { fmt: Fmt { be, big }, w, h, tw, th: th_, spp, planar, sf, bits, comp, pred: ch.pick(&[0, 1]), seed };
        one(ch, img, Layout::Cog, Via::Mem, None, false)
    }));
    // tiles of a real size
    bodies.push(body("large tiles", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let planar = ch.flag();
        let comp = ch.pick(&[Comp::None, Comp::Deflate, Comp::OldDeflate, Comp::Lzw, Comp::Zstd, Comp::Lzma, Comp::WebP, Comp::Lerc(Some(1)), Comp::Jpeg(true), Comp::J2k]);
        let image = !BYTEWISE.contains(&comp);
        let ((sf, bits), pred, spp) = if image {
            if fmt.be && !fmt.big || planar && comp == Comp::WebP {
                return Ok(());
            }
            ((1, 8), 1, 3)
        } else {
            let (ty, pred) = ch.pick(&[((1, 8), 2), ((1, 16), 2), ((3, 32), 3), ((2, 32), 1)]);
            (ty, pred, ch.pick(&[1, 3]))
        };
        let (w, tw, th_) = if image { (200, 176, 160) } else { ch.pick(&[(600, 512, 512), (1025, 1024, 256)][..if th { 2 } else { 1 }]) };
        let img = Img { fmt, w, h: th_ + 3, tw, th: th_, spp, planar, sf, bits, comp, pred, seed: 5 };
        one(ch, img, Layout::Cog, Via::Mem, Some((32 * 1024, 2.0)), false)
    }));
    // image codecs at larger sizes than a macroblock, a table or a buffer
    bodies.push(body("large tiles of image codecs", move |ch| {
        let (comp, ty, tw, th_) = ch.pick(&[
            (Comp::WebP, (1, 8), 320, 272),
            (Comp::WebP, (1, 8), 16, 2048),
            (Comp::WebP, (1, 8), 2048, 16),
            (Comp::Lerc(Some(0)), (3, 32), 640, 512),
            (Comp::Lerc(Some(1)), (3, 64), 512, 512),
            (Comp::Lerc(Some(2)), (1, 16), 1024, 1024),
            (Comp::Lerc(None), (2, 32), 1024, 512),
            (Comp::Jpeg(true), (1, 8), 512, 512),
            (Comp::Jpeg(true), (1, 8), 2048, 16),
            (Comp::Jpeg(false), (1, 8), 16, 2048),
            (Comp::J2k, (1, 8), 300, 260),
            (Comp::J2k, (1, 16), 256, 300),
        ]);
        let spp = if comp == Comp::WebP { ch.pick(&[3, 4]) } else { ch.pick(&[1, 3]) };
        let planar = spp > 1 && comp != Comp::WebP && ch.flag();
        let img = Img { fmt: FMTS[0], w: tw, h: th_, tw, th: th_, spp, planar, sf: ty.0, bits: ty.1, comp, pred: 0, seed: if spp == 4 && ch.flag() { 15 } else { 9 } };
        one(ch, img, Layout::Cog, Via::Mem, None, false)
    }));
    // JPEG tables of any length
    bodies.push(body("JPEG tables with comments", move |ch| {
        let n = ch.pick(&[0usize, 1, 200, 255, 256, 400, 1000, 4096, 32_768, 65_000]);
        let first = ch.flag();
        let times = ch.choose(2) + 1;
        let fmt = FMTS[ch.choose(4)];
        let img = Img { fmt, w: 20, h: 9, tw: 16, th: 8, spp: ch.pick(&[1, 3]), planar: ch.flag(), sf: 1, bits: 8, comp: Comp::Jpeg(true), pred: 0, seed: 4 };
        let mut com = vec![];
        for k in 0..times {
            com.extend([0xff, 0xfe]);
            com.extend((n as u16 + 2).to_be_bytes());
            com.extend((0..n).map(|i| (i + k) as u8 & 0x7f));
        }
        let mut tb = codecs::jpeg_tables();
        let at = if first { 2 } else { tb.len() - 2 };
        tb.splice(at..at, com);
        ch.note(|| format!("{img:?} with JPEG tables of {} bytes", tb.len()));
        let mut d = img.ifd();
        for x in &mut d.entries {
            if x.tag == 347 {
                x.val = V::Undefined(tb.clone());
            }
        }
        let r = reader(Via::Mem, FileSpec::new(fmt, vec![d]).build().bytes);
        let t = open_via(&r, None)?;
        check_image(ch, &r, &t, 0, &img, &DecoderRegistry::default())
    }));
    // tiles of many megabytes
    bodies.push(
        body("tiles of many megabytes", move |ch| {
            let comp = ch.pick(&BYTEWISE);
            let (sf, bits, pred, spp, planar) = ch.pick(&[(1, 8, 2, 3, false), (1, 16, 1, 1, false), (3, 32, 3, 2, true)]);
            let (tw, th_) = ch.pick(&[(3000, 1800), (65_536, 80)][..if th { 2 } else { 1 }]);
            let img = Img { fmt: FMTS[ch.choose(if th { 4 } else { 1 })], w: tw, h: th_, tw, th: th_, spp, planar, sf, bits, comp, pred, seed: 2 };
            one(ch, img, Layout::Cog, Via::Mem, None, false)
        }),
    );
    // images of few different samples: equal rows, tiles, blocks
    bodies.push(body("constant and repetitive images", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let (sf, bits) = ch.pick(&[(1, 8), (1, 16), (2, 32), (1, 64), (3, 64)]);
        let comp = ch.pick(&BYTEWISE);
        let pred = ch.pick(preds(sf, bits));
        let planar = ch.flag();
        let spp = ch.pick(&[1, 3]);
        let seed = ch.pick(&[CONST0, CONST1, TILED, ROWS, SLOPE]);
        let cache = ch.pick(&[None, Some((16u64, 0.0)), Some((4, 1.0))]);
        let img = Img { fmt, w: 18, h: 9, tw: 8, th: 4, spp, planar, sf, bits, comp, pred, seed };
        let layout = ch.pick(&[Layout::Cog, Layout::DataFirst]);
        let via = ch.pick(&[Via::Mem, Via::Multi]);
        one(ch, img, layout, via, cache, false)
    }));
    // the same image as different writers put it
    bodies.push(body("field types, omitted and additional tags, batches", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let (sf, bits, planar, spp, comp) = ch.pick(&[(1, 8, false, 1, Comp::None), (1, 16, true, 3, Comp::Deflate), (1, 8, false, 3, Comp::None), (3, 32, true, 2, Comp::Lzw)]);
        let tabs: &[Tab] = if fmt.big { &[Tab::Short, Tab::Long, Tab::Long8] } else { &[Tab::Short, Tab::Long] };
        let (ko, kc) = (ch.pick(tabs), ch.pick(tabs));
        let (size_long, tile_long, omit, extra) = (ch.flag(), ch.flag(), ch.flag(), ch.flag());
        let (w, h) = ch.pick(&[(3, 2), (5, 2), (7, 5)]);
        let batch = ch.choose(3);
        let img = Img { fmt, w, h, tw: 3, th: 2, spp, planar, sf, bits, comp, pred: 0, seed: 21 };
        let mut d = img.ifd();
        d.tables = Some((324, 325, ko, kc));
        d.entries.retain(|x| {
            !(omit && (x.tag == 259 && comp == Comp::None || x.tag == 339 && sf == 1 || x.tag == 284 && !planar))
        });
        for x in &mut d.entries {
            let long = match x.tag {
                256 | 257 => size_long,
                322 | 323 => tile_long,
                _ => continue,
            };
            let v = match &x.val {
                V::Short(v) => v[0] as u32,
                V::Long(v) => v[0],
                _ => unreachable!(),
            };
            x.val = if long { V::Long(vec![v]) } else { V::Short(vec![v as u16]) };
        }
        if extra {
            d.entries.extend([
                e(254, V::Long(vec![0])),
                e(270, V::ascii("an image")),
                e(282, V::Rational(vec![(72, 1)])),
                e(283, V::Rational(vec![(72, 1)])),
                e(296, V::Short(vec![2])),
                e(305, V::ascii("w")),
                e(338, V::Short(vec![0])),
                e(33550, V::double(&[1.0, 1.0, 0.0])),
                e(33922, V::double(&[0.0, 0.0, 0.0, 7.0, 8.0, 0.0])),
                e(34735, V::Short(vec![1, 1, 0, 2, 1024, 0, 1, 1, 1026, 34737, 2, 0])),
                e(34737, V::ascii("x|")),
                e(42113, V::ascii("-9999")),
                e(60000, V::Byte(vec![1, 2, 3, 4, 5, 6, 7, 8, 9])),
                e(65001, V::Double(vec![3])),
            ]);
            d.entries.sort_by_key(|x| x.tag);
        }
        ch.note(|| format!("{img:?} tables {ko:?} {kc:?} long sizes {size_long} {tile_long} omit {omit} extra {extra} batch {batch}"));
        let r = reader(ch.pick(&[Via::Mem, Via::Multi]), FileSpec::new(fmt, vec![d]).build().bytes);
        let t = open_via(&r, None)?;
        let reg = DecoderRegistry::default();
        if batch == 0 {
            return check_image(ch, &r, &t, 0, &img, &reg);
        }
        let mut xy: Vec<(usize, usize)> = (0..img.rows()).flat_map(|y| (0..img.cols()).map(move |x| (x as usize, y as usize))).collect();
        if batch == 2 {
            xy.reverse();
        }
        let tiles = block_on(t.ifds()[0].fetch_tiles(&xy, &r)).map_err(|e| format!("batch {xy:?}: {e}"))?;
        ensure!(tiles.len() == xy.len(), "{} tiles for {xy:?}", tiles.len());
        for (tile, (x, y)) in tiles.into_iter().zip(&xy) {
            ensure!((tile.x(), tile.y()) == (*x, *y), "tile {x},{y} is labelled {},{}", tile.x(), tile.y());
            let a = tile.decode(&reg).map_err(|e| format!("tile {x},{y}: {e}"))?;
            let want = img.tile_expect(*x as u32, *y as u32);
            check_array(&a, expect_type(sf, bits).unwrap(), img.shape(), &want, &format!("tile {x},{y} of {img:?} in a batch"))?;
            ch.step((&img, x, y, ko as u8, kc as u8, omit, extra));
            ch.observe((x, y, want));
        }
        Ok(())
    }));
    bodies.push(body("among unrelated tags", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let (sf, bits, planar, spp, comp, pred) = ch.pick(&[(1, 8, false, 1, Comp::None, 0), (1, 16, true, 3, Comp::Deflate, 2), (1, 8, false, 3, Comp::Zstd, 2), (3, 32, true, 2, Comp::Lzw, 3), (2, 32, false, 4, Comp::Lzma, 1), (3, 64, false, 1, Comp::Deflate, 3)]);
        let img = Img { fmt, w: 5, h: 3, tw: 3, th: 2, spp, planar, sf, bits, comp, pred, seed: 33 };
        let mut d = img.ifd();
        let u = unrelated();
        let n = u.len();
        let (a, b) = (ch.choose(n), if th { ch.choose(n) } else { 0 });
        for k in [a, b] {
            d.entries.retain(|y| y.tag != u[k].tag);
            d.entries.push(u[k].clone());
        }
        d.entries.sort_by_key(|x| x.tag);
        ch.note(|| format!("{img:?} with {:?} and {:?}", u[a], u[b]));
        let r = reader(Via::Multi, FileSpec::new(fmt, vec![d]).build().bytes);
        let t = open_via(&r, None)?;
        check_image(ch, &r, &t, 0, &img, &DecoderRegistry::default())
    }));
    // directories, values and tiles far into the file
    bodies.push(body("pieces at large offsets", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let (sf, bits, planar, spp, comp) = ch.pick(&[(1, 8, false, 1, Comp::None), (1, 16, true, 3, Comp::Deflate), (3, 32, false, 2, Comp::Lzw)]);
        let far: &[u64] = if fmt.big {
            &[64, 0xfff0, 0x7fff_fff0, 0xffff_fff0, 0x1_0000_0000, 0x123_4567_89ab, 0xffff_ffff_fff0, 0x7fff_ffff_ffff_0000]
        } else {
            &[64, 0xfff0, 0x7fff_fff0, 0x8000_0001, 0xffff_0000]
        };
        let base: Vec<u64> = (0..3).map(|i| ch.pick(far) + 8192 * i).collect();
        let img = Img { fmt, w: 7, h: 5, tw: 3, th: 2, spp, planar, sf, bits, comp, pred: 0, seed: 31 };
        // 0: directory, 1: values, 2: tiles
        let mut segs = vec![];
        let mut at = base[2];
        let mut offs = vec![];
        let mut counts = vec![];
        for b in img.blocks() {
            offs.push(at);
            counts.push(b.len() as u64);
            at += b.len() as u64 + 1;
            segs.push((*offs.last().unwrap(), Bytes::from(b)));
        }
        let mut es: Vec<Entry> = img.entries();
        if fmt.big {
            es.push(e(324, V::Long8(offs)));
            es.push(e(325, V::Long8(counts)));
        } else {
            es.push(e(324, V::Long(offs.iter().map(|x| *x as u32).collect())));
            es.push(e(325, V::Long(counts.iter().map(|x| *x as u32).collect())));
        }
        es.sort_by_key(|x| x.tag);
        let mut pos = base[1];
        let at: Vec<Option<u64>> = es
            .iter()
            .map(|x| {
                let b = x.val.bytes(fmt);
                (b.len() as u64 > fmt.off_size()).then(|| {
                    let p = pos;
                    pos += b.len() as u64 + 1;
                    segs.push((p, b.into()));
                    p
                })
            })
            .collect();
        segs.push((base[0], write_ifd(fmt, &es, |j| at[j], 0).into()));
        segs.push((0, fmt.header(base[0]).into()));
        let end = segs.iter().map(|(o, b)| o + b.len() as u64).max().unwrap();
        ch.note(|| format!("{img:?}: directory, values, tiles at {base:x?}"));
        let r: Arc<dyn AsyncFileReader> = Arc::new(Mem::sparse(segs, end).eof(Eof::Error));
        let t = open_via(&r, None)?;
        check_image(ch, &r, &t, 0, &img, &DecoderRegistry::default())
    }));
    // grids of many tiles
    bodies.push(body("grids of many tiles", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let planar = ch.flag();
        let (w, h, tw, th_) = ch.pick(&[(300, 260, 1, 1), (70_001, 1, 1, 1), (4, 35_002, 2, 1)]);
        let img = Img { fmt, w, h, tw, th: th_, spp: if planar { 2 } else { 1 }, planar, sf: 1, bits: 8, comp: Comp::None, pred: 0, seed: 8 };
        one(ch, img, Layout::Cog, Via::Mem, None, false)
    }));
    // several directories of different make in one file
    bodies.push(body("several directories", move |ch| {
        let fmt = FMTS[ch.choose(4)];
        let layout = ch.pick(&LAYOUTS);
        let kinds = |k: usize, seed| {
            let (sf, bits, comp, pred, planar, spp, tw) = [
                (1, 8, Comp::None, 0, false, 3, 2),
                (1, 16, Comp::Deflate, 2, true, 2, 3),
                (3, 32, Comp::Lzw, 3, false, 2, 2),
                (2, 16, Comp::Zstd, 1, false, 1, 5),
            ][k];
            Img { fmt, w: 5, h: 4, tw, th: 2, spp, planar, sf, bits, comp, pred, seed }
        };
        let n = ch.choose(if th { 3 } else { 2 }) + 2;
        let imgs: Vec<Img> = (0..n).map(|i| kinds(ch.choose(4), 11 + i as u64)).collect();
        let built = FileSpec::new(fmt, imgs.iter().map(|i| i.ifd()).collect()).layout(layout).build();
        let r = reader(Via::Mem, built.bytes);
        ch.note(|| format!("{imgs:?} {layout:?}"));
        let t = open_via(&r, None)?;
        ensure!(t.ifds().len() == n, "{} directories of {n}", t.ifds().len());
        let reg = DecoderRegistry::default();
        for (i, img) in imgs.iter().enumerate() {
            check_image(ch, &r, &t, i, img, &reg)?;
        }
        Ok(())
    }));
    (
        bodies,
        about(
            "4 byte-order/layout formats x 11 sample types x 6 byte-wise codecs x all predictors that apply x chunky/planar x 1-4 (5) samples x 3 (5) tile geometries with partial edge tiles, every tile of every file; 6 readers x 5 caches x 5 file layouts x block order; WebP, LERC (3 inner codecs, 8 types), JPEG (tables inline or in the tag), JPEG 2000 (signed and unsigned, 8 and 16 bit); 2-4 directories of different make; constant images and images of equal tiles or rows; tiles of 512 x 512 and (thorough) 1024 x 256 pixels under every codec, of up to 2048 pixels a side under the image codecs and of 5-32 MB under the byte-wise ones; every field type of tables and sizes, defaults omitted or written, additional tags present, single and batch fetches; directories, values and tiles at 5-8 offsets up to 2^63 each; grids of more than 65536 tiles; JPEG tables of up to 130 kB",
            &[
                "sample values are drawn from a fixed pattern rich in extreme values",
                "multi-byte samples in LERC and JPEG 2000 tiles only in little-endian files; chunky JPEG tiles have one, three or four components; one-bit tiles have widths that are multiples of eight",
            ],
        ),
    )
}
