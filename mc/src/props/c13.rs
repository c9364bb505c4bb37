//! C13: batch fetches.
use std::sync::Arc;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::reader::AsyncFileReader;
use async_tiff::{CompressedBytes, ImageFileDirectory, Tile, TilesByteRanges};

use super::c01::{open_via, reader, VIAS};
use super::kit::unrelated;
use super::{about, bits_of, check_array, expect_type, open, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{block_on, injected_of};
use crate::sources::{Ans, Eof, Mem, MemMulti, Req};
use crate::tiffw::{e, Comp, FileSpec, Img, FMTS, V};
use crate::Tier;

fn bytes_of(t: &Tile) -> (bool, Vec<Vec<u8>>) {
    match t.compressed_bytes() {
        CompressedBytes::Chunky(b) => (false, vec![b.to_vec()]),
        CompressedBytes::Planar(v) => (true, v.iter().map(|b| b.to_vec()).collect()),
    }
}

/// Everything a tile shows.
fn same_tile(a: &Tile, b: &Tile) -> Result<(), String> {
    ensure!((a.x(), a.y()) == (b.x(), b.y()), "tile {},{} instead of {},{}", a.x(), a.y(), b.x(), b.y());
    let at = (a.x(), a.y());
    ensure!(bytes_of(a) == bytes_of(b), "tile {at:?} has the bytes {:?}, alone {:?}", a.compressed_bytes(), b.compressed_bytes());
    ensure!(a.compression_method() == b.compression_method(), "compression of tile {at:?}");
    ensure!(a.photometric_interpretation() == b.photometric_interpretation(), "interpretation of tile {at:?}");
    ensure!(a.jpeg_tables() == b.jpeg_tables(), "tables of tile {at:?}");
    let reg = DecoderRegistry::default();
    match (a.clone().decode(&reg), b.clone().decode(&reg)) {
        (Ok(p), Ok(q)) => {
            ensure!(p.shape() == q.shape() && p.data_type() == q.data_type() && bits_of(p.data()) == bits_of(q.data()), "tile {at:?} decodes differently")
        }
        (Err(_), Err(_)) => {}
        (p, q) => return Err(format!("tile {at:?}: in a batch {:?}, alone {:?}", p.err(), q.err())),
    }
    Ok(())
}

fn img(fmt: usize, planar: bool, spp: u16, comp: Comp, bits: u16) -> Img {
    Img { fmt: FMTS[fmt], w: 5, h: 4, tw: 3, th: 2, spp, planar, sf: 1, bits, comp, pred: if bits == 8 { 1 } else { 2 }, seed: 77 + spp as u64 }
}

fn batch(ch: &mut Ch, d: &ImageFileDirectory, m: &MemMulti, im: &Img, xy: &[(usize, usize)]) -> Result<(), String> {
    let (c, r) = (im.cols() as usize, im.rows() as usize);
    let valid = xy.iter().all(|(x, y)| *x < c && *y < r);
    m.0.clear_log();
    let got = block_on(d.fetch_tiles(xy, m));
    let log = m.0.log();
    ch.step((im.planar, im.spp, xy));
    if !valid {
        ensure!(got.is_err(), "a batch with a coordinate outside the grid succeeded");
        ensure!(log.is_empty(), "requests {log:?} for an invalid batch");
        ensure!(d.tiles_byte_ranges(xy).is_none(), "byte ranges for an invalid batch");
        return Ok(());
    }
    let got = got.map_err(|e| format!("batch {xy:?}: {e}"))?;
    ensure!(got.len() == xy.len(), "{} tiles for {} coordinates", got.len(), xy.len());
    // one multi-range request (an empty batch may do without)
    let n: usize = log.iter().filter(|q| matches!(q, Req::Many(_))).count();
    ensure!(log.len() == n && (n == 1 || (n == 0 && xy.is_empty())), "the batch {xy:?} cost the requests {log:?}");
    let mut flat = vec![];
    for (t, (x, y)) in got.iter().zip(xy) {
        let alone = block_on(d.fetch_tile(*x, *y, m)).map_err(|e| format!("tile {x},{y} alone: {e}"))?;
        ensure!((t.x(), t.y()) == (*x, *y), "tile {},{} in the place of {x},{y}", t.x(), t.y());
        same_tile(t, &alone)?;
        let a = t.clone().decode(&DecoderRegistry::default()).map_err(|e| format!("decode {x},{y}: {e}"))?;
        check_array(&a, expect_type(im.sf, im.bits).unwrap(), im.shape(), &im.tile_expect(*x as u32, *y as u32), &format!("tile {x},{y} of batch {xy:?}"))?;
        flat.extend(bytes_of(t).1);
        ch.observe((x, y));
    }
    let (ranges, shape) = match d.tiles_byte_ranges(xy) {
        None => return Err("no byte ranges for a valid batch".into()),
        Some(TilesByteRanges::Chunky(v)) => (v.clone(), !im.planar && v.len() == xy.len()),
        Some(TilesByteRanges::Planar(v)) => {
            let ok = im.planar && v.len() == xy.len() && v.iter().all(|b| b.len() == im.spp as usize);
            (v.concat(), ok)
        }
    };
    ensure!(shape, "byte ranges of the batch: {ranges:?}");
    let by_range: Vec<Vec<u8>> = ranges.iter().map(|r| m.0.at(r).to_vec()).collect();
    ensure!(by_range == flat, "byte ranges of the batch {xy:?} do not hold its tiles");
    if let [Req::Many(v)] = &log[..] {
        ensure!(*v == ranges, "requested {v:?} instead of {ranges:?}");
    }
    Ok(())
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let maxlen = t.sel(4usize, 5);
    let bodies = vec![
        body("every list of coordinates", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2, 3]);
            let im = img(0, planar, spp, Comp::None, 8);
            let n = ch.choose(maxlen + 1);
            // the four tiles, one beyond in each direction
            let cand = [(0usize, 0usize), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (usize::MAX, 0)];
            let xy: Vec<_> = (0..n).map(|_| ch.pick(&cand)).collect();
            let b = FileSpec::new(im.fmt, vec![im.ifd()]).build();
            let m = MemMulti(Mem::new(b.bytes).eof(Eof::Error));
            let d = open(&m).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
            ch.note(|| format!("{im:?} batch {xy:?}"));
            batch(ch, &d, &m, &im, &xy)
        }),
        body("long batches: all tiles in every rotation and direction", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2, 4]);
            let mut im = img(1, planar, spp, Comp::Deflate, 16);
            (im.w, im.h) = (10, 7);
            let all: Vec<(usize, usize)> = (0..im.rows() as usize).flat_map(|y| (0..im.cols() as usize).map(move |x| (x, y))).collect();
            let rot = ch.choose(all.len());
            let how = ch.choose(4);
            let mut xy = all.clone();
            xy.rotate_left(rot);
            match how {
                1 => xy.reverse(),
                2 => xy = xy.iter().flat_map(|p| [*p, *p]).collect(),
                3 => xy.extend(all.iter().rev()),
                _ => {}
            }
            let b = FileSpec::new(im.fmt, vec![im.ifd()]).build();
            let m = MemMulti(Mem::new(b.bytes).eof(Eof::Error));
            let d = open(&m).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
            ch.note(|| format!("{im:?} batch {xy:?}"));
            batch(ch, &d, &m, &im, &xy)
        }),
        body("batches of hundreds of tiles and bands", move |ch| {
            let planar = ch.flag();
            let (c, r, spp) = ch.pick(&[(20u32, 20u32, 1u16), (17, 15, 3), (16, 16, 1), (257, 1, 2), (1, 300, 1), (3, 2, 130), (2, 2, 300), (65, 64, 1), (70, 75, 3)][..t.sel(7, 9)]);
            // compressed blocks differ in length
            let (comp, tw) = ch.pick(&[(Comp::None, 2), (Comp::Deflate, 16)]);
            let mut im = img(1, planar, spp, comp, 8);
            (im.w, im.h, im.tw, im.th) = (c * tw - 1, r, tw, 1);
            let mut xy: Vec<(usize, usize)> = (0..r as usize).flat_map(|y| (0..c as usize).map(move |x| (x, y))).collect();
            match ch.choose(4) {
                1 => xy.reverse(),
                2 => xy.sort_by_key(|(x, y)| crate::tiffw::mix((x * 1000 + y) as u64)),
                3 => xy = (0..600).map(|i| xy[i * 7 % xy.len()]).collect(),
                _ => {}
            }
            let b = FileSpec::new(im.fmt, vec![im.ifd()]).build();
            let m = MemMulti(Mem::new(b.bytes).eof(Eof::Error));
            let d = open(&m).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
            ch.note(|| format!("{im:?} batch of {}", xy.len()));
            batch(ch, &d, &m, &im, &xy).map_err(|e| e.chars().take(400).collect::<String>())?;
            // and with one coordinate outside the grid
            let bad = ch.choose(3);
            let k = [0, xy.len() / 2, xy.len()][bad];
            xy.insert(k, (c as usize, 0));
            batch(ch, &d, &m, &im, &xy).map_err(|e| e.chars().take(400).collect())
        }),
        body("batches of thousands of coordinates", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2]);
            let n = ch.pick(&[1000usize, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 10_001, 32_769, 65_535, 65_536, 65_537, 100_000, 1_000_003][..t.sel(13, 15)]);
            let im = img(1, planar, spp, Comp::None, 8);
            let (c, r) = (im.cols() as usize, im.rows() as usize);
            let all: Vec<(usize, usize)> = (0..n).map(|i| { let k = crate::tiffw::mix(i as u64) as usize % (c * r); (k % c, k / c) }).collect();
            let b = FileSpec::new(im.fmt, vec![im.ifd()]).build();
            let m = MemMulti(Mem::new(b.bytes).eof(Eof::Error));
            let d = open(&m).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
            let alone: Vec<_> = (0..c * r).map(|k| block_on(d.fetch_tile(k % c, k / c, &m)).map(|t| bytes_of(&t)).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
            ch.note(|| format!("{im:?} batch of {n}"));
            ch.step((planar, spp, n));
            let got = block_on(d.fetch_tiles(&all, &m)).map_err(|e| format!("a batch of {n}: {e}"))?;
            ensure!(got.len() == n, "{} tiles for {n} coordinates", got.len());
            for (i, (t, (x, y))) in got.iter().zip(&all).enumerate() {
                ensure!((t.x(), t.y()) == (*x, *y), "tile {},{} in the place of {x},{y}, number {i} of {n}", t.x(), t.y());
                ensure!(bytes_of(t) == alone[y * c + x], "tile {x},{y}, number {i} of {n}, has other bytes than alone");
            }
            let k = match d.tiles_byte_ranges(&all) {
                None => return Err("no byte ranges for a valid batch".into()),
                Some(TilesByteRanges::Chunky(v)) => v.len(),
                Some(TilesByteRanges::Planar(v)) => v.len(),
            };
            ensure!(k == n, "byte ranges of {k} tiles for {n} coordinates");
            Ok(())
        }),
        body("among unrelated tags", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 3]);
            let u = unrelated();
            let x = u[ch.choose(u.len())].clone();
            let im = img(ch.choose(2), planar, spp, Comp::Deflate, 16);
            let mut d = im.ifd();
            d.entries.retain(|y| y.tag != x.tag);
            d.entries.push(x.clone());
            d.entries.sort_by_key(|x| x.tag);
            let b = FileSpec::new(im.fmt, vec![d]).build();
            let m = MemMulti(Mem::new(b.bytes).eof(Eof::Error));
            let d = open(&m).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
            let all: Vec<(usize, usize)> = (0..im.rows() as usize).flat_map(|y| (0..im.cols() as usize).map(move |x| (x, y))).collect();
            let xy = match ch.choose(4) {
                0 => all,
                1 => all.iter().rev().copied().collect(),
                2 => vec![all[1], all[0], all[1], all[3]],
                _ => vec![all[0], (im.cols() as usize, 0)],
            };
            ch.note(|| format!("{im:?} with {x:?}, batch {xy:?}"));
            batch(ch, &d, &m, &im, &xy)
        }),
        body("formats, codecs and readers", move |ch| {
            let f = ch.choose(4);
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 3, 4]);
            let (comp, bits) = ch.pick(&[(Comp::None, 8u16), (Comp::Deflate, 16), (Comp::Lzw, 32), (Comp::Zstd, 8), (Comp::Lzma, 8), (Comp::Jpeg(true), 8), (Comp::Jpeg(false), 8), (Comp::WebP, 8), (Comp::Lerc(Some(1)), 16), (Comp::J2k, 8)]);
            let via = ch.pick(&VIAS);
            let mut im = img(f, planar, spp, comp, bits);
            match comp {
                Comp::Jpeg(_) => {
                    if spp == 4 && !planar {
                        return Ok(());
                    }
                    (im.w, im.h, im.tw, im.th, im.pred) = (30, 20, 16, 16, 1);
                }
                Comp::WebP if planar || spp == 1 => return Ok(()),
                Comp::WebP | Comp::Lerc(_) => im.pred = 1,
                Comp::J2k => {
                    if im.spp == 4 && !planar {
                        return Ok(());
                    }
                    (im.w, im.h, im.tw, im.th, im.pred) = (30, 20, 16, 16, 1);
                }
                _ => {}
            }
            if matches!(comp, Comp::Lerc(_)) && im.fmt.be {
                return Ok(());
            }
            let xy = ch.pick(&[vec![(0usize, 0usize), (1, 1), (0, 1)], vec![(1, 0), (1, 0)], vec![(1, 1), (0, 0), (1, 0), (0, 1)]]);
            let b = FileSpec::new(im.fmt, vec![im.ifd()]).build();
            let r: Arc<dyn AsyncFileReader> = reader(via, b.bytes);
            let tiff = open_via(&r, None)?;
            let d = &tiff.ifds()[0];
            ch.note(|| format!("{im:?} via {via:?} batch {xy:?}"));
            ch.step((im, via, &xy));
            let got = block_on(d.fetch_tiles(&xy, &r)).map_err(|e| format!("batch {xy:?}: {e}"))?;
            ensure!(got.len() == xy.len(), "{} tiles for {} coordinates", got.len(), xy.len());
            for (t, (x, y)) in got.iter().zip(&xy) {
                let alone = block_on(d.fetch_tile(*x, *y, &r)).map_err(|e| format!("tile {x},{y} alone: {e}"))?;
                ensure!((t.x(), t.y()) == (*x, *y), "tile {},{} in the place of {x},{y}", t.x(), t.y());
                same_tile(t, &alone)?;
                let a = t.clone().decode(&DecoderRegistry::default()).map_err(|e| format!("decode {x},{y}: {e}"))?;
                check_array(&a, expect_type(im.sf, im.bits).unwrap(), im.shape(), &im.tile_expect(*x as u32, *y as u32), &format!("tile {x},{y} of batch {xy:?}"))?;
            }
            Ok(())
        }),
        body("a failing request fails the batch", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 3]);
            let im = img(2, planar, spp, Comp::None, 8);
            let n = ch.choose(4) + 1;
            let xy: Vec<_> = (0..n).map(|i| (i % 2, i / 2)).collect();
            let multi = ch.flag();
            let k = if multi { 0 } else { ch.choose(n * if planar { spp as usize } else { 1 }) };
            let b = FileSpec::new(im.fmt, vec![im.ifd()]).build();
            let m = MemMulti(Mem::new(b.bytes).eof(Eof::Error));
            let d = open(&m).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
            m.0.clear_log();
            m.0.plan(k, Ans::Err);
            ch.note(|| format!("{im:?} batch {xy:?} multi {multi}, request {k} fails"));
            ch.step((planar, spp, n, multi, k));
            let r = if multi { block_on(d.fetch_tiles(&xy, &m)) } else { block_on(d.fetch_tiles(&xy, &m.0)) };
            match r {
                Ok(_) => return Err("the batch succeeded although a request failed".into()),
                Err(e) => ensure!(injected_of(&e).is_some(), "the error of the source was replaced: {e:?}"),
            }
            m.0.clear_plan();
            batch(ch, &d, &m, &im, &xy)
        }),
        body("tiles that share bytes", move |ch| {
            // offsets and counts of three tiles, which may be empty, the same or overlap
            let planar = ch.flag();
            let tabs: Vec<(u32, u32)> = (0..3).map(|_| ch.pick(&[(0u32, 0u32), (20, 6), (20, 4), (22, 4), (20, 0)])).collect();
            let (w, spp) = if planar { (1, 3) } else { (9, 1) };
            let mut es = super::base_w(w);
            es.retain(|x| ![257, 277].contains(&x.tag));
            es.extend([
                e(257, V::Short(vec![2])),
                e(277, V::Short(vec![spp])),
                e(284, V::Short(vec![if planar { 2 } else { 1 }])),
                e(322, V::Short(vec![3])),
                e(323, V::Short(vec![2])),
                e(324, V::Long(tabs.iter().map(|t| t.0).collect())),
                e(325, V::Long(tabs.iter().map(|t| t.1).collect())),
            ]);
            es.sort_by_key(|x| x.tag);
            let b = FileSpec::new(FMTS[0], vec![crate::tiffw::IfdSpec { entries: es, blocks: vec![], tables: None }]).build();
            let mem = Mem::new(b.bytes);
            let multi = ch.flag();
            let d = open(&mem).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
            let r: Arc<dyn AsyncFileReader> = if multi { Arc::new(MemMulti(mem)) } else { Arc::new(mem) };
            let xy: Vec<(usize, usize)> = if planar {
                vec![(0, 0); ch.choose(3) + 1]
            } else {
                (0..ch.choose(3) + 1).map(|_| (ch.choose(3), 0)).collect()
            };
            ch.note(|| format!("planar {planar} tables {tabs:?} batch {xy:?}"));
            ch.step((planar, &tabs, multi, &xy));
            let got = block_on(d.fetch_tiles(&xy, &r)).map_err(|e| format!("batch {xy:?}: {e}"))?;
            ensure!(got.len() == xy.len(), "{} tiles for {} coordinates", got.len(), xy.len());
            for (t, (x, y)) in got.iter().zip(&xy) {
                let alone = block_on(d.fetch_tile(*x, *y, &r)).map_err(|e| format!("tile {x},{y} alone: {e}"))?;
                same_tile(t, &alone)?;
                ch.observe(bytes_of(t));
            }
            Ok(())
        }),
        body("tiles of different directories", move |ch| {
            let planar = ch.flag();
            let a = img(0, planar, 3, Comp::Deflate, 8);
            let mut b = img(0, !planar, 2, Comp::Lzw, 16);
            b.fmt = a.fmt;
            (b.w, b.h) = (3, 6);
            let f = FileSpec::new(a.fmt, vec![a.ifd(), b.ifd()]).build();
            let m = MemMulti(Mem::new(f.bytes).eof(Eof::Error));
            let t = open(&m).map_err(|e| format!("refused: {e}"))?;
            let first = ch.flag();
            let (x0, y0) = (ch.choose(2), ch.choose(2));
            let (i, im) = if first { (0, a) } else { (1, b) };
            ch.note(|| format!("{im:?} {x0} {y0}"));
            batch(ch, &t.ifds()[i], &m, &im, &[(0, y0), (x0, 0), (0, 1)])?;
            let (i, im) = if first { (1, b) } else { (0, a) };
            batch(ch, &t.ifds()[i], &m, &im, &[(x0, 1), (0, y0)])
        }),
    ];
    (
        bodies,
        about(
            format!("every list of up to {maxlen} coordinates out of 4 valid and 3 invalid ones, 1 to 3 samples, both organisations; rotations, reversals and doublings of lists of 16 and more; batches of up to {} tiles or 1200 bands in 4 orders; 10 codecs x 6 readers x 4 formats; a failure at every request; tiles that share, overlap or lack bytes", t.sel(600, 5250)),
            &["the reader returns one buffer per range (C06)"],
        ),
    )
}
