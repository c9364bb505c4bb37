//! C12: tile coordinates and byte ranges.
use std::collections::HashMap;
use std::ops::Range;

use async_tiff::error::AsyncTiffError;
use async_tiff::reader::Endianness;
use async_tiff::tags::Tag;
use async_tiff::{CompressedBytes, ImageFileDirectory, TagValue, TileByteRange, TilesByteRanges};
use bytes::Bytes;

use super::kit::unrelated;
use super::{about, open, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::block_on;
use crate::sources::{Eof, Mem, MemMulti, Req};
use crate::tiffw::{e, mix, Entry, FileSpec, IfdSpec, Tab, FMTS, V};
use crate::Tier;

#[derive(Clone, Debug)]
pub struct Grid {
    pub w: u32,
    pub h: u32,
    pub tw: Option<u32>,
    pub th: Option<u32>,
    pub spp: u16,
    pub planar: bool,
    pub offs: Option<Vec<u64>>,
    pub cnts: Option<Vec<u64>>,
    pub strips: bool,
}

/// 64-bit numbers in the smallest field type that holds them all.
fn nums(v: &[u64]) -> TagValue {
    let max = v.iter().copied().max().unwrap_or(0);
    let l: Vec<TagValue> = v
        .iter()
        .map(|x| match *x {
            x if max < 1 << 16 => TagValue::Short(x as u16),
            x if max < 1 << 32 => TagValue::Unsigned(x as u32),
            x => TagValue::UnsignedBig(x),
        })
        .collect();
    match l.len() {
        1 => l.into_iter().next().unwrap(),
        _ => TagValue::List(l),
    }
}

impl Grid {
    pub fn ifd(&self) -> ImageFileDirectory {
        self.ifd_with(&[])
    }
    pub fn ifd_with(&self, more: &[Entry]) -> ImageFileDirectory {
        let mut m: HashMap<Tag, TagValue> = HashMap::new();
        m.insert(Tag::ImageWidth, TagValue::Unsigned(self.w));
        m.insert(Tag::ImageLength, TagValue::Unsigned(self.h));
        // some writers give one value for all samples
        let n = if (self.w ^ self.h) % 2 == 1 { 1 } else { self.spp.max(1) };
        m.insert(Tag::BitsPerSample, nums(&vec![8; n as usize]));
        m.insert(Tag::PhotometricInterpretation, TagValue::Short(1));
        m.insert(Tag::SamplesPerPixel, TagValue::Short(self.spp));
        m.insert(Tag::PlanarConfiguration, TagValue::Short(1 + self.planar as u16));
        if let Some(x) = self.tw {
            m.insert(Tag::TileWidth, TagValue::Unsigned(x));
        }
        if let Some(x) = self.th {
            m.insert(Tag::TileLength, TagValue::Unsigned(x));
        }
        let (a, b) = if self.strips { (Tag::StripOffsets, Tag::StripByteCounts) } else { (Tag::TileOffsets, Tag::TileByteCounts) };
        if let Some(x) = &self.offs {
            m.insert(a, nums(x));
        }
        if let Some(x) = &self.cnts {
            m.insert(b, nums(x));
        }
        for x in more {
            m.insert(Tag::from_u16_exhaustive(x.tag), x.val.expect());
        }
        ImageFileDirectory::from_tags(m, Endianness::LittleEndian).expect("a well-formed directory")
    }
    pub fn dims(&self) -> Option<(u64, u64)> {
        match (self.tw, self.th) {
            (Some(a), Some(b)) if a > 0 && b > 0 => Some((self.w.div_ceil(a) as u64, self.h.div_ceil(b) as u64)),
            _ => None,
        }
    }
    /// The ranges of a tile, from the specification.
    pub fn want(&self, x: usize, y: usize) -> Option<Vec<Range<u64>>> {
        if self.strips {
            return None;
        }
        let (c, r) = self.dims()?;
        let (x, y) = (x as u64, y as u64);
        if x >= c || y >= r {
            return None;
        }
        let bands = if self.planar { self.spp as u64 } else { 1 };
        (0..bands)
            .map(|b| {
                let i = usize::try_from(b as u128 * (c as u128 * r as u128) + (y as u128 * c as u128) + x as u128).ok()?;
                let o = *self.offs.as_ref()?.get(i)?;
                let n = *self.cnts.as_ref()?.get(i)?;
                Some(o..o.checked_add(n)?)
            })
            .collect()
    }
}

/// Check the ranges and the fetch of one coordinate.
fn probe(ch: &mut Ch, g: &Grid, d: &ImageFileDirectory, x: usize, y: usize, fetch: bool) -> Result<(), String> {
    let want = g.want(x, y);
    let got = match d.tile_byte_range(x, y) {
        None => None,
        Some(TileByteRange::Chunky(r)) => {
            ensure!(!g.planar, "one range for a planar tile");
            Some(vec![r])
        }
        Some(TileByteRange::Planar(v)) => {
            ensure!(g.planar, "a list of ranges for a chunky tile");
            Some(v)
        }
    };
    ensure!(got == want, "tile {x},{y}: {got:?} instead of {want:?}");
    let got = match d.tiles_byte_ranges(&[(x, y)]) {
        None => None,
        Some(TilesByteRanges::Chunky(v)) => {
            ensure!(!g.planar && v.len() == 1, "batch of one: {v:?}");
            Some(v)
        }
        Some(TilesByteRanges::Planar(v)) => {
            ensure!(g.planar && v.len() == 1, "batch of one: {v:?}");
            Some(v[0].clone())
        }
    };
    ensure!(got == want, "tile {x},{y} in a batch: {got:?} instead of {want:?}");
    ch.observe((x, y, &want));
    if fetch {
        let m = MemMulti(Mem::sparse(vec![(0, Bytes::from_static(b"x"))], u64::MAX).eof(Eof::Error));
        let r = block_on(d.fetch_tile(x, y, &m));
        let log = m.0.log();
        match (want, r) {
            (None, Ok(_)) => return Err(format!("a tile was fetched at {x},{y}, where there is none")),
            (None, Err(_)) => ensure!(log.is_empty(), "requests {log:?} for a tile that does not exist"),
            (Some(_), Err(e)) => return Err(format!("tile {x},{y}: {e}")),
            (Some(w), Ok(t)) => {
                ensure!(t.x() == x && t.y() == y, "the tile at {x},{y} is labelled {},{}", t.x(), t.y());
                let asked: Vec<_> = log
                    .iter()
                    .flat_map(|q| match q {
                        Req::One(r) => vec![r.clone()],
                        Req::Many(v) => v.clone(),
                    })
                    .collect();
                ensure!(asked == w && log.len() == 1, "tile {x},{y} was fetched with {log:?}, its ranges are {w:?}");
                let lens: Vec<u64> = match t.compressed_bytes() {
                    CompressedBytes::Chunky(b) => vec![b.len() as u64],
                    CompressedBytes::Planar(v) => v.iter().map(|b| b.len() as u64).collect(),
                };
                ensure!(lens == w.iter().map(|r| r.end - r.start).collect::<Vec<_>>(), "tile {x},{y}: lengths {lens:?}");
            }
        }
    }
    Ok(())
}

fn coords(g: &Grid) -> Vec<(usize, usize)> {
    let (c, r) = g.dims().unwrap_or((1, 1));
    let (c, r) = (c as usize, r as usize);
    let mut v = vec![];
    for y in 0..(r + 2).min(12) {
        for x in 0..(c + 2).min(12) {
            v.push((x, y));
        }
    }
    // coordinates whose index wraps around to a valid one, or runs into the next row or band
    let wrap = (usize::MAX / c.max(1)).wrapping_add(1);
    v.extend([
        (c * r, 0),
        (0, r * 3),
        (usize::MAX, 0),
        (0, usize::MAX),
        (usize::MAX, usize::MAX),
        (0, wrap),
        (0, 1 << 63),
        (1 << 32, 0),
        (0, 1 << 32),
        (usize::MAX, 1),
        (1 << 31, 1 << 31),
    ]);
    v
}

pub fn table(n: usize, k: u64) -> (Vec<u64>, Vec<u64>) {
    // positions in no particular order, all different; lengths all different, one of them zero
    let o = (0..n as u64).map(|i| 1000 + (mix(i * 31 + k) % 50) * 1_000 + i * 3).collect();
    let c = (0..n as u64).map(|i| (i * 7 + k) % 97).collect();
    (o, c)
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let m = t.sel(9u32, 20);
    let bodies = vec![
        body("every small grid, every coordinate", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2, 3, 5]);
            let (w, h) = (ch.choose(m as usize + 1) as u32, ch.choose(m as usize + 1) as u32);
            let (tw, th) = (1 + ch.choose(t.sel(5, 8)) as u32, 1 + ch.choose(t.sel(5, 8)) as u32);
            let k = 3;
            let mut g = Grid { w, h, tw: Some(tw), th: Some(th), spp, planar, offs: None, cnts: None, strips: false };
            let (c, r) = g.dims().unwrap();
            let (o, n) = table((c * r) as usize * if planar { spp as usize } else { 1 }, k);
            (g.offs, g.cnts) = (Some(o), Some(n));
            let d = g.ifd();
            ch.note(|| format!("{g:?}"));
            ensure!(d.tile_count() == Some((c as usize, r as usize)), "grid of {:?} instead of {c} x {r}", d.tile_count());
            for (x, y) in coords(&g) {
                ch.step((w, h, tw, th, spp, planar, x, y));
                probe(ch, &g, &d, x, y, true)?;
            }
            Ok(())
        }),
        body("among unrelated tags", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 3]);
            let (w, h, tw, th) = ch.pick(&[(2u32, 2u32, 1u32, 1u32), (5, 5, 2, 3), (3, 9, 16, 4)]);
            let mut g = Grid { w, h, tw: Some(tw), th: Some(th), spp, planar, offs: None, cnts: None, strips: false };
            let (c, r) = g.dims().unwrap();
            let n = (c * r) as usize * if planar { spp as usize } else { 1 };
            let (o, l) = table(n, 5);
            (g.offs, g.cnts) = (Some(o), Some(l));
            let mut u = unrelated();
            for v in [1u16, 2, 5, 6, 7, 8, 32773, 32946, 34712, 34887, 34925, 50000, 50001, 60000] {
                u.push(e(259, V::Short(vec![v])));
            }
            for v in 1..=3 {
                u.push(e(317, V::Short(vec![v])));
                u.push(e(339, V::Short(vec![v])));
            }
            for v in [1u16, 4, 12, 16, 32, 64] {
                u.push(e(258, V::Short(vec![v])));
            }
            let (a, b) = (ch.choose(u.len()), ch.choose(u.len()));
            if b > a {
                return Ok(());
            }
            let d = g.ifd_with(&[u[a].clone(), u[b].clone()]);
            ch.note(|| format!("{g:?} with {:?} and {:?}", u[a], u[b]));
            for (x, y) in coords(&g) {
                ch.step((w, h, spp, planar, a, b, x, y));
                probe(ch, &g, &d, x, y, false)?;
            }
            probe(ch, &g, &d, c as usize - 1, r as usize - 1, true)
        }),
        body("tables of every length", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2, 3]);
            let (w, h, tw, th) = ch.pick(&[(2u32, 2u32, 1u32, 1u32), (3, 2, 1, 1), (5, 5, 2, 3), (1, 3, 1, 1), (4, 1, 1, 1)]);
            let mut g = Grid { w, h, tw: Some(tw), th: Some(th), spp, planar, offs: None, cnts: None, strips: false };
            let (c, r) = g.dims().unwrap();
            let n = (c * r) as usize * if planar { spp as usize } else { 1 };
            let (a, b) = (ch.choose(n + 3), ch.choose(n + 3));
            let (o, l) = table(n + 3, 5);
            (g.offs, g.cnts) = (Some(o[..a].to_vec()), Some(l[..b].to_vec()));
            let d = g.ifd();
            ch.note(|| format!("{g:?}"));
            for (x, y) in coords(&g) {
                ch.step((w, h, spp, planar, a, b, x, y));
                probe(ch, &g, &d, x, y, true)?;
            }
            Ok(())
        }),
        body("incomplete and stripped directories", move |ch| {
            let planar = ch.flag();
            let have = ch.choose(16);
            let strips = ch.flag();
            let zero = ch.choose(3);
            let spp = 1 + ch.choose(2) as u16;
            let (o, l) = table(24, 1);
            let pick = |i: u32, z: bool| (have >> i & 1 == 1).then_some(if z { 0 } else { 2 });
            let g = Grid {
                w: 5,
                h: 4,
                tw: pick(0, zero == 1),
                th: pick(1, zero == 2),
                spp,
                planar,
                offs: (have >> 2 & 1 == 1).then_some(o),
                cnts: (have >> 3 & 1 == 1).then_some(l),
                strips,
            };
            let d = g.ifd();
            ch.note(|| format!("{g:?}"));
            ensure!(d.tile_count().map(|(a, b)| (a as u64, b as u64)) == g.dims(), "grid {:?} instead of {:?}", d.tile_count(), g.dims());
            let tiled = g.dims().is_some() && !strips && have == 15;
            for (x, y) in coords(&g) {
                ch.step((have, strips, zero, planar, x, y));
                probe(ch, &g, &d, x, y, true)?;
                if !tiled {
                    ensure!(g.want(x, y).is_none(), "model");
                } else if g.want(x, y).is_none() {
                    let m = Mem::new(vec![]);
                    let e = block_on(d.fetch_tile(x, y, &m)).err();
                    ensure!(matches!(e, Some(AsyncTiffError::TileIndexError(..))), "coordinates outside the grid gave {e:?}");
                }
            }
            Ok(())
        }),
        body("grid sizes around every power of two", move |ch| {
            let vals = |max: u64| -> Vec<u32> {
                let mut v: Vec<u64> = vec![];
                for k in 0..33 {
                    for d in [-1i64, 0, 1] {
                        v.push(((1u64 << k) as i64 + d) as u64);
                    }
                }
                v.extend([3, 5, 6, 7, 10, 100, 255, 1000, 65521, 99991, 4294967291]);
                v.retain(|x| *x <= max);
                v.sort();
                v.dedup();
                v.into_iter().map(|x| x as u32).collect()
            };
            let v = vals(u32::MAX as u64);
            let w = ch.pick(&v);
            for tw in v.iter().copied() {
                for swap in [false, true] {
                    let (mut g, o) = (Grid { w, h: 7, tw: Some(tw), th: Some(2), spp: 2, planar: swap, offs: None, cnts: None, strips: false }, table(3, 2));
                    if swap {
                        (g.w, g.h) = (g.h, g.w);
                        (g.tw, g.th) = (g.th, g.tw);
                    }
                    (g.offs, g.cnts) = (Some(o.0), Some(o.1));
                    let d = g.ifd();
                    ch.step((w, tw, swap));
                    ensure!(d.tile_count().map(|(a, b)| (a as u64, b as u64)) == g.dims(), "grid {:?} instead of {:?} of {g:?}", d.tile_count(), g.dims());
                    for (x, y) in [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (w as usize, 0), (0, w as usize), (w as usize / tw.max(1) as usize, 0)] {
                        probe(ch, &g, &d, x, y, false)?;
                    }
                }
            }
            Ok(())
        }),
        body("large grids, every coordinate", move |ch| {
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2, 3]);
            let (c, r) = ch.pick(&[(256u32, 256u32), (257, 257), (300, 301), (70_000, 1), (1, 70_000), (2, 40_000), (40_000, 2), (1025, 66), (1200, 900)][..t.sel(8, 9)]);
            let part = ch.choose(8) as u64;
            let mut g = Grid { w: c * 16 - 3, h: r * 8 - 7, tw: Some(16), th: Some(8), spp, planar, offs: None, cnts: None, strips: false };
            let n = c as usize * r as usize * if planar { spp as usize } else { 1 };
            let (o, l) = table(n, 11);
            (g.offs, g.cnts) = (Some(o), Some(l));
            let d = g.ifd();
            ch.note(|| format!("{c} x {r} tiles, {spp} samples, planar {planar}, eighth {part}"));
            ensure!(d.tile_count() == Some((c as usize, r as usize)), "grid of {:?} instead of {c} x {r}", d.tile_count());
            let all = c as u64 * r as u64;
            for i in all * part / 8..all * (part + 1) / 8 {
                let (x, y) = ((i % c as u64) as usize, (i / c as u64) as usize);
                probe(ch, &g, &d, x, y, false)?;
                ch.step((c, r, spp, planar, i));
            }
            for (x, y) in [(c as usize, 0), (0, r as usize), (c as usize - 1, r as usize), (c as usize, r as usize - 1)] {
                probe(ch, &g, &d, x, y, true)?;
            }
            Ok(())
        }),
        body("extreme offsets and lengths", move |ch| {
            let planar = ch.flag();
            let a = [0u64, 1, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
            let (o1, c1) = (ch.pick(&a), ch.pick(&a));
            let (o2, c2) = (ch.pick(&a), ch.pick(&a));
            let g = Grid {
                w: if planar { 1 } else { 2 },
                h: 1,
                tw: Some(1),
                th: Some(1),
                spp: 2,
                planar,
                offs: Some(vec![o1, o2]),
                cnts: Some(vec![c1, c2]),
                strips: false,
            };
            let d = g.ifd();
            ch.note(|| format!("{g:?}"));
            for x in 0..3 {
                ch.step((planar, o1, c1, o2, c2, x));
                probe(ch, &g, &d, x, 0, false)?;
                if g.want(x, 0).is_none() {
                    let m = Mem::new(vec![0; 10]).limit(3);
                    ensure!(block_on(d.fetch_tile(x, 0, &m)).is_err(), "fetched a tile that reaches past 2^64");
                }
            }
            Ok(())
        }),
        body("through files: the bytes at the coordinates", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2, 3]);
            let (w, h, tw, th) = ch.pick(&[(5u32, 5u32, 2u32, 2u32), (33, 10, 16, 16), (7, 1, 3, 1), (1, 9, 1, 2), (4, 4, 4, 4)]);
            let (ko, kc) = (ch.pick(&[Tab::Long, Tab::Long8, Tab::Short]), ch.pick(&[Tab::Long, Tab::Long8, Tab::Short]));
            let rev = ch.flag();
            let g = Grid { w, h, tw: Some(tw), th: Some(th), spp, planar, offs: None, cnts: None, strips: false };
            let (c, r) = g.dims().unwrap();
            let n = (c * r) as usize * if planar { spp as usize } else { 1 };
            let blocks: Vec<Vec<u8>> = (0..n).map(|i| (0..(i * 5 + 3) % 11).map(|k| (i * 16 + k) as u8).collect()).collect();
            let es = vec![
                e(256, V::Long(vec![w])),
                e(257, V::Long(vec![h])),
                e(258, V::Short(vec![8; spp as usize])),
                e(262, V::Short(vec![1])),
                e(277, V::Short(vec![spp])),
                e(284, V::Short(vec![1 + planar as u16])),
                e(322, V::Short(vec![tw as u16])),
                e(323, V::Long(vec![th])),
            ];
            let mut s = FileSpec::new(fmt, vec![IfdSpec { entries: es, blocks: blocks.clone(), tables: Some((324, 325, ko, kc)) }]);
            s.rev_blocks = rev;
            s.gap = 3;
            let b = s.build();
            ch.note(|| format!("{fmt:?} {g:?} {ko:?} {kc:?}"));
            let mem = Mem::new(b.bytes).eof(Eof::Error);
            let d = open(&mem).map_err(|e| format!("refused: {e}"))?.ifds()[0].clone();
            for y in 0..r as usize + 1 {
                for x in 0..c as usize + 1 {
                    ch.step((fmt, w, h, spp, planar, x, y));
                    let i = y * c as usize + x;
                    let inside = x < c as usize && y < r as usize;
                    match block_on(d.fetch_tile(x, y, &mem)) {
                        Ok(tile) => {
                            ensure!(inside, "a tile outside the grid, at {x},{y}");
                            let ok = match tile.compressed_bytes() {
                                CompressedBytes::Chunky(v) => !planar && v[..] == blocks[i][..],
                                CompressedBytes::Planar(v) => planar && v.len() == spp as usize && v.iter().enumerate().all(|(k, v)| v[..] == blocks[k * (c * r) as usize + i][..]),
                            };
                            ensure!(ok, "tile {x},{y} has the bytes {:?}", tile.compressed_bytes());
                        }
                        Err(e) => ensure!(!inside, "tile {x},{y}: {e}"),
                    }
                }
            }
            Ok(())
        }),
    ];
    (
        bodies,
        about(
            format!("images up to {m} x {m} with tiles up to {0} x {0}, 1 to 5 samples, both organisations, every coordinate up to two beyond the grid and eleven far outside; grids of up to 108000 (thorough: 1080000) tiles with tables of up to three times as many entries, every coordinate; every pair of table lengths; every subset of the tiling tags; grid sizes for all pairs of about 100 values up to 2^32", t.sel(5, 8)),
            &["tables list tiles in row order, band by band if planar (TIFF 6.0 section 15)"],
        ),
    )
}
