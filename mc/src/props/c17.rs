//! C17: malformed metadata.
use std::sync::Arc;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{ImageFileDirectoryReader, MetadataFetch, TiffMetadataReader};
use async_tiff::reader::AsyncFileReader;
use async_tiff::{ImageFileDirectory, TIFF};

use super::c01::{reader, Via};
use super::{about, base, open, About};
use crate::alloc;
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::block_on;
use crate::sources::{Eof, Mem, MemMulti};
use crate::tiffw::{e, Built, Entry, FileSpec, Fmt, IfdSpec, Layout, Tab, FMTS, V};
use crate::Tier;

thread_local! {
    static REG: DecoderRegistry = DecoderRegistry::default();
}

/// The files that are corrupted. `short`: without the entries that add bulk only.
fn file(fmt: Fmt, kind: usize) -> Built {
    let k = if fmt.big { Tab::Long8 } else { Tab::Long };
    let tiled = |mut es: Vec<Entry>| {
        es.extend([e(322, V::Short(vec![2])), e(323, V::Short(vec![2]))]);
        es.sort_by_key(|x| x.tag);
        IfdSpec {
            entries: es,
            blocks: (0..4u8).map(|i| vec![i; 4]).collect(),
            tables: Some((324, 325, k, Tab::Short)),
        }
    };
    let dims = |w: u32, h: u32, bits: &[u16], spp: u16| {
        vec![
            e(256, V::Long(vec![w])),
            e(257, V::Long(vec![h])),
            e(258, V::Short(bits.to_vec())),
            e(262, V::Short(vec![1])),
            e(277, V::Short(vec![spp])),
        ]
    };
    let ifds = match kind {
        // the smallest tiled image
        0 => vec![tiled(dims(4, 4, &[8], 1))],
        // geographic
        1 => {
            let mut es = dims(4, 4, &[8], 1);
            es.extend([
                e(33550, V::double(&[1.0, 2.0, 0.0])),
                e(34735, V::Short(vec![1, 1, 0, 4, 1024, 0, 1, 1, 1026, 34737, 2, 0, 2057, 34736, 1, 0, 3072, 0, 1, 4326])),
                e(34736, V::double(&[6378137.0])),
                e(34737, V::ascii("a|b")),
                e(42113, V::ascii("-9999")),
            ]);
            vec![tiled(es)]
        }
        // strips, resolutions, texts
        2 => {
            let mut es = dims(4, 4, &[8, 8, 8, 8], 4);
            es.extend([
                e(254, V::Long(vec![1])),
                e(259, V::Short(vec![1])),
                e(270, V::ascii("description")),
                e(274, V::Short(vec![1])),
                e(278, V::Short(vec![2])),
                e(280, V::Short(vec![0, 0, 0, 0])),
                e(282, V::Rational(vec![(72, 1)])),
                e(283, V::Rational(vec![(72, 0)])),
                e(284, V::Short(vec![1])),
                e(296, V::Short(vec![2])),
                e(305, V::ascii("ab")),
                e(338, V::Short(vec![2])),
                e(339, V::Short(vec![1, 1, 1, 1])),
                e(320, V::Short(vec![7; 6])),
            ]);
            es.sort_by_key(|x| x.tag);
            vec![IfdSpec {
                entries: es,
                blocks: vec![vec![1; 32], vec![2; 32]],
                tables: Some((273, 279, k, Tab::Long)),
            }]
        }
        // two planar images with a predictor and codec parameters
        _ => {
            let mut es = dims(2, 4, &[16, 16], 2);
            es.extend([
                e(259, V::Short(vec![8])),
                e(284, V::Short(vec![2])),
                e(317, V::Short(vec![2])),
                e(339, V::Short(vec![2, 2])),
                e(347, V::Undefined(vec![0xff, 0xd8, 0xff, 0xd9])),
                e(0xC5F2, V::Long(vec![4, 0])),
                e(65000, V::Double(vec![5, 6])),
            ]);
            let mut a = tiled(es);
            a.blocks = (0..4u8).map(|i| crate::codecs::deflate(&[i; 8])).collect();
            vec![a, tiled(dims(4, 4, &[8], 1))]
        }
    };
    FileSpec::new(fmt, ifds).layout(Layout::Cog).build()
}
const KINDS: usize = 4;

/// Call everything a directory offers.
pub fn touch(d: &ImageFileDirectory) -> usize {
    let mut n = 0usize;
    macro_rules! t { ($($m:ident)*) => { $( n = n.wrapping_add(format!("{:?}", d.$m()).len()); )* } }
    t!(new_subfile_type image_width image_height bits_per_sample compression photometric_interpretation
       document_name image_description strip_offsets orientation samples_per_pixel rows_per_strip
       strip_byte_counts min_sample_value max_sample_value x_resolution y_resolution planar_configuration
       resolution_unit software date_time artist host_computer predictor tile_width tile_height tile_offsets
       tile_byte_counts extra_samples sample_format jpeg_tables copyright model_pixel_scale model_tiepoint
       model_transformation gdal_nodata gdal_metadata other_tags lerc_parameters colormap tile_count);
    if let Some(g) = d.geo_key_directory() {
        n = n.wrapping_add(format!("{g:?} {:?}", g.epsg_code()).len());
    }
    n
}

/// Ask for tiles inside and outside the grid, decode those that come.
fn tiles(d: &ImageFileDirectory, r: &dyn AsyncFileReader) -> Result<usize, String> {
    let (c, n) = d.tile_count().unwrap_or((1, 1));
    let big = usize::MAX;
    let at = [(0, 0), (1, 0), (0, 1), (c.wrapping_sub(1), n.wrapping_sub(1)), (c, 0), (0, n), (big, 0), (0, big), (big, big), (1 << 32, 1 << 32)];
    let mut got = 0;
    let mut inside = vec![];
    for (x, y) in at {
        if d.tile_byte_range(x, y).is_some() {
            got += 1;
            inside.push((x, y));
            ensure!(x < c && y < n, "tile {x},{y} of a {c} x {n} grid has a range");
        }
        match block_on(d.fetch_tile(x, y, r)) {
            Ok(t) => {
                ensure!(x < c && y < n, "tile {x},{y} of a {c} x {n} grid was fetched");
                ensure!(t.x() == x && t.y() == y, "tile {x},{y} is labelled {},{}", t.x(), t.y());
                if let Ok(a) = REG.with(|reg| t.decode(reg)) {
                    let want: Option<usize> = a.shape().iter().try_fold(1usize, |p, k| p.checked_mul(*k));
                    ensure!(Some(a.data().len()) == want, "{} elements in a tile of shape {:?}", a.data().len(), a.shape());
                    got += 1;
                }
            }
            Err(_) => got += 1000,
        }
    }
    let _ = d.tiles_byte_ranges(&inside);
    let _ = d.tiles_byte_ranges(&at);
    let _ = block_on(d.fetch_tiles(&inside, r));
    let _ = block_on(d.fetch_tiles(&at, r));
    Ok(got)
}

fn visit(ch: &mut Ch, t: &TIFF, r: &dyn AsyncFileReader) -> Result<(), String> {
    for d in t.ifds() {
        let n = touch(d);
        let k = tiles(d, r)?;
        ch.observe((n, k));
        ch.step((n, k));
    }
    Ok(())
}

fn mem_bound(len: usize) -> Result<(), String> {
    // a list keeps at most some tens of bytes per byte read and at most doubles
    let cap = (16 << 20) + 128 * len;
    ensure!(alloc::peak() <= cap, "an allocation of {} bytes for a file of {len} bytes", alloc::peak());
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Path {
    Clamp,
    Error,
    Multi,
    Cached,
    CachedSmall,
    Stream,
    Object,
}
const PATHS: [Path; 7] = [Path::Clamp, Path::Error, Path::Multi, Path::Cached, Path::CachedSmall, Path::Stream, Path::Object];

fn attempt(ch: &mut Ch, bytes: Vec<u8>, p: Path) -> Result<(), String> {
    let len = bytes.len();
    // every value is read once, element by element at worst; values may share bytes
    let limit = 200_000;
    let (r, t): (Arc<dyn AsyncFileReader>, _) = match p {
        Path::Clamp | Path::Error => {
            let m = Mem::new(bytes).eof(if p == Path::Clamp { Eof::Clamp } else { Eof::Error }).limit(limit);
            let t = open(&m);
            (Arc::new(m), t)
        }
        Path::Multi => {
            let m = MemMulti(Mem::new(bytes).limit(limit));
            let t = open(&m);
            (Arc::new(m), t)
        }
        Path::Cached => {
            let m = Mem::new(bytes).limit(limit);
            let t = open(&ReadaheadMetadataCache::new(m.clone()));
            (Arc::new(m), t)
        }
        Path::CachedSmall => {
            let m = Mem::new(bytes).eof(Eof::Error).limit(limit);
            let t = open(&ReadaheadMetadataCache::new(m.clone()).with_initial_size(16).with_multiplier(1.5));
            (Arc::new(m), t)
        }
        Path::Stream | Path::Object => {
            let r = reader(if p == Path::Stream { Via::Stream } else { Via::Object }, bytes);
            let t = open(&r);
            (r, t)
        }
    };
    match t {
        Ok(t) => {
            ch.observe(t.ifds().len());
            visit(ch, &t, &r)?;
        }
        Err(e) => {
            let s = e.to_string();
            ch.step(&s);
            ch.observe(s);
        }
    }
    mem_bound(len)
}

/// The fixed-size fields of the metadata: (offset, size).
fn fields(b: &Built) -> Vec<(usize, usize)> {
    let big = b.fmt.big;
    let mut v = if big {
        vec![(0, 2), (2, 2), (4, 2), (6, 2), (8, 8)]
    } else {
        vec![(0, 2), (2, 2), (4, 4)]
    };
    for (i, o) in b.ifd_off.iter().enumerate() {
        let o = *o as usize;
        let (c, sz, cnt) = if big { (8, 20, 8) } else { (2, 12, 4) };
        v.push((o, c));
        let n = b.entries[i].len();
        for k in 0..n {
            let p = o + c + sz * k;
            v.extend([(p, 2), (p + 2, 2), (p + 4, cnt), (p + 4 + cnt, cnt)]);
        }
        v.push((o + c + sz * n, cnt));
    }
    for (_, _, r) in &b.vals {
        // the words of out-of-line values
        let mut p = r.start as usize;
        while p + 2 <= r.end as usize {
            v.push((p, 2));
            p += 2;
        }
    }
    v
}

fn alphabet(size: usize, len: usize, rich: bool) -> Vec<u64> {
    let len = len as u64;
    let mut v = vec![0, 1, 2, 3, 4, 5, 8, 16, 255, 256, 0x7fff, 0x8000, 0xffff];
    if size == 2 && rich {
        v.extend(6..20);
        v.extend([32946, 34712, 34887, 34925, 50000, 50001, 322, 323, 324, 325, 273, 279, 258, 277, 34735, 34736, 34737, 65000]);
    }
    if size >= 4 {
        v.extend([len - 1, len, len + 1, len / 2, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff]);
        if rich {
            v.extend([6, 7, 9, 10, 12, 20, 100, 1000, 0x4000_0000, 0x2000_0000, 0x5555_5556, 0xffff_fffe, 0xffff_fff8]);
        }
    }
    if size == 8 {
        v.extend([1 << 32, (1 << 32) + 1, 1 << 61, 1 << 62, 1 << 63, i64::MAX as u64, u64::MAX, u64::MAX - 1, u64::MAX - 7, u64::MAX - 8, u64::MAX - 16]);
        if rich {
            v.extend([u64::MAX / 2 + 2, u64::MAX / 4 + 1, u64::MAX / 8 + 1, u64::MAX / 20, u64::MAX / 20 + 1, u64::MAX / 20 - 1, u64::MAX - 20, 1 << 40, 1 << 47, 1 << 48]);
        }
    }
    v
}

fn put(b: &mut [u8], fmt: Fmt, (o, n): (usize, usize), v: u64) {
    match n {
        2 => b[o..o + 2].copy_from_slice(&fmt.u16(v as u16)),
        4 => b[o..o + 4].copy_from_slice(&fmt.u32(v as u32)),
        _ => b[o..o + 8].copy_from_slice(&fmt.u64(v)),
    }
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let thorough = t.sel(false, true);
    let mut bodies = vec![];
    let files: Arc<Vec<Vec<Built>>> = Arc::new(FMTS.iter().map(|f| (0..KINDS).map(|k| file(*f, k)).collect()).collect());
    {
        let files = files.clone();
        bodies.push(body("the files themselves are accepted", move |ch| {
            let b = &files[ch.choose(4)][ch.choose(KINDS)];
            let p = ch.pick(&PATHS);
            let m = Mem::new(b.bytes.clone());
            let t = open(&m).map_err(|e| e.to_string())?;
            ensure!(t.ifds().len() == b.ifd_off.len(), "{} directories", t.ifds().len());
            attempt(ch, b.bytes.clone(), p)
        }));
    }
    {
        let files = files.clone();
        bodies.push(body("every value of every byte", move |ch| {
            let b = &files[ch.choose(4)][ch.choose(KINDS)];
            let end = if thorough { b.bytes.len() } else { b.meta_end as usize };
            let i = ch.choose(end);
            let v = ch.choose(255) as u8;
            let mut bytes = b.bytes.clone();
            bytes[i] = bytes[i].wrapping_add(1 + v);
            let p = if thorough { ch.pick(&PATHS) } else { [Path::Clamp, Path::Error, Path::CachedSmall][(i + v as usize) % 3] };
            ch.note(|| format!("byte {i} of {:?} becomes {:#x}, {p:?}", b.fmt, bytes[i]));
            attempt(ch, bytes, p)
        }));
    }
    {
        let files = files.clone();
        bodies.push(body("every truncation", move |ch| {
            let b = &files[ch.choose(4)][ch.choose(KINDS)];
            let n = ch.choose(b.bytes.len());
            let p = ch.pick(&PATHS);
            ch.note(|| format!("{:?} cut to {n} bytes, {p:?}", b.fmt));
            attempt(ch, b.bytes[..n].to_vec(), p)
        }));
    }
    {
        let files = files.clone();
        bodies.push(body("boundary values in every field, every reader", move |ch| {
            let b = &files[ch.choose(4)][ch.choose(KINDS)];
            let f = ch.pick(&fields(b));
            let v = ch.pick(&alphabet(f.1, b.bytes.len(), true));
            let p = ch.pick(&PATHS);
            let mut bytes = b.bytes.clone();
            put(&mut bytes, b.fmt, f, v);
            ch.note(|| format!("field at {} of {:?} becomes {v:#x}, {p:?}", f.0, b.fmt));
            attempt(ch, bytes, p)
        }));
    }
    {
        let files = files.clone();
        bodies.push(body("boundary values in pairs of fields", move |ch| {
            let big = ch.flag();
            let k = ch.choose(KINDS);
            // the byte order does not matter to fields of whole words
            let b = &files[if thorough { 2 * big as usize + ch.choose(2) } else { FMTS.iter().position(|f| f.big == big).unwrap() }][k];
            let fs: Vec<(usize, usize)> = fields(b).into_iter().filter(|f| thorough || f.0 < b.ifd_off[0] as usize + 2000).collect();
            let i = ch.choose(fs.len());
            let reach = if thorough { 24 } else { 8 };
            let j = i + 1 + ch.choose((fs.len() - i).min(reach));
            if j >= fs.len() {
                return Ok(());
            }
            let v = ch.pick(&alphabet(fs[i].1, b.bytes.len(), false));
            let w = ch.pick(&alphabet(fs[j].1, b.bytes.len(), false));
            let mut bytes = b.bytes.clone();
            put(&mut bytes, b.fmt, fs[i], v);
            put(&mut bytes, b.fmt, fs[j], w);
            let p = [Path::Clamp, Path::Error, Path::CachedSmall][(i + j) % 3];
            ch.note(|| format!("fields at {} and {} of {:?} become {v:#x} and {w:#x}, {p:?}", fs[i].0, fs[j].0, b.fmt));
            attempt(ch, bytes, p)
        }));
    }
    bodies.push(body("every tag with every type, count and value", move |ch| {
        let fmt = FMTS[if thorough { ch.choose(4) } else { ch.pick(&[0, 3]) }];
        // the entry under test replaces any entry of the same tag
        let tags: [u16; 44] = [
            254, 256, 257, 258, 259, 262, 269, 270, 273, 274, 277, 278, 279, 280, 281, 282, 283, 284, 296, 305, 306, 315, 316, 317, 320, 322, 323, 324,
            325, 338, 339, 340, 341, 347, 33432, 33550, 33922, 34264, 34735, 34736, 34737, 42112, 42113, 0xC5F2,
        ];
        let tag = ch.pick(&tags);
        let ty = ch.choose(20) as u16;
        let count = ch.pick(&[0u64, 1, 2, 3, 4, 5, 8, 9, 64, 1000, 0x4000_0000, u32::MAX as u64, 1 << 61, u64::MAX]);
        if !fmt.big && count > u32::MAX as u64 {
            return Ok(());
        }
        let data: [&[u8]; 6] = [&[0; 8], &[1, 0, 0, 0, 0, 0, 0, 0], &[0, 0, 0, 1, 0, 0, 0, 1], &[0xff; 8], &[8, 0, 0, 0, 0, 0, 0, 0], &[0, 8, 0, 8, 0, 8, 0, 16]];
        let val = ch.pick(&data)[..fmt.off_size() as usize].to_vec();
        let mut es = base();
        es.extend([
            e(322, V::Short(vec![2])),
            e(323, V::Short(vec![2])),
            e(324, V::Short(vec![8])),
            e(325, V::Short(vec![4])),
            e(34735, V::Short(vec![1, 1, 0, 1, 1024, 0, 1, 1])),
        ]);
        es.retain(|x| x.tag != tag);
        es.push(e(tag, V::Raw(ty, count, val.clone())));
        es.sort_by_key(|x| x.tag);
        let spec = FileSpec::new(fmt, vec![IfdSpec { entries: es, ..Default::default() }]);
        let b = spec.build();
        let p = ch.pick(if thorough { &PATHS } else { &PATHS[..2] });
        ch.note(|| format!("{fmt:?}: tag {tag} type {ty} count {count} field {val:x?}, {p:?}"));
        attempt(ch, b.bytes, p)
    }));
    {
        let files = files.clone();
        bodies.push(body("single directories anywhere in the file", move |ch| {
            let b = &files[ch.choose(4)][ch.choose(KINDS)];
            let big = ch.flag();
            let be = ch.flag();
            let offs: Vec<u64> = (0..b.bytes.len() as u64 + 3).chain([u32::MAX as u64, 1 << 63, u64::MAX - 20, u64::MAX - 7, u64::MAX - 1, u64::MAX]).collect();
            let o = ch.pick(&offs);
            let cached = ch.flag();
            let fmt = Fmt { be, big };
            let m = Mem::new(b.bytes.clone()).limit(200_000);
            ch.note(|| format!("{fmt:?} directory at {o} of {:?}, cached {cached}", b.fmt));
            fn go<F: MetadataFetch>(ch: &mut Ch, f: &F, o: u64, fmt: Fmt, m: &Mem) -> Result<(), String> {
                let Ok(r) = block_on(ImageFileDirectoryReader::open(f, o, fmt.big, fmt.endianness())) else {
                    ch.step(o);
                    return Ok(());
                };
                if let Ok(d) = block_on(r.read(f)) {
                    let n = touch(&d);
                    ch.step(n);
                    tiles(&d, m)?;
                }
                ch.observe(block_on(r.finish(f)).ok());
                Ok(())
            }
            if cached {
                go(ch, &ReadaheadMetadataCache::new(m.clone()).with_initial_size(64), o, fmt, &m)?;
            } else {
                go(ch, &m, o, fmt, &m)?;
            }
            mem_bound(b.bytes.len())
        }));
    }
    bodies.push(body("every short file over a small alphabet", move |ch| {
        // after a valid header, the directory itself is arbitrary
        let fmt = FMTS[ch.choose(4)];
        let mut bytes = fmt.header(fmt.header_size());
        let words = ch.choose(t.sel(4, 5));
        for _ in 0..words {
            let w = ch.pick(&[0u64, 1, 2, 4, 256, 8, 12, u64::MAX]);
            if fmt.big && ch.flag() {
                bytes.extend(fmt.u64(w));
            } else {
                bytes.extend(fmt.u16(w as u16));
            }
        }
        let p = ch.pick(&[Path::Clamp, Path::Error]);
        ch.note(|| format!("{bytes:x?} {p:?}"));
        attempt(ch, bytes, p)
    }));
    bodies.push(body("chains of overlapping directories end", move |ch| {
        // directories without entries, one pointer apart: each pointer is also the count of another
        let fmt = FMTS[ch.choose(4)];
        let n = ch.choose(30) as u64 + 1;
        // rings, and chains whose last directory points back to any of them
        let ring = ch.flag();
        let step = if ring { ch.choose(3) as u64 } else { ch.choose(n as usize) as u64 };
        let mut bytes = fmt.header(fmt.header_size());
        let start = bytes.len() as u64;
        for i in 0..n {
            let d = crate::tiffw::write_ifd(fmt, &base(), |_| None, start + (if ring { (i + step) % n } else if i + 1 == n { step } else { i + 1 }) * fmt.ifd_size(base().len() as u64));
            bytes.extend(d);
        }
        let m = Mem::new(bytes).limit(100_000);
        let mut r = block_on(TiffMetadataReader::try_open(&m)).map_err(|e| e.to_string())?;
        let all = block_on(r.read_all_ifds(&m));
        ch.step((fmt, n, ring, step));
        ensure!(all.is_err(), "an endless chain was accepted");
        Ok(())
    }));
    (
        bodies,
        about(
            "4 files (tiled, geographic, stripped with texts and rationals, two planar directories) in both layouts and byte orders: every value of every metadata byte; every truncation; boundary values of every field through 7 readers; pairs of nearby fields; every known tag with field types 0-19 x 14 counts x 6 values; directories opened at every offset; each with every accessor, tile ranges in and out of the grid, fetches and decodes",
            &["an allocation is out of proportion above 16 MiB + 128 bytes per byte of the file", "more than 200000 requests for a file of a kilobyte are endless"],
        ),
    )
}
