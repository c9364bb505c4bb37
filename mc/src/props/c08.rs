//! C08: tag values read back as written.
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{ImageFileDirectoryReader, MetadataFetch};
use async_tiff::tags::Tag;
use bytes::Bytes;

use super::{about, base, open, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::block_on;
use crate::sources::{Eof, Mem, MetaOnly};
use crate::tiffw::{e, mix, same, write_ifd, Built, Entry, FileSpec, Fmt, IfdSpec, FMTS, LAYOUTS, V};
use crate::Tier;

/// A value of the field type with `n` elements; the k-th sequence over the extremes of the type.
fn value(ty: u16, n: usize, k: u64) -> V {
    let r = |i: usize, alpha: &[u64]| -> u64 {
        let h = mix(k.wrapping_mul(1000) + i as u64);
        // position-dependent values, so that an order can be told
        match (i as u64 + k) % 3 {
            0 => alpha[(h % alpha.len() as u64) as usize],
            _ => h >> 3,
        }
    };
    let m = u64::MAX;
    let a8 = [0, 0xff, 0x80, 0x7f, 1];
    let a16 = [0, 0xffff, 0x8000, 0x7fff, 0x0102];
    let a32 = [0, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x0102_0304, 0x7f80_0001, 0xffc0_0000];
    let a64 = [0, m, 1 << 63, m >> 1, 0x0102_0304_0506_0708, 0x7ff0_0000_0000_0001, 1 << 32];
    let it = 0..n;
    match ty {
        1 => V::Byte(it.map(|i| r(i, &a8) as u8).collect()),
        2 => V::Ascii(it.map(|i| if i + 1 == n { 0 } else { b'a' + (r(i, &a8) % 26) as u8 }).collect()),
        3 => V::Short(it.map(|i| r(i, &a16) as u16).collect()),
        4 => V::Long(it.map(|i| r(i, &a32) as u32).collect()),
        5 => V::Rational(it.map(|i| (r(i, &a32) as u32, r(i + 500, &a32) as u32)).collect()),
        6 => V::SByte(it.map(|i| r(i, &a8) as i8).collect()),
        7 => V::Undefined(it.map(|i| r(i, &a8) as u8).collect()),
        8 => V::SShort(it.map(|i| r(i, &a16) as i16).collect()),
        9 => V::SLong(it.map(|i| r(i, &a32) as i32).collect()),
        10 => V::SRational(it.map(|i| (r(i, &a32) as i32, r(i + 500, &a32) as i32)).collect()),
        11 => V::Float(it.map(|i| r(i, &a32) as u32).collect()),
        12 => V::Double(it.map(|i| r(i, &a64)).collect()),
        13 => V::Ifd(it.map(|i| r(i, &a32) as u32).collect()),
        16 => V::Long8(it.map(|i| r(i, &a64)).collect()),
        17 => V::SLong8(it.map(|i| r(i, &a64) as i64).collect()),
        18 => V::Ifd8(it.map(|i| r(i, &a64)).collect()),
        _ => unreachable!(),
    }
}
pub const TYPES: [u16; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18];

/// Read the file whole and entry by entry and compare every private entry.
fn check<F: MetadataFetch>(ch: &mut Ch, f: &F, b: &Built) -> Result<(), String> {
    let t = open(f).map_err(|e| format!("a well-formed file is refused: {e}"))?;
    let other = t.ifds()[0].other_tags();
    let mut n = 0;
    for x in b.entries[0].iter().filter(|x| x.tag >= 65000) {
        n += 1;
        let tag = Tag::from_u16_exhaustive(x.tag);
        let want = x.val.expect();
        match other.get(&tag) {
            None => return Err(format!("entry {} ({:?}) is missing", x.tag, x.val)),
            Some(g) => ensure!(same(g, &want), "entry {:?} was read as {g:?}", x.val),
        }
        ch.observe(format!("{want:?}"));
    }
    ensure!(other.len() == n, "{} other tags instead of {n}: {other:?}", other.len());
    let d = block_on(ImageFileDirectoryReader::open(f, b.ifd_off[0], b.fmt.big, b.fmt.endianness()))
        .map_err(|e| format!("directory: {e}"))?;
    for (i, x) in b.entries[0].iter().enumerate() {
        let (tag, g) = block_on(d.read_tag(f, i as u64)).map_err(|e| format!("entry {i} ({:?}): {e}", x.val))?;
        ensure!(tag.to_u16() == x.tag, "entry {i} has tag {} instead of {}", tag.to_u16(), x.tag);
        ensure!(same(&g, &x.val.expect()), "entry {:?} was read alone as {g:?}", x.val);
        ch.step((b.fmt, x.val.ty(), x.val.count(), i));
    }
    Ok(())
}

fn through(ch: &mut Ch, how: usize, bytes: Vec<u8>, b: &Built) -> Result<(), String> {
    match how {
        0 => check(ch, &Mem::new(bytes).eof(Eof::Error), b),
        1 => check(ch, &ReadaheadMetadataCache::new(MetaOnly(Mem::new(bytes))).with_initial_size(8), b),
        2 => check(ch, &ReadaheadMetadataCache::new(Mem::new(bytes)), b),
        _ => check(ch, &MetaOnly(Mem::new(bytes).pending(true)), b),
    }
}

fn file(fmt: Fmt, vals: Vec<V>) -> FileSpec {
    let mut entries = base();
    for (i, v) in vals.into_iter().enumerate() {
        entries.push(e(65000 + i as u16, v));
    }
    FileSpec::new(fmt, vec![IfdSpec { entries, ..Default::default() }])
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let counts: Vec<usize> = t.sel(
        vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17],
        (0..34).collect(),
    );
    let nc = counts.len();
    let bodies = vec![
        body("every type, count, format, layout and source", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let ty = ch.pick(&TYPES);
            let n = ch.pick(&counts);
            let k = ch.choose(t.sel(2, 6)) as u64;
            let layout = ch.pick(&LAYOUTS);
            let (align, gap) = ch.pick(&[(2u64, 0u64), (1, 1), (8, 3)]);
            let mut s = file(fmt, vec![value(ty, n, k), value(3, 3, 9), value(ty, n, k + 50)]).layout(layout);
            s.align = align;
            s.gap = gap;
            let b = s.build();
            ch.note(|| format!("{fmt:?} {layout:?} {:?}", &b.entries[0][5..]));
            let how = ch.choose(t.sel(2, 4));
            through(ch, how, b.bytes.clone(), &b)
        }),
        body("every pair of types side by side", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let (x, y) = (ch.pick(&TYPES), ch.pick(&TYPES));
            let (n, m) = (ch.choose(t.sel(5, 10)), ch.choose(t.sel(5, 10)));
            let b = file(fmt, vec![value(x, n, 1), value(y, m, 2)]).build();
            ch.note(|| format!("{fmt:?} {:?}", &b.entries[0][5..]));
            let how = ch.choose(2) * 3;
            through(ch, how, b.bytes.clone(), &b)
        }),
        body("single values over the extremes of each type", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let a: [u64; 12] = [0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0xffff, 0x8000_0000, 0xffff_ffff, 0x7ff8_0000_0000_0001, 1 << 63, u64::MAX];
            let (v, w) = (ch.pick(&a), ch.pick(&a));
            let vals = vec![
                V::Byte(vec![v as u8]),
                V::Short(vec![v as u16]),
                V::Short(vec![v as u16, w as u16]),
                V::Long(vec![v as u32]),
                V::Long(vec![v as u32, w as u32]),
                V::Rational(vec![(v as u32, w as u32)]),
                V::SByte(vec![v as i8]),
                V::SByte(vec![v as i8, w as i8]),
                V::Undefined(vec![v as u8]),
                V::SShort(vec![v as i16, w as i16]),
                V::SLong(vec![v as i32]),
                V::SRational(vec![(v as i32, w as i32)]),
                V::Float(vec![v as u32]),
                V::Float(vec![v as u32, w as u32]),
                V::Double(vec![v]),
                V::Double(vec![v, w]),
                V::Ifd(vec![v as u32]),
                V::Long8(vec![v]),
                V::SLong8(vec![v as i64]),
                V::SLong8(vec![v as i64, w as i64]),
                V::Ifd8(vec![v]),
            ];
            let b = file(fmt, vals).build();
            ch.note(|| format!("{fmt:?} {v:x} {w:x}"));
            through(ch, 0, b.bytes.clone(), &b)
        }),
        body("text over a small alphabet", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let n = ch.choose(t.sel(6, 8));
            let s: Vec<u8> = (0..n)
                .map(|_| ch.pick(&[b'x', 0, 0xc3, 0xa9][..]))
                .collect();
            let mut long = b"prefix longer than a field ".to_vec();
            long.extend(&s);
            let b = file(fmt, vec![V::Ascii(s), V::Ascii(long)]).build();
            ch.note(|| format!("{fmt:?} {:?}", &b.entries[0][5..]));
            through(ch, 0, b.bytes.clone(), &b)
        }),
        body("long lists", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let ty = ch.pick(&TYPES);
            let n = ch.pick(&[255, 256, 257, 1000, 4095, 4096, 4097, 8192, 20_000][..t.sel(7, 9)]);
            let b = file(fmt, vec![value(ty, n, 3)]).build();
            ch.note(|| format!("{fmt:?} type {ty} x {n}"));
            let how = ch.choose(2) * 2;
            through(ch, how, b.bytes.clone(), &b)
        }),
        body("very long lists", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let ty = ch.pick(&TYPES);
            let n = ch.pick(&[32767usize, 32769, 65535, 65536, 65537, 70_000, 131_073, 500_001][..t.sel(6, 8)]);
            let b = file(fmt, vec![value(ty, n, 3), value(3, 3, 9)]).build();
            ch.note(|| format!("{fmt:?} type {ty} x {n}"));
            let how = ch.choose(2) * 2;
            through(ch, how, b.bytes.clone(), &b).map_err(|e| e.chars().take(400).collect())
        }),
        body("values and directories far into the file", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let far: &[u64] = if fmt.big {
                &[1 << 31, (1 << 32) - 8, 1 << 32, (1 << 40) + 3, (1 << 63) - 64, (1 << 63) + 5, u64::MAX - 4096]
            } else {
                &[1 << 16, (1 << 31) - 8, 1 << 31, (1 << 32) - 4096]
            };
            let (vo, dofs) = (ch.pick(far), ch.pick(far));
            let ty = ch.pick(&TYPES);
            let n = ch.pick(&[1usize, 3, 9, 12]);
            let mut es = base();
            es.push(e(65000, value(ty, n, 5)));
            es.push(e(65001, V::Short(vec![7])));
            let d = dofs.wrapping_add(1024).min(if fmt.big { u64::MAX - 2048 } else { u32::MAX as u64 - 2048 });
            let dir = write_ifd(fmt, &es, |_| Some(vo), 0);
            let val = es.iter().find(|x| x.tag == 65000).unwrap().val.bytes(fmt);
            if vo < d + dir.len() as u64 && d < vo + val.len() as u64 {
                return Ok(());
            }
            let mut segs: Vec<(u64, Bytes)> = vec![(0, fmt.header(d).into()), (d, dir.into())];
            if val.len() as u64 > fmt.off_size() {
                segs.push((vo, val.into()));
            }
            let mem = Mem::sparse(segs, u64::MAX).eof(Eof::Error);
            let b = Built { fmt, bytes: vec![], ifd_off: vec![d], blocks: vec![], vals: vec![], meta_end: 0, entries: vec![es] };
            ch.note(|| format!("{fmt:?} value at {vo}, directory at {d}: {:?}", b.entries[0][5]));
            check(ch, &mem, &b)
        }),
        body("shared and overlapping value bytes", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let ty = ch.pick(&TYPES);
            let n = ch.pick(&[3usize, 5, 9, 16]);
            // two entries point at the same bytes; one may point one element further
            let v = value(ty, n, 8);
            let raw = v.bytes(fmt);
            let sz = raw.len() / n;
            let shift = ch.choose(2);
            let m = n - shift;
            let second = V::Raw(ty, m as u64, raw[shift * sz..].to_vec());
            let mut es: Vec<Entry> = base();
            es.push(e(65000, v.clone()));
            es.push(e(65001, second.clone()));
            let d = fmt.header_size();
            let vo = d + fmt.ifd_size(es.len() as u64);
            let k = es.len();
            let dir = write_ifd(fmt, &es, |j| Some(if j == k - 1 { vo + (shift * sz) as u64 } else { vo }), 0);
            let mut bytes = fmt.header(d);
            bytes.extend(dir);
            bytes.extend(&raw);
            // expectation of the shifted value
            let w = match &v {
                V::Byte(x) => V::Byte(x[shift..].to_vec()),
                V::Ascii(x) => V::Ascii(x[shift..].to_vec()),
                V::Short(x) => V::Short(x[shift..].to_vec()),
                V::Long(x) => V::Long(x[shift..].to_vec()),
                V::Rational(x) => V::Rational(x[shift..].to_vec()),
                V::SByte(x) => V::SByte(x[shift..].to_vec()),
                V::Undefined(x) => V::Undefined(x[shift..].to_vec()),
                V::SShort(x) => V::SShort(x[shift..].to_vec()),
                V::SLong(x) => V::SLong(x[shift..].to_vec()),
                V::SRational(x) => V::SRational(x[shift..].to_vec()),
                V::Float(x) => V::Float(x[shift..].to_vec()),
                V::Double(x) => V::Double(x[shift..].to_vec()),
                V::Ifd(x) => V::Ifd(x[shift..].to_vec()),
                V::Long8(x) => V::Long8(x[shift..].to_vec()),
                V::SLong8(x) => V::SLong8(x[shift..].to_vec()),
                V::Ifd8(x) => V::Ifd8(x[shift..].to_vec()),
                V::Raw(..) => unreachable!(),
            };
            es[k - 1].val = w;
            let b = Built { fmt, bytes: bytes.clone(), ifd_off: vec![d], blocks: vec![], vals: vec![], meta_end: 0, entries: vec![es] };
            ch.note(|| format!("{fmt:?} {v:?} shifted by {shift}"));
            through(ch, 0, bytes, &b)
        }),
    ];
    (
        bodies,
        about(
            format!("16 field types x {nc} counts from 0 up x 4 formats x 5 layouts x 3 alignments x sources with and without cache; all pairs of types; extremes of every type; all texts of up to {} bytes over a 4-letter alphabet with NUL and multi-byte characters; lists of up to {} elements; offsets up to 2^64; shared and overlapping value bytes; each entry read with its directory and alone", t.sel(5, 7), t.sel(70_000, 500_001)),
            &["element values follow a fixed position-dependent pattern rich in extremes", "text that is not UTF-8 is compared after replacing invalid sequences"],
        ),
    )
}
