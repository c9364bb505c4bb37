//! C09: headers and the chain of directories.
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::tags::Tag;
use async_tiff::ImageFileDirectory;
use bytes::Bytes;

use super::{about, base_w, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::block_on;
use crate::sources::{Eof, Mem};
use crate::tiffw::{e, same, write_ifd, Entry, FileSpec, Fmt, IfdSpec, FMTS, LAYOUTS, V};
use crate::Tier;

fn try_header(ch: &mut Ch, h: &[u8], want: Option<(Fmt, u64)>) -> Result<(), String> {
    for eof in [Eof::Clamp, Eof::Error] {
        let m = Mem::new(h.to_vec()).eof(eof);
        let r = block_on(TiffMetadataReader::try_open(&m));
        match (&r, want) {
            (Ok(r), Some((f, o))) => {
                ensure!(
                    r.endianness() == f.endianness() && r.bigtiff() == f.big,
                    "header {h:x?} reported as {:?} bigtiff={}",
                    r.endianness(),
                    r.bigtiff()
                );
                ensure!(
                    r.next_ifd_offset() == Some(o) && r.has_next_ifd(),
                    "first directory of {h:x?} at {:?} instead of {o}",
                    r.next_ifd_offset()
                );
            }
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("the invalid header {h:x?} was accepted")),
            (Err(e), Some(_)) => return Err(format!("the valid header {h:x?} was refused: {e}")),
        }
    }
    ch.step(h);
    ch.observe(want.is_some());
    Ok(())
}

/// What the chain must yield: directories told apart by their width.
fn widths(v: &[ImageFileDirectory]) -> Vec<u32> {
    v.iter().map(|i| i.image_width()).collect()
}

fn walk(ch: &mut Ch, mem: &Mem, fmt: Fmt, offs: &[u64], want: &[u32], loops: bool) -> Result<(), String> {
    // step by step
    let mut r = block_on(TiffMetadataReader::try_open(mem)).map_err(|e| format!("refused: {e}"))?;
    ensure!(r.endianness() == fmt.endianness() && r.bigtiff() == fmt.big, "wrong format reported");
    for (k, w) in want.iter().enumerate() {
        ensure!(r.has_next_ifd(), "directory {k} of {} is not announced", want.len());
        ensure!(r.next_ifd_offset() == Some(offs[k]), "directory {k} announced at {:?} instead of {}", r.next_ifd_offset(), offs[k]);
        let d = block_on(r.read_next_ifd(mem)).map_err(|e| format!("directory {k}: {e}"))?;
        let Some(d) = d else { return Err(format!("directory {k} is missing")) };
        ensure!(d.image_width() == *w, "directory {k} is directory {} of the file", d.image_width());
        ch.step((k, w, offs.len()));
    }
    for again in 0..2 {
        let end = block_on(r.read_next_ifd(mem));
        if loops {
            ensure!(end.is_err(), "the loop was not noticed (attempt {again}): {:?}", end.map(|d| d.map(|d| d.image_width())));
        } else {
            ensure!(!r.has_next_ifd() && r.next_ifd_offset().is_none(), "a directory is announced after the last one");
            ensure!(matches!(end, Ok(None)), "reading on after the last directory");
        }
    }
    // all at once
    let mut r = block_on(TiffMetadataReader::try_open(mem)).map_err(|e| format!("refused: {e}"))?;
    let all = block_on(r.read_all_ifds(mem));
    if loops {
        ensure!(all.is_err(), "the loop was not noticed: {:?}", all.map(|v| widths(&v)));
    } else {
        let all = all.map_err(|e| format!("all at once: {e}"))?;
        ensure!(widths(&all) == want, "all at once: {:?} instead of {want:?}", widths(&all));
        // some one by one, the rest at once
        for k in 0..=want.len() {
            let mut r = block_on(TiffMetadataReader::try_open(mem)).map_err(|e| format!("refused: {e}"))?;
            let mut v = vec![];
            for _ in 0..k {
                v.extend(block_on(r.read_next_ifd(mem)).map_err(|e| e.to_string())?);
            }
            v.extend(block_on(r.read_all_ifds(mem)).map_err(|e| e.to_string())?);
            ensure!(v == all, "{k} one by one, then the rest: {:?}", widths(&v));
        }
        let mut r = block_on(TiffMetadataReader::try_open(mem)).map_err(|e| format!("refused: {e}"))?;
        let t = block_on(r.read(mem)).map_err(|e| e.to_string())?;
        ensure!(t.ifds() == &all[..] && t.endianness() == fmt.endianness(), "read() gives another result than read_all_ifds()");
    }
    ch.observe((want, loops));
    Ok(())
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let maxn = t.sel(5usize, 6);
    let bodies = vec![
        body("every byte-order mark", |ch| {
            let m = ch.choose(1 << 16) as u16;
            let big = ch.flag();
            let [a, b] = m.to_be_bytes();
            // the rest of the header in both byte orders
            let f = Fmt { be: ch.flag(), big };
            let mut h = f.header(77);
            (h[0], h[1]) = (a, b);
            let own = if f.be { b"MM" } else { b"II" };
            let ok = h[..2] == *own;
            // the other mark makes the version 0x2a00 or 0x2b00
            try_header(ch, &h, ok.then_some((f, 77)))
        }),
        body("every version", |ch| {
            let v = ch.choose(1 << 16) as u16;
            let be = ch.flag();
            let f = Fmt { be, big: v == 43 };
            let mut h = f.header(0x0102);
            h[2..4].copy_from_slice(&f.u16(v));
            h.extend([0; 8]);
            try_header(ch, &h, (v == 42 || v == 43).then_some((f, 0x0102)))
        }),
        body("every offset size and reserved field of BigTIFF", |ch| {
            let v = ch.choose(1 << 16) as u16;
            let f = Fmt { be: ch.flag(), big: true };
            let mut h = f.header(99);
            let second = ch.flag();
            if second {
                h[6..8].copy_from_slice(&f.u16(v));
            } else {
                h[4..6].copy_from_slice(&f.u16(v));
            }
            let ok = if second { v == 0 } else { v == 8 };
            try_header(ch, &h, ok.then_some((f, 99)))
        }),
        body("truncated headers and first offsets", |ch| {
            let f = FMTS[ch.choose(4)];
            let offs: &[u64] = if f.big { &[16, 0x0102030405060708, 1 << 32, u64::MAX] } else { &[8, 0x01020304, u32::MAX as u64] };
            let o = ch.pick(offs);
            let h = f.header(o);
            let n = ch.choose(h.len() + 1);
            try_header(ch, &h[..n], (n == h.len()).then_some((f, o)))
        }),
        body("chains in every order of positions, with and without loops", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let n = ch.choose(maxn) + 1;
            let perms = permutations(n);
            // slot of each directory
            let slot = ch.pick(&perms);
            // where the last directory points: 0 = end, k = back to directory k-1
            let back = ch.choose(n + 1);
            let gap = ch.choose(2) as u64 * 7;
            let es: Vec<Vec<Entry>> = (0..n)
                .map(|i| {
                    let mut v = base_w(100 + i as u32);
                    v.extend((0..i).map(|k| e(65000 + k as u16, V::Short(vec![k as u16]))));
                    v
                })
                .collect();
            let mut pos = vec![0; n];
            let mut at = fmt.header_size();
            for s in 0..n {
                let i = slot.iter().position(|x| *x == s).unwrap();
                at += gap;
                pos[i] = at;
                at += fmt.ifd_size(es[i].len() as u64);
            }
            let mut bytes = vec![0x5a; at as usize];
            let h = fmt.header(pos[0]);
            bytes[..h.len()].copy_from_slice(&h);
            for i in 0..n {
                let next = if i + 1 < n {
                    pos[i + 1]
                } else if back == 0 {
                    0
                } else {
                    pos[back - 1]
                };
                let d = write_ifd(fmt, &es[i], |_| None, next);
                bytes[pos[i] as usize..pos[i] as usize + d.len()].copy_from_slice(&d);
            }
            let want: Vec<u32> = (0..n).map(|i| 100 + i as u32).collect();
            ch.note(|| format!("{fmt:?}: {n} directories at {pos:?}, the last one points at {}", if back == 0 { 0 } else { pos[back - 1] }));
            walk(ch, &Mem::new(bytes).eof(Eof::Error), fmt, &pos, &want, back > 0)
        }),
        body("chains with values, every layout", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let n = ch.choose(4) + 1;
            let layout = ch.pick(&LAYOUTS);
            let ifds: Vec<IfdSpec> = (0..n)
                .map(|i| {
                    let mut v = base_w(100 + i as u32);
                    v.push(e(305, V::ascii("a text that is stored out of line")));
                    v.push(e(65001, V::Double(vec![i as u64; i + 1])));
                    IfdSpec { entries: v, ..Default::default() }
                })
                .collect();
            let mut s = FileSpec::new(fmt, ifds).layout(layout);
            s.gap = ch.choose(3) as u64;
            s.align = 1;
            let b = s.build();
            let want: Vec<u32> = (0..n).map(|i| 100 + i as u32).collect();
            ch.note(|| format!("{fmt:?} {layout:?} {:?}", b.ifd_off));
            walk(ch, &Mem::new(b.bytes).eof(Eof::Error), fmt, &b.ifd_off, &want, false)
        }),
        body("long chains", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let n = ch.pick(&[16usize, 100, 255, 256, 257, 300, 1025, 2000, 5000, 70_000][..t.sel(8, 10)]);
            let rev = ch.flag();
            let loops = ch.choose(3);
            let sz = fmt.ifd_size(5);
            let pos: Vec<u64> = (0..n as u64)
                .map(|i| fmt.header_size() + sz * if rev { n as u64 - 1 - i } else { i })
                .collect();
            let mut bytes = vec![0; (fmt.header_size() + sz * n as u64) as usize];
            let h = fmt.header(pos[0]);
            bytes[..h.len()].copy_from_slice(&h);
            for i in 0..n {
                let last = [0, pos[0], pos[n / 2]][loops];
                let d = write_ifd(fmt, &base_w(i as u32 + 1), |_| None, pos.get(i + 1).copied().unwrap_or(last));
                bytes[pos[i] as usize..][..d.len()].copy_from_slice(&d);
            }
            let want: Vec<u32> = (1..=n as u32).collect();
            ch.note(|| format!("{fmt:?} {n} directories, reversed {rev}, end {loops}"));
            // many prefixes: the cheap part of the walk only
            let mem = Mem::new(bytes).eof(Eof::Error);
            let mut r = block_on(TiffMetadataReader::try_open(&mem)).map_err(|e| e.to_string())?;
            let all = block_on(r.read_all_ifds(&mem));
            ch.step((fmt, n, rev, loops));
            if loops > 0 {
                ensure!(all.is_err(), "the loop was not noticed");
            } else {
                let v = widths(&all.map_err(|e| e.to_string())?);
                ensure!(v == want, "{v:?}");
            }
            Ok(())
        }),
        body("directories of many entries", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let n = ch.pick(&[127usize, 128, 255, 256, 257, 258, 511, 512, 1000, 4097, 32767, 32768, 65534, 65535]);
            // two directories; the mandatory entries come first, last or in the middle of the first
            let at = ch.choose(3);
            let mut es: Vec<Entry> = (0..n - 5).map(|i| e(if i < 64000 { 1000 + i as u16 } else { 500 + i as u16 % 100 }, V::Short(vec![i as u16]))).collect();
            es.retain(|x| Tag::from_u16(x.tag).is_none());
            let fill = es.len();
            // known tags among the numbers are replaced by repetitions of one private tag
            es.extend((fill..n - 5).map(|_| e(999, V::Short(vec![9]))));
            let k = [0, es.len() / 2, es.len()][at];
            es.splice(k..k, base_w(77));
            let mut bytes = fmt.header(fmt.header_size());
            let d0 = fmt.header_size();
            let d1 = d0 + fmt.ifd_size(es.len() as u64);
            bytes.extend(write_ifd(fmt, &es, |_| None, d1));
            bytes.extend(write_ifd(fmt, &base_w(78), |_| None, 0));
            ch.note(|| format!("{fmt:?} {n} entries, the mandatory ones at {k}"));
            ch.step((fmt, n, at));
            let mem = Mem::new(bytes).eof(Eof::Error);
            let mut r = block_on(TiffMetadataReader::try_open(&mem)).map_err(|e| e.to_string())?;
            let all = block_on(r.read_all_ifds(&mem)).map_err(|e| format!("{n} entries: {e}"))?;
            ensure!(widths(&all) == [77, 78], "{n} entries: {:?}", widths(&all));
            let other = all[0].other_tags();
            for x in &es {
                if x.tag >= 1000 && Tag::from_u16(x.tag).is_none() && x.tag != 999 {
                    let g = other.get(&Tag::from_u16_exhaustive(x.tag));
                    ensure!(g.is_some_and(|g| same(g, &x.val.expect())) || x.tag < 1000, "{n} entries: tag {} is {g:?}", x.tag);
                }
            }
            ch.observe((n, other.len()));
            Ok(())
        }),
        body("directories far apart", move |ch| {
            let be = ch.flag();
            let fmt = Fmt { be, big: ch.flag() };
            let far: &[u64] = if fmt.big {
                &[16, 65535, 16 + (1 << 17), (1 << 31) - 1, (1 << 31) + 512, u32::MAX as u64, (1 << 32) + 512,  (1 << 32) + 1024, (1 << 32) + 65535, 1 << 62, (1 << 63) + 16, u64::MAX - 1000]
            } else {
                &[8, 8 + 256, 1000, 8 + (1 << 16), 1 << 31, (1 << 31) + 512, u32::MAX as u64 - 1000]
            };
            let i = ch.choose(far.len());
            let j = (i + 1 + ch.choose(far.len() - 1)) % far.len();
            let d0 = write_ifd(fmt, &base_w(1), |_| None, far[j]);
            let d1 = write_ifd(fmt, &base_w(2), |_| None, 0);
            let segs: Vec<(u64, Bytes)> = vec![(0, fmt.header(far[i]).into()), (far[i], d0.into()), (far[j], d1.into())];
            ch.note(|| format!("{fmt:?} directories at {} and {}", far[i], far[j]));
            walk(ch, &Mem::sparse(segs, u64::MAX).eof(Eof::Error), fmt, &[far[i], far[j]], &[1, 2], false)
        }),
        body("a last pointer beyond the file is an error", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let n = ch.choose(3) + 1;
            let size = fmt.ifd_size(base_w(1).len() as u64);
            let len = fmt.header_size() + n as u64 * size;
            let max = if fmt.big { u64::MAX } else { u32::MAX as u64 };
            let p = ch.pick(&[len, len + 1, len + 2, 65535, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, 1 << 62, 1 << 63, u64::MAX - 8, u64::MAX]);
            if p > max {
                return Ok(());
            }
            let mut bytes = fmt.header(fmt.header_size());
            for i in 0..n {
                let next = if i + 1 < n { bytes.len() as u64 + size } else { p };
                bytes.extend(write_ifd(fmt, &base_w(100 + i as u32), |_| None, next));
            }
            let mem = Mem::new(bytes).eof(ch.pick(&[Eof::Clamp, Eof::Error])).limit(1000);
            ch.note(|| format!("{fmt:?}: {n} directories in {len} bytes, the last one points at {p}"));
            ch.step((fmt, n, p));
            let mut r = block_on(TiffMetadataReader::try_open(&mem)).map_err(|e| e.to_string())?;
            for i in 0..n {
                let d = block_on(r.read_next_ifd(&mem)).map_err(|e| format!("directory {i}: {e}"))?;
                ensure!(d.is_some_and(|d| d.image_width() == 100 + i as u32), "directory {i} is missing");
            }
            ensure!(r.has_next_ifd() && r.next_ifd_offset() == Some(p), "the last pointer is reported as {:?}", r.next_ifd_offset());
            ensure!(block_on(r.read_next_ifd(&mem)).is_err(), "there is no directory at {p}, and no error");
            let mut r = block_on(TiffMetadataReader::try_open(&mem)).map_err(|e| e.to_string())?;
            ensure!(block_on(r.read_all_ifds(&mem)).is_err(), "there is no directory at {p}, and no error");
            Ok(())
        }),
        body("entries of unknown field type are skipped", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            // every unknown code once; some with every count, tag and position
            let (ty, count, tag, pos) = if ch.flag() {
                let known = |t: u16| (1..=13).contains(&t) || (16..=18).contains(&t);
                let types: Vec<u16> = (0..=u16::MAX).filter(|t| !known(*t)).collect();
                (ch.pick(&types), 1, 256, 5)
            } else {
                let types = [0u16, 14, 15, 19, 20, 128, 255, 256, 0x7fff, 0xffff];
                (ch.pick(&types), ch.pick(&[0u64, 1, 4, 1000, u32::MAX as u64]), ch.pick(&[65000u16, 256, 259, 339]), ch.choose(6))
            };
            let mut es = base_w(321);
            // an entry that overrides nothing, at every position
            let mut b = vec![0xfe; fmt.off_size() as usize];
            b[0] = 1;
            let x = e(tag, V::Raw(ty, count, b));
            if tag == 256 {
                // the directory has its own width in another entry; the unknown one is skipped
                es.insert(pos, x);
            } else {
                es.insert(pos, x);
            }
            es.push(e(65001, V::Short(vec![5])));
            let dir = write_ifd(fmt, &es, |_| None, 0);
            let mut bytes = fmt.header(fmt.header_size());
            bytes.extend(dir);
            let mem = Mem::new(bytes).eof(Eof::Error);
            ch.note(|| format!("{fmt:?} {es:?}"));
            ch.step((fmt, ty, count, tag, pos));
            let mut r = block_on(TiffMetadataReader::try_open(&mem)).map_err(|e| e.to_string())?;
            let all = block_on(r.read_all_ifds(&mem)).map_err(|e| format!("an entry of field type {ty} was not skipped: {e}"))?;
            ensure!(all.len() == 1 && all[0].image_width() == 321, "wrong directory");
            let d = &all[0];
            ensure!(d.compression().to_u16() == 1 && d.other_tags().len() == 1, "the skipped entry left a trace: {:?} {:?}", d.compression(), d.other_tags());
            Ok(())
        }),
        body("empty directories and files are errors or empty, not loops", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let dir = write_ifd(fmt, &[], |_| None, 0);
            let mut bytes = fmt.header(fmt.header_size());
            bytes.extend(dir);
            let n = ch.choose(bytes.len() + 1);
            let mem = Mem::new(bytes[..n].to_vec()).limit(100);
            ch.step((fmt, n));
            let r = block_on(TiffMetadataReader::try_open(&mem));
            if let Ok(mut r) = r {
                ensure!(block_on(r.read_all_ifds(&mem)).is_err(), "a directory without mandatory tags was accepted");
            }
            Ok(())
        }),
    ];
    (
        bodies,
        about(
            format!("all 65536 byte-order marks, versions, BigTIFF offset sizes and reserved fields; all truncations; chains of up to {maxn} directories in every order of positions with every target of the last pointer; long chains of up to {}; directories of up to 65535 entries; offsets up to 2^64; unknown field types at every position", t.sel(2000, 70_000)),
            &["the first offset is not zero"],
        ),
    )
}
