//! C21: the reported header size.
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::TIFF;

use super::kit::unrelated;
use super::{about, base_w, open, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::sources::{Eof, Mem, Req};
use crate::tiffw::{e, Entry, FileSpec, IfdSpec, Layout, Tab, FMTS, LAYOUTS, V};
use crate::Tier;

fn min_of(offs: &[u64]) -> Option<u64> {
    offs.iter().copied().filter(|o| *o != 0).min()
}

fn size(t: &TIFF) -> Option<u64> {
    // without any offset the method is documented to panic; not asked for here
    Some(t.header_byte_size())
}

/// All tables that appear: (offset tag, count tag).
const TILES: (u16, u16) = (324, 325);
const STRIPS: (u16, u16) = (273, 279);

fn table(ch: &mut Ch, es: &mut Vec<Entry>, tags: (u16, u16), big: bool, alphabet: &[u64], maxn: usize) -> Vec<u64> {
    let n = ch.choose(maxn + 1);
    let v: Vec<u64> = (0..n).map(|_| ch.pick(alphabet)).collect();
    if n > 0 {
        es.push(e(tags.0, if big { V::Long8(v.clone()) } else { V::Long(v.iter().map(|x| *x as u32).collect()) }));
        es.push(e(tags.1, V::Long(vec![1; n])));
    }
    v
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let bodies = vec![
        body("the smallest offset that is not zero, whatever the tables", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let n = ch.choose(t.sel(2, 3)) + 1;
            let alphabet: &[u64] = if fmt.big { &[0, 1, 77, 5_000_000_000, u64::MAX] } else { &[0, 1, 77, 70_000, u32::MAX as u64] };
            let mut all = vec![];
            let ifds: Vec<IfdSpec> = (0..n)
                .map(|i| {
                    let mut es = base_w(10 + i as u32);
                    let k = if n == 1 { 3 } else { 2 };
                    match ch.choose(4) {
                        0 => {}
                        1 => all.extend(table(ch, &mut es, TILES, fmt.big, alphabet, k)),
                        2 => all.extend(table(ch, &mut es, STRIPS, fmt.big, alphabet, k)),
                        _ => {
                            all.extend(table(ch, &mut es, STRIPS, fmt.big, alphabet, 1));
                            all.extend(table(ch, &mut es, TILES, fmt.big, alphabet, 1));
                        }
                    }
                    es.sort_by_key(|x| x.tag);
                    IfdSpec { entries: es, ..Default::default() }
                })
                .collect();
            let Some(want) = min_of(&all) else { return Ok(()) };
            let b = FileSpec::new(fmt, ifds).build();
            ch.note(|| format!("{fmt:?} offsets {all:?}"));
            ch.step(&all);
            let t = open(&Mem::new(b.bytes).eof(Eof::Error)).map_err(|e| e.to_string())?;
            let got = size(&t);
            ensure!(got == Some(want), "header size {got:?} for the offsets {all:?}");
            ch.observe(got);
            Ok(())
        }),
        body("one small offset among many", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let tags = ch.pick(&[TILES, STRIPS]);
            let n = ch.pick(&[1usize, 2, 7, 33, 257, 1000, 5000, 70_000]);
            let k = if n <= 257 { ch.choose(n) } else { ch.pick(&[0usize, 1, 255, 256, 300, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 4999, 65535, 65536, 69_999].into_iter().filter(|k| *k < n).collect::<Vec<_>>()) };
            let kind = ch.pick(&[Tab::Short, Tab::Long, Tab::Long8]);
            let zeros = ch.flag();
            let v: Vec<u64> = (0..n).map(|i| if i == k { 901 } else if zeros { 0 } else { 1000 + (i as u64 * 37) % 50 }).collect();
            let mut es = base_w(3);
            es.push(e(
                tags.0,
                match kind {
                    Tab::Short => V::Short(v.iter().map(|x| *x as u16).collect()),
                    Tab::Long => V::Long(v.iter().map(|x| *x as u32).collect()),
                    Tab::Long8 => V::Long8(v.clone()),
                },
            ));
            es.push(e(tags.1, V::Short(vec![1; n])));
            es.sort_by_key(|x| x.tag);
            let b = FileSpec::new(fmt, vec![IfdSpec { entries: es, ..Default::default() }]).build();
            ch.note(|| format!("{fmt:?} {tags:?} {v:?}"));
            ch.step((fmt, &v));
            let t = open(&Mem::new(b.bytes)).map_err(|e| e.to_string())?;
            ensure!(size(&t) == Some(901), "header size {:?} for {n} offsets, number {k} of which is 901", size(&t));
            Ok(())
        }),
        body("among unrelated tags", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let (mine, other) = if ch.flag() { (TILES, STRIPS) } else { (STRIPS, TILES) };
            let mut u: Vec<_> = unrelated().into_iter().filter(|x| ![273, 279].contains(&x.tag)).collect();
            for v in [1u16, 5, 7, 8, 50000, 60000] {
                u.push(e(259, V::Short(vec![v])));
            }
            u.extend([e(322, V::Short(vec![2])), e(323, V::Short(vec![2])), e(284, V::Short(vec![2])), e(317, V::Short(vec![2])), e(other.1, V::Short(vec![1])), e(other.0, V::Short(vec![0]))]);
            let x = u[ch.choose(u.len())].clone();
            let second = ch.flag();
            let v = ch.pick(&[[1000u32, 2000], [2000, 1000], [0, 1500], [1500, 0]]);
            let mut es = base_w(3);
            es.retain(|y| y.tag != x.tag);
            es.extend([e(mine.0, V::Long(v.to_vec())), e(mine.1, V::Short(vec![1, 1])), x.clone()]);
            es.sort_by_key(|x| x.tag);
            // the directory comes first or second
            let mut far = base_w(4);
            far.extend([e(273, V::Long(vec![9000])), e(279, V::Short(vec![1]))]);
            let mut ifds = vec![IfdSpec { entries: es, ..Default::default() }, IfdSpec { entries: far, ..Default::default() }];
            if second {
                ifds.reverse();
            }
            let b = FileSpec::new(fmt, ifds).build();
            ch.note(|| format!("{fmt:?} {mine:?} {v:?} with {x:?}"));
            ch.step((fmt, mine, v, x.tag, second));
            let t = open(&Mem::new(b.bytes)).map_err(|e| e.to_string())?;
            let want = v.iter().copied().filter(|x| *x != 0).min().unwrap() as u64;
            ensure!(size(&t) == Some(want), "header size {:?} instead of {want}", size(&t));
            Ok(())
        }),
        body("one request of that size rereads all metadata", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let layout = ch.pick(&LAYOUTS);
            let n = ch.choose(3) + 1;
            let gap = ch.choose(3) as u64 * 5;
            let rev = ch.flag();
            let text = ch.pick(&[0usize, 3, 200]);
            let mult = ch.pick(&[0.0, 1.0, 2.0]);
            let mut kinds = vec![];
            let ifds: Vec<IfdSpec> = (0..n)
                .map(|i| {
                    let mut es = base_w(10 + i as u32);
                    if text > 0 {
                        es.push(e(270, V::ascii(&"x".repeat(text))));
                        es.push(e(33550, V::double(&[1.0, 2.0, i as f64])));
                    }
                    let tiled = ch.flag();
                    let blocks = ch.choose(3) + (i == 0) as usize;
                    kinds.push((tiled, blocks));
                    if tiled {
                        es.push(e(322, V::Short(vec![2])));
                        es.push(e(323, V::Short(vec![2])));
                    }
                    es.sort_by_key(|x| x.tag);
                    let (a, b) = if tiled { TILES } else { STRIPS };
                    IfdSpec {
                        entries: es,
                        blocks: (0..blocks).map(|k| vec![0xee; 4 + k]).collect(),
                        tables: (blocks > 0).then_some((a, b, if fmt.big { Tab::Long8 } else { Tab::Long }, Tab::Short)),
                    }
                })
                .collect();
            let mut s = FileSpec::new(fmt, ifds).layout(layout);
            s.gap = gap;
            s.rev_blocks = rev;
            let b = s.build();
            let first = b.blocks.iter().flatten().map(|r| r.start).min().unwrap();
            let mem = Mem::new(b.bytes.clone()).eof(Eof::Error);
            ch.note(|| format!("{fmt:?} {layout:?} {kinds:?} gap {gap} reversed {rev}: metadata up to {}, data from {first}", b.meta_end));
            ch.step((fmt, layout, &kinds, gap, rev));
            let t = open(&mem).map_err(|e| e.to_string())?;
            let h = size(&t).unwrap();
            ensure!(h == first, "header size {h}, the data begin at {first}");
            if b.meta_end > first {
                // metadata behind the data: only the value is promised
                return Ok(());
            }
            for strict in [false, true] {
                let mem = Mem::new(b.bytes.clone()).eof(if strict { Eof::Error } else { Eof::Clamp });
                let again = open(&ReadaheadMetadataCache::new(mem.clone()).with_initial_size(h).with_multiplier(mult)).map_err(|e| format!("rereading: {e}"))?;
                ensure!(again.ifds() == t.ifds() && again.endianness() == t.endianness(), "rereading with {h} bytes gives another result");
                ensure!(mem.log() == [Req::One(0..h)], "rereading with {h} bytes took the requests {:?}", mem.log());
                ensure!(size(&again) == Some(h), "the header size changed");
            }
            ch.observe(h);
            Ok(())
        }),
        body("whatever else the directories say", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let n = ch.choose(t.sel(2, 3)) + 1;
            let small = ch.choose(n);
            let mut tell = vec![];
            let ifds: Vec<IfdSpec> = (0..n)
                .map(|i| {
                    let mut es = base_w(10 + i as u32);
                    let tags = ch.pick(&[TILES, STRIPS]);
                    let more: Vec<Entry> = match ch.choose(9) {
                        0 => vec![],
                        1 => vec![e(254, V::Long(vec![ch.pick(&[0u32, 1, 2, 3, 4, 5, 6, 8])]))],
                        2 => vec![e(255, V::Short(vec![ch.pick(&[1u16, 2, 3])]))],
                        3 => vec![e(259, V::Short(vec![ch.pick(&[1u16, 5, 7, 8, 34925, 34887, 50000, 50001])]))],
                        4 => vec![e(284, V::Short(vec![2]))],
                        5 => vec![e(262, V::Short(vec![ch.pick(&[0u16, 3, 4, 6])]))],
                        6 => vec![e(256, V::Short(vec![ch.pick(&[0u16, 1, 65535])])), e(257, V::Short(vec![ch.pick(&[0u16, 1])]))],
                        7 => vec![e(347, V::Undefined(vec![0xff, 0xd8, 0xff, 0xd9])), e(34675, V::Undefined(vec![7; 9]))],
                        _ => vec![e(330, V::Long(vec![17, 5]))],
                    };
                    tell.push((tags, more.iter().map(|x| (x.tag, format!("{:?}", x.val))).collect::<Vec<_>>()));
                    es.retain(|x| more.iter().all(|y| y.tag != x.tag));
                    es.extend(more);
                    let v: Vec<u32> = if i == small { vec![5000, 901] } else { vec![0, 1000 - i as u32, 70_000] };
                    es.push(e(tags.1, V::Long(vec![1; v.len()])));
                    es.push(e(tags.0, V::Long(v)));
                    es.sort_by_key(|x| x.tag);
                    IfdSpec { entries: es, ..Default::default() }
                })
                .collect();
            let b = FileSpec::new(fmt, ifds).build();
            ch.note(|| format!("{fmt:?} {tell:?}, the smallest in number {small}"));
            ch.step((fmt, small, &tell));
            let t = open(&Mem::new(b.bytes)).map_err(|e| e.to_string())?;
            ensure!(size(&t) == Some(901), "header size {:?} instead of 901", size(&t));
            Ok(())
        }),
        body("built in memory", move |ch| {
            // TIFF::new with directories in any order
            let n = ch.choose(3) + 1;
            let vals: Vec<(u64, u64)> = (0..n).map(|_| (ch.pick(&[0u64, 9, 500, 1 << 40]), ch.pick(&[0u64, 8, 499]))).collect();
            let fmt = FMTS[2 + ch.choose(2)];
            let fmt = crate::tiffw::Fmt { big: true, ..fmt };
            let ifds: Vec<IfdSpec> = vals
                .iter()
                .enumerate()
                .map(|(i, (a, b))| {
                    let mut es = base_w(i as u32 + 1);
                    es.push(e(324, V::Long8(vec![*a])));
                    es.push(e(325, V::Long8(vec![1])));
                    es.push(e(273, V::Long8(vec![*b])));
                    es.push(e(279, V::Long8(vec![1])));
                    es.sort_by_key(|x| x.tag);
                    IfdSpec { entries: es, ..Default::default() }
                })
                .collect();
            let b = FileSpec::new(fmt, ifds).layout(Layout::IfdsFirst).build();
            let t = open(&Mem::new(b.bytes)).map_err(|e| e.to_string())?;
            let mut d = t.ifds().to_vec();
            if ch.flag() {
                d.reverse();
            }
            let flat: Vec<u64> = vals.iter().flat_map(|(a, b)| [*a, *b]).collect();
            let Some(want) = min_of(&flat) else { return Ok(()) };
            ch.note(|| format!("{vals:?}"));
            ch.step(&vals);
            let t = TIFF::new(d, t.endianness());
            ensure!(size(&t) == Some(want), "header size {:?} for {vals:?}", size(&t));
            Ok(())
        }),
    ];
    (
        bodies,
        about(
            "all sets of up to 2 (thorough: 3) directories with tile and strip tables of up to 2 (one directory: 3) entries over 5 offsets incl. 0 and the largest; tables of up to 257 entries of every kind with the smallest at every place, of up to 70000 with it around powers of two; files of up to 3 directories in 5 layouts, 4 formats, with gaps, reversed data, texts: value, and one request that rereads all",
            &["some directory has a non-zero offset (the method is documented to panic otherwise)"],
        ),
    )
}
