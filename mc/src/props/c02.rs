//! C02: the readahead cache is transparent.
use std::ops::Range;

use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
use bytes::Bytes;

use super::{about, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{block_on, injected_of};
use crate::sources::{huge, huge_marks, wide, Ans, Eof, Mem};
use crate::Tier;

pub fn content(n: usize) -> Bytes {
    (0..n).map(|i| (i * 37 + 11) as u8).collect::<Vec<_>>().into()
}

pub fn ranges(max: u64) -> Vec<Range<u64>> {
    let mut v = vec![];
    for s in 0..=max {
        for e in s..=max {
            v.push(s..e);
        }
    }
    v
}

struct Cfg {
    data: Bytes,
    /// Lengths of short answers
    shorts: &'static [u64],
    initial: u64,
    mult: f64,
    eof: Eof,
}

fn history(ch: &mut Ch, c: &Cfg, rs: &[Range<u64>], depth: usize, faults: bool) -> Result<(), String> {
    let mem = Mem::new(c.data.clone()).eof(c.eof);
    let cache = ReadaheadMetadataCache::new(mem.clone())
        .with_initial_size(c.initial)
        .with_multiplier(c.mult);
    for step in 0..depth {
        let r = rs[ch.choose(rs.len())].clone();
        // the answer to the request this access may cost
        let a = if faults {
            match ch.deviate(3) {
                0 => Ans::Full,
                1 => Ans::Err,
                _ => Ans::Short(ch.pick(c.shorts)),
            }
        } else {
            Ans::Full
        };
        mem.clear_plan();
        let before = mem.count();
        for k in 0..4 {
            mem.plan(before + k, a);
        }
        let got = block_on(cache.fetch(r.clone()));
        let cost = mem.count() - before;
        ch.note(|| {
            format!(
                "len={} initial={} mult={} eof={:?}: fetch {r:?} answer {a:?} -> {got:?} ({cost} requests)",
                c.data.len(), c.initial, c.mult, c.eof
            )
        });
        ch.step((c.data.len(), c.initial, c.mult.to_bits(), mem.log(), step));
        let want = mem.at(&r);
        match got {
            Ok(b) => {
                ch.observe((b.len(), b.first(), b.last(), cost));
                let disturbed = cost > 0 && matches!(a, Ans::Short(_));
                if disturbed {
                    ensure!(
                        want.starts_with(&b),
                        "fetch {r:?} after a short answer gave {:?}, the file has {:?}", cut(&b), cut(&want)
                    );
                } else {
                    ensure!(b == want, "fetch {r:?} gave {} bytes {:?}, the file has {} bytes {:?}", b.len(), cut(&b), want.len(), cut(&want));
                    ensure!(
                        !(cost > 0 && a == Ans::Err),
                        "fetch {r:?} succeeded although the source failed"
                    );
                }
            }
            Err(e) => {
                ch.observe(0u8);
                if a == Ans::Err && cost > 0 {
                    ensure!(
                        injected_of(&e).is_some(),
                        "the error of the source was replaced by {e:?}"
                    );
                } else {
                    // also a reader that refuses to read beyond its end is asked for what there is
                    return Err(format!("fetch {r:?} failed although the source answered: {e:?}"));
                }
            }
        }
    }
    Ok(())
}

fn cut(b: &[u8]) -> &[u8] {
    &b[..b.len().min(16)]
}

/// Numbers of parts around the powers of two and some more.
pub fn many(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).collect();
    let mut p = 64;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([100, 300, 1000, 5000]);
    v.sort();
    v.retain(|x| *x <= max);
    v
}

/// A cache filled block by block, then asked for every range between block edges.
fn blocks(ch: &mut Ch, max: usize) -> Result<(), String> {
    let n = ch.pick(&many(max));
    let pat: &[u64] = [&[1u64][..], &[2], &[3, 1], &[1, 2, 3, 0]][ch.choose(4)];
    let unit = ch.pick(&[1u64, 1000]);
    let data = wide();
    let mem = Mem::new(data.clone());
    let cache = ReadaheadMetadataCache::new(mem.clone())
        .with_initial_size(0)
        .with_multiplier(0.0);
    let see = |r: Range<u64>| -> Result<(), String> {
        let got = block_on(cache.fetch(r.clone())).map_err(|e| format!("fetch {r:?}: {e}"))?;
        let want = &data[r.start as usize..r.end as usize];
        ensure!(
            got[..] == *want,
            "with {} blocks read, fetch {r:?} gave {} bytes that differ from the file",
            mem.count(),
            got.len()
        );
        Ok(())
    };
    let mut edges = vec![0];
    for i in 0..n {
        let e = edges[i] + pat[i % pat.len()] * unit;
        see(edges[i].saturating_sub(1)..e)?;
        edges.push(e);
        ch.step((n, pat, unit, i));
    }
    ch.note(|| format!("{n} blocks of {pat:?} x {unit}"));
    let cuts: Vec<u64> = if n <= 40 {
        edges.iter().flat_map(|e| [e.saturating_sub(1), *e]).collect()
    } else {
        let m = many(n);
        let mut v: Vec<usize> = m.iter().flat_map(|k| [*k, n - *k]).filter(|k| *k >= n / 2 || *k < 10).collect();
        v.sort();
        v.dedup();
        v.iter().map(|k| edges[*k]).collect()
    };
    for a in &cuts {
        for b in &cuts {
            if a <= b {
                see(*a..*b)?;
            }
        }
    }
    see(0..edges[n])?;
    ch.observe((n, mem.count()));
    Ok(())
}

/// Reads of megabytes, and a cache that holds more than 4 GiB.
fn large(ch: &mut Ch, far: bool) -> Result<(), String> {
    let Some(data) = (if far { huge() } else { Some(wide()) }) else {
        return Ok(());
    };
    let marks: Vec<u64> = if far {
        huge_marks().to_vec()
    } else {
        vec![0, 4000, (1 << 16) - 4, (1 << 20) - 4, (1 << 24) - 3, (1 << 25) - 4, (1 << 26) - 8]
    };
    let (initial, mult) = ch.pick(&[(8u64, 0.0), (32 * 1024, 2.0), (1 << 24, 0.5), ((1 << 31) + 5, 0.2)]);
    let mem = Mem::new(data.clone());
    let cache = ReadaheadMetadataCache::new(mem.clone())
        .with_initial_size(initial)
        .with_multiplier(mult);
    // three of the marks in any order, then all
    let mut ask: Vec<u64> = (0..3).map(|_| ch.pick(&marks)).collect();
    ask.extend(&marks);
    ch.note(|| format!("initial {initial}, factor {mult}: {ask:?}"));
    for m in ask {
        for r in [m..m + 8, m.saturating_sub(2)..m + 3, m + 5..m + 8] {
            let got = block_on(cache.fetch(r.clone())).map_err(|e| format!("fetch {r:?}: {e}"))?;
            let want = &data[r.start as usize..r.end as usize];
            ensure!(got[..] == *want, "initial {initial}, factor {mult}: fetch {r:?} gave {got:?} instead of {want:?}");
        }
        ch.step((far, initial, mult.to_bits(), m, mem.count()));
    }
    if !far {
        let r = 3..data.len() as u64 - 2;
        let got = block_on(cache.fetch(r.clone())).map_err(|e| format!("fetch {r:?}: {e}"))?;
        ensure!(got[..] == data[3..data.len() - 2], "fetch {r:?} gave other bytes than the file has");
    }
    ch.observe(mem.count());
    Ok(())
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let initials: Vec<u64> = t.sel(vec![0, 1, 2, 3, 5], vec![0, 1, 2, 3, 4, 5, 6, 7]);
    let mults: Vec<f64> = t.sel(vec![0.0, 0.5, 1.0, 2.0], vec![0.0, 0.3, 0.5, 1.0, 1.5, 2.0, 3.0]);
    let lens: Vec<usize> = t.sel(vec![0, 1, 3, 5], vec![0, 1, 2, 3, 4, 5, 6]);
    let depth = t.sel(3, 4);
    let mut bodies = vec![];
    {
        let (initials, mults, lens) = (initials.clone(), mults.clone(), lens.clone());
        bodies.push(body("all request sequences, working source", move |ch| {
            let c = Cfg {
                data: content(ch.pick(&lens)),
                initial: ch.pick(&initials),
                mult: ch.pick(&mults),
                eof: Eof::Clamp,
                shorts: &[],
            };
            let rs = ranges((c.data.len() as u64 + 1).min(6));
            history(ch, &c, &rs, depth, false)
        }));
    }
    {
        let lens: Vec<usize> = t.sel(vec![1, 4], vec![0, 1, 2, 3, 4, 5]);
        let initials: Vec<u64> = t.sel(vec![1, 2, 6], vec![0, 1, 2, 3, 6]);
        bodies.push(
            body("all request sequences, failing and short answers", move |ch| {
                let c = Cfg {
                    data: content(ch.pick(&lens)),
                    shorts: &[0, 1, 2],
                    initial: ch.pick(&initials),
                    mult: ch.pick(&[0.0, 1.0, 2.0]),
                    eof: ch.pick(&[Eof::Clamp, Eof::Error]),
                };
                let rs = ranges((c.data.len() as u64 + 1).min(5));
                history(ch, &c, &rs, 3, true)
            })
            .dev(t.sel(2, 3)),
        );
    }
    bodies.push(body("extreme ranges, sizes and growth factors", move |ch| {
        const M: u64 = u64::MAX;
        let c = Cfg {
            data: content(ch.pick(&[0, 5, 40])),
            shorts: &[],
            initial: ch.pick(&[0, 1, 7, 32 * 1024, 1 << 40, M - 1, M]),
            mult: ch.pick(&[
                2.0,
                f64::INFINITY,
                f64::NAN,
                -1.0,
                1e300,
                0.49,
                f64::MIN_POSITIVE,
            ]),
            eof: Eof::Clamp,
        };
        let rs = [
            0..2,
            0..40,
            3..9,
            4..4,
            30..100,
            M - 1..M,
            0..M,
            M..M,
            1 << 63..(1 << 63) + 4,
            7..1 << 62,
        ];
        history(ch, &c, &rs, 3, false)
    }));
    // longer histories over few ranges: many blocks in the cache
    bodies.push(body("long histories crossing many blocks", move |ch| {
        let c = Cfg {
            data: content(9),
            shorts: &[],
            initial: ch.pick(&[1, 2]),
            mult: ch.pick(&[0.0, 0.5, 1.0]),
            eof: Eof::Clamp,
        };
        let rs = [0..1, 1..3, 2..5, 4..7, 0..9, 6..10, 3..3];
        history(ch, &c, &rs, t.sel(5, 7), false)
    }));
    // the bytes of a block may be those of another one
    bodies.push(body("repetitive contents", move |ch| {
        const REP: [&[u8]; 8] = [
            &[0; 7],
            &[255; 7],
            &[1, 2, 1, 2, 1, 2, 1],
            &[1, 2, 3, 1, 2, 3, 1],
            &[0, 0, 0, 0, 5, 6, 7],
            &[5, 6, 7, 0, 0, 0, 0],
            &[5, 0, 0, 6, 0, 0, 7],
            &[9, 9, 8, 8, 9, 9, 7],
        ];
        let c = Cfg {
            data: Bytes::from_static(REP[ch.choose(8)]),
            initial: ch.pick(&[1, 2, 3]),
            mult: ch.pick(&[0.0, 1.0]),
            eof: Eof::Clamp,
            shorts: &[],
        };
        let rs: Vec<Range<u64>> = ranges(7).into_iter().filter(|r| r.end > r.start).collect();
        history(ch, &c, &rs[..], t.sel(3, 4), false)
    }));
    bodies.push(
        body("large answers that fail or are cut short", move |ch| {
            let c = Cfg {
                data: wide().slice(..300_000),
                initial: ch.pick(&[1, 5000, 32 * 1024, 100_000]),
                mult: ch.pick(&[0.0, 1.0, 2.0]),
                eof: ch.pick(&[Eof::Clamp, Eof::Error]),
                shorts: &[0, 1, 2, 100, 4095, 4096, 4097, 5000, 32_767, 32_768, 65_536, 80_000],
            };
            let rs = [0..2, 0..4096, 100..5000, 4000..4200, 32_760..32_800, 65_000..66_000, 90_000..150_000, 299_990..300_000, 299_990..300_010, 0..300_000];
            history(ch, &c, &rs[..], 3, true)
        })
        .dev(t.sel(2, 3)),
    );
    let max = t.sel(300, 5000);
    bodies.push(body("caches of many blocks", move |ch| blocks(ch, max)));
    bodies.push(body("large files", |ch| large(ch, false)));
    if t.thorough() {
        bodies.push(body("files of more than 4 GiB", |ch| large(ch, true)).serial());
    }
    (
        bodies,
        about(
            format!(
                "files of {lens:?} bytes; initial sizes {initials:?}; growth factors {mults:?}; every sequence of {depth} ranges within the file and one byte past it; up to {} failed or short (0, 1, 2 bytes) answers at any place; histories of {} requests over many small blocks; caches of up to {max} blocks of 4 size patterns read between all block edges (up to 40 blocks) or between edges around powers of two; files of {} read at marks around powers of two in every order of three; extreme offsets, sizes and factors; 8 repetitive contents; a 300 kB file with 12 lengths of short answers",
                t.sel(2, 3),
                t.sel(5, 7),
                t.sel("64 MiB", "64 MiB and 5 GiB")
            ),
            &["the source answers a range with a prefix of its bytes, or fails"],
        ),
    )
}
