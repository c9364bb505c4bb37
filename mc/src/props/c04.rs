//! C04: the readahead policy.
use std::cell::RefCell;
use std::ops::Range;

use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;

use super::c02::{content, ranges};
use super::{about, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{block_on, sched, Answer, Gated, Limits, Task};
use crate::sources::{huge, wide, Ans, Mem, Req};
use crate::Tier;

/// The request the documented policy makes for `r` with `cached` bytes read.
pub fn policy(r: &Range<u64>, cached: u64, initial: u64, mult: f64) -> Option<Range<u64>> {
    if r.end <= cached {
        return None;
    }
    let grow = if cached == 0 {
        initial
    } else {
        let g = cached as f64 * mult;
        if g.is_nan() || g <= 0.0 {
            0
        } else {
            g.round() as u64
        }
    };
    let need = r.end - cached;
    Some(cached..cached.saturating_add(grow.max(need)))
}

fn history(
    ch: &mut Ch,
    len: usize,
    initial: Option<u64>,
    mult: Option<f64>,
    rs: &[Range<u64>],
    depth: usize,
    faults: bool,
) -> Result<(), String> {
    history_on(ch, Mem::new(content(len)), initial, mult, rs, depth, faults)
}

fn history_on(
    ch: &mut Ch,
    mem: Mem,
    initial: Option<u64>,
    mult: Option<f64>,
    rs: &[Range<u64>],
    depth: usize,
    faults: bool,
) -> Result<(), String> {
    let len = mem.len();
    let mut cache = ReadaheadMetadataCache::new(mem.clone());
    if let Some(i) = initial {
        cache = cache.with_initial_size(i);
    }
    if let Some(m) = mult {
        cache = cache.with_multiplier(m);
    }
    let (initial, mult) = (initial.unwrap_or(32 * 1024), mult.unwrap_or(2.0));
    let mut cached = 0u64;
    for step in 0..depth {
        let r = rs[ch.choose(rs.len())].clone();
        let a = if faults {
            match ch.deviate(3) {
                0 => Ans::Full,
                1 => Ans::Err,
                _ => Ans::Short(1),
            }
        } else {
            Ans::Full
        };
        let want = policy(&r, cached, initial, mult);
        mem.clear_plan();
        mem.plan(mem.count(), a);
        let before = mem.count();
        let res = block_on(cache.fetch(r.clone()));
        let log = mem.log()[before..].to_vec();
        ch.note(|| {
            format!("len={len} initial={initial} mult={mult} cached={cached}: fetch {r:?} answer {a:?} -> requests {log:?}")
        });
        match &want {
            None => ensure!(
                log.is_empty(),
                "fetch {r:?} with {cached} bytes cached cost {log:?}"
            ),
            Some(w) => {
                ensure!(
                    log == [Req::One(w.clone())],
                    "fetch {r:?} with {cached} bytes cached cost {log:?}, documented is {w:?} (initial {initial}, factor {mult})"
                );
                if res.is_ok() {
                    let n = mem.at(w).len() as u64;
                    cached += match a {
                        Ans::Short(k) => n.min(k),
                        _ => n,
                    };
                }
            }
        }
        ch.step((len, initial, mult.to_bits(), cached, step));
        ch.observe((cached, log.len()));
    }
    Ok(())
}

fn concurrent(ch: &mut Ch, tasks: usize, per_task: usize, drops: usize, faults: usize) -> Result<(), String> {
    let len = 8usize;
    let (initial, mult) = ch.pick(&[(2, 1.0), (3, 0.0), (1, 2.0)]);
    let cand = [0..2, 1..4, 3..8, 0..8];
    let src = Gated::new(content(len));
    let cache = ReadaheadMetadataCache::new(src.clone())
        .with_initial_size(initial)
        .with_multiplier(mult);
    let picked: Vec<Range<u64>> = (0..tasks * per_task).map(|_| ch.pick(&cand)).collect();
    ch.note(|| format!("initial={initial} mult={mult} tasks ask for {picked:?}"));
    let ok = RefCell::new(0usize);
    let ts: Vec<Option<Task>> = picked
        .chunks(per_task)
        .map(|rs| {
            let (cache, ok) = (&cache, &ok);
            Some(Box::pin(async move {
                for r in rs {
                    if cache.fetch(r.clone()).await.is_ok() {
                        *ok.borrow_mut() += 1;
                    }
                }
            }) as Task)
        })
        .collect();
    let env = src.env.clone();
    let mut cached = 0u64;
    let mut seen = 0usize;
    sched(
        ch,
        ts,
        &env,
        Limits {
            drops,
            faults,
            answers: if faults > 0 {
                &[Answer::Full, Answer::Fail]
            } else {
                &[Answer::Full]
            },
        },
        |ch, _, _| {
            let e = env.0.lock().unwrap();
            // an answer that a dropped task has not taken any more is not read
            cached = e
                .ops
                .iter()
                .filter(|o| o.done == Some(Answer::Full) && !o.dropped)
                .map(|o| o.range.end.min(len as u64).saturating_sub(o.range.start))
                .sum();
            // A request must start where the bytes read so far end, and be one the policy makes
            // for one of the tasks.
            while seen < e.ops.len() {
                let op = &e.ops[seen];
                let legal = picked
                    .iter()
                    .filter_map(|r| policy(r, cached, initial, mult))
                    .any(|w| w == op.range);
                if !legal {
                    return Err(format!(
                        "request {:?} with {cached} bytes read: no documented request of tasks {picked:?}",
                        op.range
                    ));
                }
                if let Some(o) = e.ops[..seen].iter().find(|o| o.done.is_none() && !o.dropped) {
                    return Err(format!(
                        "request {:?} while {:?} is outstanding",
                        op.range, o.range
                    ));
                }
                seen += 1;
            }
            ch.step((initial, &picked, cached, seen, e.ops.len()));
            Ok(())
        },
    )?;
    ch.observe((*ok.borrow(), cached, seen));
    Ok(())
}

/// Files of 64 MiB or 5 GiB.
fn large(ch: &mut Ch, far: bool) -> Result<(), String> {
    const M: u64 = 1 << 20;
    let Some(data) = (if far { huge() } else { Some(wide()) }) else {
        return Ok(());
    };
    let g = if far { 1 << 8 } else { 1 };
    let rs: Vec<Range<u64>> = [0..1, 8 * M + 1..8 * M + 3, 16 * M + 1..16 * M + 2, 17 * M..17 * M + 1, 20 * M - 1..20 * M]
        .iter()
        .map(|r| r.start * g..r.start * g + (r.end - r.start))
        .collect();
    let i = ch.pick(&[1, 3 * M + 1, 5 * M - 1, 16 * M + 1]) * g + far as u64;
    let m = ch.pick(&[0.0, 0.1, 0.3, 1.0, 1.000001, 1.5]);
    history_on(ch, Mem::new(data), Some(i), Some(m), &rs, 3, false)
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let lens: Vec<usize> = t.sel(vec![0, 2, 5], vec![0, 1, 2, 3, 5, 6]);
    let initials: Vec<u64> = t.sel(vec![0, 1, 2, 4], vec![0, 1, 2, 3, 4, 6]);
    let mults = [0.0, 0.4, 0.5, 1.0, 1.5, 2.0];
    let depth = t.sel(3, 4);
    let bounds = format!(
        "files of {lens:?} bytes, initial sizes {initials:?}, factors {mults:?}, every sequence of {depth} ranges up to one byte past the end, up to 2 failed or short answers; default configuration over 200 KB; files of {} with every sequence of three ranges; {} successive small requests; 2 and 3 concurrent tasks of up to 2 requests under all interleavings with a dropped task and up to {} failed answers",
        t.sel("64 MiB", "64 MiB and 5 GiB"),
        t.sel(400, 3000),
        t.sel(1, 2)
    );
    let mut bodies = vec![
        {
            let (lens, initials) = (lens.clone(), initials.clone());
            body("all request sequences", move |ch| {
                let len = ch.pick(&lens);
                let i = ch.pick(&initials);
                let m = ch.pick(&mults);
                let rs = ranges((len as u64 + 1).min(5));
                history(ch, len, Some(i), Some(m), &rs, depth, false)
            })
        },
        body("all request sequences with failed and short answers", move |ch| {
            let len = ch.pick(&[3, 6]);
            let i = ch.pick(&[0, 1, 3]);
            let m = ch.pick(&[0.0, 0.5, 2.0]);
            let rs = [0..1, 0..2, 1..3, 2..5, 0..6, 6..7, 3..3];
            history(ch, len, Some(i), Some(m), &rs, t.sel(4, 5), true)
        })
        .dev(2),
        body("default configuration", move |ch| {
            let k = 1024;
            let rs = [
                0..2,
                0..32 * k,
                32 * k..32 * k + 1,
                90 * k..97 * k,
                5..100 * k,
                150 * k..200 * k,
                200 * k..200 * k + 4,
            ];
            history(ch, 200 * 1024, None, None, &rs, t.sel(4, 5), false)
        }),
        body("default growth or default initial size", move |ch| {
            let rs = [0..2, 10..40, 100..101, 0..1000, 33_000..33_001, 70_000..70_010];
            if ch.flag() {
                let i = ch.pick(&[1, 16, 1000]);
                history(ch, 80_000, Some(i), None, &rs, 4, false)
            } else {
                let m = ch.pick(&[0.1, 1.0, 3.7]);
                history(ch, 80_000, None, Some(m), &rs, 4, false)
            }
        }),
        body("large files", |ch| large(ch, false)),
        body("many small requests", move |ch| {
            // every request costs one block, so that the policy is followed over a long history
            let i = ch.pick(&[0u64, 1, 5]);
            let m = ch.pick(&[0.0, 0.001, 0.01, 0.5, 1.0]);
            let d = ch.pick(&[1u64, 2, 7]);
            let rs: Vec<Range<u64>> = (0..t.sel(400, 3000)).map(|k| k * d..k * d + d + 1).collect();
            let mem = Mem::new(content(20_000));
            let cache = ReadaheadMetadataCache::new(mem.clone()).with_initial_size(i).with_multiplier(m);
            let mut cached = 0;
            for r in &rs {
                let want = policy(r, cached, i, m);
                let before = mem.count();
                block_on(cache.fetch(r.clone())).map_err(|e| format!("fetch {r:?}: {e}"))?;
                let log = mem.log()[before..].to_vec();
                let exp: Vec<Req> = want.iter().cloned().map(Req::One).collect();
                ensure!(log == exp, "fetch {r:?} with {cached} bytes cached cost {log:?}, documented is {want:?} (initial {i}, factor {m})");
                if let Some(w) = want {
                    cached += mem.at(&w).len() as u64;
                }
                ch.step((i, m.to_bits(), d, cached));
            }
            ch.observe(cached);
            Ok(())
        }),
        body("concurrent tasks", move |ch| concurrent(ch, 2, 1, 1, 1)),
        body("concurrent tasks of two requests", move |ch| concurrent(ch, 2, 2, 1, t.sel(0, 1))),
        body("three concurrent tasks", move |ch| concurrent(ch, 3, 1, 1, t.sel(0, 2))),
    ];
    if t.thorough() {
        bodies.push(body("files of more than 4 GiB", |ch| large(ch, true)).serial());
    }
    (bodies, about(bounds, &["the source answers a range with a prefix of its bytes, or fails"]))
}
