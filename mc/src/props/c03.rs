//! C03: concurrent and cancelled users of one cache.
use std::cell::RefCell;
use std::ops::Range;

use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
use bytes::Bytes;

use super::c02::content;
use super::{about, open_async, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{injected_of, sched, Answer, Gated, Limits, Task};
use crate::tiffw::{e, FileSpec, IfdSpec, Layout, Tab, FMTS, V};
use crate::Tier;

type Res = Vec<(Range<u64>, Result<Bytes, Option<usize>>)>;

struct Plan {
    tasks: usize,
    per_task: usize,
    cand: Vec<Range<u64>>,
    drops: usize,
    faults: usize,
    answers: &'static [Answer],
    /// Length of the file, and how many one-byte blocks the cache may hold beforehand.
    len: usize,
    prefill: &'static [usize],
}

fn concurrent(ch: &mut Ch, p: &Plan) -> Result<(), String> {
    let len = p.len;
    let data = content(len);
    let (initial, mult) = if p.prefill.is_empty() {
        ch.pick(&[(2u64, 1.0), (3, 0.0), (9, 2.0)])
    } else {
        (1, 0.0)
    };
    let src = Gated::new(data.clone());
    let cache = ReadaheadMetadataCache::new(src.clone())
        .with_initial_size(initial)
        .with_multiplier(mult);
    let asks: Vec<Vec<Range<u64>>> = (0..p.tasks)
        .map(|_| (0..p.per_task).map(|_| ch.pick(&p.cand)).collect())
        .collect();
    let fill = if p.prefill.is_empty() { 0 } else { ch.pick(p.prefill) };
    ch.note(|| format!("initial={initial} mult={mult}, {fill} blocks cached, tasks ask for {asks:?}"));
    for i in 0..fill as u64 {
        let cache = &cache;
        let t: Task = Box::pin(async move {
            let _ = cache.fetch(i..i + 1).await;
        });
        let l = Limits { drops: 0, faults: 0, answers: &[Answer::Full] };
        sched(ch, vec![Some(t)], &src.env, l, |_, _, _| Ok(()))?;
    }
    let results: RefCell<Vec<Res>> = RefCell::new(vec![vec![]; p.tasks]);
    let run = {
        let ts: Vec<Option<Task>> = asks
            .iter()
            .enumerate()
            .map(|(t, rs)| {
                let (cache, results) = (&cache, &results);
                Some(Box::pin(async move {
                    for r in rs {
                        let x = cache.fetch(r.clone()).await;
                        results.borrow_mut()[t]
                            .push((r.clone(), x.map_err(|e| injected_of(&e))));
                    }
                }) as Task)
            })
            .collect();
        let env = src.env.clone();
        sched(
            ch,
            ts,
            &src.env,
            Limits {
                drops: p.drops,
                faults: p.faults,
                answers: p.answers,
            },
            |ch, act, fin| {
                let ops = env.0.lock().unwrap().ops.len();
                let got: usize = results.borrow().iter().map(|r| r.len()).sum();
                ch.step((initial, fill, &asks, act, fin, ops, got));
                Ok(())
            },
        )?
    };
    let short = run
        .acts
        .iter()
        .any(|a| matches!(a, crate::exec::Act::Answer(_, Answer::Short)));
    let failed: Vec<usize> = run
        .acts
        .iter()
        .filter_map(|a| match a {
            crate::exec::Act::Answer(i, Answer::Fail) => Some(*i),
            _ => None,
        })
        .collect();
    let mut errs = 0;
    for (t, rs) in results.borrow().iter().enumerate() {
        if run.finished[t] {
            ensure!(rs.len() == p.per_task, "task {t} finished early");
        }
        for (r, x) in rs {
            let want = &data[r.start as usize..r.end as usize];
            match x {
                Ok(b) => {
                    if short {
                        ensure!(
                            want.starts_with(b),
                            "task {t} asked for {r:?} and got {b:?} instead of {want:?}"
                        );
                    } else {
                        ensure!(
                            b[..] == *want,
                            "task {t} asked for {r:?} and got {b:?} instead of {want:?}"
                        );
                    }
                    ch.observe((t, &b[..]));
                }
                Err(i) => {
                    errs += 1;
                    ensure!(
                        i.is_some_and(|i| failed.contains(&i)),
                        "task {t} got an error ({i:?}) for {r:?} although no request of it failed"
                    );
                    ch.observe((t, "error"));
                }
            }
        }
    }
    // every failed request belongs to one task at most
    ensure!(
        errs <= failed.len(),
        "{errs} errors for {} failed requests",
        failed.len()
    );
    // The cache still works afterwards.
    for r in [1..3u64, 0..len as u64] {
        let after: RefCell<Option<Result<Bytes, String>>> = RefCell::new(None);
        {
            let (cache, after, r) = (&cache, &after, r.clone());
            let t: Task = Box::pin(async move {
                *after.borrow_mut() = Some(cache.fetch(r).await.map_err(|e| e.to_string()));
            });
            sched(
                ch,
                vec![Some(t)],
                &src.env,
                Limits {
                    drops: 0,
                    faults: 0,
                    answers: &[Answer::Full],
                },
                |_, _, _| Ok(()),
            )
            .map_err(|m| format!("a later access: {m}"))?;
        }
        let got = after.into_inner();
        let want = &data[r.start as usize..r.end as usize];
        ensure!(
            got.as_ref().is_some_and(|g| g.as_ref().is_ok_and(|b| b[..] == *want)),
            "a later access to {r:?} gave {got:?} instead of {want:?}"
        );
    }
    Ok(())
}

/// Several tasks open the same file through one cache.
fn opens(ch: &mut Ch, tasks: usize, drops: usize, faults: usize) -> Result<(), String> {
    let fmt = FMTS[ch.choose(2)];
    let ifd = IfdSpec {
        entries: vec![
            e(256, V::Short(vec![5])),
            e(257, V::Short(vec![7])),
            e(258, V::Short(vec![8])),
            e(262, V::Short(vec![1])),
            e(277, V::Short(vec![1])),
            e(305, V::ascii("software")),
        ],
        blocks: vec![],
        tables: None::<(u16, u16, Tab, Tab)>,
    };
    let built = FileSpec::new(fmt, vec![ifd]).layout(Layout::Cog).build();
    let n = built.bytes.len() as u64;
    let src = Gated::new(built.bytes.clone().into());
    let cache = ReadaheadMetadataCache::new(src.clone())
        .with_initial_size(ch.pick(&[n / 2, n - 9]))
        .with_multiplier(1.0);
    let results: RefCell<Vec<Option<Result<(), String>>>> = RefCell::new(vec![None; tasks]);
    let run = {
        let ts: Vec<Option<Task>> = (0..tasks)
            .map(|t| {
                let (cache, results) = (&cache, &results);
                Some(Box::pin(async move {
                    let r = match open_async(cache).await {
                        Ok(tiff) => {
                            let i = &tiff.ifds()[0];
                            if tiff.ifds().len() == 1
                                && i.image_width() == 5
                                && i.image_height() == 7
                                && i.software() == Some("software")
                            {
                                Ok(())
                            } else {
                                Err("wrong metadata".to_string())
                            }
                        }
                        Err(e) if injected_of(&e).is_some() => Err("injected".into()),
                        Err(e) => Err(e.to_string()),
                    };
                    results.borrow_mut()[t] = Some(r);
                }) as Task)
            })
            .collect();
        sched_bounded(ch, ts, &src, drops, faults)?
    };
    for (t, r) in results.borrow().iter().enumerate() {
        match r {
            None => ensure!(run.dropped[t], "task {t} did not finish"),
            Some(Ok(())) => ch.observe((t, 1)),
            Some(Err(m)) if m == "injected" => ch.observe((t, 2)),
            Some(Err(m)) => return Err(format!("task {t}: {m}")),
        }
    }
    Ok(())
}

fn sched_bounded<'a>(
    ch: &mut Ch,
    ts: Vec<Option<Task<'a>>>,
    src: &Gated,
    drops: usize,
    faults: usize,
) -> Result<crate::exec::Run, String> {
    let env = src.env.clone();
    crate::exec::sched_rr(
        ch,
        ts,
        &src.env,
        Limits {
            drops,
            faults,
            answers: if faults > 0 {
                &[Answer::Full, Answer::Fail]
            } else {
                &[Answer::Full]
            },
        },
        |ch, act, fin| {
            let n = env.0.lock().unwrap().ops.len();
            ch.step((act, fin, n));
            Ok(())
        },
    )
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let full: &'static [Answer] = &[Answer::Full];
    let fail: &'static [Answer] = &[Answer::Full, Answer::Fail];
    let all: &'static [Answer] = &[Answer::Full, Answer::Fail, Answer::Short];
    let c4 = vec![0..2, 1..4, 3..8, 0..8];
    let c3 = vec![1..2, 1..6, 0..8];
    let mk = |name: &str, p: Plan| body(name, move |ch| concurrent(ch, &p));
    let bodies = vec![
        mk("2 tasks x 2 requests, one dropped, one failed or short answer", Plan {
            tasks: 2,
            per_task: 2,
            cand: t.sel(c3.clone(), c4.clone()),
            drops: 1,
            faults: 1,
            answers: all,
            len: 8,
            prefill: &[],
        }),
        mk("3 tasks x 1 request, one dropped, one failed answer", Plan {
            tasks: 3,
            per_task: 1,
            cand: c4.clone(),
            drops: 1,
            faults: 1,
            answers: fail,
            len: 8,
            prefill: &[],
        }),
        mk("3 tasks x 1 request, two dropped", Plan {
            tasks: 3,
            per_task: 1,
            cand: c3.clone(),
            drops: 2,
            faults: 0,
            answers: full,
            len: 8,
            prefill: &[],
        }),
        mk("3 tasks x 2 requests", Plan {
            tasks: 3,
            per_task: t.sel(1, 2),
            cand: c3.clone(),
            drops: 0,
            faults: t.sel(2, 0),
            answers: t.sel(fail, full),
            len: 8,
            prefill: &[],
        }),
        mk("4 tasks x 1 request", Plan {
            tasks: 4,
            per_task: 1,
            cand: t.sel(vec![1..6, 0..8], c3),
            drops: t.sel(0, 1),
            faults: 0,
            answers: full,
            len: 8,
            prefill: &[],
        }),
        mk("2 tasks on a cache of many blocks, one dropped, one failed answer", Plan {
            tasks: 2,
            per_task: 1,
            cand: t.sel(vec![0..24, 6..9, 10..21, 15..18, 0..17], (0..24).flat_map(|a| [a..a + 1, a..24]).collect()),
            drops: 1,
            faults: 1,
            answers: fail,
            len: 24,
            prefill: &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20],
        }),
        body("2 tasks open the same file", move |ch| opens(ch, 2, 1, 1)).dev(t.sel(3, 5)),
        body("3 tasks open the same file", move |ch| opens(ch, 3, 1, 0)).dev(t.sel(2, 4)),
    ];
    (
        bodies,
        about(
            format!("2-4 tasks with 1-2 requests each on an 8-byte file, every interleaving of polls and answers, up to 2 dropped tasks and 1-2 failed or short answers; 2 tasks on a 24-byte file of which 1-20 one-byte blocks are cached already; 2-3 tasks opening one file with at most {} deviations from round-robin order; each poll runs with a cooperative budget of one, so that every lock acquisition is a scheduling point", t.sel("2-3", "4-5")),
            &["tasks are polled one at a time, as on a current-thread runtime; memory-model effects of parallel threads are left to the locks of tokio"],
        ),
    )
}
