mod alloc;
mod codecs;
mod engine;
mod exec;
mod props;
mod supervise;
mod sources;
mod tiffw;

use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

use engine::{Body, Ran, Stats, Verdict};

#[global_allocator]
static GLOBAL: alloc::Watch = alloc::Watch;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    fn parse(s: &str) -> Tier {
        match s {
            "thorough" => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
    fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn sel<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

fn verif() -> PathBuf {
    // CARGO_MANIFEST_DIR is <verif>/mc
    Path::new(env!("CARGO_MANIFEST_DIR"))
        .parent()
        .unwrap()
        .to_path_buf()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(id: &str, tier: Tier, st: &Stats, wall: f64, violations: u32, about: &props::About) {
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let bodies = st
        .per_body
        .iter()
        .map(|(n, e, t)| {
            format!(
                "{{\"body\":{},\"executions\":{e},\"transitions\":{t}}}",
                esc(n)
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    let samples = st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    let assumptions = about
        .assumptions
        .iter()
        .map(|s| esc(s))
        .collect::<Vec<_>>()
        .join(",");
    let exhaustive = !st.capped && violations == 0;
    let s = format!(
        "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{seed},\n \"level\":\"model_checking\",\n \"coverage\":{{\n  \"states\":{},\n  \"transitions\":{},\n  \"traces_validated_against_impl\":{},\n  \"distinct_outcomes\":{},\n  \"max_choice_depth\":{},\n  \"exhaustive\":{exhaustive},\n  \"time_cap_hit\":{},\n  \"state_count_is_lower_bound\":{},\n  \"bounds\":{},\n  \"per_body\":[{bodies}],\n  \"samples\":[{samples}]\n }},\n \"assumptions\":[{assumptions}],\n \"wall_s\":{wall:.3},\n \"violations\":{violations}\n}}\n",
        esc(id),
        esc(tier.name()),
        st.states.len(),
        st.transitions,
        st.executions,
        st.outcomes.len(),
        st.max_depth,
        st.capped,
        st.state_cap,
        esc(&about.bounds),
    );
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!("{id}.json.tmp"));
    std::fs::write(&tmp, s).expect("evidence");
    std::fs::rename(&tmp, dir.join(format!("{id}.json"))).expect("evidence");
}

fn child(id: &str, tier: Tier, slots: &Path) -> i32 {
    let slots = supervise::attach(slots);
    engine::install_panic_hook();
    let t0 = Instant::now();
    let Some((bodies, about)) = props::get(id, tier) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, supervise::SLOTS);
    let budget = std::env::var("MC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.sel(420, 6 * 3600));
    let (mut st, verdict) =
        engine::explore(&bodies, threads, &slots, t0 + Duration::from_secs(budget));
    let wall = t0.elapsed().as_secs_f64();
    match verdict {
        Verdict::Holds => {
            write_evidence(id, tier, &st, wall, 0, &about);
            println!(
                "{id}: held on {} executions, {} transitions, {} states, {} distinct outcomes{} ({wall:.1} s)",
                st.executions,
                st.transitions,
                st.states.len(),
                st.outcomes.len(),
                if st.capped { " [time cap hit]" } else { "" }
            );
            0
        }
        Verdict::Violated(f) => {
            let b = &bodies[f.body];
            let p = supervise::write_replay(
                &verif().join("out"),
                id,
                tier.name(),
                b,
                &f.tape,
                &f.msg,
                &f.log,
            );
            st.samples
                .push(format!("VIOLATION {}: {} | {}", b.name, f.msg, f.log.join("; ")));
            write_evidence(id, tier, &st, wall, 1, &about);
            println!("{id}: {}: {}", b.name, f.msg);
            for l in f.log.iter().take(40) {
                println!("  {l}");
            }
            println!("VIOLATION property={id} replay={}", p.display());
            1
        }
        Verdict::Engine(m) => {
            eprintln!("{id}: engine error: {m}");
            2
        }
    }
}

fn replay(file: &Path) -> i32 {
    engine::install_panic_hook();
    supervise::limit_memory();
    let s = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(k).map(|v| v.trim().to_string()))
            .unwrap_or_default()
    };
    let (id, tier, name, tape) = (get("property "), get("tier "), get("body "), get("tape"));
    let (bodies, _) = props::get(&id, Tier::parse(&tier)).expect("property");
    let (bi, b): (usize, &Body) = bodies
        .iter()
        .enumerate()
        .find(|(_, b)| b.name == name)
        .expect("body");
    let tape = supervise::parse_tape(&tape);
    let (ran, ch) = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                // once is enough unless the outcome depends on random hash keys and the like
                for _ in 0..63 {
                    let (r, c) = engine::run_once(b, bi, &tape, None, true);
                    if !matches!(r, Ran::Ok) {
                        return (r, c.log.unwrap_or_default());
                    }
                }
                let (r, c) = engine::run_once(b, bi, &tape, None, true);
                (r, c.log.unwrap_or_default())
            })
            .unwrap()
            .join()
            .unwrap()
    });
    for l in ch {
        println!("  {l}");
    }
    match ran {
        Ran::Ok => {
            println!("no violation");
            0
        }
        Ran::Violation(m) => {
            println!("violation: {m}");
            1
        }
        Ran::Engine(m) | Ran::Diverged(m) => {
            println!("engine error: {m}");
            2
        }
    }
}

fn run(id: &str, tier: Tier) -> i32 {
    let out = verif().join("out");
    let _ = std::fs::create_dir_all(&out);
    let exe = std::env::current_exe().expect("exe");
    let slots = out.join(format!("{id}.{}.slots", std::process::id()));
    let t0 = Instant::now();
    let end = supervise::supervise(
        &exe,
        &["child", id, tier.name(), slots.to_str().unwrap()],
        &slots,
    );
    let _ = std::fs::remove_file(&slots);
    match end {
        supervise::End::Exit(c) => c,
        supervise::End::Broken(m) => {
            eprintln!("{id}: {m}");
            3
        }
        supervise::End::Suspects(why, v) => {
            let Some((bodies, about)) = props::get(id, tier) else {
                return 2;
            };
            for (bi, tape) in v {
                let Some(b) = bodies.get(bi) else { continue };
                let p = supervise::write_replay(&out, id, tier.name(), b, &tape, &why, &[]);
                if supervise::confirm(&exe, &p) && supervise::confirm(&exe, &p) {
                    let st = Stats {
                        samples: vec![format!("VIOLATION {}: {why}", b.name)],
                        executions: 1,
                        ..Default::default()
                    };
                    write_evidence(id, tier, &st, t0.elapsed().as_secs_f64(), 1, &about);
                    println!("{id}: {}: {why}", b.name);
                    println!("VIOLATION property={id} replay={}", p.display());
                    return 1;
                }
                let _ = std::fs::remove_file(&p);
            }
            eprintln!("{id}: {why}, and no execution reproduces it");
            3
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let tier = a
                .get(3)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_default();
            run(&a[2], Tier::parse(&tier))
        }
        Some("child") => child(&a[2], Tier::parse(&a[3]), Path::new(&a[4])),
        Some("replay") => replay(Path::new(&a[2])),
        _ => {
            eprintln!("usage: mc run <property> [quick|thorough] | mc replay <file>");
            2
        }
    };
    std::process::exit(code);
}
