//! Deterministic simulation of rawdio: see DESIGN.md.
#![allow(static_mut_refs)]

mod check;
mod exec;
mod gen;
mod host;
mod minimise;
mod model;
mod plan;
mod runner;

use runner::{Keep, Outcome, Pool};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::time::{Duration, Instant};

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn root() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("..").canonicalize().unwrap()
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn jobs() -> usize {
    env_u64("VERIF_JOBS", std::thread::available_parallelism().map_or(8, |n| n.get() as u64)) as usize
}

/// (runs, seconds) of a check.
fn effort(_property: &str, tier: &str) -> (u64, u64) {
    if tier == "thorough" {
        (env_u64("VERIF_RUNS", 200_000), env_u64("VERIF_SECS", 600))
    } else {
        (env_u64("VERIF_RUNS", 12_000), env_u64("VERIF_SECS", 45))
    }
}

struct Finding {
    property: String,
    oracle: String,
    contains: String,
    text: String,
}

/// Lines `finding: property=<id> oracle=<kind> contains="<text>" <what fails>`.
fn findings() -> Vec<Finding> {
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let field = |k: &str| -> Option<String> {
                let i = l.find(k)? + k.len();
                let r = &l[i..];
                if let Some(q) = r.strip_prefix('"') {
                    Some(q[..q.find('"')?].to_string())
                } else {
                    Some(r.split(' ').next()?.to_string())
                }
            };
            Some(Finding {
                property: field("property=")?,
                oracle: field("oracle=")?,
                contains: field("contains=")?,
                text: l.to_string(),
            })
        })
        .collect()
}

fn check_cmd(property: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let (runs, secs) = effort(property, tier);
    let known: Vec<Finding> = findings().into_iter().filter(|f| f.property == property).collect();
    let mut pool = Pool::new(jobs());
    let base = seed.wrapping_mul(1 << 32);
    let mut all: BTreeMap<u64, Outcome> = BTreeMap::new();
    let mut bad: BTreeMap<u64, Outcome> = BTreeMap::new();
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut harness: Option<String> = None;
    let prop = property.to_string();
    let deadline = t0 + Duration::from_secs(secs);
    pool.run(
        runs,
        Keep::default(),
        deadline,
        &|i| gen::make(&prop, base.wrapping_add(i)),
        &mut |i, o| {
            if o.status == 3 {
                harness = Some(format!("run {i}: {:?}", o.viol));
                return false;
            }
            if o.status == 2 {
                let vi = o.viol.clone().unwrap();
                if let Some(k) = known
                    .iter()
                    .position(|f| f.oracle == vi.oracle && vi.detail.contains(&f.contains))
                {
                    *known_hits.entry(k).or_default() += 1;
                    return true;
                }
                bad.insert(i, o);
                return false;
            }
            all.insert(i, o);
            true
        },
    );
    let wall = t0.elapsed().as_secs_f64();
    if bad.is_empty() {
        if let Some(h) = harness {
            eprintln!("harness error: {h}");
            return 2;
        }
    }
    evidence(property, tier, seed, wall, &all, bad.len(), &pool, base);
    for f in known.iter() {
        println!("KNOWN-FINDING: property={property} {}", f.text);
    }
    if let Some((i, o)) = bad.iter().next() {
        let mut plan = gen::make(property, base.wrapping_add(*i));
        plan.world.twice = o.twice;
        let v = o.viol.clone().unwrap();
        eprintln!("seed {} ({}): {}: {}", base.wrapping_add(*i), plan.profile, v.oracle, v.detail);
        let (p, o2) = minimise::Min::run(&v.oracle, &plan, env_u64("VERIF_MIN_SECS", 20));
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{property}-{}.json", base.wrapping_add(*i)));
        let body = json!({
            "property": property,
            "seed": base.wrapping_add(*i),
            "violation": o2.viol.clone().unwrap_or(v),
            "interleaving": format!("{:016x}", o2.interleaving),
            "ticks": o2.ticks,
            "plan": p,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        if let Some(v) = &o2.viol {
            eprintln!(
                "minimised to {} callbacks, {} control calls, {} hand-overs: {}: {}",
                p.calls.len(),
                p.ops.len(),
                p.sched.list.as_ref().map_or(0, |l| l.len()),
                v.oracle,
                v.detail
            );
        }
        println!("VIOLATION property={property} replay={}", path.display());
        return 1;
    }
    println!(
        "{property}: {} runs, {} distinct interleavings, no violation ({wall:.1} s)",
        all.len(),
        all.values().map(|o| o.interleaving).collect::<BTreeSet<_>>().len()
    );
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    property: &str,
    tier: &str,
    seed: u64,
    wall: f64,
    all: &BTreeMap<u64, Outcome>,
    bad: usize,
    pool: &Pool,
    base: u64,
) {
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut profiles: BTreeMap<String, u64> = BTreeMap::new();
    let (mut ilv, mut nontrivial) = (BTreeSet::new(), BTreeSet::new());
    let mut t = [0u64; 12];
    let mut kinds = vec![0u64; simrt::Y_KINDS];
    let mut worst = 0.0f64;
    for o in all.values() {
        for (k, v) in &o.counts {
            *counts.entry(k.clone()).or_default() += v;
        }
        *profiles.entry(o.profile.clone()).or_default() += 1;
        let key = (o.interleaving, o.digest);
        ilv.insert(o.interleaving);
        if o.status == 1 && o.trigger {
            nontrivial.insert(key);
        }
        for (i, n) in [
            o.ticks, o.switches, o.preemptions, o.starve_hits, o.sim_ns / 1_000_000, o.samples, o.nonzero,
            o.racing_ops, o.racing_split, o.engine_ms, (o.status == 4) as u64, o.blocks + o.sleeps,
        ]
        .iter()
        .enumerate()
        {
            t[i] += n;
        }
        for (i, n) in o.by_kind.iter().enumerate() {
            kinds[i] += n;
        }
        worst = worst.max(o.worst);
    }
    let faults: BTreeMap<&str, u64> = counts
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault: ").map(|k| (k, *v)))
        .collect();
    let events: BTreeMap<&str, u64> = counts
        .iter()
        .filter(|(k, _)| !k.starts_with("fault: "))
        .map(|(k, v)| (k.as_str(), *v))
        .collect();
    let covered = (1..=unsafe { simrt::COV_N }).filter(|i| pool.cov[*i] != 0).count();
    let samples: Vec<Value> = all
        .keys()
        .take(2)
        .map(|i| {
            let p = gen::make(property, base.wrapping_add(*i));
            json!({
                "seed": base.wrapping_add(*i),
                "profile": p.profile,
                "engines": p.engines,
                "callbacks (frames, in, out)": p.calls.iter().map(|c| format!("{}x{}/{}", c.frames, c.in_ch, c.out_ch)).collect::<Vec<_>>(),
                "control calls": p.ops.iter().take(40).map(|o| format!("{}{}: {:?}", if o.during { "during " } else { "before " }, o.g, o.act)).collect::<Vec<_>>(),
                "schedule": p.sched,
            })
        })
        .collect();
    let rate = |n: f64| (n / wall.max(0.001) * 3600.0).round();
    let body = json!({
        "property": property,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.len(),
            "distinct_nontrivial": nontrivial.len(),
            "rule": "one evaluation is one simulated execution of a generated program under one seed; two are distinct if the order of control calls, callbacks and message receptions or any observable bit differs; non-trivial: the run was conclusive and contained what the property is about (see gen::trigger)",
            "samples": samples,
            "runs_per_hour": rate(all.len() as f64),
            "seeds_per_hour": rate(all.len() as f64),
            "simulated_time_s": t[4] as f64 / 1000.0,
            "engine_time_s": t[9] as f64 / 1000.0,
            "distinct_interleavings": ilv.len(),
            "interleaving_measure": "hash of the order of control call begin/end, callback begin/end and message receptions",
            "basic_blocks_of_rawdio_reached": covered,
            "basic_blocks_of_rawdio": unsafe { simrt::COV_N },
            "profiles": profiles,
            "faults_injected": faults,
            "starved_scheduling_decisions": t[3],
            "events": events,
            "work_units": t[0],
            "thread_switches": t[1],
            "preemptions": t[2],
            "scheduling_points": simrt::Y_NAMES.iter().zip(&kinds).map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
            "output_samples_compared": t[5],
            "nonzero_samples": t[6],
            "racing_control_calls": t[7],
            "racing_calls_that_took_effect_in_the_running_callback": t[8],
            "inconclusive_runs": t[10],
            "worst_error_over_tolerance": worst,
            "real_code": ["all of rawdio", "std threads and their start-up", "crossbeam queues"],
            "stubbed": ["audio device (host callbacks)", "user program", "clock, sleep, futex, join, entropy (simulated)", "channel blocking (simulated around the real queues)", "heap allocator (deterministic)"],
        },
        "assumptions": [
            "sequentially consistent interleavings at the granularity of basic blocks and atomic operations inside rawdio, at call granularity inside std and crossbeam",
            "the reference model in sim/src/model.rs states the intended behaviour",
        ],
        "wall_s": wall,
        "violations": bad,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{property}.json")), serde_json::to_string_pretty(&body).unwrap());
}

fn replay_cmd(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&s).unwrap();
    let plan: plan::Plan = serde_json::from_value(v["plan"].clone()).unwrap();
    let o = runner::run_one(&plan, Keep::default());
    println!("{:?} interleaving {:016x} ticks {}", o.viol, o.interleaving, o.ticks);
    if o.status == 2 {
        let same = v["interleaving"] == json!(format!("{:016x}", o.interleaving))
            && v["violation"] == json!(o.viol)
            && v["ticks"] == json!(o.ticks);
        println!("{}", if same { "reproduced exactly" } else { "reproduced, but not identically" });
        println!("VIOLATION property={} replay={path}", plan.property);
        return 1;
    }
    0
}

/// Every seed twice, in different company: nothing may differ.
fn determinism_cmd(property: &str, n: u64) -> i32 {
    let mut first: BTreeMap<u64, Outcome> = BTreeMap::new();
    let far = Instant::now() + Duration::from_secs(3600);
    let base = env_u64("VERIF_SEED", 1).wrapping_mul(1 << 32);
    let keep = Keep {
        schedule: true,
        outs: false,
    };
    let mk = |i: u64| gen::make(property, base.wrapping_add(i));
    Pool::new(jobs()).run(n, keep, far, &mk, &mut |i, o| {
        first.insert(i, o);
        true
    });
    let mut diff = 0;
    let mut compare = |i: u64, o: &Outcome, what: &str| {
        let a = &first[&i];
        if a.digest != o.digest || a.interleaving != o.interleaving || a.ticks != o.ticks || a.viol != o.viol {
            diff += 1;
            println!("seed {i}: {what} differs (ticks {} {})", a.ticks, o.ticks);
            let k = a.schedule.iter().zip(&o.schedule).take_while(|(x, y)| x == y).count();
            println!("  at step {k} of {}: {:?} {:?}", a.schedule.len(), &a.schedule[k.saturating_sub(3)..(k + 4).min(a.schedule.len())], &o.schedule[k.saturating_sub(3)..(k + 4).min(o.schedule.len())]);
        }
    };
    Pool::new(2).run(n, keep, far, &mk, &mut |i, o| {
        compare(i, &o, "second run");
        true
    });
    type Recorded = (Vec<(u64, u8)>, bool);
    let lists: BTreeMap<u64, Recorded> = first.iter().map(|(i, o)| (*i, (o.schedule.clone(), o.twice))).collect();
    Pool::new(jobs()).run(
        n,
        keep,
        far,
        &|i| {
            let mut p = mk(i);
            p.sched.list = Some(lists[&i].0.clone());
            p.world.twice = lists[&i].1;
            p
        },
        &mut |i, o| {
            compare(i, &o, "replay of the recorded schedule");
            true
        },
    );
    println!("{property}: {n} seeds, {diff} differences");
    (diff > 0) as i32
}

/// Statistics over many seeds, for calibration.
fn sweep_cmd(property: &str, n: u64) -> i32 {
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1).wrapping_mul(1 << 32);
    let mut viols: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut worst: Vec<(f64, u64)> = vec![];
    let mut st = [0u64; 5];
    let mut trig = 0;
    let mut by: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
    let mut pool = Pool::new(jobs());
    let limit = env_u64("VERIF_SECS", 100_000);
    pool.run(
        n,
        Keep::default(),
        t0 + Duration::from_secs(limit),
        &|i| gen::make(property, base.wrapping_add(i)),
        &mut |i, o| {
            st[o.status as usize] += 1;
            trig += o.trigger as u64;
            worst.push((o.worst, i));
            let b = by.entry(o.profile.clone()).or_default();
            b.0 += 1;
            b.1 += o.ticks;
            b.2 += o.trigger as u64;
            if let Some(v) = o.viol {
                let e = viols.entry(v.oracle.clone()).or_insert((0, i, v.detail.clone()));
                e.0 += 1;
                if i < e.1 {
                    e.1 = i;
                    e.2 = v.detail;
                }
            }
            true
        },
    );
    worst.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let done: u64 = st.iter().sum();
    println!(
        "{property}: {done} runs in {:.1} s: held {} violated {} harness {} inconclusive {} trigger {trig} worst {:?} blocks {}",
        t0.elapsed().as_secs_f64(),
        st[1],
        st[2],
        st[3],
        st[4],
        &worst[..worst.len().min(3)],
        (1..=unsafe { simrt::COV_N }).filter(|i| pool.cov[*i] != 0).count()
    );
    for (k, b) in by {
        println!("   {k}: {} runs, {} ticks each, trigger {}", b.0, b.1 / b.0.max(1), b.2);
    }
    for (k, (n, i, d)) in &viols {
        println!("   {k}: {n} (first seed {i}) {d}");
    }
    (st[2] + st[3] > 0) as i32
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let rc = match arg(1) {
        "check" => check_cmd(arg(2), if arg(3).is_empty() { &tier } else { arg(3) }),
        "replay" => replay_cmd(arg(2)),
        "determinism" => determinism_cmd(arg(2), arg(3).parse().unwrap_or(200)),
        "sweep" => sweep_cmd(arg(2), arg(3).parse().unwrap_or(1000)),
        "run" => {
            let p = gen::make(arg(2), env_u64("VERIF_SEED", 1).wrapping_mul(1 << 32).wrapping_add(arg(3).parse().unwrap()));
            if arg(4) == "plan" {
                println!("{}", serde_json::to_string_pretty(&p).unwrap());
            }
            if arg(4) == "min" {
                let o = runner::run_one(&p, Keep::default());
                if let Some(v) = o.viol {
                    let (q, o) = minimise::Min::run(&v.oracle, &p, env_u64("VERIF_MIN_SECS", 30));
                    println!("{:?}\n{:?}", q.engines, q.world);
                    for (i, c) in q.calls.iter().enumerate() {
                        for o in q.ops.iter().filter(|o| o.g as usize == i && !o.during) {
                            println!("  {:?}", o.act);
                        }
                        println!("call {i} {c:?}");
                        for o in q.ops.iter().filter(|o| o.g as usize == i && o.during) {
                            println!("  during {:?}", o.act);
                        }
                    }
                    for o in q.ops.iter().filter(|o| o.g as usize >= q.calls.len()) {
                        println!("  {:?}", o.act);
                    }
                    println!("sched {:?} teardown {} offline {}", q.sched, q.teardown, q.offline);
                    println!("{:?}", o.viol);
                }
                std::process::exit(0);
            }
            let o = runner::run_one(&p, Keep::default());
            println!("{o:?}");
            0
        }
        _ => {
            eprintln!("usage: rawdio-sim check <property> [quick|thorough] | replay <file> | determinism <property> <n> | sweep <property> <n> | run <property> <i>");
            2
        }
    };
    std::process::exit(rc);
}
