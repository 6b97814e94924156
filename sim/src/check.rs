//! The oracles over a finished run.

use crate::exec::{EndState, OpRec, Res, World};
use crate::model::{self, Trace};
use crate::plan::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Viol {
    pub oracle: String,
    pub detail: String,
}

fn v<T>(oracle: &str, detail: String) -> Result<T, Viol> {
    Err(Viol {
        oracle: oracle.into(),
        detail,
    })
}

#[derive(Default, Clone, Debug)]
pub struct Info {
    pub inconclusive: bool,
    pub racing_ops: u64,
    pub racing_split: u64,
    pub samples: u64,
    pub nonzero: u64,
    pub worst: f64,
    pub model: Vec<model::ModelStats>,
    pub param_reads: u64,
    pub time_reads: u64,
    pub rec_frames: u64,
    pub flagged: u64,
    pub env_notes: u64,
    pub marks: u64,
    pub engine_frames: u64,
    pub engine_secs: f64,
}

const NONE: u32 = u32::MAX;

/// The callback in which each control call takes effect.
fn effective(w: &World, info: &mut Info) -> Vec<u32> {
    let mut eff = vec![NONE; w.plan.ops.len()];
    for (i, r) in w.ops.iter().enumerate() {
        if !w.valid[i] || !r.done {
            continue;
        }
        let own = &w.eng[w.plan.ops[i].e].own;
        let at = |k: usize| own.get(k).copied().unwrap_or(NONE);
        let lo = if r.b0 > r.d0 { at(r.b0 - 1) } else { at(r.b0) };
        let hi = at(r.b1);
        eff[i] = if lo == hi {
            hi
        } else {
            let sends = w.plan.ops[i].act.is_command() || w.plan.ops[i].act.is_event();
            if sends {
                info.racing_ops += 1;
                if w.receipts == 0 {
                    info.inconclusive = true;
                }
            }
            match r.receipt {
                Some(c) => {
                    if c.clamp(lo, hi) == lo {
                        info.racing_split += 1;
                    }
                    c.clamp(lo, hi)
                }
                None => hi,
            }
        };
    }
    eff
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}


pub fn check(w: &World, end: &EndState, info: &mut Info) -> Result<(), Viol> {
    if end.background_left > 0 {
        return v(
            "background-thread",
            format!("{} background thread(s) never end after everything was dropped", end.background_left),
        );
    }
    let log = unsafe { &simrt::alloc::FREE_LOG[..simrt::alloc::FREE_LOG_LEN] };
    for f in log {
        if f.in_callback {
            return v(
                "freed-in-callback",
                format!(
                    "{} bytes of node {} are freed inside an audio callback",
                    f.size,
                    f.tag - simrt::alloc::NODE_TAG
                ),
            );
        }
    }
    if !end.owned.is_empty() {
        return v("leak", format!("state of nodes {:?} is never freed", end.owned));
    }
    let eff = effective(w, info);
    memory(w, info)?;
    if info.inconclusive {
        return Ok(());
    }
    for e in 0..w.plan.engines.len() {
        let tr = model::run(&w.plan, &w.valid, &eff, e);
        if tr.stats.ties > 0 && !w.plan.engines[e].sr.is_power_of_two() {
            // times are rounded: which side of a tie it falls is not specified
            info.inconclusive = true;
            continue;
        }
        output(w, e, &tr, info)?;
        reads(w, e, &tr, info)?;
        recordings(w, e, &tr, info)?;
        envelopes(w, e, &tr, info)?;
        info.nonzero += tr.stats.nonzero;
        info.model.push(tr.stats);
    }
    Ok(())
}

fn output(w: &World, e: usize, tr: &Trace, info: &mut Info) -> Result<(), Viol> {
    let mut frames = 0u64;
    for (g, t) in tr.calls.iter().enumerate() {
        let t = match t {
            Some(t) => t,
            None => continue,
        };
        let r = &w.calls[g];
        if !r.done {
            continue;
        }
        for (c, (got, want)) in r.out.iter().zip(t.out.iter()).enumerate() {
            for (f, (a, b)) in got.iter().zip(want.iter()).enumerate() {
                let (a, b) = (*a as f64, *b);
                if !a.is_finite() {
                    return v(
                        "non-finite",
                        format!("engine {e} callback {g} channel {c} frame {f}: output is {a}"),
                    );
                }
                if !b.is_finite() {
                    info.inconclusive = true;
                    return Ok(());
                }
                let d = (a - b).abs();
                if d > t.tol {
                    let oracle = if t.started { "output" } else { "stopped-not-silent" };
                    return v(
                        oracle,
                        format!(
                            "engine {e} callback {g} channel {c} frame {f} (stream frame {}): got {a}, expected {b}",
                            frames + f as u64
                        ),
                    );
                }
                if !t.started && a != 0.0 {
                    return v(
                        "stopped-not-silent",
                        format!("engine {e} callback {g} channel {c} frame {f}: {a} while stopped"),
                    );
                }
                if d / t.tol > info.worst {
                    info.worst = d / t.tol;
                }
            }
            info.samples += got.len() as u64;
        }
        frames = t.frames_after;
    }
    info.engine_frames += frames;
    info.engine_secs += frames as f64 / w.plan.engines[e].sr as f64;
    Ok(())
}

fn reads(w: &World, e: usize, tr: &Trace, info: &mut Info) -> Result<(), Viol> {
    let own = &w.eng[e].own;
    let sr = w.plan.engines[e].sr as f64;
    let mut last_t = 0.0f64;
    // histories of published values, per parameter
    let mut hist: BTreeMap<(u32, usize), Vec<(usize, Vec<(f64, f64)>)>> = BTreeMap::new();
    for (k, g) in own.iter().enumerate() {
        if let Some(t) = &tr.calls[*g as usize] {
            for (key, p) in &t.params {
                if !p.is_empty() {
                    hist.entry(*key).or_default().push((k, p.clone()));
                }
            }
        }
    }
    let mut kinds: BTreeMap<u32, &Kind> = BTreeMap::new();
    for (i, op) in w.plan.ops.iter().enumerate() {
        if op.e != e || !w.valid[i] || !w.ops[i].done {
            continue;
        }
        let r = &w.ops[i];
        match (&op.act, &r.res) {
            (Act::Create { id, kind }, _) => {
                kinds.insert(*id, kind);
            }
            (Act::ReadTime, Some(Res::Time(t))) => {
                info.time_reads += 1;
                let frames = |ord: usize| -> f64 {
                    if ord == 0 {
                        0.0
                    } else {
                        tr.calls[own[ord - 1] as usize]
                            .as_ref()
                            .map_or(0.0, |c| c.frames_after as f64)
                    }
                };
                let seen = (r.d0..=r.b1).find(|o| close(*t, frames(*o) / sr, 1e-9 + 5e-10));
                if let Some(o) = seen {
                    // The callback whose frames the time includes was still at work on them.
                    if o > r.d1 && w.calls[own[o - 1] as usize].accesses > r.accesses {
                        return v(
                            "clock",
                            format!(
                                "engine {e}: time reads {t} s while callback {}, which ends then, \
                                 is still being processed",
                                own[o - 1]
                            ),
                        );
                    }
                } else {
                    return v(
                        "clock",
                        format!(
                            "engine {e}: time reads {t} s with {} callbacks completed, expected {} s",
                            r.d0,
                            frames(r.d0) / sr
                        ),
                    );
                }
                if *t < last_t {
                    return v("clock", format!("engine {e}: time went back from {last_t} to {t}"));
                }
                last_t = *t;
            }
            (Act::ReadParam { id, p }, Some(Res::Param(x))) => {
                info.param_reads += 1;
                let kind = kinds[id];
                let pd = &kind.params()[*p];
                let def = match kind {
                    Kind::Osc { freq, .. } if *p == 0 => *freq,
                    _ => pd.def,
                };
                let mut ok = vec![];
                let mut before = (def, 0.0);
                for (k, vals) in hist.get(&(*id, *p)).map_or(&[][..], |h| &h[..]) {
                    if *k < r.d0 {
                        before = *vals.last().unwrap();
                    } else if *k < r.b1 {
                        ok.extend_from_slice(vals);
                    }
                }
                ok.insert(0, before);
                // (values are read as f32 through some paths, times are quantised)
                let near = |(y, slack): &(f64, f64)| close(*x, *y, 1e-5 * (1.0 + y.abs()) + slack);
                if !ok.iter().any(near) {
                    return v(
                        "parameter-value",
                        format!(
                            "engine {e} node {id} ({} {}): reads {x}, expected {:?}",
                            kind.name(),
                            pd.name,
                            &ok[..ok.len().min(4)]
                        ),
                    );
                }
                if !(*x >= pd.min - 1e-9 && *x <= pd.max * (1.0 + 1e-12) + 1e-9) {
                    return v(
                        "parameter-range",
                        format!("node {id} {}: value {x} outside its range", pd.name),
                    );
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// (certain, possible): how many entries of `log` (call, …) are visible to a
/// notification pass: from calls completed before it, and begun by its end.
fn window(own: &[u32], n: &OpRec, calls: impl Iterator<Item = u32>) -> (usize, usize) {
    let ord = |c: u32| own.binary_search(&c).unwrap_or(usize::MAX);
    let (mut a, mut b) = (0, 0);
    for c in calls {
        let k = ord(c);
        if k < n.d0 {
            a += 1;
        }
        if k < n.b1 {
            b += 1;
        }
    }
    (a, b)
}

fn recordings(w: &World, e: usize, tr: &Trace, info: &mut Info) -> Result<(), Viol> {
    let own = &w.eng[e].own;
    for (id, t) in &tr.recs {
        let mut taken = 0usize;
        let mut notif: Option<&OpRec> = None;
        let mut certain = 0usize; // frames certainly handed over
        let mut possible = 0usize;
        for (i, op) in w.plan.ops.iter().enumerate() {
            let r = &w.ops[i];
            if op.e != e || !w.valid[i] || !r.done {
                continue;
            }
            match (&op.act, &r.res) {
                (Act::Notif, _) => {
                    let (a, _) = window(own, r, t.stops.iter().map(|s| s.0));
                    if a > 0 {
                        certain = certain.max(t.stops[a - 1].1);
                    }
                    let k = own[..r.b1.min(own.len())].last().copied();
                    possible = t
                        .len_after
                        .iter()
                        .filter(|(c, _)| Some(*c) <= k)
                        .map(|x| x.1)
                        .max()
                        .unwrap_or(0);
                    notif = Some(r);
                }
                (Act::RecTake { id: n }, Some(Res::Rec(b))) if n == id => {
                    let len = match b {
                        None => 0,
                        Some((sr, d)) => {
                            if *sr != w.plan.engines[e].sr {
                                return v(
                                    "recording",
                                    format!("recorder {id}: sample rate {sr} is not the engine's"),
                                );
                            }
                            if d.len() != t.ch {
                                return v(
                                    "recording",
                                    format!("recorder {id}: {} channels instead of {}", d.len(), t.ch),
                                );
                            }
                            d.first().map_or(0, |x| x.len())
                        }
                    };
                    if taken + len > possible {
                        return v(
                            "recording",
                            format!(
                                "engine {e} recorder {id}: {} frames handed over, only {possible} were recorded",
                                taken + len
                            ),
                        );
                    }
                    if let Some((_, d)) = b {
                        for (c, x) in d.iter().enumerate() {
                            for (f, a) in x.iter().enumerate() {
                                let want = t.data[c][taken + f];
                                if !close(*a as f64, want, t.tol) {
                                    return v(
                                        "recording",
                                        format!(
                                            "engine {e} recorder {id}: channel {c} frame {}: recorded {a}, arrived {want}",
                                            taken + f
                                        ),
                                    );
                                }
                            }
                        }
                    }
                    taken += len;
                    info.rec_frames += len as u64;
                    if taken < certain {
                        return v(
                            "recording",
                            format!(
                                "engine {e} recorder {id}: {taken} frames handed over, {certain} were recorded and stopped"
                            ),
                        );
                    }
                }
                (Act::RecFlag { id: n }, Some(Res::Flag(b))) if n == id => {
                    let ok = match notif {
                        None => !*b,
                        Some(nt) => {
                            let (a, z) = window(own, nt, t.flags.iter().map(|s| s.0));
                            let st = |k: usize| k > 0 && t.flags[k - 1].1;
                            let seen = (a..=z).find(|k| st(*k) == *b);
                            // A flag that shows a stop shows that what was recorded
                            // until then is there to be taken
                            let stops = t.flags[..seen.unwrap_or(0)].iter().filter(|f| !f.1).count();
                            if stops > 0 {
                                let at = t.stops[stops - 1].1;
                                if at > certain {
                                    info.flagged += 1;
                                    certain = at;
                                }
                            }
                            seen.is_some()
                        }
                    };
                    if !ok {
                        return v("recording-flag", format!("engine {e} recorder {id}: is_recording is {b}"));
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

const ENV_QUEUE: usize = 64;

fn envelopes(w: &World, e: usize, tr: &Trace, info: &mut Info) -> Result<(), Viol> {
    let own = &w.eng[e].own;
    for (id, t) in &tr.envs {
        let mut pos = 0usize; // matched so far
        let mut overflow = false;
        let mut certain = 0usize;
        let mut low = vec![(0usize, 0usize)];
        let mut possible = 0usize;
        let mut least = 0usize; // delivered at least (with a full queue)
        let mut got = 0usize;
        for (i, op) in w.plan.ops.iter().enumerate() {
            let r = &w.ops[i];
            if op.e != e || !w.valid[i] || !r.done {
                continue;
            }
            match (&op.act, &r.res) {
                (Act::Notif, _) => {
                    let (a, b) = window(own, r, t.notes.iter().map(|n| n.0));
                    overflow |= b - certain.min(b) > ENV_QUEUE;
                    // the queue was emptied at some point in [a, b]: the least
                    // that can have been delivered by then, per point
                    low = (a..=b)
                        .filter_map(|x| {
                            let n = low.iter().filter(|(y, _)| *y <= x).map(|(y, n)| n + (x - y).min(ENV_QUEUE)).min()?;
                            Some((x, n))
                        })
                        .collect();
                    least = low.iter().map(|x| x.1).min().unwrap_or(0);
                    certain = a;
                    possible = b;
                }
                (Act::EnvTake { id: n }, Some(Res::Env(d))) if n == id => {
                    info.env_notes += d.len() as u64;
                    for (ch, level) in d {
                        got += 1;
                        let m = |n: &(u32, usize, f64)| n.1 == *ch && close(*level as f64, n.2, t.tol);
                        let hit = if overflow {
                            (pos..possible).find(|k| m(&t.notes[*k]))
                        } else if pos < possible && m(&t.notes[pos]) {
                            Some(pos)
                        } else {
                            None
                        };
                        match hit {
                            Some(k) => pos = k + 1,
                            None => {
                                let want = t.notes[..possible].get(pos);
                                return v(
                                    "envelope",
                                    format!(
                                        "engine {e} envelope {id}: report {got} is channel {ch} level {level}, expected {want:?}"
                                    ),
                                );
                            }
                        }
                    }
                    if !overflow && pos < certain || overflow && got < least {
                        return v(
                            "envelope",
                            format!("engine {e} envelope {id}: {got} reports delivered, {certain} were due"),
                        );
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

fn memory(w: &World, info: &mut Info) -> Result<(), Viol> {
    // when was each drop certainly processed
    let mut done: BTreeMap<u32, (usize, usize)> = BTreeMap::new(); // id -> (engine, ordinal)
    let mut live: Vec<i64> = vec![];
    // a collector that prints, or looks at the clock, is slow in these runs
    let slow_pipe = w.plan.world.pipe.map_or(false, |(_, how)| how > 0) || w.plan.world.clock_step >= 1_000_000;
    let starved_gc = slow_pipe || w.plan.sched.starve.iter().any(|s| s.role == 3);
    for (i, op) in w.plan.ops.iter().enumerate() {
        let r = &w.ops[i];
        if !w.valid[i] || !r.done {
            continue;
        }
        match (&op.act, &r.res) {
            (Act::Drop { id } | Act::Churn { id, .. }, _) => {
                done.insert(*id, (op.e, r.b1));
            }
            (Act::Mark, Some(Res::Mark { now, live: l, owned })) => {
                info.marks += 1;
                live.push(*l);
                if starved_gc {
                    continue;
                }
                let held: BTreeSet<u32> = owned.iter().copied().collect();
                for (id, (e, ord)) in &done {
                    let own = &w.eng[*e].own;
                    let processed = own
                        .get(*ord)
                        .map(|g| &w.calls[*g as usize])
                        .map_or(false, |c| c.done && *ord < r.d0.max(w.eng[*e].done) && c.end_ns + 2_500_000_000 <= *now);
                    if processed && held.contains(id) {
                        return v(
                            "not-destroyed",
                            format!("state of node {id} still exists long after it was dropped"),
                        );
                    }
                }
            }
            _ => {}
        }
    }
    if !slow_pipe && w.plan.leak_check && live.len() == 93 {
        // same place in the cycle and in every message queue, 62 cycles apart
        let (i, grown) = (4..31).map(|i| (i, live[i + 62] - live[i])).min_by_key(|x| x.1).unwrap();
        if grown > 256 {
            return v(
                "memory-growth",
                format!("memory held grows with completed cycles: {} bytes after {i}, {} bytes after {}", live[i], live[i + 62], i + 62),
            );
        }
    }
    Ok(())
}
