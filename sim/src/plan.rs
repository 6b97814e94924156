//! A run, written out: engines, host callbacks, control operations, where they
//! may fall relative to each other, the scheduling policy and the faults.
//! A plan is a pure value: one plan is one exactly repeatable execution.

use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub profile: String,
    pub seed: u64,
    pub engines: Vec<EngCfg>,
    pub calls: Vec<Call>,
    pub ops: Vec<Op>,
    pub sched: Sched,
    pub world: World,
    /// 0: process dropped first, 1: control side dropped first, 2: racing,
    /// 3: context before nodes, 4: nodes in reverse order.
    pub teardown: u8,
    /// Control and audio on one thread (offline rendering).
    pub offline: bool,
    /// Host callbacks through interleaved device data.
    pub interleaved: bool,
    /// Raise the notification and memory checks of cyclic histories.
    pub leak_check: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct EngCfg {
    pub sr: usize,
    pub max_ch: usize,
    pub max_frames: usize,
    /// Control thread and audio thread this engine lives on.
    pub ct: usize,
    pub at: usize,
    pub input: u8,
    pub input_seed: u64,
    pub amp: f32,
    /// Global call index at which the audio device disappears.
    pub lost_at: Option<u32>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Call {
    pub e: usize,
    pub frames: usize,
    pub in_ch: usize,
    pub out_ch: usize,
    /// 0: yielding owned planar, 1: library owned buffer, 2: borrowed window of a larger buffer.
    pub buf: u8,
    /// Simulated time after the callback, in nanoseconds.
    pub adv: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Op {
    pub e: usize,
    /// Global call index the gate refers to.
    pub g: u32,
    /// false: before that call begins; true: once that call has begun (racing).
    pub during: bool,
    pub act: Act,
    /// How often the call is made (calls that set a state, before a callback).
    #[serde(default = "once")]
    pub times: u32,
}

fn once() -> u32 {
    1
}

impl Op {
    /// Making the call several times is the same as making it once.
    pub fn repeatable(&self) -> bool {
        !self.during
            && matches!(
                self.act,
                Act::Churn { .. } |
                Act::Param { set: PSet::Now(_), .. }
                    | Act::Level { .. }
                    | Act::AdsrTime { .. }
                    | Act::AdsrSustain { .. }
                    | Act::AdsrAll { .. }
                    | Act::ConnIn { .. }
                    | Act::ConnOut { .. }
            )
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kind {
    Gain { ch: usize },
    Pan,
    Osc { freq: f64, out: usize, table: u8, seed: u64 },
    Biquad { ch: usize, ty: u8 },
    Comp { ch: usize },
    Shape { ch: usize, ty: u8, thr: f64 },
    Conv { ch: usize, len: usize, seed: u64 },
    Mixer { i: usize, o: usize, preset: u8 },
    Adsr { ch: usize },
    Env { ch: usize, att: f64, rel: f64, freq: f64 },
    Rec { ch: usize },
    Samp { ch: usize, len: usize, seed: u64, cap: usize },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PSet {
    Now(f64),
    At(f64, f64),
    Lin(f64, f64, f64),
    Exp(f64, f64, f64),
    Cancel,
    CancelAfter(f64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum SEv {
    StartNow,
    StopNow,
    Start(f64, f64),
    Stop(f64),
    Loop(f64, f64),
    LoopAt(f64, f64, f64),
    CancelLoop,
    CancelLoopAt(f64),
    CancelAll,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    Start,
    Stop,
    Create { id: u32, kind: Kind },
    Drop { id: u32 },
    Conn { s: u32, d: u32 },
    ConnCh { s: u32, d: u32, sc: usize, dc: usize, n: usize },
    Disc { s: u32, d: u32 },
    ConnIn { id: u32 },
    ConnOut { id: u32 },
    /// `connect_nodes!`: "input" => a => b => … => "output".
    Chain { ids: Vec<u32>, input: bool, output: bool },
    /// A gain node created, connected to a node if there is one, and dropped.
    Churn { id: u32, to: Option<u32> },
    Param { id: u32, p: usize, set: PSet },
    ReadParam { id: u32, p: usize },
    ReadTime,
    Level { id: u32, i: usize, o: usize, v: f64 },
    Note { id: u32, on: bool, t: f64 },
    AdsrTime { id: u32, which: u8, ms: f64 },
    AdsrSustain { id: u32, db: f64 },
    AdsrAll { id: u32, a: f64, d: f64, s: f64, r: f64 },
    Samp { id: u32, ev: SEv },
    RecStart { id: u32 },
    RecStop { id: u32 },
    RecStopAt { id: u32, t: f64 },
    RecTake { id: u32 },
    RecFlag { id: u32 },
    EnvTake { id: u32 },
    Notif,
    DropCtx,
    /// Let simulated time pass on the control thread.
    Sleep { ms: u64 },
    /// Note the live memory (leak check).
    Mark,
    /// Work done in another engine of the process, which is then thrown away: nodes
    /// created and dropped, ADSR, sampler and recorder events issued.
    History { nodes: u32, adsr: u32, samp: u32, rec: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct StarveW {
    pub role: u8,
    pub from: u32,
    pub to: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Sched {
    pub seed: u64,
    pub mode: u8,
    pub p_switch: f64,
    pub bb_mean: u64,
    #[serde(default)]
    pub atomic_mean: u64,
    pub pct_depth: u32,
    pub starve: Vec<StarveW>,
    /// Explicit hand-overs (tick, thread) of a minimised run.
    pub list: Option<Vec<(u64, u8)>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct World {
    pub hash_seed: u64,
    /// Nodes created and dropped in another engine before the run.
    pub id_offset: u32,
    /// Seed of buffer misalignment.
    pub jitter: Option<u64>,
    /// Standard output: after how many writes its reader goes away (0) or lets every
    /// writer wait for so many nanoseconds.
    #[serde(default)]
    pub pipe: Option<(u64, u64)>,
    /// Nanoseconds for which a thread is delayed whenever it reads the clock.
    #[serde(default)]
    pub clock_step: u64,
    /// The second of two identical runs in one process: what the first left in
    /// process-wide tables is not held by any node of the second.
    #[serde(default)]
    pub twice: bool,
}

pub struct PDef {
    pub name: &'static str,
    pub def: f64,
    pub min: f64,
    pub max: f64,
}
const fn pd(name: &'static str, def: f64, min: f64, max: f64) -> PDef {
    PDef { name, def, min, max }
}
const INF: f64 = f64::INFINITY;
const DB12: f64 = 3.981_071_705_534_972_5;
const DB100: f64 = 100_000.0;

static GAIN: [PDef; 1] = [pd("gain", 1.0, -INF, INF)];
static PAN: [PDef; 1] = [pd("pan", 0.0, -1.0, 1.0)];
static OSC: [PDef; 2] = [pd("frequency", 0.0, 20.0, 20_000.0), pd("gain", 1.0, -INF, INF)];
static BIQ: [PDef; 4] = [
    pd("frequency", 1000.0, 20.0, 20_000.0),
    pd("q", std::f64::consts::FRAC_1_SQRT_2, 0.1, 10.0),
    pd("shelf-gain", 1.0, 0.0, DB100),
    pd("gain", 1.0, 0.0, DB100),
];
static COMP: [PDef; 7] = [
    pd("attack", 1.0, 0.0, 1000.0),
    pd("release", 10.0, 0.0, 10_000.0),
    pd("ratio", 3.0, 1.0, f64::MAX),
    pd("threshold", 0.0, -128.0, 24.0),
    pd("knee", 0.0, 0.0, 24.0),
    pd("wet", 1.0, 0.0, DB12),
    pd("dry", 0.0, 0.0, DB12),
];
static SHAPE: [PDef; 2] = [pd("overdrive", 0.0, 0.0, 1.0), pd("mix", 1.0, 0.0, 1.0)];
static CONV: [PDef; 2] = [pd("wet", 1.0, 0.0, 1.0), pd("dry", 0.0, 0.0, 1.0)];
static NONE: [PDef; 0] = [];

impl Kind {
    pub fn ins(&self) -> usize {
        match *self {
            Kind::Gain { ch }
            | Kind::Biquad { ch, .. }
            | Kind::Comp { ch }
            | Kind::Shape { ch, .. }
            | Kind::Conv { ch, .. }
            | Kind::Adsr { ch }
            | Kind::Env { ch, .. }
            | Kind::Rec { ch } => ch,
            Kind::Pan => 2,
            Kind::Osc { .. } | Kind::Samp { .. } => 0,
            Kind::Mixer { i, o: _, preset } => {
                if preset == 2 {
                    1
                } else {
                    i
                }
            }
        }
    }
    pub fn outs(&self) -> usize {
        match *self {
            Kind::Osc { out, .. } => out,
            Kind::Samp { ch, .. } => ch,
            Kind::Rec { .. } => 0,
            Kind::Mixer { i, o, preset } => match preset {
                1 => i,
                2 => 2,
                _ => o,
            },
            _ => self.ins(),
        }
    }
    pub fn params(&self) -> &'static [PDef] {
        match self {
            Kind::Gain { .. } => &GAIN,
            Kind::Pan => &PAN,
            Kind::Osc { .. } => &OSC,
            Kind::Biquad { .. } => &BIQ,
            Kind::Comp { .. } => &COMP,
            Kind::Shape { .. } => &SHAPE,
            Kind::Conv { .. } => &CONV,
            _ => &NONE,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Kind::Gain { .. } => "gain",
            Kind::Pan => "pan",
            Kind::Osc { .. } => "oscillator",
            Kind::Biquad { .. } => "biquad",
            Kind::Comp { .. } => "compressor",
            Kind::Shape { .. } => "waveshaper",
            Kind::Conv { .. } => "convolution",
            Kind::Mixer { .. } => "mixer",
            Kind::Adsr { .. } => "adsr",
            Kind::Env { .. } => "envelope",
            Kind::Rec { .. } => "recorder",
            Kind::Samp { .. } => "sampler",
        }
    }
}

impl Act {
    pub fn node(&self) -> Option<u32> {
        match *self {
            Act::Create { id, .. }
            | Act::Drop { id }
            | Act::Churn { id, .. }
            | Act::ConnIn { id }
            | Act::ConnOut { id }
            | Act::Param { id, .. }
            | Act::ReadParam { id, .. }
            | Act::Level { id, .. }
            | Act::Note { id, .. }
            | Act::AdsrTime { id, .. }
            | Act::AdsrSustain { id, .. }
            | Act::AdsrAll { id, .. }
            | Act::Samp { id, .. }
            | Act::RecStart { id }
            | Act::RecStop { id }
            | Act::RecStopAt { id, .. }
            | Act::RecTake { id }
            | Act::RecFlag { id }
            | Act::EnvTake { id } => Some(id),
            _ => None,
        }
    }
    /// Travels through a node's own event queue (polled when the node runs).
    pub fn is_event(&self) -> bool {
        matches!(
            self,
            Act::Level { .. }
                | Act::Note { .. }
                | Act::AdsrTime { .. }
                | Act::AdsrSustain { .. }
                | Act::AdsrAll { .. }
                | Act::Samp { .. }
                | Act::RecStart { .. }
                | Act::RecStop { .. }
                | Act::RecStopAt { .. }
        )
    }
    pub fn is_command(&self) -> bool {
        matches!(
            self,
            Act::Start
                | Act::Stop
                | Act::Create { .. }
                | Act::Drop { .. }
                | Act::Conn { .. }
                | Act::ConnCh { .. }
                | Act::Disc { .. }
                | Act::ConnIn { .. }
                | Act::ConnOut { .. }
                | Act::Chain { .. }
                | Act::Churn { .. }
                | Act::Param { .. }
        )
    }
}

/// The sample a host delivers on `ch` at absolute stream frame `f`.
pub fn input_sample(kind: u8, seed: u64, amp: f32, ch: usize, f: u64) -> f32 {
    let h = |x: u64| simrt::rng::mix(seed ^ (ch as u64) << 48, x);
    let noise = |x: u64| ((h(x) >> 40) as f32 / (1u64 << 24) as f32) * 2.0 - 1.0;
    match kind {
        0 => amp * noise(f),
        // constant, a different one per channel
        1 => amp / (1.0 + ch as f32),
        // sparse impulses
        2 => {
            if h(f) % 97 == 0 {
                amp
            } else {
                0.0
            }
        }
        // slow tone
        3 => amp * ((f as f64 * (0.01 + 0.003 * ch as f64)).sin() as f32),
        // bursts
        4 => {
            if (f / 173 + ch as u64) % 3 == 0 {
                amp * noise(f)
            } else {
                0.01 * noise(f)
            }
        }
        // full scale exactly, switching sign and silence
        5 => match (f / 61 + ch as u64) % 4 {
            0 => amp,
            1 => 0.0,
            2 => -amp,
            _ => amp * 0.5,
        },
        6 => 0.0,
        // long silences, of all channels at once
        7 => {
            let part = f / 613;
            if simrt::rng::mix(seed, part) % 2 == 0 {
                amp * noise(f)
            } else {
                0.0
            }
        }
        // hardly anything, then something
        8 => {
            if (f / 307) % 2 == 0 {
                1e-5 * noise(f)
            } else {
                amp * noise(f)
            }
        }
        _ => amp * noise(f),
    }
}

pub fn noise_table(seed: u64, ch: usize, len: usize, amp: f32) -> Vec<Vec<f32>> {
    (0..ch)
        .map(|c| {
            (0..len)
                .map(|f| {
                    let h = simrt::rng::mix(seed ^ ((c as u64) << 40), f as u64);
                    amp * (((h >> 40) as f32 / (1u64 << 24) as f32) * 2.0 - 1.0)
                })
                .collect()
        })
        .collect()
}

pub fn impulse_table(seed: u64, ch: usize, len: usize) -> Vec<Vec<f32>> {
    let amp = 1.0 / (1.0 + (len as f32).sqrt());
    let mut t = noise_table(seed ^ 0x1217, ch, len, amp);
    for c in t.iter_mut() {
        if let Some(x) = c.last_mut() {
            *x = 0.7;
        }
    }
    t
}

pub fn wavetable(table: u8, seed: u64) -> Vec<f64> {
    let n = match table {
        2 => 3,
        3 => 7,
        4 => 64,
        _ => 1000,
    };
    let u = |i: u64| {
        let h = simrt::rng::mix(seed, i);
        (h >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0
    };
    if n < 10 {
        return (0..n).map(|i| u(i as u64)).collect();
    }
    // Smooth, or the last bits of the frequency would become audible.
    (0..n)
        .map(|i| {
            let x = i as f64 / n as f64 * std::f64::consts::TAU;
            0.6 * (x + u(0)).sin() + 0.25 * u(1) * (2.0 * x).sin() + 0.15 * u(2) * (3.0 * x + u(3)).cos()
        })
        .collect()
}

impl Act {
    /// The same thing `dt` frames later, to other nodes.
    pub fn moved(&self, dt: f64, to: &dyn Fn(u32) -> u32) -> Act {
        let mut a = self.clone();
        match &mut a {
            Act::Create { id, .. }
            | Act::Drop { id }
            | Act::ConnIn { id }
            | Act::ConnOut { id }
            | Act::ReadParam { id, .. }
            | Act::Level { id, .. }
            | Act::AdsrTime { id, .. }
            | Act::AdsrSustain { id, .. }
            | Act::AdsrAll { id, .. }
            | Act::RecStart { id }
            | Act::RecStop { id }
            | Act::RecTake { id }
            | Act::RecFlag { id }
            | Act::EnvTake { id } => *id = to(*id),
            Act::Chain { ids, .. } => ids.iter_mut().for_each(|id| *id = to(*id)),
            Act::Churn { id, to: d } => {
                *id = to(*id);
                *d = d.map(to);
            }
            Act::Conn { s, d } | Act::ConnCh { s, d, .. } | Act::Disc { s, d } => {
                *s = to(*s);
                *d = to(*d);
            }
            Act::Param { id, set, .. } => {
                *id = to(*id);
                match set {
                    PSet::At(_, t) | PSet::CancelAfter(t) => *t += dt,
                    PSet::Lin(_, t, u) | PSet::Exp(_, t, u) => {
                        *t += dt;
                        *u += dt;
                    }
                    PSet::Now(_) | PSet::Cancel => {}
                }
            }
            Act::Note { id, t, .. } | Act::RecStopAt { id, t } => {
                *id = to(*id);
                *t += dt;
            }
            Act::Samp { id, ev } => {
                *id = to(*id);
                match ev {
                    SEv::Start(t, _) | SEv::Stop(t) | SEv::LoopAt(t, _, _) | SEv::CancelLoopAt(t) => *t += dt,
                    _ => {}
                }
            }
            Act::Start | Act::Stop | Act::ReadTime | Act::Notif | Act::DropCtx | Act::Sleep { .. } | Act::Mark | Act::History { .. } => {}
        }
        a
    }
}

/// Which operations are legal uses of the API, given the ones before them.
/// Shared by the driver and the oracles so that a shortened plan stays legal.
pub fn validity(p: &Plan) -> Vec<bool> {
    use std::collections::BTreeMap;
    struct N {
        e: usize,
        kind: Kind,
        /// Events sent that may not have been received yet: those sent before
        /// the callbacks since the last barrier, and those sent during them.
        before: usize,
        during: usize,
    }
    struct E {
        ctx: bool,
        started: bool,
        last_g: u32,
        racing: bool,
        /// Whether the callbacks since the last barrier surely rendered.
        sure: bool,
    }
    /// The signs of the values of a parameter: whether all are below zero,
    /// beginning with an immediate one, and whether it ramps exponentially there.
    #[derive(Default)]
    struct Signs {
        any: bool,
        below: bool,
        ramped: bool,
    }
    let mut signs: BTreeMap<(u32, usize), Signs> = BTreeMap::new();
    let mut nodes: BTreeMap<u32, N> = BTreeMap::new();
    let mut used: std::collections::BTreeSet<u32> = Default::default();
    let mut edges: Vec<(u32, u32, usize, usize, usize)> = vec![];
    let mut engs: Vec<E> = p
        .engines
        .iter()
        .map(|_| E {
            ctx: true,
            started: false,
            last_g: 0,
            racing: false,
            sure: false,
        })
        .collect();
    let mut out = Vec::with_capacity(p.ops.len());
    for op in &p.ops {
        if op.e >= p.engines.len() {
            out.push(false);
            continue;
        }
        // A callback of this engine that surely rendered emptied the queues of
        // what was sent before it.
        if op.during {
            if !engs[op.e].racing {
                engs[op.e].racing = true;
                engs[op.e].sure = engs[op.e].started;
            }
        } else if op.g > engs[op.e].last_g {
            let en = &mut engs[op.e];
            let sure = if en.racing { en.sure } else { en.started };
            let ran = p.calls.iter().enumerate().any(|(i, c)| {
                c.e == op.e
                    && c.frames > 0
                    && (i as u32) >= en.last_g
                    && (i as u32) < op.g
                    && p.engines[op.e].lost_at.map_or(true, |l| (i as u32) < l)
            });
            for n in nodes.values_mut().filter(|n| n.e == op.e) {
                if sure && ran {
                    n.before = 0;
                }
                n.before += n.during;
                n.during = 0;
            }
            en.last_g = op.g;
            en.racing = false;
        }
        let has = |id: &u32| nodes.get(id).map_or(false, |n| n.e == op.e);
        let kind = |id: &u32| nodes.get(id).map(|n| n.kind.clone());
        let max_ch = p.engines[op.e].max_ch;
        let fits = |n: usize, m: usize| n <= m;
        let path = |a: u32, b: u32, edges: &Vec<(u32, u32, usize, usize, usize)>| {
            // is b reachable from a
            let mut st = vec![a];
            let mut seen = std::collections::BTreeSet::new();
            while let Some(x) = st.pop() {
                if x == b {
                    return true;
                }
                if seen.insert(x) {
                    st.extend(edges.iter().filter(|e| e.0 == x).map(|e| e.1));
                }
            }
            false
        };
        let unlimited = |k: &Kind, ix: usize| k.params()[ix].min < -1e9;
        let keeps = |s: Option<&Signs>, v: Option<f64>| {
            s.map_or(true, |s| !s.ramped || v.map_or(false, |v| v < 0.0))
        };
        let ok = (op.times <= 1 || op.repeatable()) && match &op.act {
            Act::Start | Act::Stop => engs[op.e].ctx,
            Act::Create { id, kind } => {
                engs[op.e].ctx
                    && !used.contains(id)
                    && fits(kind.ins(), max_ch)
                    && fits(kind.outs(), max_ch)
                    && (kind.outs() > 0 || matches!(kind, Kind::Rec { .. }))
                    && nodes.values().filter(|n| n.e == op.e).count() < 3000
            }
            Act::Drop { id } => has(id),
            Act::Churn { id, to } => {
                engs[op.e].ctx
                    && !used.contains(id)
                    && op.times <= 5000
                    && to.map_or(true, |d| has(&d) && kind(&d).unwrap().ins() > 0)
            }
            Act::Conn { s, d } => {
                s != d
                    && has(s)
                    && has(d)
                    && {
                        let (a, b) = (kind(s).unwrap(), kind(d).unwrap());
                        let n = a.outs();
                        n > 0 && b.ins() > 0 && !edges.contains(&(*s, *d, 0, 0, n))
                    }
                    && !path(*d, *s, &edges)
            }
            Act::ConnCh { s, d, sc, dc, n } => {
                s != d
                    && has(s)
                    && has(d)
                    && *n > 0
                    && sc + n <= kind(s).unwrap().outs()
                    && dc + n <= kind(d).unwrap().ins()
                    && !edges.contains(&(*s, *d, *sc, *dc, *n))
                    && !path(*d, *s, &edges)
            }
            Act::Disc { s, d } => has(s) && has(d),
            Act::ConnIn { id } | Act::ConnOut { id } => has(id),
            Act::Chain { ids, input, output } => {
                let mut all = edges.clone();
                !op.during
                    && (1..=4).contains(&ids.len())
                    && (ids.len() > 1 || *input || *output)
                    && (ids.len() > 1 || *input != *output)
                    && ids.iter().all(|id| has(id))
                    && ids.windows(2).all(|x| {
                        let (a, b) = (kind(&x[0]).unwrap(), kind(&x[1]).unwrap());
                        let link = (x[0], x[1], 0, 0, a.outs());
                        let ok = a.outs() > 0 && b.ins() > 0 && !all.contains(&link) && !path(x[1], x[0], &all);
                        all.push(link);
                        ok
                    })
            }
            Act::Param { id, p: ix, set } => {
                has(id) && {
                    let k = kind(id).unwrap();
                    *ix < k.params().len()
                        && match set {
                            PSet::Exp(v, a, b) => {
                                // (ramps below zero need a value below zero to begin with)
                                *v != 0.0 && b > a && (*v > 0.0 || !unlimited(&k, *ix) || {
                                    let s = signs.get(&(*id, *ix));
                                    s.map_or(false, |s| s.below)
                                })
                            }
                            PSet::Lin(v, a, b) => b >= a && keeps(signs.get(&(*id, *ix)), Some(*v)),
                            PSet::Now(v) | PSet::At(v, _) => keeps(signs.get(&(*id, *ix)), Some(*v)),
                            PSet::Cancel => keeps(signs.get(&(*id, *ix)), None),
                            PSet::CancelAfter(_) => true,
                        }
                }
            }
            Act::ReadParam { id, p: ix } => has(id) && *ix < kind(id).unwrap().params().len(),
            Act::Level { id, i, o, .. } => {
                has(id)
                    && matches!(kind(id), Some(Kind::Mixer { .. }))
                    && *i < kind(id).unwrap().ins()
                    && *o < kind(id).unwrap().outs()
            }
            Act::Note { id, .. }
            | Act::AdsrTime { id, .. }
            | Act::AdsrSustain { id, .. }
            | Act::AdsrAll { id, .. } => has(id) && matches!(kind(id), Some(Kind::Adsr { .. })),
            Act::Samp { id, .. } => {
                has(id)
                    && match kind(id) {
                        Some(Kind::Samp { cap, .. }) => nodes[id].before + nodes[id].during < cap,
                        _ => false,
                    }
            }
            Act::RecStart { id } | Act::RecStop { id } | Act::RecStopAt { id, .. } | Act::RecTake { id } | Act::RecFlag { id } => {
                has(id) && matches!(kind(id), Some(Kind::Rec { .. }))
            }
            Act::EnvTake { id } => has(id) && matches!(kind(id), Some(Kind::Env { .. })),
            Act::ReadTime | Act::Notif | Act::DropCtx => engs[op.e].ctx,
            Act::Sleep { .. } | Act::Mark | Act::History { .. } => true,
        };
        if ok {
            match &op.act {
                Act::Start => engs[op.e].started = true,
                Act::Stop => {
                    engs[op.e].started = false;
                    engs[op.e].sure = false;
                }
                Act::Create { id, kind } => {
                    used.insert(*id);
                    nodes.insert(
                        *id,
                        N {
                            e: op.e,
                            kind: kind.clone(),
                            before: 0,
                            during: 0,
                        },
                    );
                }
                Act::Churn { id, .. } => {
                    used.insert(*id);
                }
                Act::Drop { id } => {
                    nodes.remove(id);
                    edges.retain(|e| e.0 != *id && e.1 != *id);
                }
                Act::Conn { s, d } => {
                    let n = kind(s).unwrap().outs();
                    edges.push((*s, *d, 0, 0, n));
                }
                Act::ConnCh { s, d, sc, dc, n } => edges.push((*s, *d, *sc, *dc, *n)),
                Act::Chain { ids, .. } => {
                    for x in ids.windows(2) {
                        edges.push((x[0], x[1], 0, 0, kind(&x[0]).unwrap().outs()));
                    }
                }
                Act::Disc { s, d } => edges.retain(|e| !(e.0 == *s && e.1 == *d)),
                Act::DropCtx => engs[op.e].ctx = false,
                Act::Param { id, p: ix, set } => {
                    let s = signs.entry((*id, *ix)).or_default();
                    match set {
                        PSet::Now(v) if !s.any => s.below = *v < 0.0,
                        PSet::Now(v) | PSet::At(v, _) | PSet::Lin(v, ..) => s.below &= *v < 0.0,
                        PSet::Exp(v, ..) if *v < 0.0 => s.ramped |= unlimited(&kind(id).unwrap(), *ix),
                        PSet::Exp(..) | PSet::Cancel => s.below = false,
                        PSet::CancelAfter(_) => {}
                    }
                    s.any = true;
                }
                Act::Samp { id, .. } => {
                    let n = nodes.get_mut(id).unwrap();
                    if engs[op.e].racing {
                        n.during += 1;
                    } else {
                        n.before += 1;
                    }
                }
                _ => {}
            }
        }
        out.push(ok);
    }
    out
}
