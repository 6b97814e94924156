//! Executable reference model of one engine: plain f64 arithmetic, one whole
//! host callback at a time, frame by frame, recursive evaluation of the graph.
//! Shares no code with the implementation.

use crate::plan::*;
use std::collections::{BTreeMap, VecDeque};

/// Everything the model says about one engine.
#[derive(Default)]
pub struct Trace {
    /// Indexed like `plan.calls`; None for calls of other engines or after device loss.
    pub calls: Vec<Option<CallTrace>>,
    pub recs: BTreeMap<u32, RecTrace>,
    pub envs: BTreeMap<u32, EnvTrace>,
    pub stats: ModelStats,
}

pub struct CallTrace {
    pub out: Vec<Vec<f64>>,
    pub started: bool,
    /// Frames processed in total when this call has completed.
    pub frames_after: u64,
    pub tol: f64,
    /// Every value each (node, parameter) publishes during this call, in order.
    pub params: BTreeMap<(u32, usize), Vec<(f64, f64)>>,
}

#[derive(Default)]
pub struct RecTrace {
    pub ch: usize,
    /// All recorded audio, every cycle one after another.
    pub data: Vec<Vec<f64>>,
    /// (call, total length after it)
    pub len_after: Vec<(u32, usize)>,
    /// (call, flag) in order.
    pub flags: Vec<(u32, bool)>,
    /// (call, total length that has been handed over for certain once the stop is seen)
    pub stops: Vec<(u32, usize)>,
    pub tol: f64,
}

#[derive(Default)]
pub struct EnvTrace {
    /// (call, channel, level)
    pub notes: Vec<(u32, usize, f64)>,
    pub tol: f64,
}

#[derive(Default, Clone, Debug)]
pub struct ModelStats {
    pub events: u64,
    pub late_events: u64,
    pub param_changes: u64,
    pub late_changes: u64,
    pub ramps: u64,
    pub cancelled: u64,
    pub loops: u64,
    pub sampler_starts: u64,
    pub steals: u64,
    pub notes: u64,
    pub nonzero: u64,
    pub max_nodes: usize,
    pub max_edges: usize,
    pub dropped_connected: u64,
    pub stopped_calls: u64,
    /// Decisions that hinge on the last bits of a rounded time.
    pub ties: u64,
}

#[derive(Clone)]
struct Change {
    end: f64,
    /// None: immediate
    start: Option<f64>,
    exp: bool,
    value: f64,
}

struct ParamM {
    value: f64,
    pending: Vec<Change>,
    // in force
    cur: Change,
    v0: f64,
    f0: f64,
    vals: Vec<f32>,
    /// value left by each processed block, and how far time quantisation may move it
    pubs: Vec<(f64, f64)>,
    slack: f64,
}

impl ParamM {
    fn new(def: f64) -> Self {
        Self {
            value: def,
            pending: vec![],
            cur: Change {
                end: 0.0,
                start: None,
                exp: false,
                value: def,
            },
            v0: def,
            f0: 0.0,
            vals: vec![],
            pubs: vec![],
            slack: 0.0,
        }
    }
    fn step(&mut self, f: f64, st: &mut ModelStats, first: bool) {
        while let Some(n) = self.pending.first() {
            let due = n.start.unwrap_or(n.end);
            if due > f {
                break;
            }
            st.param_changes += 1;
            if first && f > 0.0 && due < f - 1.0 {
                st.late_changes += 1;
            }
            let n = self.pending.remove(0);
            if n.start.is_some() {
                st.ramps += 1;
            }
            self.v0 = self.value;
            self.f0 = f;
            self.cur = n;
            if self.cur.end <= f {
                self.value = self.cur.value;
            }
            self.slack = 0.0;
            if self.cur.end > f && self.cur.start.is_some() {
                let steps = (self.cur.end - f).max(1.0);
                let (a, b) = (self.v0, self.cur.value);
                let steep = if self.cur.exp && a * b > 0.0 {
                    a.abs().max(b.abs()) * (b / a).ln().abs()
                } else {
                    (b - a).abs()
                };
                self.slack = 3e-4 * steep / steps;
            }
        }
        if self.cur.end <= f || self.cur.start.is_none() {
            self.value = self.cur.value;
            return;
        }
        let frac = (f - self.f0 + 1.0) / (self.cur.end - self.f0);
        let v = if frac >= 1.0 {
            self.cur.value
        } else if self.cur.exp {
            self.v0 * (self.cur.value / self.v0).powf(frac)
        } else {
            self.v0 + (self.cur.value - self.v0) * frac
        };
        self.value = v;
    }
    fn run(&mut self, start: u64, n: usize, max_frames: usize, st: &mut ModelStats) {
        self.vals.clear();
        self.pubs.clear();
        for i in 0..n {
            self.step((start + i as u64) as f64, st, i == 0);
            self.vals.push(self.value as f32);
            if (i + 1) % max_frames == 0 || i + 1 == n {
                self.pubs.push((self.value, self.slack));
            }
        }
    }
}

#[derive(Clone)]
struct Ev {
    t: f64,
    seq: usize,
    act: Act,
}

struct Queue {
    inbox: VecDeque<(u32, usize, Act)>,
    pending: Vec<Ev>,
}

fn ev_time(a: &Act) -> f64 {
    match a {
        Act::Note { t, .. } => *t,
        Act::RecStopAt { t, .. } => *t,
        Act::Samp { ev, .. } => match ev {
            SEv::Start(t, _) | SEv::Stop(t) | SEv::LoopAt(t, _, _) | SEv::CancelLoopAt(t) => *t,
            _ => 0.0,
        },
        _ => 0.0,
    }
}

impl Queue {
    fn take(&mut self, call: u32) {
        let mut any = false;
        while let Some((e, _, _)) = self.inbox.front() {
            if *e > call {
                break;
            }
            let (_, seq, act) = self.inbox.pop_front().unwrap();
            if matches!(&act, Act::Samp { ev: SEv::CancelAll, .. }) {
                self.pending.clear();
            }
            self.pending.push(Ev {
                t: ev_time(&act),
                seq,
                act,
            });
            any = true;
        }
        if any {
            self.pending
                .sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap().then(a.seq.cmp(&b.seq)));
        }
    }
    /// Next event that acts before absolute frame `f + 1` starts rendering.
    fn due(&mut self, f: u64) -> Option<Ev> {
        match self.pending.first() {
            Some(e) if e.t < (f + 1) as f64 => Some(self.pending.remove(0)),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum VPhase {
    Stopped,
    In(usize),
    Play,
    Out(usize),
}

struct SampM {
    table: Vec<Vec<f32>>,
    fade: Vec<f64>,
    voice: [(usize, VPhase); 2],
    active: Option<usize>,
    looping: Option<(f64, f64)>,
    position: f64,
    start_pos: f64,
    sr: f64,
}

impl SampM {
    /// A time, in samples, as a timestamp can hold it: a whole number of 2^-32 s.
    fn held(&self, x: f64) -> f64 {
        let u = (1u64 << 32) as f64;
        (x / self.sr * u).round_ties_even() / u * self.sr
    }
    fn fade_at(&self, p: usize) -> f64 {
        self.fade.get(p).copied().unwrap_or(1.0)
    }
    fn stop(&mut self) {
        for v in self.voice.iter_mut() {
            match v.1 {
                VPhase::In(_) | VPhase::Play => v.1 = VPhase::Out(0),
                _ => {}
            }
        }
        self.active = None;
    }
    fn assign(&mut self, at: f64, st: &mut ModelStats) {
        let p = at.round().max(0.0) as usize;
        if let Some(a) = self.active {
            if self.voice[a].0 == p {
                return;
            }
        }
        self.stop();
        let ix = match self.voice.iter().position(|v| v.1 == VPhase::Stopped) {
            Some(i) => i,
            None => {
                st.steals += 1;
                // the most faded one; the later one if both are equally far
                let k = |v: &(usize, VPhase)| match v.1 {
                    VPhase::Out(p) => p as i64,
                    _ => -1,
                };
                if k(&self.voice[0]) > k(&self.voice[1]) {
                    0
                } else {
                    1
                }
            }
        };
        self.voice[ix] = (p, if p == 0 { VPhase::Play } else { VPhase::In(0) });
        self.active = Some(ix);
    }
    fn event(&mut self, e: &SEv, t: f64, cur: u64, st: &mut ModelStats) {
        match e {
            SEv::StartNow => {
                st.sampler_starts += 1;
                self.assign(0.0, st);
                self.position = 0.0;
                self.start_pos = 0.0;
            }
            SEv::Start(_, pos) => {
                st.sampler_starts += 1;
                let pos = &self.held(*pos);
                let delay = self.held(cur as f64) - self.held(t);
                self.assign(pos + delay, st);
                self.position = delay;
                self.start_pos = *pos;
            }
            SEv::StopNow | SEv::Stop(_) => self.stop(),
            SEv::Loop(a, b) | SEv::LoopAt(_, a, b) => {
                self.looping = {
                    let (a, b) = (self.held(*a), self.held(*b));
                    if b - a >= 1.0 { Some((a, b)) } else { None }
                };
            }
            SEv::CancelLoop | SEv::CancelLoopAt(_) => self.looping = None,
            SEv::CancelAll => {
                self.stop();
                self.looping = None;
            }
        }
    }
    fn render(&mut self, out: &mut [Vec<f64>], i: usize, st: &mut ModelStats) {
        // at most a few turns: loops are at least one frame long
        for _ in 0..8 {
            let (a, b) = match (self.active, self.looping) {
                (Some(_), Some(l)) => l,
                _ => break,
            };
            let left = b - self.start_pos - self.position;
            st.ties += ((left - 0.5).abs() < 1e-4) as u64;
            if left.round() > 0.0 {
                break;
            }
            st.loops += 1;
            let over = self.start_pos + self.position - b;
            st.ties += ((over - 1.0).abs() < 1e-3) as u64;
            self.position = if over < 1.0 { over } else { 0.0 };
            self.start_pos = a;
            self.assign(a, st);
        }
        let n = self.fade.len();
        for k in 0..2 {
            let (p, ph) = self.voice[k];
            let w = match ph {
                VPhase::Stopped => continue,
                VPhase::In(q) => self.fade_at(q),
                VPhase::Play => 1.0,
                VPhase::Out(q) => self.fade_at(n - q),
            };
            for (c, o) in out.iter_mut().enumerate() {
                if let Some(x) = self.table[c].get(p) {
                    o[i] += w * *x as f64;
                }
            }
            self.voice[k].0 += 1;
            self.voice[k].1 = match ph {
                VPhase::In(q) if q + 1 < n => VPhase::In(q + 1),
                VPhase::In(_) => VPhase::Play,
                VPhase::Out(q) if q + 1 < n => VPhase::Out(q + 1),
                VPhase::Out(_) => VPhase::Stopped,
                p => p,
            };
        }
        self.position += 1.0;
    }
}

#[derive(Clone, Copy, PartialEq)]
enum APhase {
    Idle,
    Attack,
    Decay,
    Sustain,
    Release,
}

struct AdsrM {
    ph: APhase,
    env: f64,
    ac: f64,
    dc: f64,
    rc: f64,
    decay: f64,
    sustain: f64,
    release: f64,
    sr: f64,
}

fn expco(ratio: f64, secs: f64, sr: f64) -> f64 {
    if secs <= 0.0 {
        0.0
    } else {
        (ratio.ln() / (secs * sr)).exp()
    }
}

impl AdsrM {
    fn set_decay(&mut self) {
        self.dc = expco((self.sustain + 0.1) / 1.1, self.decay, self.sr);
    }
    fn set_release(&mut self) {
        self.rc = expco(0.1 / (self.env + 0.1), self.release, self.sr);
    }
    fn event(&mut self, a: &Act) {
        match a {
            Act::Note { on: true, .. } => self.ph = APhase::Attack,
            Act::Note { on: false, .. } => {
                if self.ph != APhase::Idle && self.ph != APhase::Release {
                    self.set_release();
                    self.ph = APhase::Release;
                }
            }
            Act::AdsrTime { which, ms, .. } => self.time(*which, *ms),
            Act::AdsrSustain { db, .. } => {
                self.sustain = lin(*db);
                self.set_decay();
            }
            Act::AdsrAll { a, d, s, r, .. } => {
                self.time(0, *a);
                self.time(1, *d);
                self.sustain = lin(*s);
                self.set_decay();
                self.time(2, *r);
            }
            _ => {}
        }
    }
    fn time(&mut self, which: u8, ms: f64) {
        let s = dur_secs(ms);
        match which {
            0 => self.ac = expco(0.1 / 1.1, s, self.sr),
            1 => {
                self.decay = s;
                self.set_decay();
            }
            _ => {
                self.release = s;
                self.set_release();
            }
        }
    }
    fn step(&mut self) -> f64 {
        let go = |x: f64, target: f64, c: f64| target + c * (x - target);
        self.env = match self.ph {
            APhase::Idle => 0.0,
            APhase::Attack => {
                let v = go(self.env, 1.1, self.ac).min(1.0);
                if v >= 1.0 {
                    self.ph = APhase::Decay;
                }
                v
            }
            APhase::Decay => {
                let v = go(self.env, -0.1, self.dc).max(self.sustain);
                if v <= self.sustain {
                    self.ph = APhase::Sustain;
                }
                v
            }
            APhase::Sustain => self.sustain,
            APhase::Release => {
                let v = go(self.env, -0.1, self.rc);
                if v <= 0.0 || v >= self.env {
                    self.ph = APhase::Idle;
                    0.0
                } else {
                    v
                }
            }
        };
        self.env
    }
}

pub fn lin(db: f64) -> f64 {
    if db <= -128.0 {
        0.0
    } else {
        10.0f64.powf(db / 20.0)
    }
}
/// Milliseconds as they survive a std Duration.
pub fn dur_secs(ms: f64) -> f64 {
    std::time::Duration::from_secs_f64(ms / 1000.0).as_secs_f64()
}

struct Follower {
    level: f32,
    sr: f64,
}
impl Follower {
    fn co(&self, secs: f64) -> f32 {
        (-1.0 / (self.sr * secs)).exp() as f32
    }
    fn step(&mut self, x: f64, att: f32, rel: f32) -> f32 {
        let x = (x as f32).abs();
        let c = if self.level < x { att } else { rel };
        self.level = self.level * c + x * (1.0 - c);
        self.level
    }
}

struct CompM {
    f: Vec<Follower>,
    att: (f32, f32),
    rel: (f32, f32),
}

enum State {
    Plain,
    Osc { phase: f64, table: Vec<f64> },
    Biquad { co: [f64; 5], last: [f32; 3], d: Vec<[f64; 4]> },
    Comp(CompM),
    Shape { table: Vec<f64> },
    Conv { ir: Vec<Vec<f32>>, hist: Vec<Vec<f64>> },
    Mixer { level: Vec<f64> },
    Adsr(AdsrM),
    Env { f: Vec<Follower>, peak: Vec<f32>, att: f32, rel: f32, interval: f64, k: u64, done: u64 },
    Rec { on: bool },
    Samp(SampM),
}

struct NodeM {
    kind: Kind,
    params: Vec<ParamM>,
    q: Queue,
    st: State,
    out: Vec<Vec<f64>>,
    done: bool,
}

pub fn shaper(ty: u8, thr: f64) -> impl Fn(f32) -> f32 {
    // The transfer functions are part of the documented node types.
    move |x: f32| match ty {
        0 => 2.0 * (x / 2.0).tanh(),
        1 => {
            let t = lin(thr) as f32;
            if x <= t {
                x
            } else {
                t + (x - t) / (1.0 + ((x - t) / (1.0 - t)).powf(2.0))
            }
        }
        2 => {
            let t = lin(thr) as f32;
            x.clamp(-t, t)
        }
        _ => 0.25 * x * x * x + 0.5 * x + 0.1,
    }
}

fn biquad(ty: u8, freq: f32, q: f32, shelf: f32, sr: f64) -> [f64; 5] {
    let w = std::f64::consts::TAU * (freq as f64 / sr).min(0.49);
    let (s, c) = w.sin_cos();
    let al = s / (2.0 * q as f64);
    let (b0, b1, b2, a0, a1, a2);
    match ty {
        0 => {
            b0 = (1.0 + c) / 2.0;
            b1 = -(1.0 + c);
            b2 = b0;
            a0 = 1.0 + al;
            a1 = -2.0 * c;
            a2 = 1.0 - al;
        }
        1 => {
            b0 = (1.0 - c) / 2.0;
            b1 = 1.0 - c;
            b2 = b0;
            a0 = 1.0 + al;
            a1 = -2.0 * c;
            a2 = 1.0 - al;
        }
        2 => {
            b0 = al;
            b1 = 0.0;
            b2 = -al;
            a0 = 1.0 + al;
            a1 = -2.0 * c;
            a2 = 1.0 - al;
        }
        3 => {
            b0 = 1.0;
            b1 = -2.0 * c;
            b2 = 1.0;
            a0 = 1.0 + al;
            a1 = -2.0 * c;
            a2 = 1.0 - al;
        }
        4 => {
            let a = (shelf as f64).sqrt();
            let be = (2.0 * a).sqrt() * s;
            b0 = a * ((a + 1.0) + (a - 1.0) * c + be);
            b1 = -2.0 * a * ((a - 1.0) + (a + 1.0) * c);
            b2 = a * ((a + 1.0) + (a - 1.0) * c - be);
            a0 = (a + 1.0) - (a - 1.0) * c + be;
            a1 = 2.0 * ((a - 1.0) - (a + 1.0) * c);
            a2 = (a + 1.0) - (a - 1.0) * c - be;
        }
        _ => {
            let a = (shelf as f64).sqrt();
            let be = (2.0 * a).sqrt() * s;
            b0 = a * ((a + 1.0) - (a - 1.0) * c + be);
            b1 = 2.0 * a * ((a - 1.0) - (a + 1.0) * c);
            b2 = a * ((a + 1.0) - (a - 1.0) * c - be);
            a0 = (a + 1.0) + (a - 1.0) * c + be;
            a1 = -2.0 * ((a - 1.0) + (a + 1.0) * c);
            a2 = (a + 1.0) + (a - 1.0) * c - be;
        }
    }
    [b0 / a0, b1 / a0, b2 / a0, a1 / a0, a2 / a0]
}

fn new_node(kind: &Kind, cfg: &EngCfg) -> NodeM {
    let sr = cfg.sr as f64;
    let mut params: Vec<ParamM> = kind.params().iter().map(|p| ParamM::new(p.def)).collect();
    let st = match kind {
        Kind::Gain { .. } | Kind::Pan => State::Plain,
        Kind::Osc { freq, table, seed, .. } => {
            params[0] = ParamM::new(*freq);
            State::Osc {
                phase: 0.0,
                table: osc_table(*table, *seed),
            }
        }
        Kind::Biquad { ch, ty } => {
            let last = [1000.0, (1.0 / 2.0f64.sqrt()) as f32, 1.0];
            State::Biquad {
                co: biquad(*ty, last[0], last[1], last[2], sr),
                last,
                d: vec![[0.0; 4]; *ch],
            }
        }
        Kind::Comp { ch } => State::Comp(CompM {
            f: (0..*ch).map(|_| Follower { level: 0.0, sr }).collect(),
            att: (-1.0, 0.0),
            rel: (-1.0, 0.0),
        }),
        Kind::Shape { ty, thr, .. } => {
            let f = shaper(*ty, *thr);
            State::Shape {
                table: (0..511)
                    .map(|i| f(-1.0 + (i as f32 / 510.0) * 2.0) as f64)
                    .collect(),
            }
        }
        Kind::Conv { ch, len, seed } => State::Conv {
            ir: impulse_table(*seed, *ch, *len),
            hist: vec![vec![0.0; *len]; *ch],
        },
        Kind::Mixer { i, o, preset } => {
            let (i, o) = if *preset == 2 {
                (1, 2)
            } else if *preset == 1 {
                (*i, *i)
            } else {
                (*i, *o)
            };
            let mut level = vec![0.0; i * o];
            match preset {
                1 => (0..i).for_each(|c| level[c * i + c] = 1.0),
                2 => level.fill(1.0),
                _ => {}
            }
            State::Mixer { level }
        }
        Kind::Adsr { .. } => {
            let mut a = AdsrM {
                ph: APhase::Idle,
                env: 0.0,
                ac: 0.0,
                dc: 0.0,
                rc: 0.0,
                decay: 0.0,
                sustain: 1.0,
                release: 0.0,
                sr,
            };
            a.set_decay();
            State::Adsr(a)
        }
        Kind::Env { ch, att, rel, freq } => {
            let f = Follower { level: 0.0, sr };
            State::Env {
                att: f.co(dur_secs(*att)),
                rel: f.co(dur_secs(*rel)),
                f: (0..*ch).map(|_| Follower { level: 0.0, sr }).collect(),
                peak: vec![0.0; *ch],
                interval: sr / *freq,
                k: 1,
                done: 0,
            }
        }
        Kind::Rec { .. } => State::Rec { on: false },
        Kind::Samp { ch, len, seed, .. } => {
            let n = (sr * 0.05).ceil() as usize;
            State::Samp(SampM {
                table: noise_table(*seed, *ch, *len, 0.8),
                fade: (0..n)
                    .map(|p| {
                        let t = 2.0 * p as f64 / n as f64 - 1.0;
                        0.5 + 0.5 * (t * std::f64::consts::FRAC_PI_2).sin()
                    })
                    .collect(),
                voice: [(0, VPhase::Stopped); 2],
                active: None,
                looping: None,
                position: 0.0,
                start_pos: 0.0,
                sr,
            })
        }
    };
    NodeM {
        kind: kind.clone(),
        params,
        q: Queue {
            inbox: VecDeque::new(),
            pending: vec![],
        },
        st,
        out: vec![],
        done: false,
    }
}

/// Wavetable of an oscillator kind (0: sine, 1: harmonics, others custom).
pub fn osc_table(table: u8, seed: u64) -> Vec<f64> {
    match table {
        0 => (0..8192)
            .map(|i| (std::f64::consts::TAU * i as f64 / 8192.0).sin())
            .collect(),
        1 => {
            let h = harmonics(seed);
            (0..8192)
                .map(|i| {
                    h.iter()
                        .enumerate()
                        .map(|(k, l)| {
                            l * (std::f64::consts::TAU * (k + 1) as f64 * i as f64 / 8192.0).sin()
                        })
                        .sum()
                })
                .collect()
        }
        t => wavetable(t, seed),
    }
}
pub fn harmonics(seed: u64) -> Vec<f64> {
    (0..3).map(|i| 0.5 / (1.0 + ((seed >> (8 * i)) & 7) as f64)).collect()
}

struct Edge {
    s: u32,
    d: u32,
    sc: usize,
    dc: usize,
    n: usize,
}

pub fn run(p: &Plan, valid: &[bool], eff: &[u32], e: usize) -> Trace {
    let cfg = &p.engines[e];
    let mut tr = Trace::default();
    let mut nodes: BTreeMap<u32, NodeM> = BTreeMap::new();
    let mut waiting: BTreeMap<u32, Queue> = BTreeMap::new();
    let mut edges: Vec<Edge> = vec![];
    let mut input: Option<u32> = None;
    let mut output: Option<u32> = None;
    let mut started = false;
    let mut pos: u64 = 0;
    let mut peak: f64 = 0.0;
    let mut st = ModelStats::default();
    let mut cmds: VecDeque<(u32, usize)> = VecDeque::new();
    let mut kinds: BTreeMap<u32, Kind> = BTreeMap::new();
    for (i, op) in p.ops.iter().enumerate() {
        if op.e != e || !valid[i] {
            continue;
        }
        if let Act::Create { id, kind } = &op.act {
            kinds.insert(*id, kind.clone());
            match kind {
                Kind::Rec { ch } => {
                    tr.recs.insert(
                        *id,
                        RecTrace {
                            ch: *ch,
                            data: vec![vec![]; *ch],
                            ..Default::default()
                        },
                    );
                }
                Kind::Env { .. } => {
                    tr.envs.insert(*id, EnvTrace::default());
                }
                _ => {}
            }
        }
        if op.act.is_command() {
            cmds.push_back((eff[i], i));
        } else if op.act.is_event() {
            waiting
                .entry(op.act.node().unwrap())
                .or_insert_with(|| Queue {
                    inbox: VecDeque::new(),
                    pending: vec![],
                })
                .inbox
                .push_back((eff[i], i, op.act.clone()));
        }
    }
    let mut in_frame: u64 = 0; // stream position of the host's input
    for (ci, c) in p.calls.iter().enumerate() {
        let ci = ci as u32;
        if c.e != e || cfg.lost_at.map_or(false, |l| ci >= l) {
            tr.calls.push(None);
            continue;
        }
        while let Some((ef, ix)) = cmds.front().copied() {
            if ef > ci {
                break;
            }
            cmds.pop_front();
            match &p.ops[ix].act {
                Act::Start => started = true,
                Act::Stop => started = false,
                Act::Create { id, kind } => {
                    let mut n = new_node(kind, cfg);
                    if let Some(q) = waiting.remove(id) {
                        n.q = q;
                    }
                    nodes.insert(*id, n);
                }
                Act::Drop { id } => {
                    nodes.remove(id);
                    let before = edges.len();
                    edges.retain(|e| e.s != *id && e.d != *id);
                    if edges.len() != before || input == Some(*id) || output == Some(*id) {
                        st.dropped_connected += 1;
                    }
                }
                Act::Conn { s, d } => {
                    if nodes.contains_key(s) && nodes.contains_key(d) {
                        edges.push(Edge {
                            s: *s,
                            d: *d,
                            sc: 0,
                            dc: 0,
                            n: kinds[s].outs(),
                        });
                    }
                }
                Act::ConnCh { s, d, sc, dc, n } => {
                    if nodes.contains_key(s) && nodes.contains_key(d) {
                        edges.push(Edge {
                            s: *s,
                            d: *d,
                            sc: *sc,
                            dc: *dc,
                            n: *n,
                        });
                    }
                }
                Act::Disc { s, d } => edges.retain(|e| !(e.s == *s && e.d == *d)),
                Act::Chain { ids, input: i, output: o } => {
                    for x in ids.windows(2) {
                        if nodes.contains_key(&x[0]) && nodes.contains_key(&x[1]) {
                            edges.push(Edge {
                                s: x[0],
                                d: x[1],
                                sc: 0,
                                dc: 0,
                                n: kinds[&x[0]].outs(),
                            });
                        }
                    }
                    if *i {
                        input = ids.first().copied();
                    }
                    if *o {
                        output = ids.last().copied();
                    }
                }
                Act::ConnIn { id } => input = Some(*id),
                Act::ConnOut { id } => output = Some(*id),
                Act::Param { id, p: ix, set } => {
                    if let Some(n) = nodes.get_mut(id) {
                        let pd = &kinds[id].params()[*ix];
                        let clamp = |v: f64| v.clamp(pd.min, pd.max);
                        let pm = &mut n.params[*ix];
                        let ch = match set {
                            PSet::Now(v) => Some(Change {
                                end: 0.0,
                                start: None,
                                exp: false,
                                value: clamp(*v),
                            }),
                            PSet::At(v, t) => Some(Change {
                                end: *t,
                                start: None,
                                exp: false,
                                value: clamp(*v),
                            }),
                            PSet::Lin(v, a, b) => Some(Change {
                                end: *b,
                                start: Some(*a),
                                exp: false,
                                value: clamp(*v),
                            }),
                            PSet::Exp(v, a, b) => Some(Change {
                                end: *b,
                                start: Some(*a),
                                exp: true,
                                value: clamp(*v),
                            }),
                            PSet::Cancel => {
                                st.cancelled += pm.pending.len() as u64;
                                pm.pending.clear();
                                None
                            }
                            PSet::CancelAfter(t) => {
                                let b = pm.pending.len();
                                pm.pending.retain(|c| c.end <= *t);
                                st.cancelled += (b - pm.pending.len()) as u64;
                                None
                            }
                        };
                        if let Some(ch) = ch {
                            pm.pending.push(ch);
                            pm.pending.sort_by(|a, b| a.end.partial_cmp(&b.end).unwrap());
                        }
                    }
                }
                _ => {}
            }
        }
        st.max_nodes = st.max_nodes.max(nodes.len());
        st.max_edges = st.max_edges.max(edges.len());
        let n = c.frames;
        let mut out = vec![vec![0.0; n]; c.out_ch];
        let mut pubs = BTreeMap::new();
        if started && n > 0 {
            let ids: Vec<u32> = nodes.keys().copied().collect();
            for id in &ids {
                let nd = nodes.get_mut(id).unwrap();
                nd.done = false;
                nd.q.take(ci);
                for (k, pm) in nd.params.iter_mut().enumerate() {
                    pm.run(pos, n, cfg.max_frames, &mut st);
                    pubs.insert((*id, k), pm.pubs.clone());
                }
            }
            let sysin: Vec<Vec<f64>> = (0..c.in_ch.min(cfg.max_ch))
                .map(|ch| {
                    (0..n)
                        .map(|i| {
                            input_sample(cfg.input, cfg.input_seed, cfg.amp, ch, in_frame + i as u64)
                                as f64
                        })
                        .collect()
                })
                .collect();
            for id in &ids {
                eval(
                    *id, &mut nodes, &edges, input, &sysin, n, pos, ci, cfg, &mut st, &mut tr,
                    &mut peak,
                );
            }
            if let Some(o) = output.and_then(|o| nodes.get(&o)) {
                for ch in 0..c.out_ch.min(cfg.max_ch) {
                    if let Some(x) = o.out.get(ch) {
                        out[ch].copy_from_slice(x);
                    }
                }
            }
            for o in &out {
                st.nonzero += o.iter().filter(|x| x.abs() > 1e-3).count() as u64;
            }
            pos += n as u64;
        } else if n > 0 {
            st.stopped_calls += 1;
        }
        in_frame += n as u64;
        let tol = TOL * (peak + peak.clamp(0.02, 1.0));
        for (id, r) in tr.recs.iter_mut() {
            let len = r.data.first().map_or(0, |d| d.len());
            r.len_after.push((ci, len));
            r.tol = r.tol.max(tol);
            let _ = id;
        }
        for t in tr.envs.values_mut() {
            t.tol = t.tol.max(tol);
        }
        tr.calls.push(Some(CallTrace {
            out,
            started,
            frames_after: pos,
            tol,
            params: pubs,
        }));
    }
    tr.stats = st;
    tr
}

pub const TOL: f64 = 1e-4;

#[allow(clippy::too_many_arguments)]
fn eval(
    id: u32,
    nodes: &mut BTreeMap<u32, NodeM>,
    edges: &[Edge],
    input: Option<u32>,
    sysin: &[Vec<f64>],
    n: usize,
    pos: u64,
    ci: u32,
    cfg: &EngCfg,
    st: &mut ModelStats,
    tr: &mut Trace,
    peak: &mut f64,
) {
    if nodes[&id].done {
        return;
    }
    let deps: Vec<u32> = edges.iter().filter(|e| e.d == id).map(|e| e.s).collect();
    for d in deps {
        eval(d, nodes, edges, input, sysin, n, pos, ci, cfg, st, tr, peak);
    }
    let ins = nodes[&id].kind.ins();
    let outs = nodes[&id].kind.outs();
    let mut inp = vec![vec![0.0f64; n]; ins];
    if input == Some(id) {
        for (c, x) in sysin.iter().enumerate().take(ins) {
            inp[c].copy_from_slice(x);
        }
    }
    for e in edges.iter().filter(|e| e.d == id) {
        let s = &nodes[&e.s].out;
        // (channels the destination does not have go nowhere)
        for k in 0..e.n.min(ins - e.dc) {
            for i in 0..n {
                inp[e.dc + k][i] += s[e.sc + k][i];
            }
        }
    }
    let nd = nodes.get_mut(&id).unwrap();
    let mut out = vec![vec![0.0f64; n]; outs];
    process(nd, id, &inp, &mut out, n, pos, ci, cfg, st, tr);
    for x in inp.iter().chain(out.iter()).flatten() {
        if x.abs() > *peak {
            *peak = x.abs();
        }
    }
    nd.out = out;
    nd.done = true;
}

#[allow(clippy::too_many_arguments)]
fn process(
    nd: &mut NodeM,
    id: u32,
    inp: &[Vec<f64>],
    out: &mut [Vec<f64>],
    n: usize,
    pos: u64,
    ci: u32,
    cfg: &EngCfg,
    st: &mut ModelStats,
    tr: &mut Trace,
) {
    let NodeM {
        kind, params, q, st: state, ..
    } = nd;
    let pv = |k: usize, i: usize| params[k].vals[i] as f64;
    macro_rules! events {
        ($i:expr, $e:ident, $cur:ident, $body:block) => {
            while let Some($e) = q.due(pos + $i as u64) {
                let $cur = pos + $i as u64;
                st.events += 1;
                if $e.t != 0.0 && $i == 0 && $e.t < pos as f64 {
                    st.late_events += 1;
                }
                $body
            }
        };
    }
    match state {
        State::Plain => {
            for i in 0..n {
                match kind {
                    Kind::Pan => {
                        let p = pv(0, i);
                        out[0][i] = inp[0][i] * (1.0 - p).min(1.0);
                        out[1][i] = inp[1][i] * (1.0 + p).min(1.0);
                    }
                    _ => {
                        for c in 0..out.len() {
                            out[c][i] = inp[c][i] * pv(0, i);
                        }
                    }
                }
            }
        }
        State::Osc { phase, table } => {
            let len = table.len();
            for i in 0..n {
                *phase += pv(0, i) / cfg.sr as f64;
                while *phase >= 1.0 {
                    *phase -= 1.0;
                }
                let x = *phase * len as f64;
                let a = x.floor();
                let w = x - a;
                let v = (1.0 - w) * table[a as usize % len] + w * table[x.ceil() as usize % len];
                for o in out.iter_mut() {
                    o[i] = v * pv(1, i);
                }
            }
        }
        State::Biquad { co, last, d } => {
            let ty = match kind {
                Kind::Biquad { ty, .. } => *ty,
                _ => 0,
            };
            for i in 0..n {
                let now = [params[0].vals[i], params[1].vals[i], params[2].vals[i]];
                if now != *last {
                    *last = now;
                    *co = biquad(ty, now[0], now[1], now[2], cfg.sr as f64);
                }
                for c in 0..out.len() {
                    let x = inp[c][i] as f32 as f64;
                    let dl = &mut d[c];
                    let y = co[0] * x + co[1] * dl[0] + co[2] * dl[1] - co[3] * dl[2] - co[4] * dl[3];
                    *dl = [x, dl[0], y, dl[2]];
                    for z in dl.iter_mut() {
                        if z.abs() <= 1e-8 {
                            *z = 0.0;
                        }
                    }
                    out[c][i] = y * pv(3, i);
                }
            }
        }
        State::Comp(cm) => {
            let ch = out.len();
            for i in 0..n {
                let a = params[0].vals[i];
                let r = params[1].vals[i];
                if cm.att.0 != a {
                    let d = std::time::Duration::from_secs_f32(a / 1000.0).as_secs_f64();
                    cm.att = (a, cm.f[0].co(d));
                }
                if cm.rel.0 != r {
                    let d = std::time::Duration::from_secs_f32(r / 1000.0).as_secs_f64();
                    cm.rel = (r, cm.f[0].co(d));
                }
                let mut env = 0.0;
                for c in 0..ch {
                    env += cm.f[c].step(inp[c][i], cm.att.1, cm.rel.1) as f64;
                }
                env /= ch as f64;
                let db = if env <= 1e-9 { -128.0 } else { 20.0 * env.log10() };
                let (thr, knee, ratio) = (pv(3, i), pv(4, i), pv(2, i));
                let h = knee / 2.0;
                let y = if db <= thr - h {
                    db
                } else if db > thr + h {
                    thr + (db - thr) / ratio
                } else {
                    let ex = db - thr + h;
                    db + (1.0 / ratio - 1.0) * ex * ex / (2.0 * knee)
                };
                let g = lin(y - db);
                for c in 0..ch {
                    out[c][i] = inp[c][i] * g * pv(5, i) + inp[c][i] * pv(6, i);
                }
            }
        }
        State::Shape { table } => {
            for i in 0..n {
                let drive = lin(12.0 * pv(0, i));
                let mix = pv(1, i);
                for c in 0..out.len() {
                    let x = inp[c][i] * drive;
                    let ix = ((x + 1.0) / 2.0 * 510.0).clamp(0.0, 510.0);
                    let a = ix.floor();
                    let w = ix - a;
                    let v = (1.0 - w) * table[a as usize] + w * table[ix.ceil() as usize];
                    out[c][i] = v / drive * mix + inp[c][i] * (1.0 - mix);
                }
            }
        }
        State::Conv { ir, hist } => {
            for c in 0..out.len() {
                let h = &ir[c];
                // history (len-1 samples) followed by this call's input
                let keep = h.len() - 1;
                let mut x: Vec<f64> = hist[c][hist[c].len() - keep..].to_vec();
                x.extend_from_slice(&inp[c]);
                for i in 0..n {
                    let mut acc = 0.0;
                    for (k, hk) in h.iter().enumerate() {
                        acc += *hk as f64 * x[keep + i - k];
                    }
                    out[c][i] = acc * pv(0, i) + inp[c][i] * pv(1, i);
                }
                let l = x.len();
                let want = h.len();
                hist[c] = if l >= want {
                    x[l - want..].to_vec()
                } else {
                    let mut v = vec![0.0; want - l];
                    v.extend_from_slice(&x);
                    v
                };
            }
        }
        State::Mixer { level } => {
            // the whole matrix is replaced, per processing block
            let ni = inp.len();
            while let Some(e) = q.pending.first().cloned() {
                q.pending.remove(0);
                if let Act::Level { i, o, v, .. } = e.act {
                    level[o * ni + i] = v;
                    st.events += 1;
                }
            }
            for (o, ov) in out.iter_mut().enumerate() {
                for (i, iv) in inp.iter().enumerate() {
                    let g = level[o * ni + i];
                    if g != 0.0 {
                        for f in 0..n {
                            ov[f] += iv[f] * g;
                        }
                    }
                }
            }
        }
        State::Adsr(a) => {
            for i in 0..n {
                events!(i, e, _cur, {
                    a.event(&e.act);
                });
                let g = a.step();
                for c in 0..out.len() {
                    out[c][i] = inp[c][i] * g;
                }
            }
        }
        State::Env {
            f,
            peak,
            att,
            rel,
            interval,
            k,
            done,
        } => {
            for i in 0..n {
                for c in 0..inp.len() {
                    let l = f[c].step(inp[c][i], *att, *rel);
                    if l > peak[c] {
                        peak[c] = l;
                    }
                }
                *done += 1;
                if *done as f64 >= *k as f64 * *interval {
                    let t = tr.envs.get_mut(&id).unwrap();
                    for c in 0..inp.len() {
                        t.notes.push((ci, c, peak[c] as f64));
                        peak[c] = 0.0;
                        st.notes += 1;
                    }
                    while *done as f64 >= *k as f64 * *interval {
                        *k += 1;
                    }
                }
            }
        }
        State::Rec { on } => {
            let t = tr.recs.get_mut(&id).unwrap();
            for i in 0..n {
                events!(i, e, _cur, {
                    match e.act {
                        Act::RecStart { .. } => {
                            if !*on {
                                *on = true;
                                t.flags.push((ci, true));
                            }
                        }
                        _ => {
                            if *on {
                                *on = false;
                                t.flags.push((ci, false));
                                t.stops.push((ci, t.data[0].len()));
                            }
                        }
                    }
                });
                if *on {
                    for c in 0..inp.len() {
                        t.data[c].push(inp[c][i]);
                    }
                }
            }
        }
        State::Samp(s) => {
            for i in 0..n {
                events!(i, e, cur, {
                    if let Act::Samp { ev, .. } = &e.act {
                        s.event(ev, e.t, cur, st);
                    }
                });
                s.render(out, i, st);
            }
        }
    }
}
