//! Seeded generation of programs, host behaviour, faults and schedules.

use crate::plan::*;
use simrt::rng::{mix, Rng};
use std::collections::BTreeMap;

pub const GAIN: usize = 0;
pub const PAN: usize = 1;
pub const OSC: usize = 2;
pub const BIQ: usize = 3;
pub const COMP: usize = 4;
pub const SHAPE: usize = 5;
pub const CONV: usize = 6;
pub const MIXER: usize = 7;
pub const ADSR: usize = 8;
pub const ENV: usize = 9;
pub const REC: usize = 10;
pub const SAMP: usize = 11;

/// Weights of the things a program does between callbacks.
#[derive(Clone, Default)]
pub struct Wt {
    pub create: u32,
    pub drop: u32,
    pub conn: u32,
    pub disc: u32,
    pub io: u32,
    pub param: u32,
    pub readp: u32,
    pub time: u32,
    pub event: u32,
    pub collect: u32,
    pub startstop: u32,
    pub notif: u32,
    pub sleep: u32,
}

#[derive(Clone)]
pub struct Knobs {
    pub kinds: [u32; 12],
    pub nodes: (usize, usize),
    pub calls: (usize, usize),
    pub ops: f64,
    pub w: Wt,
    /// Chance that an operation races with a callback instead of preceding it.
    pub race: f64,
    /// How often a size is far from the usual ones.
    pub tail: f64,
    /// Programs in an engine that has run for long before.
    pub aged: f64,
    /// How often the programs that race do so only with reads (of any callback).
    pub look: f64,
    pub sr: Vec<usize>,
    pub max_frames: Vec<usize>,
    pub max_ch: (usize, usize),
    /// 0: full blocks, 1: fixed smaller, 2: anything up to twice the block, 3: jitter, 4: single frames
    pub frames: Vec<u8>,
    pub shapes: bool,
    pub engines: usize,
    pub starve: f64,
    pub lost: f64,
    pub offline: f64,
    pub start_first: f64,
    /// set now, at, linear, exponential, cancel, cancel after
    pub psets: [u32; 6],
    pub late: f64,
    pub teardown: Vec<u8>,
    pub bb: bool,
    /// Only before the first callback.
    pub upfront: bool,
    pub horizon: i64,
    pub burst: f64,
}

pub const POW2: [usize; 7] = [64, 256, 1024, 4096, 8192, 16384, 65536];
pub const ANY: [usize; 6] = [1000, 8000, 11025, 22050, 44100, 48000];

impl Default for Knobs {
    fn default() -> Self {
        let mut sr = POW2.to_vec();
        sr.extend_from_slice(&ANY);
        Knobs {
            kinds: [6, 2, 3, 2, 2, 2, 1, 3, 3, 2, 2, 3],
            nodes: (2, 6),
            calls: (6, 20),
            ops: 2.0,
            w: Wt {
                create: 3,
                drop: 2,
                conn: 4,
                disc: 2,
                io: 1,
                param: 6,
                readp: 2,
                time: 2,
                event: 6,
                collect: 2,
                startstop: 1,
                notif: 1,
                sleep: 0,
            },
            race: 0.15,
            look: 0.15,
            aged: 0.05,
            tail: 0.04,
            sr,
            max_frames: vec![16, 33, 64, 128, 256],
            max_ch: (1, 4),
            frames: vec![0, 1, 2, 3],
            shapes: true,
            engines: 1,
            starve: 0.15,
            lost: 0.05,
            offline: 0.15,
            start_first: 0.7,
            psets: [3, 3, 3, 2, 1, 1],
            late: 0.25,
            teardown: (0..9).collect(),
            bb: true,
            upfront: false,
            horizon: 600,
            burst: 0.05,
        }
    }
}

struct NodeG {
    id: u32,
    kind: Kind,
}

struct EngG {
    nodes: Vec<NodeG>,
    edges: Vec<(u32, u32, usize, usize, usize)>,
    started: bool,
    /// Position at the start of the coming call, and after it for racing operations.
    pos: i64,
    ctx: bool,
    bus: Option<u32>,
    inp: Option<u32>,
}

#[derive(Default, Clone)]
struct ParamG {
    busy: f64,
    positive: bool,
    /// An exponential ramp was requested: no value may be zero or less any more.
    exp: bool,
    /// Every value is below zero, from the first change on.
    below: bool,
    touched: bool,
}

pub struct G {
    pub r: Rng,
    pub k: Knobs,
    pub plan: Plan,
    eng: Vec<EngG>,
    next_id: u32,
    par: BTreeMap<(u32, usize), ParamG>,
    /// (node, slot) -> (last window with an untimed change, last with a late one)
    cls: BTreeMap<(u32, usize), (i64, i64)>,
    g: u32,
    during: bool,
    cur_frames: i64,
}

fn weighted(r: &mut Rng, w: &[u32]) -> usize {
    let t: u32 = w.iter().sum();
    if t == 0 {
        return 0;
    }
    let mut x = r.below(t as u64) as u32;
    for (i, v) in w.iter().enumerate() {
        if x < *v {
            return i;
        }
        x -= v;
    }
    0
}

impl G {
    pub fn new(property: &str, profile: &str, seed: u64, k: Knobs) -> Self {
        let mut r = Rng::new(mix(seed, 0x9e));
        let engines: Vec<EngCfg> = (0..k.engines)
            .map(|i| {
                let mut max_ch = r.range(k.max_ch.0 as i64, k.max_ch.1 as i64) as usize;
                let mut max_frames = *r.pick(&k.max_frames);
                let mut sr = *r.pick(&k.sr);
                if r.chance(k.tail) {
                    max_frames = *r.pick(&[1, 2, 3, 5, 512, 1000, 1024]);
                }
                if r.chance(k.tail) {
                    max_ch = r.range(9, 24) as usize;
                    max_frames = max_frames.min(64);
                }
                if r.chance(k.tail) {
                    sr = *r.pick(&[32, 128, 32768, 262144, 12000, 88200, 96000, 192000]);
                }
                EngCfg {
                    sr,
                    max_ch,
                    max_frames,
                    ct: if k.engines > 1 && r.chance(0.6) { i.min(2) } else { 0 },
                    at: if k.engines > 1 && r.chance(0.6) { i.min(2) } else { 0 },
                    input: *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 7, 8]),
                    input_seed: r.next(),
                    amp: if r.chance(k.tail) {
                        *r.pick(&[4.0, 1.5, 0.05, 0.01])
                    } else {
                        *r.pick(&[1.0, 1.0, 0.5, 0.9])
                    },
                    lost_at: None,
                }
            })
            .collect();
        let eng = engines
            .iter()
            .map(|_| EngG {
                nodes: vec![],
                edges: vec![],
                started: false,
                pos: 0,
                ctx: true,
                bus: None,
                inp: None,
            })
            .collect();
        let mode = weighted(&mut r, &[6, 3, 1]) as u8;
        let sched = Sched {
            seed: r.next(),
            mode,
            p_switch: *r.pick(&[0.02, 0.1, 0.3, 0.7]),
            bb_mean: if k.bb { *r.pick(&[0, 50, 300, 2000, 20000]) } else { 0 },
            atomic_mean: if k.bb {
                *Rng::new(mix(seed, 0xa70)).pick(&[0, 0, 0, 5, 30, 300])
            } else {
                0
            },
            pct_depth: if mode == 1 { r.range(2, 30) as u32 } else { 0 },
            starve: vec![],
            list: None,
        };
        let world = World {
            hash_seed: r.next(),
            id_offset: *r.pick(&[0, 0, 0, 1, 7, 100]),
            jitter: if r.chance(0.5) { Some(r.next()) } else { None },
            pipe: if r.chance(0.15) {
                Some((*r.pick(&[0, 0, 1, 3, 10]), *r.pick(&[0, 0, 50_000_000, 2_000_000_000])))
            } else {
                None
            },
            clock_step: *Rng::new(mix(seed, 0xc10c)).pick(&[0, 0, 0, 1_000, 250_000, 3_000_000, 400_000_000]),
            twice: false,
        };
        let teardown = *r.pick(&k.teardown);
        let offline = r.chance(k.offline) && k.engines == 1;
        G {
            plan: Plan {
                property: property.into(),
                profile: profile.into(),
                seed,
                engines,
                calls: vec![],
                ops: vec![],
                sched,
                world,
                teardown,
                offline,
                interleaved: false,
                leak_check: false,
            },
            r,
            k,
            eng,
            next_id: 0,
            par: BTreeMap::new(),
            cls: BTreeMap::new(),
            g: 0,
            during: false,
            cur_frames: 0,
        }
    }

    pub fn emit(&mut self, e: usize, act: Act) {
        self.plan.ops.push(Op {
            e,
            g: self.g,
            during: self.during,
            act,
            times: 1,
        });
    }

    fn sr(&self, e: usize) -> usize {
        self.plan.engines[e].sr
    }
    fn pow2(&self, e: usize) -> bool {
        self.sr(e).is_power_of_two()
    }
    fn frac(&mut self, e: usize) -> f64 {
        if self.pow2(e) {
            *self.r.pick(&[0.0, 0.0, 0.0, 0.25, 0.75, 0.5])
        } else {
            *self.r.pick(&[0.3, 0.4, 0.6, 0.7])
        }
    }
    /// Earliest and latest position at which a call made now can take effect.
    fn pos_lo(&self, e: usize) -> f64 {
        self.eng[e].pos as f64
    }
    fn pos_hi(&self, e: usize) -> f64 {
        (self.eng[e].pos + if self.during { self.cur_frames } else { 0 }) as f64
    }
    /// A time around now.
    fn time(&mut self, e: usize) -> f64 {
        let f = self.frac(e);
        let p = self.pos_lo(e) as i64;
        let h = self.k.horizon;
        let d = if self.r.chance(self.k.late) {
            -self.r.range(0, 200)
        } else {
            match self.r.usize(5) {
                0 => self.r.range(0, 3),
                1 => self.r.range(0, 2 * self.plan.engines[e].max_frames as i64),
                // a block boundary
                2 => {
                    let m = self.plan.engines[e].max_frames as i64;
                    m * self.r.range(0, 3) + self.r.range(-1, 1)
                }
                _ => self.r.range(0, h),
            }
        };
        let t = (p + d) as f64 + f;
        t.max(if self.pow2(e) { 0.0 } else { f })
    }
    fn windows(&self) -> (i64, i64) {
        let g = self.g as i64;
        if self.during {
            (g, g + 1)
        } else {
            (g, g)
        }
    }
    /// May an untimed (now) or already due (late) change be issued here without
    /// its order against the other class being a matter of taste?
    fn class(&mut self, key: (u32, usize), now: bool) -> bool {
        let (a, b) = self.windows();
        let c = self.cls.entry(key).or_insert((-9, -9));
        let other = if now { c.1 } else { c.0 };
        if other >= a - 1 {
            return false;
        }
        if now {
            c.0 = b
        } else {
            c.1 = b
        }
        true
    }
    /// Class check of a time.
    fn timed(&mut self, e: usize, key: (u32, usize), t: f64) -> bool {
        if t >= self.pos_hi(e) + 2.0 {
            // never due in this window
            return true;
        }
        self.class(key, false)
    }

    fn ids(&self, e: usize, f: impl Fn(&Kind) -> bool) -> Vec<u32> {
        self.eng[e].nodes.iter().filter(|n| f(&n.kind)).map(|n| n.id).collect()
    }
    fn kind(&self, e: usize, id: u32) -> Kind {
        self.eng[e].nodes.iter().find(|n| n.id == id).unwrap().kind.clone()
    }
    fn pick_id(&mut self, v: &[u32]) -> Option<u32> {
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(v))
        }
    }

    pub fn make_kind(&mut self, e: usize, code: usize) -> Kind {
        let m = self.plan.engines[e].max_ch;
        let sr = self.sr(e) as f64;
        let ch = 1 + self.r.usize(m);
        let tail = self.k.tail;
        let r = &mut self.r;
        match code {
            PAN if m >= 2 => Kind::Pan,
            OSC => Kind::Osc {
                freq: *r.pick(&[20.0, 55.3, 440.0, 1000.0, 5000.0, 12345.6, 20000.0]),
                out: ch,
                table: r.usize(6) as u8,
                seed: r.next(),
            },
            BIQ => Kind::Biquad { ch, ty: r.usize(6) as u8 },
            COMP => Kind::Comp { ch },
            SHAPE => {
                let ty = r.usize(4) as u8;
                let thr = match ty {
                    // A clipper may be set to let nothing at all through, or
                    // to clip above full scale.
                    2 => *r.pick(&[-12.0, -6.0, -1.0, 0.0, -40.0, 3.0, -128.0]),
                    _ => *r.pick(&[-12.0, -6.0, -1.0, 0.0, -40.0, -128.0]),
                };
                Kind::Shape { ch, ty, thr }
            }
            CONV => Kind::Conv {
                ch,
                len: if r.chance(tail) {
                    *r.pick(&[200, 256, 500, 1000, 2049])
                } else {
                    *r.pick(&[1, 2, 3, 17, 64, 65, 130])
                },
                seed: r.next(),
            },
            MIXER => {
                let preset = *r.pick(&[0, 0, 0, 0, 1, 2]);
                let o = 1 + r.usize(m);
                if preset == 2 && (m < 2 || self.during) || self.during && preset == 1 {
                    Kind::Mixer { i: ch.min(8), o: o.min(8), preset: 0 }
                } else {
                    Kind::Mixer { i: ch.min(8), o: o.min(8), preset }
                }
            }
            ADSR => Kind::Adsr { ch },
            ENV => {
                let k = if r.chance(tail) {
                    *r.pick(&[1000.0, 2500.0, 4800.0])
                } else {
                    *r.pick(&[1.0, 2.0, 3.0, 7.0, 16.0, 50.0, 64.0, 100.0, 333.0])
                };
                let f = sr / k;
                let freq = if sr / f == k && r.chance(0.7) { f } else { sr / (k + 0.381966) };
                Kind::Env {
                    ch,
                    att: *r.pick(&[0.0, 0.1, 1.0, 10.0]),
                    rel: *r.pick(&[0.0, 1.0, 5.0, 50.0]),
                    freq,
                }
            }
            REC => Kind::Rec { ch },
            SAMP => Kind::Samp {
                ch,
                len: if r.chance(tail) {
                    *r.pick(&[2, 3, 4096, 20_000])
                } else {
                    *r.pick(&[1, 7, 60, 200, 500, 1500])
                },
                seed: r.next(),
                cap: *r.pick(&[32, 32, 8, 64]),
            },
            _ => Kind::Gain { ch },
        }
    }

    pub fn create(&mut self, e: usize, kind: Kind) -> u32 {
        let id = self.next_id;
        self.next_id += 1;
        for (i, p) in kind.params().iter().enumerate() {
            self.par.insert(
                (id, i),
                ParamG {
                    busy: 0.0,
                    positive: p.def > 0.0 || matches!(kind, Kind::Osc { .. }),
                    exp: false,
                    below: false,
                    touched: false,
                },
            );
        }
        self.eng[e].nodes.push(NodeG { id, kind: kind.clone() });
        self.emit(e, Act::Create { id, kind });
        id
    }
    pub fn drop(&mut self, e: usize, id: u32) {
        self.eng[e].nodes.retain(|n| n.id != id);
        self.eng[e].edges.retain(|x| x.0 != id && x.1 != id);
        if self.eng[e].bus == Some(id) {
            self.eng[e].bus = None;
        }
        if self.eng[e].inp == Some(id) {
            self.eng[e].inp = None;
        }
        self.emit(e, Act::Drop { id });
    }
    fn reaches(&self, e: usize, a: u32, b: u32) -> bool {
        let mut st = vec![a];
        let mut seen = std::collections::BTreeSet::new();
        while let Some(x) = st.pop() {
            if x == b {
                return true;
            }
            if seen.insert(x) {
                st.extend(self.eng[e].edges.iter().filter(|d| d.0 == x).map(|d| d.1));
            }
        }
        false
    }
    /// Connect two nodes with some legal channel mapping.
    pub fn connect(&mut self, e: usize, s: u32, d: u32) -> bool {
        if s == d {
            return false;
        }
        let (a, b) = (self.kind(e, s).outs(), self.kind(e, d).ins());
        if a == 0 || b == 0 || self.reaches(e, d, s) {
            return false;
        }
        let m = a.min(b);
        if (a <= b || self.r.chance(0.3)) && self.r.chance(0.5) {
            let x = (s, d, 0, 0, a);
            if self.eng[e].edges.contains(&x) {
                return false;
            }
            self.eng[e].edges.push(x);
            self.emit(e, Act::Conn { s, d });
        } else {
            let n = if self.r.chance(0.5) { m } else { 1 + self.r.usize(m) };
            let sc = self.r.usize(a - n + 1);
            let dc = self.r.usize(b - n + 1);
            let x = (s, d, sc, dc, n);
            if self.eng[e].edges.contains(&x) {
                return false;
            }
            self.eng[e].edges.push(x);
            self.emit(e, Act::ConnCh { s, d, sc, dc, n });
        }
        true
    }
    pub fn disconnect(&mut self, e: usize, s: u32, d: u32) {
        self.eng[e].edges.retain(|x| !(x.0 == s && x.1 == d));
        self.emit(e, Act::Disc { s, d });
    }
    /// Give a new node something to do.
    pub fn hook(&mut self, e: usize, id: u32) {
        let k = self.kind(e, id);
        if k.ins() > 0 {
            let src = self.ids(e, |k| k.outs() > 0);
            match (self.eng[e].inp, self.r.chance(0.6)) {
                (Some(i), true) if i != id => {
                    self.connect(e, i, id);
                }
                _ => {
                    if let Some(s) = self.pick_id(&src) {
                        self.connect(e, s, id);
                    }
                }
            }
        }
        if k.outs() > 0 {
            let dst = self.ids(e, |k| k.ins() > 0);
            match (self.eng[e].bus, self.r.chance(0.6)) {
                (Some(b), true) if b != id => {
                    self.connect(e, id, b);
                }
                _ => {
                    if let Some(d) = self.pick_id(&dst) {
                        self.connect(e, id, d);
                    }
                }
            }
        }
    }
    /// Output bus and input bus.
    pub fn buses(&mut self, e: usize) {
        let ch = self.plan.engines[e].max_ch;
        let b = self.create(e, Kind::Gain { ch });
        self.eng[e].bus = Some(b);
        self.emit(e, Act::ConnOut { id: b });
        let i = self.create(e, Kind::Gain { ch });
        self.eng[e].inp = Some(i);
        self.emit(e, Act::ConnIn { id: i });
        if self.r.chance(0.5) {
            self.connect(e, i, b);
        }
    }
    pub fn start(&mut self, e: usize) {
        self.eng[e].started = true;
        self.emit(e, Act::Start);
    }
    fn value(&mut self, kind: &Kind, p: usize) -> f64 {
        let d = &kind.params()[p];
        let r = &mut self.r;
        let x = r.f64();
        match d.name {
            "gain" if matches!(kind, Kind::Gain { .. }) => *r.pick(&[0.0, 1.0, 0.5, -1.0, x, x * 2.0 - 1.0, 1.2]),
            "gain" => *r.pick(&[0.0, 1.0, 0.5, x, 1.5 * x, -0.5]),
            "pan" => *r.pick(&[-1.0, 0.0, 1.0, -1.7, 2.0, x * 2.0 - 1.0, x * 2.0 - 1.0]),
            "frequency" => *r.pick(&[20.0, 1.0, 30000.0, 440.0, 20000.0, 50.0 + x * 5000.0, 50.0 + x * 500.0]),
            "q" => *r.pick(&[0.05, 0.1, 0.7071, 1.0, 10.0, 12.0, 0.2 + x * 4.0]),
            "shelf-gain" => *r.pick(&[0.1, 0.5, 1.0, 2.0, 0.05 + x * 3.0]),
            "attack" => *r.pick(&[0.0, 0.1, 1.0, 10.0, x * 40.0]),
            "release" => *r.pick(&[0.0, 1.0, 10.0, x * 80.0]),
            "ratio" => *r.pick(&[1.0, 0.5, 2.0, 4.0, 20.0, 1.0 + x * 8.0]),
            "threshold" => *r.pick(&[0.0, -6.0, -20.0, -60.0, -x * 40.0, 3.0]),
            "knee" => *r.pick(&[0.0, 6.0, 12.0, 24.0, x * 24.0, 30.0]),
            "wet" | "dry" => *r.pick(&[0.0, 1.0, 0.5, x]),
            _ => *r.pick(&[0.0, 1.0, x, x, 1.4, -0.3]),
        }
    }
    fn clamped(kind: &Kind, p: usize, v: f64) -> f64 {
        let d = &kind.params()[p];
        v.clamp(d.min, d.max)
    }

    pub fn param(&mut self, e: usize) {
        let c = self.ids(e, |k| !k.params().is_empty());
        if let Some(id) = self.pick_id(&c) {
            let n = self.kind(e, id).params().len();
            let p = self.r.usize(n);
            self.param_on(e, id, p);
        }
    }
    pub fn param_on(&mut self, e: usize, id: u32, p: usize) {
        let kind = self.kind(e, id);
        let key = (id, p);
        let st = self.par[&key].clone();
        let mut v = self.value(&kind, p);
        if st.exp && Self::clamped(&kind, p, v) <= 0.0 {
            v = 0.3 + v.abs() * 0.5;
        }
        let mut how = weighted(&mut self.r, &self.k.psets.clone());
        let unlimited = kind.params()[p].min < 0.0 && kind.params()[p].min.is_infinite();
        if !st.touched && unlimited && self.k.psets[3] > 0 && self.r.chance(0.1) {
            how = 0;
            self.par.get_mut(&key).unwrap().below = true;
        }
        let below = self.par[&key].below;
        if below {
            v = -0.05 - v.abs();
            if how == 4 {
                how = 5;
            }
        }
        let set = match how {
            0 => {
                if !self.class(key, true) {
                    if !st.touched {
                        self.par.get_mut(&key).unwrap().below = false;
                    }
                    return;
                }
                PSet::Now(v)
            }
            1 | 2 | 3 => {
                let mut t = self.time(e);
                if t < st.busy {
                    t = st.busy.floor() + 1.0 + self.frac(e) + self.r.range(0, 40) as f64;
                }
                if !self.timed(e, key, t) {
                    return;
                }
                if how == 1 {
                    self.par.get_mut(&key).unwrap().busy = t;
                    PSet::At(v, t)
                } else {
                    let len = match self.r.usize(5) {
                        0 => 0,
                        1 => self.r.range(1, 4),
                        2 => self.r.range(1, 40),
                        _ => self.r.range(10, 400),
                    };
                    let mut end = t.floor() + len as f64 + self.frac(e);
                    if end < t {
                        end = t;
                    }
                    let pos = st.positive || below;
                    if how == 3 && pos && end > t {
                        // (a target outside the range is brought into it)
                        if !below {
                            v = v.abs();
                            if Self::clamped(&kind, p, v) <= 0.0 {
                                v = 0.7;
                            }
                        }
                        let s = self.par.get_mut(&key).unwrap();
                        s.busy = end;
                        s.exp = true;
                        PSet::Exp(v, t, end)
                    } else {
                        self.par.get_mut(&key).unwrap().busy = end;
                        PSet::Lin(v, t, end)
                    }
                }
            }
            4 => {
                self.par.get_mut(&key).unwrap().busy = self.pos_hi(e);
                PSet::Cancel
            }
            _ => PSet::CancelAfter(self.time(e)),
        };
        {
            let c = Self::clamped(&kind, p, v);
            let s = self.par.get_mut(&key).unwrap();
            s.touched = true;
            if c <= 0.0 && !matches!(set, PSet::Cancel | PSet::CancelAfter(_)) {
                s.positive = false;
            }
        }
        self.emit(e, Act::Param { id, p, set });
    }

    /// Loop points between two frames, now and then.
    fn loop_points(&mut self, pow2: bool, a: f64, b: f64) -> (f64, f64) {
        if b - a < 3.0 || !self.r.chance(0.3) {
            return (a, b);
        }
        if pow2 {
            (a + *self.r.pick(&[0.0, 0.25, 0.5]), b + *self.r.pick(&[0.0, 0.25, 0.5, 0.75]))
        } else {
            (a + *self.r.pick(&[0.0, 0.2]), b + *self.r.pick(&[0.1372, 0.3819, 0.7071]))
        }
    }
    pub fn sampler(&mut self, e: usize, id: u32) {
        let len = match self.kind(e, id) {
            Kind::Samp { len, .. } => len as f64,
            _ => return,
        };
        let key = (id, 0);
        let pow2 = self.pow2(e);
        let tf = |r: &mut Rng| -> f64 {
            if pow2 {
                *r.pick(&[0.0, 0.0, 0.25])
            } else {
                0.3
            }
        };
        let pf = |r: &mut Rng| -> f64 {
            if pow2 {
                *r.pick(&[0.0, 0.0, 0.25])
            } else {
                *r.pick(&[0.0, 0.2])
            }
        };
        let t = self.time(e).floor() + tf(&mut self.r);
        let span = len.max(2.0) as i64;
        match self.r.usize(11) {
            0 => {
                if self.class(key, true) {
                    self.emit(e, Act::Samp { id, ev: SEv::StartNow });
                }
            }
            1 => {
                if self.class(key, true) {
                    self.emit(e, Act::Samp { id, ev: SEv::StopNow });
                }
            }
            2 | 3 => {
                if self.timed(e, key, t) {
                    let p = self.r.range(0, span - 1) as f64 + pf(&mut self.r);
                    let pos = if self.r.chance(0.4) {
                        0.0
                    } else if self.r.chance(0.05) {
                        // at or behind the end
                        p + len
                    } else {
                        p
                    };
                    self.emit(e, Act::Samp { id, ev: SEv::Start(t, pos) });
                }
            }
            4 => {
                if self.timed(e, key, t) {
                    self.emit(e, Act::Samp { id, ev: SEv::Stop(t) });
                }
            }
            5 | 6 => {
                // a loop, and a start that will run into it
                if self.class(key, true) {
                    // times are quantised: a one-frame loop may be shorter than a frame
                    let least = if pow2 { 1 } else { 2.min(span) };
                    let mut b = self.r.range(least, span) as f64;
                    if self.r.chance(0.1) {
                        // some of the loop, or all of it, is behind the end of the sample
                        b += self.r.range(1, span + 9) as f64;
                    }
                    let mut a = self.r.range(0, b as i64 - least) as f64;
                    if self.r.chance(0.12) {
                        // a loop without any length, or backwards
                        a = b + *self.r.pick(&[0.0, 0.0, 1.0, 3.0]);
                    }
                    let (a, b) = self.loop_points(pow2, a, b);
                    self.emit(e, Act::Samp { id, ev: SEv::Loop(a, b) });
                    if self.r.chance(0.5) {
                        self.emit(e, Act::Samp { id, ev: SEv::StartNow });
                    } else {
                        let t = t.max(self.pos_hi(e).floor() + 2.0 + tf(&mut self.r));
                        let p = self.r.range(0, b as i64 - 1) as f64;
                        self.emit(e, Act::Samp { id, ev: SEv::Start(t, p) });
                    }
                }
            }
            7 => {
                let mut b = self.r.range((0.8 * len) as i64, span) as f64;
                if self.r.chance(0.1) {
                    b += self.r.range(1, 40) as f64;
                }
                let mut a = self.r.range(0, b as i64 / 2) as f64;
                if self.r.chance(0.12) {
                    a = b;
                }
                if (a == b || b - a >= (if pow2 { 1.0 } else { 2.0 })) && self.timed(e, key, t) {
                    let (a, b) = self.loop_points(pow2, a, b);
                    self.emit(e, Act::Samp { id, ev: SEv::LoopAt(t, a, b) });
                }
            }
            8 => {
                if self.class(key, true) {
                    self.emit(e, Act::Samp { id, ev: SEv::CancelLoop });
                }
            }
            9 => {
                if self.timed(e, key, t) {
                    self.emit(e, Act::Samp { id, ev: SEv::CancelLoopAt(t) });
                }
            }
            _ => {
                if self.r.chance(0.5) && self.class(key, true) {
                    self.emit(e, Act::Samp { id, ev: SEv::CancelAll });
                }
            }
        }
    }
    pub fn adsr(&mut self, e: usize, id: u32) {
        let key = (id, 0);
        // half a frame away from a whole number of frames: no ties
        let sr = self.sr(e) as f64;
        let tail = self.k.tail;
        let ms = move |r: &mut Rng| {
            let x = if r.chance(tail) {
                *r.pick(&[0.01f64, 500.0, 3000.0, 20_000.0])
            } else {
                *r.pick(&[0.0f64, 0.3, 2.0, 10.0, 40.0, 100.0])
            };
            if x == 0.0 {
                0.0
            } else {
                ((x * sr / 1000.0).floor() + 0.5) * 1000.0 / sr
            }
        };
        match self.r.usize(8) {
            0 | 1 | 2 | 3 => {
                let t = self.time(e);
                if self.timed(e, key, t) {
                    let on = self.r.chance(0.55);
                    self.emit(e, Act::Note { id, on, t });
                    if on && self.r.chance(0.5) {
                        let t2 = t + self.r.range(0, 500) as f64;
                        if self.timed(e, key, t2) {
                            self.emit(e, Act::Note { id, on: false, t: t2 });
                        }
                    }
                }
            }
            4 | 5 => {
                if self.class(key, true) {
                    let m = ms(&mut self.r);
                    let which = self.r.usize(3) as u8;
                    self.emit(e, Act::AdsrTime { id, which, ms: m });
                }
            }
            6 => {
                if self.class(key, true) {
                    let db = *self.r.pick(&[0.0, -6.0, -20.0, -200.0, -3.3]);
                    self.emit(e, Act::AdsrSustain { id, db });
                }
            }
            _ => {
                if !self.during && self.class(key, true) {
                    let (a, d, r) = (ms(&mut self.r), ms(&mut self.r), ms(&mut self.r));
                    let s = *self.r.pick(&[0.0, -6.0, -20.0, -200.0]);
                    self.emit(e, Act::AdsrAll { id, a, d, s, r });
                }
            }
        }
    }
    pub fn recorder(&mut self, e: usize, id: u32) {
        let key = (id, 0);
        match self.r.usize(5) {
            0 | 1 => {
                if self.class(key, true) {
                    self.emit(e, Act::RecStart { id });
                }
            }
            2 => {
                if self.class(key, true) {
                    self.emit(e, Act::RecStop { id });
                }
            }
            _ => {
                let t = self.time(e);
                if self.timed(e, key, t) {
                    self.emit(e, Act::RecStopAt { id, t });
                }
            }
        }
    }
    pub fn churn(&mut self, e: usize, times: u32) {
        let id = self.next_id;
        self.next_id += 1;
        let c = self.ids(e, |k| k.ins() > 0);
        let to = if self.r.chance(0.5) { self.pick_id(&c) } else { None };
        self.emit(e, Act::Churn { id, to });
        self.plan.ops.last_mut().unwrap().times = times;
    }
    pub fn level(&mut self, e: usize, id: u32) {
        let k = self.kind(e, id);
        let (i, o) = (self.r.usize(k.ins()), self.r.usize(k.outs()));
        let x = self.r.f64();
        let v = *self.r.pick(&[0.0, 1.0, 0.5, x, x * 1.2]);
        self.emit(e, Act::Level { id, i, o, v });
    }
    pub fn event(&mut self, e: usize) {
        let c = self.ids(e, |k| {
            matches!(
                k,
                Kind::Mixer { .. } | Kind::Adsr { .. } | Kind::Rec { .. } | Kind::Samp { .. }
            )
        });
        if let Some(id) = self.pick_id(&c) {
            self.event_on(e, id);
        }
    }
    pub fn event_on(&mut self, e: usize, id: u32) {
        match self.kind(e, id) {
            Kind::Mixer { .. } => self.level(e, id),
            Kind::Adsr { .. } => self.adsr(e, id),
            Kind::Rec { .. } => self.recorder(e, id),
            Kind::Samp { .. } => self.sampler(e, id),
            _ => {}
        }
    }
    pub fn collect(&mut self, e: usize) {
        let c = self.ids(e, |k| matches!(k, Kind::Rec { .. } | Kind::Env { .. }));
        if c.is_empty() {
            return;
        }
        // A caller that waits for the flag and takes what is there
        let polls = self.ids(e, |k| matches!(k, Kind::Rec { .. }));
        if !polls.is_empty() && self.r.chance(0.2) {
            let id = *self.r.pick(&polls);
            for _ in 0..2 + self.r.usize(6) {
                self.emit(e, Act::Notif);
                self.emit(e, Act::RecFlag { id });
                if self.r.chance(0.8) {
                    self.emit(e, Act::RecTake { id });
                }
            }
            return;
        }
        if self.r.chance(0.85) {
            self.emit(e, Act::Notif);
        }
        for id in c {
            if self.r.chance(0.7) {
                if matches!(self.kind(e, id), Kind::Rec { .. }) {
                    self.emit(e, Act::RecFlag { id });
                    if self.r.chance(0.6) {
                        self.emit(e, Act::RecTake { id });
                    }
                } else {
                    self.emit(e, Act::EnvTake { id });
                }
            }
        }
    }
    fn new_node(&mut self, e: usize) {
        let code = weighted(&mut self.r, &self.k.kinds.clone());
        let k = self.make_kind(e, code);
        let id = self.create(e, k);
        self.hook(e, id);
    }

    pub fn random_op(&mut self, e: usize) {
        let w = self.k.w.clone();
        let what = weighted(
            &mut self.r,
            &[
                w.create, w.drop, w.conn, w.disc, w.io, w.param, w.readp, w.time, w.event, w.collect,
                w.startstop, w.notif, w.sleep,
            ],
        );
        match what {
            0 => {
                if self.eng[e].nodes.len() < 24 && self.eng[e].ctx {
                    self.new_node(e)
                }
            }
            1 => {
                let c = self.ids(e, |_| true);
                if let Some(id) = self.pick_id(&c) {
                    // buses go less often
                    let bus = self.eng[e].bus == Some(id) || self.eng[e].inp == Some(id);
                    if !bus || self.r.chance(0.3) {
                        self.drop(e, id);
                        if bus && self.eng[e].ctx && self.r.chance(0.8) {
                            let ch = self.plan.engines[e].max_ch;
                            let b = self.create(e, Kind::Gain { ch });
                            if self.eng[e].bus.is_none() {
                                self.eng[e].bus = Some(b);
                                self.emit(e, Act::ConnOut { id: b });
                                let c = self.ids(e, |k| k.outs() > 0);
                                for s in c {
                                    if self.r.chance(0.4) {
                                        self.connect(e, s, b);
                                    }
                                }
                            } else {
                                self.eng[e].inp = Some(b);
                                self.emit(e, Act::ConnIn { id: b });
                                let c = self.ids(e, |k| k.ins() > 0);
                                for d in c {
                                    if self.r.chance(0.4) {
                                        self.connect(e, b, d);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            2 => {
                let (s, d) = (self.ids(e, |k| k.outs() > 0), self.ids(e, |k| k.ins() > 0));
                if let (Some(s), Some(d)) = (self.pick_id(&s), self.pick_id(&d)) {
                    self.connect(e, s, d);
                }
            }
            3 => {
                let ed = self.eng[e].edges.clone();
                if !ed.is_empty() && self.r.chance(0.85) {
                    let x = *self.r.pick(&ed);
                    self.disconnect(e, x.0, x.1);
                } else {
                    let c = self.ids(e, |_| true);
                    if let (Some(s), Some(d)) = (self.pick_id(&c), self.pick_id(&c)) {
                        if s != d {
                            self.disconnect(e, s, d);
                        }
                    }
                }
            }
            4 => {
                if self.r.chance(0.5) {
                    let c = self.ids(e, |k| k.outs() > 0);
                    if let Some(id) = self.pick_id(&c) {
                        self.emit(e, Act::ConnOut { id });
                        if self.r.chance(0.6) {
                            self.eng[e].bus = Some(id);
                        }
                    }
                } else {
                    let c = self.ids(e, |k| k.ins() > 0);
                    if let Some(id) = self.pick_id(&c) {
                        self.emit(e, Act::ConnIn { id });
                    }
                }
            }
            5 => self.param(e),
            6 => {
                let c = self.ids(e, |k| !k.params().is_empty());
                if let Some(id) = self.pick_id(&c) {
                    let n = self.kind(e, id).params().len();
                    let p = self.r.usize(n);
                    self.emit(e, Act::ReadParam { id, p });
                }
            }
            7 => {
                if self.eng[e].ctx {
                    self.emit(e, Act::ReadTime)
                }
            }
            8 => self.event(e),
            9 => {
                if self.eng[e].ctx {
                    self.collect(e)
                }
            }
            10 => {
                if self.eng[e].ctx {
                    if self.eng[e].started && self.r.chance(0.6) {
                        self.eng[e].started = false;
                        self.emit(e, Act::Stop);
                    } else {
                        self.start(e);
                    }
                }
            }
            11 => {
                if self.eng[e].ctx {
                    self.emit(e, Act::Notif)
                }
            }
            _ => {
                let ms = *self.r.pick(&[1, 10, 300, 1500]);
                self.emit(e, Act::Sleep { ms });
            }
        }
    }

    pub fn frames_for(&mut self, e: usize, style: u8, racing: bool) -> usize {
        let m = self.plan.engines[e].max_frames;
        let n = match style {
            0 => m,
            1 => (m / 2 + 1).min(m),
            2 => 1 + self.r.usize(2 * m),
            4 => 1,
            5 => 3 * m + self.r.usize(m + 1),
            _ => match self.r.usize(8) {
                0 => 0,
                1 => 1,
                2 => m + 1,
                3 => 3 * m + self.r.usize(m),
                4 => m - 1,
                5 => m,
                _ => 1 + self.r.usize(m),
            },
        };
        if racing {
            n.min(m)
        } else {
            n
        }
    }

    /// Push the call `self.g` of engine e and account for its frames.
    pub fn call(&mut self, e: usize, frames: usize) {
        let m = self.plan.engines[e].max_ch;
        let (mut i, mut o) = (m, m);
        if self.k.shapes {
            if self.r.chance(0.25) {
                i = self.r.usize(m + 3);
            }
            if self.r.chance(0.25) {
                o = self.r.usize(m + 3);
            }
            if self.r.chance(0.1 * self.k.tail) {
                i = self.r.usize(70);
            }
            if self.r.chance(0.1 * self.k.tail) {
                o = self.r.usize(70);
            }
        }
        let sr = self.sr(e) as u64;
        let mut adv = (frames as u64 * 1_000_000_000) / sr;
        if self.r.chance(0.03) {
            adv += *self.r.pick(&[1_000_000, 900_000_000, 5_000_000_000]);
        }
        let buf = weighted(&mut self.r, &[4, 2, 2]) as u8;
        self.plan.calls.push(Call { e, frames, in_ch: i, out_ch: o, buf, adv });
        self.cur_frames = if self.eng[e].started { frames as i64 } else { 0 };
    }
    pub fn called(&mut self, e: usize) {
        self.eng[e].pos += self.cur_frames;
        self.cur_frames = 0;
        self.during = false;
        self.g += 1;
    }

    fn count(&mut self, mean: f64) -> usize {
        // geometric-ish with occasional bursts
        let mut n = 0;
        let p = mean / (1.0 + mean);
        while n < 200 && self.r.chance(p) {
            n += 1;
        }
        if self.r.chance(self.k.burst) {
            n += self.r.usize(40);
        }
        n
    }

    /// An engine that has been running for long before the program begins.
    fn age(&mut self) {
        let e = self.r.usize(self.plan.engines.len());
        let m = self.plan.engines[e].max_frames;
        self.start(e);
        // (beyond 2^32 frames, now and then)
        let ages = m >= 4096;
        let calls = if ages { self.r.range(100, 110) } else { self.r.range(1, 4) };
        for _ in 0..calls {
            let n = if ages { 10_000 * m } else { (10_000 * m).min(1_000_000) } - self.r.usize(100);
            self.call(e, n);
            let c = self.plan.calls.last_mut().unwrap();
            c.in_ch = 0;
            c.out_ch = if ages { 0 } else { c.out_ch.min(1) };
            c.buf = if ages { 0 } else { c.buf };
            self.called(e);
        }
        if self.r.chance(0.3) {
            self.eng[e].started = false;
            self.emit(e, Act::Stop);
        }
    }

    /// The general random program.
    pub fn program(&mut self) {
        let n_eng = self.plan.engines.len();
        if self.r.chance(self.k.aged) {
            self.age();
        }
        for e in 0..n_eng {
            self.buses(e);
            let n = self.r.range(self.k.nodes.0 as i64, self.k.nodes.1 as i64);
            for _ in 0..n {
                self.new_node(e);
            }
            if self.r.chance(self.k.start_first) {
                self.start(e);
            }
        }
        if self.k.upfront {
            let n = (self.k.ops * 10.0) as usize;
            for e in 0..n_eng {
                for _ in 0..n {
                    if self.r.chance(0.5) {
                        self.param(e);
                    } else {
                        self.event(e);
                    }
                }
            }
        }
        self.body();
        self.epilogue();
    }

    pub fn body(&mut self) {
        let calls = self.r.range(self.k.calls.0 as i64, self.k.calls.1 as i64);
        let racing = self.k.race > 0.0 && !self.plan.offline && self.r.chance(0.6);
        // Calls that change the audio race only with callbacks of one internal block
        // (those that arrive between two blocks of a callback may take effect at the
        // second); reads race with callbacks of any length.
        let looking = racing && self.r.chance(self.k.look);
        let style = *self.r.pick(&self.k.frames.clone());
        let n_eng = self.plan.engines.len();
        for _ in 0..calls {
            let e = self.r.usize(n_eng);
            if !self.k.upfront {
                let n = self.count(self.k.ops);
                for _ in 0..n {
                    let e2 = if n_eng == 1 || self.r.chance(0.7) { e } else { self.r.usize(n_eng) };
                    self.random_op(e2);
                }
            } else if self.r.chance(0.4) {
                self.collect(e);
            }
            let f = self.frames_for(e, style, racing && !looking);
            self.call(e, f);
            if looking {
                self.during = true;
                for _ in 0..self.r.range(1, 6) {
                    if self.k.w.collect > 1 && self.r.chance(0.5) {
                        self.collect(e);
                    }
                    let c = self.ids(e, |k| !k.params().is_empty());
                    match self.pick_id(&c) {
                        Some(id) if self.r.chance(0.3) => {
                            let n = self.kind(e, id).params().len();
                            let p = self.r.usize(n);
                            self.emit(e, Act::ReadParam { id, p });
                        }
                        _ if self.eng[e].ctx => self.emit(e, Act::ReadTime),
                        _ => {}
                    }
                }
                self.during = false;
            } else if racing && !self.k.upfront {
                let mut n = 0;
                while n < 12 && self.r.chance(self.k.race * 3.0) {
                    n += 1;
                }
                self.during = true;
                for _ in 0..n {
                    self.random_op(e);
                }
                self.during = false;
            }
            self.called(e);
        }
    }

    /// Final observations, then faults and schedule.
    pub fn epilogue(&mut self) {
        let n_eng = self.plan.engines.len();
        for e in 0..n_eng {
            if !self.eng[e].ctx {
                continue;
            }
            self.emit(e, Act::ReadTime);
            if self.r.chance(0.8) {
                self.emit(e, Act::Notif);
                let c = self.ids(e, |k| matches!(k, Kind::Rec { .. } | Kind::Env { .. }));
                for id in c {
                    if matches!(self.kind(e, id), Kind::Rec { .. }) {
                        self.emit(e, Act::RecFlag { id });
                        self.emit(e, Act::RecTake { id });
                    } else {
                        self.emit(e, Act::EnvTake { id });
                    }
                }
            }
            let c = self.ids(e, |k| !k.params().is_empty());
            if let Some(id) = self.pick_id(&c) {
                self.emit(e, Act::ReadParam { id, p: 0 });
            }
        }
        self.faults();
    }
    pub fn faults(&mut self) {
        let n = self.plan.calls.len() as i64;
        for _ in 0..3 {
            if self.r.chance(self.k.starve) {
                let from = self.r.range(0, n) as u32;
                let role = 1 + self.r.usize(3) as u8;
                let to = from + 1 + self.r.usize(6) as u32;
                self.plan.sched.starve.push(StarveW { role, from, to });
            }
        }
        for e in 0..self.plan.engines.len() {
            if self.r.chance(self.k.lost) {
                self.plan.engines[e].lost_at = Some(self.r.range(0, n) as u32);
            }
        }
    }
}

fn base() -> Knobs {
    Knobs::default()
}

/// The plan of one seed of one property's check.
pub fn make(property: &str, seed: u64) -> Plan {
    let s = mix(seed, property.bytes().fold(7, |a, b| mix(a, b as u64)));
    let mut r = Rng::new(s);
    let mut p = build(property, s, &mut r);
    p.seed = seed;
    // (long runs are interrupted less often)
    let bb = p.sched.bb_mean;
    if p.sched.atomic_mean > 0 && (bb >= 2000 || bb == 0) {
        let low = match p.profile.as_str() {
            "endurance" | "heavy-use" | "long-loop" | "ages" => 3000,
            "polls" => 1,
            _ if bb >= 20_000 => 300,
            _ => 30,
        };
        p.sched.atomic_mean = p.sched.atomic_mean.max(low);
    }
    let mut h = Rng::new(mix(s, 0x415));
    if h.chance(if property == "C18" || p.profile == "burst" { 0.08 } else { 0.03 }) {
        history(&mut p, &mut h);
    }
    let mut h = Rng::new(mix(s, 0xC4A1));
    if h.chance(0.05) {
        chains(&mut p, &mut h);
    }
    // keep only legal operations
    let v = validity(&p);
    let mut i = 0;
    p.ops.retain(|_| {
        i += 1;
        v[i - 1]
    });
    p
}

/// Some of the wiring is done with `connect_nodes!`.
fn chains(p: &mut Plan, h: &mut Rng) {
    if p.leak_check {
        return;
    }
    for _ in 0..1 + h.usize(3) {
        let at: Vec<usize> = (0..p.ops.len()).filter(|i| !p.ops[*i].during).collect();
        if at.is_empty() {
            return;
        }
        let i = *h.pick(&at);
        let (e, g) = (p.ops[i].e, p.ops[i].g);
        let mut live = vec![];
        for o in &p.ops[..i] {
            match &o.act {
                Act::Create { id, .. } if o.e == e => live.push(*id),
                Act::Drop { id } => live.retain(|x| x != id),
                _ => {}
            }
        }
        if live.len() < 2 {
            continue;
        }
        let mut ids = vec![];
        for _ in 0..*h.pick(&[1, 2, 2, 3, 3, 4]) {
            ids.push(*h.pick(&live));
        }
        let act = Act::Chain { ids, input: h.chance(0.3), output: h.chance(0.3) };
        p.ops.insert(i, Op { e, g, during: false, act, times: 1 });
    }
}

/// Elsewhere in the process so much has happened that a counter of whatever width
/// comes round while the program runs.
fn history(p: &mut Plan, h: &mut Rng) {
    if p.leak_check || p.ops.is_empty() {
        return;
    }
    let i = h.usize(p.ops.len());
    let around = *h.pick(&[128u32, 256, 256, 256, 1024, 4096, 32_768, 65_536]);
    if p.sched.bb_mean > 0 && around > 5000 {
        p.sched.bb_mean = p.sched.bb_mean.max(20_000);
    }
    let kind = |f: &dyn Fn(&Act) -> u32| -> (u32, u32) {
        let n = |o: &[Op]| o.iter().map(|o| f(&o.act) * o.times.max(1)).sum::<u32>();
        (n(&p.ops[..i]), n(&p.ops[i..]))
    };
    // so that it comes round among the events still to come
    let mut upto = |(before, after): (u32, u32)| around.saturating_sub(before + h.usize(after as usize + 1) as u32);
    let adsr = upto(kind(&|a| match a {
        Act::AdsrAll { .. } => 4,
        Act::Note { .. } | Act::AdsrTime { .. } | Act::AdsrSustain { .. } => 1,
        _ => 0,
    }));
    let samp = upto(kind(&|a| matches!(a, Act::Samp { .. }) as u32));
    let rec = upto(kind(&|a| matches!(a, Act::RecStart { .. } | Act::RecStop { .. } | Act::RecStopAt { .. }) as u32));
    // so that it comes round to the identifiers of living nodes
    let (before, _) = kind(&|a| matches!(a, Act::Create { .. } | Act::Conn { .. } | Act::ConnCh { .. }) as u32);
    let nodes = if around <= 5000 || h.chance(0.3) {
        around.saturating_sub(3 + h.usize(before as usize + 2) as u32)
    } else {
        0
    };
    let (e, g, during) = (p.ops[i].e, p.ops[i].g, p.ops[i].during);
    p.ops.insert(
        i,
        Op {
            e,
            g,
            during,
            act: Act::History { nodes, adsr, samp, rec },
            times: 1,
        },
    );
}

fn build(property: &str, s: u64, r: &mut Rng) -> Plan {
    let mut k = base();
    let go = |profile: &str, k: Knobs| {
        let mut g = G::new(property, profile, s, k);
        g.program();
        g.plan
    };
    match property {
        "C01" => match r.usize(10) {
            0 => big_graph(property, s, k),
            1..=4 => {
                // routing only: many channels, many connections
                k.kinds = [8, 1, 2, 0, 0, 0, 0, 4, 0, 0, 0, 0];
                k.nodes = (3, 10);
                k.max_ch = (1, 8);
                k.w = Wt { create: 3, drop: 3, conn: 12, disc: 6, io: 2, param: 1, event: 2, time: 0, startstop: 0, ..Default::default() };
                k.ops = 4.0;
                k.max_frames = vec![4, 16, 33, 64];
                go("routing", k)
            }
            _ => {
                k.w.conn = 10;
                k.w.disc = 5;
                k.w.io = 2;
                k.nodes = (3, 9);
                k.max_ch = (1, 6);
                k.max_frames = vec![8, 16, 33, 64];
                go("mixed", k)
            }
        },
        "C02" => {
            if r.chance(0.15) {
                return drop_storm(property, s, k);
            }
            k.w = Wt { create: 6, drop: 8, conn: 4, disc: 3, io: 2, param: 4, event: 5, readp: 1, collect: 1, startstop: 1, time: 1, ..Default::default() };
            k.ops = 3.0;
            k.nodes = (3, 8);
            k.race = 0.25;
            k.max_frames = vec![8, 16, 33, 64];
            go("drops", k)
        }
        "C03" => {
            if r.chance(0.06) {
                return polls(property, s, k);
            }
            k.w.startstop = 14;
            k.w.time = 10;
            k.start_first = 0.5;
            k.look = 0.4;
            k.aged = 0.12;
            k.calls = (8, 40);
            k.max_frames = vec![4, 16, 33, 64];
            if r.chance(0.0015) {
                k.aged = 1.0;
                k.max_frames = vec![4096];
                k.max_ch = (1, 1);
                k.calls = (3, 6);
                k.tail = 0.0;
                return go("ages", k);
            }
            k.ops = 1.5;
            if r.chance(0.4) {
                k.sr = vec![64, 256, 1000];
            }
            go("start-stop", k)
        }
        "C04" => {
            k.upfront = true;
            k.start_first = 1.0;
            k.ops = 1.6;
            k.frames = vec![0, 1, 2, 2, 3, 3, 4, 5];
            k.max_frames = vec![1, 3, 8, 17, 32, 64, 100, 256];
            k.calls = (8, 30);
            k.nodes = (3, 8);
            k.late = 0.0;
            k.horizon = 1200;
            k.shapes = false;
            k.race = 0.0;
            k.starve = 0.0;
            if r.chance(0.01) {
                return long_loop(property, s, k);
            }
            go("slicing", k)
        }
        "C05" => {
            if r.chance(0.15) {
                return burst(property, s, k);
            }
            k.race = 0.3;
            k.offline = 0.0;
            k.ops = 3.5;
            k.burst = 0.15;
            k.late = 0.4;
            k.max_frames = vec![8, 16, 33, 64];
            k.psets = [6, 2, 2, 1, 1, 1];
            k.starve = 0.3;
            go("racing", k)
        }
        "C06" => {
            if r.chance(0.15) {
                return slow_ramps(property, s, k);
            }
            k.kinds = [8, 2, 2, 1, 1, 1, 1, 0, 0, 0, 0, 0];
            k.w = Wt { param: 14, readp: 5, startstop: 1, conn: 1, time: 1, ..Default::default() };
            k.nodes = (1, 3);
            k.ops = 3.0;
            k.late = 0.35;
            k.psets = [2, 4, 6, 5, 1, 1];
            k.calls = (8, 30);
            go("automation", k)
        }
        "C07" => match r.usize(7) {
            0 => drop_storm(property, s, k),
            1 => backlog(property, s, k),
            2 => burst(property, s, k),
            3 => polls(property, s, k),
            _ => {
                k.starve = 0.5;
                k.w.drop = 5;
                k.w.create = 6;
                k.w.collect = 1;
                k.w.notif = 0;
                k.ops = 4.0;
                k.race = 0.25;
                k.frames = vec![0, 2, 3, 3];
                go("stalls", k)
            }
        },
        "C08" => match r.usize(6) {
            0 | 1 => flood(property, s, k),
            2 => backlog(property, s, k),
            3 => polls(property, s, k),
            _ => {
                k.starve = 0.5;
                k.start_first = 0.4;
                k.lost = 0.4;
                k.ops = 6.0;
                k.burst = 0.2;
                k.race = 0.25;
                k.calls = (3, 12);
                go("audio-away", k)
            }
        },
        "C09" => {
            if r.chance(0.12) {
                return long_recording(property, s, k);
            }
            if r.chance(0.1) {
                return polled_recording(property, s, k);
            }
            k.kinds = [3, 1, 2, 0, 0, 0, 0, 1, 1, 1, 8, 2];
            k.w = Wt { param: 1, event: 12, collect: 6, startstop: 1, conn: 1, time: 1, create: 1, drop: 1, ..Default::default() };
            k.nodes = (2, 5);
            k.calls = (8, 30);
            go("recording", k)
        }
        "C10" => {
            if r.chance(0.2) {
                return backlog(property, s, k);
            }
            k.kinds = [3, 1, 2, 0, 0, 0, 0, 1, 1, 10, 0, 1];
            k.w = Wt { param: 2, event: 2, collect: 7, startstop: 1, conn: 1, time: 1, create: 1, drop: 1, ..Default::default() };
            k.nodes = (2, 5);
            k.frames = vec![0, 1, 2, 3, 3, 4, 5];
            k.calls = (8, 30);
            go("envelope", k)
        }
        "C11" => {
            k.kinds = [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12];
            k.w = Wt { event: 14, startstop: 1, time: 1, conn: 0, ..Default::default() };
            k.nodes = (1, 3);
            k.ops = 3.0;
            k.calls = (10, 40);
            k.sr = vec![64, 256, 1024, 1000, 2048, 4096, 8000, 16384];
            k.max_ch = (1, 2);
            if r.chance(0.03) {
                return long_loop(property, s, k);
            }
            go("sampler", k)
        }
        "C12" => {
            k.kinds = [1, 0, 1, 0, 0, 0, 0, 0, 12, 0, 0, 0];
            k.w = Wt { event: 14, startstop: 1, time: 1, ..Default::default() };
            k.nodes = (1, 3);
            k.ops = 2.5;
            k.calls = (10, 40);
            k.sr = vec![1000, 1024, 4096, 8000, 16384, 44100];
            go("adsr", k)
        }
        "C13" => {
            k.kinds = [2, 0, 2, 0, 0, 0, 0, 12, 0, 0, 0, 1];
            k.w = Wt { event: 14, conn: 3, disc: 1, startstop: 1, create: 1, drop: 1, ..Default::default() };
            k.nodes = (2, 5);
            k.ops = 5.0;
            k.max_ch = (1, 8);
            k.race = 0.3;
            k.offline = 0.05;
            k.max_frames = vec![8, 16, 33, 64];
            if r.chance(0.08) {
                k.max_ch = (2, 8);
                return burst(property, s, k);
            }
            go("mixer", k)
        }
        "C14" => {
            if r.chance(0.25) {
                return drop_storm(property, s, k);
            }
            if r.chance(0.3) {
                return cycles(property, s, k, false);
            }
            k.w = Wt { create: 8, drop: 8, conn: 3, param: 2, event: 4, collect: 2, startstop: 1, sleep: 2, notif: 1, ..Default::default() };
            k.race = 0.3;
            k.offline = 0.1;
            k.lost = 0.25;
            k.starve = 0.3;
            k.max_frames = vec![128, 256];
            k.frames = vec![1, 2, 3];
            k.calls = (4, 14);
            k.ops = 3.0;
            let mut p = go("lifetimes", k);
            if r.chance(0.4) {
                // the context goes first, the program carries on
                let n = p.ops.len();
                let at = r.usize(n + 1);
                let (g, during) = p.ops.get(at).map_or((p.calls.len() as u32, false), |o| (o.g, o.during));
                p.ops.insert(at, Op { e: 0, g, during, act: Act::DropCtx, times: 1 });
            }
            p
        }
        "C15" => {
            k.engines = 2 + r.usize(3);
            k.calls = (12, 40);
            k.nodes = (1, 4);
            k.ops = 2.0;
            k.max_frames = vec![8, 16, 33, 64];
            k.lost = 0.2;
            k.race = 0.2;
            k.w.startstop = 3;
            go("engines", k)
        }
        "C16" => {
            k.max_ch = (1, 6);
            k.frames = vec![2, 3, 3, 3, 5];
            k.nodes = (1, 5);
            k.calls = (8, 30);
            k.max_frames = vec![1, 4, 16, 33, 64];
            k.race = 0.1;
            let mut p = go("shapes", k);
            let mut h = Rng::new(s ^ 0x5a);
            for c in p.calls.iter_mut() {
                if h.chance(0.7) {
                    c.in_ch = h.usize(9);
                }
                if h.chance(0.7) {
                    c.out_ch = h.usize(9);
                }
                c.buf = h.usize(3) as u8;
            }
            p.interleaved = h.chance(0.15);
            p
        }
        "C17" => {
            k.kinds = [2, 2, 5, 5, 5, 4, 4, 0, 0, 0, 0, 0];
            k.w = Wt { param: 14, startstop: 2, readp: 1, conn: 1, ..Default::default() };
            k.nodes = (1, 4);
            k.ops = 2.5;
            k.calls = (8, 24);
            k.frames = vec![0, 1, 2, 3, 4, 5];
            go("effects", k)
        }
        "C18" => {
            k.nodes = (4, 12);
            k.w.conn = 8;
            k.max_frames = vec![8, 16, 33, 64];
            k.race = 0.1;
            let mut p = go("determinism", k);
            let mut h = Rng::new(s ^ 0x77);
            p.world.id_offset = *h.pick(&[0, 3, 50, 400]);
            p.world.jitter = Some(h.next());
            p
        }
        "C19" => {
            k.kinds = [8, 1, 2, 1, 1, 0, 0, 0, 0, 0, 0, 6];
            k.psets = [1, 5, 6, 3, 4, 5];
            k.w = Wt { param: 14, event: 6, readp: 3, startstop: 1, time: 1, ..Default::default() };
            k.nodes = (1, 3);
            k.ops = 4.0;
            k.calls = (8, 30);
            k.sr = vec![64, 256, 1024, 4096, 1000, 44100];
            k.max_frames = vec![8, 16, 33, 64, 128];
            go("cancel", k)
        }
        "C20" => match r.usize(7) {
            0 => long_recording(property, s, k),
            1 => backlog(property, s, k),
            2 => endurance(property, s, k),
            3 => heavy_use(property, s, k),
            _ => cycles(property, s, k, true),
        },
        "C21" => {
            k.max_ch = (1, 6);
            k.frames = vec![2, 3, 5];
            k.nodes = (1, 3);
            k.calls = (8, 24);
            k.race = 0.1;
            let mut p = go("interleaved", k);
            p.interleaved = true;
            let mut h = Rng::new(s ^ 0x5b);
            for c in p.calls.iter_mut() {
                c.in_ch = h.usize(7);
                c.out_ch = h.usize(7);
            }
            p
        }
        _ => go("mixed", k),
    }
}

/// Hundreds of nodes and connections.
fn big_graph(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.max_frames = vec![4, 8];
    k.max_ch = (1, 3);
    k.offline = 0.3;
    k.race = 0.1;
    let mut g = G::new(property, "big-graph", s, k);
    g.plan.sched.bb_mean = g.plan.sched.bb_mean.max(2000);
    g.buses(0);
    let n = *g.r.pick(&[80, 80, 200, 200, 520, 600, 1019, 1020, 1021, 1022, 1500]);
    let shape = g.r.usize(3);
    let mut prev = g.eng[0].inp.unwrap();
    let bus = g.eng[0].bus.unwrap();
    for i in 0..n {
        let ch = 1 + g.r.usize(g.plan.engines[0].max_ch);
        let id = g.create(0, Kind::Gain { ch });
        match shape {
            0 => {
                g.connect(0, prev, id);
            }
            1 => {
                let i = g.eng[0].inp.unwrap();
                g.connect(0, i, id);
            }
            _ => {
                for _ in 0..2 {
                    let c = g.ids(0, |_| true);
                    let c: Vec<u32> = c.into_iter().filter(|x| *x != bus && *x != id).collect();
                    if let Some(x) = g.pick_id(&c) {
                        g.connect(0, x, id);
                    }
                }
            }
        }
        if shape == 1 && i % 7 == 0 || shape == 2 && i % 29 == 0 || i + 1 == n {
            g.connect(0, id, bus);
        }
        if shape == 2 {
            // keep sums bounded
            g.emit(0, Act::Param { id, p: 0, set: PSet::Now(0.45) });
        }
        prev = id;
    }
    g.start(0);
    for c in 0..4 {
        for _ in 0..8 {
            let id = g.r.usize(n) as u32 + 2;
            if g.eng[0].nodes.iter().any(|x| x.id == id) {
                if g.r.chance(0.5) {
                    g.drop(0, id);
                } else {
                    let ed: Vec<_> = g.eng[0].edges.iter().filter(|x| x.0 == id).copied().collect();
                    for x in ed {
                        g.disconnect(0, x.0, x.1);
                    }
                    if g.r.chance(0.7) {
                        g.connect(0, id, bus);
                    }
                }
            }
        }
        let f = 1 + g.r.usize(6 + c);
        g.call(0, f);
        g.called(0);
    }
    g.epilogue();
    g.plan
}

/// Many nodes dropped at once, the collector held back.
fn drop_storm(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.max_frames = vec![128];
    k.max_ch = (1, 2);
    k.frames = vec![1];
    k.lost = 0.1;
    let mut g = G::new(property, "drop-storm", s, k);
    g.buses(0);
    g.start(0);
    g.call(0, 64);
    g.called(0);
    let rounds = 1 + g.r.usize(3);
    for _ in 0..rounds {
        let n = *g.r.pick(&[20, 70, 150, 300]);
        let mut ids = vec![];
        for _ in 0..n {
            let code = if g.r.chance(0.8) { GAIN } else { weighted(&mut g.r, &g.k.kinds.clone()) };
            let kind = g.make_kind(0, code);
            let id = g.create(0, kind);
            ids.push(id);
            if g.r.chance(0.3) {
                g.hook(0, id);
            }
        }
        if g.r.chance(0.8) {
            g.call(0, 8);
            g.called(0);
        }
        if g.r.chance(0.3) {
            ids.reverse();
        }
        let racing = g.r.chance(0.3) && !g.plan.offline;
        if racing {
            g.call(0, 32);
            g.during = true;
        }
        for id in ids {
            if g.r.chance(0.9) {
                g.drop(0, id);
            }
        }
        if racing {
            g.called(0);
        }
        for _ in 0..2 {
            g.call(0, 64);
            g.called(0);
        }
        if g.r.chance(0.15) {
            // far more than any plausible capacity, in one callback or several
            for _ in 0..1 + g.r.usize(3) {
                let n = *g.r.pick(&[300, 1100, 1500, 4100]);
                g.churn(0, n);
                g.call(0, 16);
                g.called(0);
            }
        }
        if g.r.chance(0.4) {
            g.emit(0, Act::Notif);
            g.emit(0, Act::Sleep { ms: 4000 });
            g.emit(0, Act::Mark);
        }
    }
    g.epilogue();
    if g.r.chance(0.5) {
        let n = g.plan.calls.len() as u32;
        g.plan.sched.starve.push(StarveW { role: 3, from: 0, to: n + 5 });
    }
    g.plan
}

/// Control calls in a tight loop while the audio thread works, either of them
/// interrupted at any point (a lock one of them holds is met by the other).
fn polls(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.max_frames = vec![8, 16, 33];
    k.nodes = (1, 3);
    k.offline = 0.0;
    let mut g = G::new(property, "polls", s, k);
    g.plan.sched.mode = 0;
    g.plan.sched.pct_depth = 0;
    g.plan.sched.p_switch = *g.r.pick(&[0.1, 0.5, 0.9]);
    g.plan.sched.bb_mean = *g.r.pick(&[10, 30, 100, 20_000]);
    g.plan.sched.atomic_mean = *g.r.pick(&[0, 2, 5, 20]);
    // (blocks longer than the units a clock may be kept in)
    if g.r.chance(0.4) {
        g.plan.engines[0].sr = *g.r.pick(&[2, 8, 32]);
    }
    g.buses(0);
    let codes: Vec<usize> = match g.r.usize(3) {
        0 => vec![GAIN],
        1 => vec![MIXER, ADSR, REC, ENV, GAIN, SAMP],
        _ => (0..12).filter(|c| *c != CONV).collect(),
    };
    for _ in 0..1 + g.r.usize(4) {
        let c = *g.r.pick(&codes);
        let kd = g.make_kind(0, c);
        let id = g.create(0, kd);
        g.hook(0, id);
    }
    g.start(0);
    for _ in 0..4 + g.r.usize(12) {
        let m = g.plan.engines[0].max_frames;
        let f = 1 + g.r.usize(m);
        g.call(0, f);
        g.during = true;
        let only = g.r.usize(5);
        for _ in 0..3 + g.r.usize(40) {
            match only {
                0 => g.emit(0, Act::ReadTime),
                1 => {
                    let c = g.ids(0, |k| !k.params().is_empty());
                    if let Some(id) = g.pick_id(&c) {
                        let n = g.kind(0, id).params().len();
                        let p = g.r.usize(n);
                        g.emit(0, Act::ReadParam { id, p });
                    }
                }
                2 => {
                    g.collect(0);
                    g.emit(0, Act::Notif);
                }
                3 => g.event(0),
                _ => match g.r.usize(3) {
                    0 => g.emit(0, Act::ReadTime),
                    1 => g.param(0),
                    _ => g.random_op(0),
                },
            }
        }
        g.called(0);
        g.during = false;
    }
    g.epilogue();
    g.plan
}

/// A very long queue of every kind of call in front of one callback.
fn burst(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.max_frames = vec![16, 64];
    k.starve = 0.4;
    let mut g = G::new(property, "burst", s, k);
    g.plan.sched.bb_mean = g.plan.sched.bb_mean.max(2000);
    g.buses(0);
    for _ in 0..4 {
        g.new_node(0);
    }
    g.start(0);
    for _ in 0..3 {
        g.call(0, 16);
        let f = g.cur_frames;
        g.called(0);
        let _ = f;
        let n = *g.r.pick(&[60, 300, 800]);
        let only = g.r.usize(3);
        for _ in 0..n {
            match only {
                0 => g.random_op(0),
                1 => {
                    // one parameter, over and over
                    let b = g.eng[0].bus.or_else(|| g.ids(0, |k| matches!(k, Kind::Gain { .. })).first().copied());
                    if let Some(id) = b {
                        if !g.kind(0, id).params().is_empty() {
                            g.param_on(0, id, 0);
                        }
                    }
                }
                _ => {
                    let c = g.ids(0, |k| matches!(k, Kind::Mixer { .. } | Kind::Adsr { .. } | Kind::Rec { .. }));
                    match g.pick_id(&c) {
                        Some(id) => g.event_on(0, id),
                        None => g.random_op(0),
                    }
                }
            }
        }
    }
    for _ in 0..4 {
        let f = 1 + g.r.usize(16);
        g.call(0, f);
        g.called(0);
    }
    g.epilogue();
    g.plan
}

/// Control calls without any audio for a long time.
fn flood(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.start_first = 0.5;
    k.max_frames = vec![64];
    k.starve = 0.3;
    let mut g = G::new(property, "flood", s, k);
    g.plan.sched.bb_mean = g.plan.sched.bb_mean.max(2000);
    g.buses(0);
    let kinds = [MIXER, ADSR, REC, ENV, GAIN];
    for c in kinds {
        let kd = g.make_kind(0, c);
        let id = g.create(0, kd);
        g.hook(0, id);
    }
    if g.r.chance(0.5) {
        g.start(0);
        g.call(0, 64);
        g.called(0);
    }
    if g.r.chance(0.3) && g.eng[0].started {
        g.eng[0].started = false;
        g.emit(0, Act::Stop);
    }
    let n = *g.r.pick(&[100, 400, 1500]);
    let only = g.r.usize(6);
    for _ in 0..n {
        let c = g.ids(0, |k| match only {
            0 => matches!(k, Kind::Mixer { .. }),
            1 => matches!(k, Kind::Adsr { .. }),
            2 => matches!(k, Kind::Rec { .. }),
            3 => matches!(k, Kind::Gain { .. }),
            _ => true,
        });
        match (only, g.pick_id(&c)) {
            (0..=2, Some(id)) => g.event_on(0, id),
            (3, Some(id)) => g.param_on(0, id, 0),
            _ => g.random_op(0),
        }
    }
    // the same setting made again and again, far beyond any plausible capacity
    if g.r.chance(0.3) {
        let n = *g.r.pick(&[1030, 5000, 5000, 20000, 70000]);
        let c: Vec<usize> = (0..g.plan.ops.len()).filter(|i| g.plan.ops[*i].repeatable()).collect();
        if !c.is_empty() {
            let i = *g.r.pick(&c);
            let o = &mut g.plan.ops[i];
            // (the engine keeps the pending changes of one parameter or node sorted,
            // at a cost that grows with their number)
            o.times = if matches!(o.act, Act::ConnIn { .. } | Act::ConnOut { .. }) { n } else { n.min(5000) };
        }
    }
    if g.r.chance(0.1) {
        let n = *g.r.pick(&[300, 1100, 4100]);
        g.churn(0, n);
    }
    let lost = g.r.chance(0.3);
    if lost {
        g.plan.engines[0].lost_at = Some(g.g);
    }
    g.start(0);
    for _ in 0..4 {
        let f = g.frames_for(0, 2, false);
        g.call(0, f);
        g.called(0);
    }
    let fault = g.plan.engines[0].lost_at;
    g.epilogue();
    if fault.is_some() {
        g.plan.engines[0].lost_at = fault;
    }
    g.plan
}

/// Notifications pile up unread: recordings, envelopes, dropped nodes.
fn backlog(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.max_frames = vec![256, 1000];
    k.max_ch = (1, 2);
    k.sr = vec![256, 1024, 8000, 16384, 44100];
    k.offline = 0.3;
    let mut g = G::new(property, "backlog", s, k);
    g.plan.sched.bb_mean = g.plan.sched.bb_mean.max(2000);
    g.buses(0);
    let mut ids = vec![];
    for _ in 0..1 + g.r.usize(3) {
        let code = *g.r.pick(&[ENV, ENV, REC, SAMP, ADSR]);
        let mut kd = g.make_kind(0, code);
        if let Kind::Env { freq, .. } = &mut kd {
            let sr = g.plan.engines[0].sr as f64;
            let d = *g.r.pick(&[1.0, 2.0, 16.0, 64.0]);
            *freq = if sr / (sr / d) == d { sr / d } else { sr / 16.381966 };
        }
        let id = g.create(0, kd);
        g.hook(0, id);
        ids.push(id);
    }
    g.start(0);
    for id in &ids {
        if let Kind::Rec { .. } = g.kind(0, *id) {
            g.emit(0, Act::RecStart { id: *id });
        }
    }
    let stalls = 1 + g.r.usize(3);
    for _ in 0..stalls {
        for _ in 0..3 + g.r.usize(6) {
            let f = g.frames_for(0, 2, false);
            g.call(0, f);
            g.called(0);
        }
        for id in &ids {
            if matches!(g.kind(0, *id), Kind::Rec { .. }) && g.r.chance(0.5) {
                let act = if g.r.chance(0.5) { Act::RecStop { id: *id } } else { Act::RecStart { id: *id } };
                g.emit(0, act);
            } else if matches!(g.kind(0, *id), Kind::Samp { .. } | Kind::Adsr { .. }) {
                g.event_on(0, *id);
            }
        }
        if g.r.chance(0.6) {
            g.collect(0);
        }
    }
    g.epilogue();
    g.plan
}

/// Ramps over many callbacks, by much or by very little.
fn slow_ramps(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.max_frames = vec![64, 256, 1000];
    k.max_ch = (1, 2);
    k.offline = 0.3;
    let mut g = G::new(property, "slow-ramps", s, k);
    g.plan.sched.bb_mean = g.plan.sched.bb_mean.max(2000);
    g.buses(0);
    let mut ids = vec![g.eng[0].bus.unwrap()];
    let code = *g.r.pick(&[GAIN, OSC, BIQ, COMP, SHAPE, PAN]);
    let kd = g.make_kind(0, code);
    let id = g.create(0, kd);
    g.hook(0, id);
    ids.push(id);
    let calls = g.r.range(8, 20);
    let total = (calls as usize * 2 * g.plan.engines[0].max_frames) as i64;
    g.start(0);
    for id in &ids {
        let kind = g.kind(0, *id);
        for p in 0..kind.params().len() {
            if g.r.chance(0.4) {
                continue;
            }
            let d = &kind.params()[p];
            let mut v = match kind {
                Kind::Osc { freq, .. } if p == 0 => freq,
                _ => d.def,
            };
            let mut t = g.r.range(0, total / 8) as f64 + g.frac(0);
            let mut exp = v > 0.0;
            for _ in 0..1 + g.r.usize(3) {
                let to = if g.r.chance(0.6) {
                    let by = *g.r.pick(&[1e-6, 1e-5, 1e-4, 1e-3, 1e-2]) * if v == 0.0 { 1.0 } else { v };
                    if g.r.chance(0.5) { v + by } else { v - by }
                } else {
                    g.value(&kind, p)
                };
                v = G::clamped(&kind, p, to);
                exp &= v > 0.0;
                let end = t.floor() + g.r.range(total / 16, total / 2) as f64 + g.frac(0);
                let set = if exp && g.r.chance(0.5) { PSet::Exp(v, t, end) } else { PSet::Lin(v, t, end) };
                g.emit(0, Act::Param { id: *id, p, set });
                t = end.floor() + 1.0 + g.r.range(0, total / 16) as f64 + g.frac(0);
            }
        }
    }
    for _ in 0..calls {
        let style = *g.r.pick(&[0, 2, 2, 5]);
        let f = g.frames_for(0, style, false);
        g.call(0, f);
        g.called(0);
        for id in &ids {
            let n = g.kind(0, *id).params().len();
            if n > 0 {
                let p = g.r.usize(n);
                g.emit(0, Act::ReadParam { id: *id, p });
            }
        }
    }
    g.epilogue();
    g.plan
}

/// Thousands of blocks in each of a few states of the graph, odd ones included.
fn endurance(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.tail = 0.0;
    k.max_frames = vec![1, 2, 3];
    k.max_ch = (1, 3);
    k.offline = 0.3;
    k.w = Wt { create: 3, drop: 6, conn: 6, disc: 4, io: 6, param: 2, event: 2, ..Default::default() };
    let mut g = G::new(property, "endurance", s, k);
    g.plan.sched.bb_mean = if g.plan.sched.bb_mean > 0 { 20_000 } else { 0 };
    g.buses(0);
    for _ in 0..g.r.range(1, 5) {
        g.new_node(0);
    }
    g.start(0);
    let m = g.plan.engines[0].max_frames;
    for _ in 0..g.r.range(2, 4) {
        for _ in 0..g.r.range(0, 10) {
            g.random_op(0);
        }
        // nodes the system input and output name go first, now and then
        if g.r.chance(0.4) {
            let id = if g.r.chance(0.5) { g.eng[0].inp } else { g.eng[0].bus };
            if let Some(id) = id {
                g.drop(0, id);
            }
        }
        let n = 1100 + g.r.usize(800);
        g.call(0, n * m);
        g.called(0);
        g.emit(0, Act::Notif);
    }
    // any number of nodes may come and go
    if g.r.chance(0.1) {
        let mut left = *g.r.pick(&[6_000, 20_000, 20_000, 40_000, 70_000]);
        while left > 0 {
            let n = left.min(5_000);
            left -= n;
            g.churn(0, n);
            g.call(0, m);
            g.called(0);
        }
    }
    // a fresh path still works
    let ch = g.plan.engines[0].max_ch;
    let a = g.create(0, Kind::Gain { ch });
    let b = g.create(0, Kind::Gain { ch });
    g.emit(0, Act::ConnIn { id: a });
    g.connect(0, a, b);
    g.emit(0, Act::ConnOut { id: b });
    g.call(0, 5 * m);
    g.called(0);
    g.epilogue();
    g.plan
}

/// One object is used thousands of times over: the same parameter, node or pair of
/// nodes, again and again, with a callback every so often.
fn heavy_use(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.tail = 0.0;
    k.max_frames = vec![1, 2, 3];
    k.max_ch = (1, 3);
    k.offline = 0.1;
    k.psets = [1, 0, 0, 0, 0, 0];
    let mut g = G::new(property, "heavy-use", s, k);
    g.plan.sched.bb_mean = if g.plan.sched.bb_mean > 0 { 20_000 } else { 0 };
    g.buses(0);
    let code = *g.r.pick(&[GAIN, BIQ, SAMP, ADSR, MIXER, REC, REC, OSC, COMP]);
    let kd = g.make_kind(0, code);
    let has_in = kd.ins() > 0;
    let has_out = kd.outs() > 0;
    let id = g.create(0, kd);
    if let (Some(i), true) = (g.eng[0].inp, has_in) {
        g.connect(0, i, id);
    }
    if let (Some(b), true) = (g.eng[0].bus, has_out) {
        g.connect(0, id, b);
    }
    g.start(0);
    let m = g.plan.engines[0].max_frames;
    // (a state may be set many times before one callback; an event is made once)
    let params = g.kind(0, id).params().len();
    let how = g.r.usize(4);
    let p = if params > 0 { g.r.usize(params) } else { 0 };
    let many = *g.r.pick(&[1_200, 4_500, 9_000, 20_000]);
    let rounds = g.r.range(20, 60) as usize;
    let mut wired = true;
    for _ in 0..rounds {
        let from = g.plan.ops.len();
        let n = match how {
            0 | 1 if params > 0 => {
                g.param_on(0, id, p);
                many / rounds
            }
            2 => {
                // the same pair of nodes, connected and disconnected
                if let (Some(b), true) = (g.eng[0].bus, has_out) {
                    for _ in 0..1 + 1000 / rounds {
                        let (s, d) = (id, b);
                        if wired {
                            g.emit(0, Act::Disc { s, d });
                        } else {
                            g.emit(0, Act::Conn { s, d });
                        }
                        wired = !wired;
                    }
                }
                1
            }
            _ => {
                for _ in 0..1 + 1500 / rounds {
                    g.event_on(0, id);
                }
                if matches!(g.kind(0, id), Kind::Adsr { .. } | Kind::Mixer { .. }) { 20 } else { 1 }
            }
        };
        for o in &mut g.plan.ops[from..] {
            if n > 1 && o.repeatable() {
                o.times = n as u32;
            }
        }
        let f = 1 + g.r.usize(2 * m);
        g.call(0, f);
        g.called(0);
        if g.r.chance(0.3) {
            g.collect(0);
        }
    }
    for _ in 0..3 {
        g.event_on(0, id);
        if params > 0 {
            g.param_on(0, id, p);
        }
        g.call(0, 5 * m);
        g.called(0);
        g.collect(0);
    }
    g.epilogue();
    g.plan
}

/// Sample loops that go round for many blocks, of a length whose duration
/// a timestamp holds least well.
fn long_loop(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.tail = 0.0;
    k.max_ch = (1, 1);
    k.sr = vec![48_000, 96_000, 192_000, 384_000, 705_600, 768_000];
    k.offline = 0.5;
    let mut g = G::new(property, "long-loop", s, k);
    g.plan.sched.bb_mean = if g.plan.sched.bb_mean > 0 { 20_000 } else { 0 };
    let sr = g.plan.engines[0].sr as f64;
    let off = |n: usize| {
        let x = n as f64 / sr * (1u64 << 32) as f64;
        (x - x.round()).abs()
    };
    let most = g.r.range(1, 9) as usize;
    let m = (1..=most).max_by(|a, b| off(*a).total_cmp(&off(*b))).unwrap();
    g.plan.engines[0].max_frames = m;
    // until the sum of what is lost would be two frames
    let slip = off(m) / (1u64 << 32) as f64 * sr;
    let blocks = ((2.0 / slip.max(1e-9)) as usize).clamp(2000, 40_000);
    let len = g.r.range(20, 900) as usize;
    let kind = Kind::Samp { ch: 1, len, seed: g.r.next(), cap: 32 };
    let id = g.create(0, kind);
    g.emit(0, Act::ConnOut { id });
    g.start(0);
    let late = g.r.chance(0.3);
    let b = g.r.range(len as i64 / 2, len as i64) as f64;
    let a = g.r.range(0, b as i64 / 2) as f64;
    let (a, b) = g.loop_points(false, a, b);
    if !late {
        g.emit(0, Act::Samp { id, ev: SEv::Loop(a, b) });
    }
    g.emit(0, Act::Samp { id, ev: SEv::StartNow });
    let parts = g.r.range(2, 6) as usize;
    for i in 0..parts {
        let n = blocks * m / parts + g.r.usize(3 * m);
        g.call(0, n);
        g.called(0);
        if i == 0 && late {
            // (the sample is over by now; it starts again, in a loop)
            g.emit(0, Act::Samp { id, ev: SEv::Loop(a, b) });
            g.emit(0, Act::Samp { id, ev: SEv::StartNow });
        }
    }
    g.epilogue();
    g.plan
}

/// Short recordings, each awaited by a caller who looks at the flag all through the
/// callbacks and takes what is there as soon as it shows the stop.
fn polled_recording(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.tail = 0.0;
    k.max_ch = (1, 2);
    k.offline = 0.0;
    let mut g = G::new(property, "polled-recording", s, k);
    if g.r.chance(0.7) {
        g.plan.sched.mode = 0;
        g.plan.sched.p_switch = *g.r.pick(&[0.1, 0.3, 0.6]);
    }
    g.buses(0);
    let i = g.eng[0].inp.unwrap();
    let ch = 1 + g.r.usize(2);
    let rec = g.create(0, Kind::Rec { ch });
    g.connect(0, i, rec);
    g.start(0);
    let m = g.plan.engines[0].max_frames;
    let poll = |g: &mut G, p: f64| {
        let n = 1 + g.r.usize(12);
        for _ in 0..n {
            g.emit(0, Act::Notif);
            g.emit(0, Act::RecFlag { id: rec });
            if g.r.chance(p) {
                g.emit(0, Act::RecTake { id: rec });
            }
        }
    };
    for _ in 0..2 + g.r.usize(6) {
        g.emit(0, Act::RecStart { id: rec });
        for _ in 0..1 + g.r.usize(3) {
            let n = 1 + g.r.usize(2 * m);
            g.call(0, n);
            g.during = true;
            if g.r.chance(0.5) {
                poll(&mut g, 0.3);
            }
            g.called(0);
        }
        if g.r.chance(0.3) {
            let t = (g.eng[0].pos + g.r.usize(m) as i64) as f64 + g.frac(0);
            g.emit(0, Act::RecStopAt { id: rec, t });
        } else {
            g.emit(0, Act::RecStop { id: rec });
        }
        for _ in 0..1 + g.r.usize(2) {
            let n = m + g.r.usize(m);
            g.call(0, n);
            g.during = true;
            poll(&mut g, 0.8);
            g.called(0);
        }
    }
    g.epilogue();
    g.plan
}

/// Recordings far longer than any internal pool.
fn long_recording(property: &str, s: u64, mut k: Knobs) -> Plan {
    k.tail = 0.0;
    k.max_frames = vec![1024, 4096, 5000];
    k.max_ch = (1, 1);
    k.sr = vec![1024, 44100];
    k.offline = 0.5;
    let mut g = G::new(property, "long-recording", s, k);
    g.plan.sched.bb_mean = 0;
    g.buses(0);
    let i = g.eng[0].inp.unwrap();
    let rec = g.create(0, Kind::Rec { ch: 1 });
    g.connect(0, i, rec);
    g.start(0);
    g.emit(0, Act::RecStart { id: rec });
    let total = *g.r.pick(&[30_000, 90_000, 150_000, 280_000]);
    let every = *g.r.pick(&[1, 4, 1000]);
    let mut f = 0;
    let mut c = 0;
    while f < total {
        let m = g.plan.engines[0].max_frames;
        let n = m + g.r.usize(3 * m);
        g.call(0, n);
        g.called(0);
        f += n;
        c += 1;
        if c % every == 0 {
            g.emit(0, Act::Notif);
            if g.r.chance(0.5) {
                g.emit(0, Act::RecTake { id: rec });
            }
        }
        if g.r.chance(0.05) {
            g.emit(0, Act::RecStop { id: rec });
            g.emit(0, Act::RecStart { id: rec });
        }
    }
    g.emit(0, Act::RecStop { id: rec });
    g.call(0, 100);
    g.called(0);
    g.emit(0, Act::Notif);
    g.emit(0, Act::RecTake { id: rec });
    g.emit(0, Act::RecFlag { id: rec });
    // a second, short one
    g.emit(0, Act::RecStart { id: rec });
    g.call(0, 700);
    g.called(0);
    g.emit(0, Act::RecStop { id: rec });
    g.call(0, 10);
    g.called(0);
    g.emit(0, Act::Notif);
    g.emit(0, Act::RecTake { id: rec });
    for c in g.plan.calls.iter_mut() {
        c.out_ch = 1;
        c.in_ch = 1;
        c.buf = 1;
    }
    g.plan
}

/// The same small life, over and over.
fn cycles(property: &str, s: u64, mut k: Knobs, leak: bool) -> Plan {
    k.tail = 0.0;
    k.max_frames = vec![128];
    k.max_ch = (1, 2);
    k.lost = 0.0;
    k.starve = 0.0;
    k.shapes = false;
    k.offline = 0.3;
    let name = ["kinds", "nodes", "connections", "automation", "recordings"];
    let flavour = (mix(s, 77) % 5) as usize;
    let mut g = G::new(property, &format!("cycles of {}", name[flavour]), s, k);
    g.plan.sched.bb_mean = g.plan.sched.bb_mean.max(2000);
    g.buses(0);
    g.start(0);
    // message queues allocate per 31 messages: thirds of 31 cycles are in phase
    let n = if leak { 93 } else { 6 };
    if flavour == 3 {
        // everything scheduled is over by the end of its cycle, about
        g.k.psets = [3, 3, 0, 0, 1, 0];
        g.k.horizon = 30;
    }
    let keep: Vec<u32> = if flavour >= 2 {
        [MIXER, ADSR, SAMP, REC, ENV]
            .iter()
            .map(|c| {
                let mut kd = g.make_kind(0, *c);
                if let Kind::Env { freq, .. } = &mut kd {
                    *freq = g.plan.engines[0].sr as f64 / 16.381966;
                }
                let id = g.create(0, kd);
                g.hook(0, id);
                id
            })
            .collect()
    } else {
        vec![]
    };
    let (ops0, calls0, pos0, g0) = (g.plan.ops.len(), g.plan.calls.len(), g.eng[0].pos, g.g);
    let ids0 = g.next_id;
    let base = g.eng[0].edges.clone();
    let code = weighted(&mut g.r, &g.k.kinds.clone());
    match flavour {
        0 | 1 => {
            // nodes come and go
            let m = 1 + g.r.usize(3);
            let mut ids = vec![];
            for j in 0..m {
                let code = if flavour == 0 && j == 0 { (s % 12) as usize } else { code };
                let kd = g.make_kind(0, code);
                let id = g.create(0, kd);
                g.hook(0, id);
                ids.push(id);
            }
            for id in &ids {
                g.event_on(0, *id);
                if !g.kind(0, *id).params().is_empty() {
                    g.param_on(0, *id, 0);
                }
            }
            g.call(0, 30);
            g.called(0);
            for id in ids {
                g.drop(0, id);
            }
            g.call(0, 5);
            g.called(0);
        }
        2 => {
            // connections come and go
            let ids = g.ids(0, |_| true);
            for _ in 0..6 {
                let (a, b) = (*g.r.pick(&ids), *g.r.pick(&ids));
                g.connect(0, a, b);
            }
            g.call(0, 20);
            g.called(0);
            let ed: std::collections::BTreeSet<(u32, u32)> = g.eng[0].edges.iter().map(|x| (x.0, x.1)).collect();
            for x in ed {
                g.disconnect(0, x.0, x.1);
            }
            for x in &base {
                g.emit(0, Act::ConnCh { s: x.0, d: x.1, sc: x.2, dc: x.3, n: x.4 });
            }
            g.eng[0].edges = base.clone();
            g.call(0, 5);
            g.called(0);
        }
        3 => {
            // automation and events come and go
            for id in &keep {
                g.event_on(0, *id);
            }
            for _ in 0..6 {
                g.param(0);
            }
            let f = 200 + g.r.usize(60);
            g.call(0, f);
            g.called(0);
        }
        _ => {
            // recordings and reports
            for id in &keep {
                if matches!(g.kind(0, *id), Kind::Rec { .. }) {
                    g.emit(0, Act::RecStart { id: *id });
                }
            }
            g.call(0, 100);
            g.called(0);
            for id in &keep {
                if matches!(g.kind(0, *id), Kind::Rec { .. }) {
                    g.emit(0, Act::RecStop { id: *id });
                }
            }
            g.call(0, 10);
            g.called(0);
            g.emit(0, Act::Notif);
            for id in &keep {
                match g.kind(0, *id) {
                    Kind::Rec { .. } => g.emit(0, Act::RecTake { id: *id }),
                    Kind::Env { .. } => g.emit(0, Act::EnvTake { id: *id }),
                    _ => {}
                }
            }
        }
    }
    g.emit(0, Act::Notif);
    for id in &keep {
        match g.kind(0, *id) {
            Kind::Env { .. } => g.emit(0, Act::EnvTake { id: *id }),
            Kind::Rec { .. } => g.emit(0, Act::RecTake { id: *id }),
            _ => {}
        }
    }
    g.emit(0, Act::Sleep { ms: 3000 });
    g.emit(0, Act::Mark);
    // the same cycle again and again
    let ops: Vec<Op> = g.plan.ops[ops0..].to_vec();
    let calls: Vec<Call> = g.plan.calls[calls0..].to_vec();
    let (frames, turns, fresh) = (g.eng[0].pos - pos0, g.g - g0, g.next_id - ids0);
    for c in 1..n {
        let id = |i: u32| if i >= ids0 { i + c as u32 * fresh } else { i };
        let dt = (c as i64 * frames as i64) as f64;
        for o in &ops {
            let mut o = o.clone();
            o.g += c as u32 * turns;
            o.act = o.act.moved(dt, &id);
            g.plan.ops.push(o);
        }
        g.plan.calls.extend(calls.iter().cloned());
    }
    let more = (n - 1) as u32;
    g.g += more * turns;
    g.eng[0].pos += more as i64 * frames;
    g.next_id += more * fresh;
    for p in g.par.values_mut() {
        p.busy += (more as i64 * frames) as f64;
    }
    for _ in 0..3 {
        g.call(0, 7);
        g.called(0);
    }
    // what remains behaves like new
    for id in &keep {
        g.event_on(0, *id);
    }
    for _ in 0..4 {
        let f = 20 + g.r.usize(100);
        g.call(0, f);
        g.called(0);
    }
    g.epilogue();
    g.plan.sched.starve.clear();
    g.plan.leak_check = leak;
    g.plan
}

/// Did the run contain what its property is about?
pub fn trigger(p: &Plan, c: &BTreeMap<String, u64>, racing: u64, nonzero: u64) -> bool {
    let has = |k: &str| c.get(k).copied().unwrap_or(0) > 0;
    let ops = |f: &dyn Fn(&Act) -> bool| p.ops.iter().filter(|o| f(&o.act)).count();
    let during = p.ops.iter().any(|o| o.during);
    let audible = nonzero > 0;
    match p.property.as_str() {
        "C01" => audible && ops(&|a| matches!(a, Act::Conn { .. } | Act::ConnCh { .. })) >= 3,
        "C02" => audible && has("connected nodes dropped"),
        "C03" => has("clock reads") && has("callbacks while stopped"),
        "C04" => audible && p.calls.iter().any(|c| c.frames != p.calls[0].frames),
        "C05" => audible && (racing > 0 || p.profile == "burst"),
        "C06" => has("parameter changes applied") && (has("ramps") || has("parameter reads")),
        "C07" => !p.sched.starve.is_empty() || p.profile != "stalls",
        "C08" => p.ops.len() > 10 && (p.profile != "audio-away" || p.engines[0].lost_at.is_some() || has("callbacks while stopped") || !p.sched.starve.is_empty()),
        "C09" => has("recorded frames checked"),
        "C10" => has("envelope reports checked"),
        "C11" => audible && has("sampler starts"),
        "C12" => audible && ops(&|a| matches!(a, Act::Note { on: true, .. })) > 0,
        "C13" => audible && ops(&|a| matches!(a, Act::Level { .. })) > 1,
        "C14" => has("nodes freed") && ops(&|a| matches!(a, Act::Drop { .. })) > 0,
        "C15" => audible && p.engines.len() > 1,
        "C16" => p.calls.iter().any(|c| c.in_ch != p.engines[0].max_ch || c.out_ch != p.engines[0].max_ch),
        "C17" => audible && has("parameter changes applied"),
        "C18" => audible && (p.world.id_offset > 0 || during),
        "C19" => has("changes cancelled") || ops(&|a| matches!(a, Act::Samp { ev: SEv::CancelAll, .. })) > 0,
        "C20" => has("memory marks") || p.profile != "cycles",
        "C21" => p.calls.iter().any(|c| c.frames > 0),
        _ => audible,
    }
}

/// Faults and disturbances a plan contains.
pub fn faults(p: &Plan, c: &mut BTreeMap<String, u64>) {
    let mut add = |k: &str, n: usize| {
        if n > 0 {
            *c.entry(format!("fault: {k}")).or_default() += n as u64;
        }
    };
    for s in &p.sched.starve {
        add(
            match s.role {
                1 => "control thread stalled",
                2 => "audio thread stalled",
                _ => "collector thread stalled",
            },
            1,
        );
    }
    add("audio device lost", p.engines.iter().filter(|e| e.lost_at.is_some()).count());
    add("calls racing with a callback", p.ops.iter().filter(|o| o.during).count());
    add("callbacks of zero frames", p.calls.iter().filter(|c| c.frames == 0).count());
    add("callbacks of one frame", p.calls.iter().filter(|c| c.frames == 1).count());
    add(
        "callbacks above the maximum block",
        p.calls.iter().filter(|c| c.frames > p.engines[c.e].max_frames).count(),
    );
    add(
        "host channel counts unlike the engine's",
        p.calls
            .iter()
            .filter(|c| c.in_ch != p.engines[c.e].max_ch || c.out_ch != p.engines[c.e].max_ch)
            .count(),
    );
    add("callbacks into windows of larger buffers", p.calls.iter().filter(|c| c.buf == 2).count());
    add("device clock jumps", p.calls.iter().filter(|c| c.adv >= 900_000_000).count());
    add("stop or restart", p.ops.iter().filter(|o| matches!(o.act, Act::Start | Act::Stop)).count());
    add("nodes dropped", p.ops.iter().filter(|o| matches!(o.act, Act::Drop { .. })).count());
    add("context dropped early", p.ops.iter().filter(|o| matches!(o.act, Act::DropCtx)).count());
    add("misaligned buffers", p.world.jitter.is_some() as usize);
    add(
        "process-wide counters about to come round",
        p.ops.iter().filter(|o| matches!(o.act, Act::History { .. })).count(),
    );
    add("node identifiers offset", (p.world.id_offset > 0) as usize);
    add("teardown with control and audio racing", (p.teardown % 3 == 2 && !p.offline) as usize);
    add("teardown with control first", (p.teardown % 3 == 1) as usize);
    // longest run of operations in front of one callback
    let mut per: BTreeMap<u32, usize> = BTreeMap::new();
    for o in &p.ops {
        *per.entry(o.g).or_default() += 1;
    }
    add("command bursts of 50 and more", per.values().filter(|n| **n >= 50).count());
}
