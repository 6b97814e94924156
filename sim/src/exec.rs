//! Executes one plan against the real code: control threads, audio threads and
//! whatever threads the engine spawns, all under the simulator's scheduler.

use crate::host;
use crate::plan::*;
use rawdio::*;
use simrt::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::time::Duration;

pub const CALL_LABEL: u32 = 0x4000_0000;

#[derive(Clone, Debug)]
pub enum Res {
    Param(f64),
    Time(f64),
    Rec(Option<(usize, Vec<Vec<f32>>)>),
    Flag(bool),
    Env(Vec<(usize, f32)>),
    Mark {
        now: u64,
        live: i64,
        /// Nodes that still own audio-side memory.
        owned: Vec<u32>,
    },
}

#[derive(Clone, Debug, Default)]
pub struct OpRec {
    pub done: bool,
    /// Own engine's callbacks begun / completed when the call began and returned.
    pub b0: usize,
    pub d0: usize,
    pub b1: usize,
    pub d1: usize,
    /// Accesses the engine had made to its host buffers when the call returned.
    pub accesses: u64,
    pub res: Option<Res>,
    /// Last callback that received a message of this call.
    pub receipt: Option<u32>,
}

#[derive(Clone, Debug, Default)]
pub struct CallRec {
    pub done: bool,
    pub end_ns: u64,
    /// Accesses the engine had made to its host buffers when the callback returned.
    pub accesses: u64,
    pub out: Vec<Vec<f32>>,
}

#[derive(Default)]
pub struct EngRec {
    pub begun: usize,
    pub done: usize,
    /// Calls this engine really gets, in order.
    pub own: Vec<u32>,
    pub in_frame: u64,
}

pub struct World {
    pub plan: Plan,
    pub valid: Vec<bool>,
    pub ops: Vec<OpRec>,
    pub calls: Vec<CallRec>,
    pub eng: Vec<EngRec>,
    procs: Vec<Option<Box<dyn AudioProcess + Send>>>,
    engines_ready: usize,
    control_left: usize,
    audio_left: usize,
    pub receipts: u64,
}

static mut WORLD: *mut World = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}

/// Before the same run is made again.
pub fn forget() {
    unsafe {
        drop(Box::from_raw(WORLD));
        WORLD = std::ptr::null_mut();
        PRINT = 0;
    }
    crate::host::forget();
}

static mut PRINT: u64 = 0;
/// Rolling hash of the order of calls, callbacks and message receptions.
fn note(kind: u64, a: u64, b: u64) {
    unsafe {
        PRINT = simrt::rng::mix(PRINT, kind << 60 ^ a << 30 ^ b);
    }
}
pub fn fingerprint() -> u64 {
    unsafe { PRINT }
}
/// What the current thread is doing, for reports.
pub fn place() -> String {
    let l = label();
    if unsafe { WORLD.is_null() } || l == u32::MAX {
        return match my_role() {
            Some(Role::Background) => "in a background thread: ".into(),
            _ => String::new(),
        };
    }
    if l >= CALL_LABEL {
        format!("in callback {}: ", l - CALL_LABEL)
    } else {
        match w().plan.ops.get(l as usize) {
            Some(o) => format!("in control call {l} {:?}: ", o.act),
            None => String::new(),
        }
    }
}

fn gate(mut f: impl FnMut() -> bool) {
    while !f() {
        block(Key::Gate(0), u64::MAX);
    }
}
fn signal() {
    wake(Key::Gate(0));
}

enum Obj {
    Gain(Gain),
    Pan(Pan),
    Osc(Oscillator),
    Biquad(Biquad),
    Comp(Compressor),
    Shape(Waveshaper),
    Conv(Convolution),
    Mixer(Mixer),
    Adsr(Adsr),
    Env(Rc<RefCell<Envelope>>),
    Rec(Rc<RefCell<Recorder>>),
    Samp(Sampler),
}

impl Obj {
    fn with<R>(&self, f: impl FnOnce(&GraphNode) -> R) -> R {
        match self {
            Obj::Gain(n) => f(&n.node),
            Obj::Pan(n) => f(&n.node),
            Obj::Osc(n) => f(&n.node),
            Obj::Biquad(n) => f(&n.node),
            Obj::Comp(n) => f(&n.node),
            Obj::Shape(n) => f(&n.node),
            Obj::Conv(n) => f(&n.node),
            Obj::Mixer(n) => f(&n.node),
            Obj::Adsr(n) => f(&n.node),
            Obj::Env(n) => f(&n.borrow().node),
            Obj::Rec(n) => f(&n.borrow().node),
            Obj::Samp(n) => f(&n.node),
        }
    }
    fn param(&mut self, ix: usize) -> &mut AudioParameter {
        match self {
            Obj::Gain(n) => n.gain(),
            Obj::Pan(n) => n.pan(),
            Obj::Osc(n) => match ix {
                0 => n.frequency(),
                _ => n.gain(),
            },
            Obj::Biquad(n) => match ix {
                0 => n.frequency(),
                1 => n.q(),
                2 => n.shelf_gain(),
                _ => n.gain(),
            },
            Obj::Comp(n) => match ix {
                0 => n.attack(),
                1 => n.release(),
                2 => n.ratio(),
                3 => n.threshold(),
                4 => n.knee(),
                5 => n.wet(),
                _ => n.dry(),
            },
            Obj::Shape(n) => match ix {
                0 => n.overdrive(),
                _ => n.mix(),
            },
            Obj::Conv(n) => match ix {
                0 => n.wet(),
                _ => n.dry(),
            },
            _ => unreachable!(),
        }
    }
}

pub fn ms(v: f64) -> Duration {
    Duration::from_secs_f64(v / 1000.0)
}

fn create(ctx: &mut Box<dyn Context>, kind: &Kind, sr: usize) -> Obj {
    match kind {
        Kind::Gain { ch } => Obj::Gain(Gain::new(ctx.as_ref(), *ch)),
        Kind::Pan => Obj::Pan(Pan::new(ctx.as_ref(), 2)),
        Kind::Osc { freq, out, table, seed } => Obj::Osc(match table {
            0 => Oscillator::sine(ctx.as_ref(), *freq, *out),
            1 => {
                let l: Vec<Level> = crate::model::harmonics(*seed)
                    .iter()
                    .map(|x| Level::from_linear(*x))
                    .collect();
                Oscillator::with_harmonics(ctx.as_ref(), *freq, *out, &l)
            }
            t => Oscillator::new(ctx.as_ref(), *freq, *out, wavetable(*t, *seed)),
        }),
        Kind::Biquad { ch, ty } => Obj::Biquad(Biquad::new(
            ctx.as_ref(),
            *ch,
            match ty {
                0 => BiquadFilterType::HighPass,
                1 => BiquadFilterType::LowPass,
                2 => BiquadFilterType::BandPass,
                3 => BiquadFilterType::Notch,
                4 => BiquadFilterType::HighShelf,
                _ => BiquadFilterType::LowShelf,
            },
        )),
        Kind::Comp { ch } => Obj::Comp(Compressor::new(ctx.as_ref(), *ch)),
        Kind::Shape { ch, ty, thr } => Obj::Shape(match ty {
            0 => Waveshaper::tanh(ctx.as_ref(), *ch),
            1 => Waveshaper::soft_saturator(ctx.as_ref(), *ch, Level::from_db(*thr)),
            2 => Waveshaper::hard_clip(ctx.as_ref(), *ch, Level::from_db(*thr)),
            _ => Waveshaper::new(ctx.as_ref(), *ch, &crate::model::shaper(3, 0.0)),
        }),
        Kind::Conv { ch, len, seed } => Obj::Conv(Convolution::new(
            ctx.as_ref(),
            *ch,
            owned(&impulse_table(*seed, *ch, *len), sr),
        )),
        Kind::Mixer { i, o, preset } => Obj::Mixer(match preset {
            1 => Mixer::unity(ctx.as_ref(), *i),
            2 => Mixer::mono_to_stereo_splitter(ctx.as_ref()),
            _ => Mixer::new(ctx.as_ref(), *i, *o),
        }),
        Kind::Adsr { ch } => Obj::Adsr(Adsr::new(ctx.as_ref(), *ch, sr)),
        Kind::Env { ch, att, rel, freq } => {
            Obj::Env(Envelope::new(ctx.as_mut(), *ch, ms(*att), ms(*rel), *freq))
        }
        Kind::Rec { ch } => Obj::Rec(Recorder::new(ctx.as_mut(), *ch, sr)),
        Kind::Samp { ch, len, seed, cap } => {
            let b = owned(&noise_table(*seed, *ch, *len, 0.8), sr);
            Obj::Samp(if *cap == 32 {
                Sampler::new(ctx.as_ref(), b)
            } else {
                Sampler::new_with_event_capacity(ctx.as_ref(), b, *cap)
            })
        }
    }
}

pub fn owned(t: &[Vec<f32>], sr: usize) -> OwnedAudioBuffer {
    let n = t.first().map_or(0, |x| x.len());
    let mut b = OwnedAudioBuffer::new(n, t.len(), sr);
    for (c, x) in t.iter().enumerate() {
        b.fill_from_slice(x, SampleLocation::channel(c));
    }
    b
}

/// One call into the public control API.
fn api<R>(tag: u32, f: impl FnOnce() -> R) -> R {
    set_tag(tag);
    set_mode(Mode::ControlOp);
    let r = f();
    set_mode(Mode::Free);
    set_tag(0);
    r
}

struct Control {
    ctx: BTreeMap<usize, Option<Box<dyn Context>>>,
    nodes: BTreeMap<u32, (usize, Obj)>,
}

fn make_engine(c: &EngCfg) -> (Box<dyn Context>, Box<dyn AudioProcess + Send>) {
    create_engine_with_options(
        EngineOptions::default()
            .with_sample_rate(c.sr)
            .with_maximum_channel_count(c.max_ch)
            .with_maximum_frame_count(c.max_frames),
    )
}

impl Control {
    fn new(t: Option<usize>) -> Self {
        let p = &w().plan;
        let mut s = Self {
            ctx: BTreeMap::new(),
            nodes: BTreeMap::new(),
        };
        if t.map_or(true, |t| t == 0) && p.world.id_offset > 0 {
            api(1, || {
                let (ctx, process) = make_engine(&p.engines[0]);
                for _ in 0..p.world.id_offset {
                    let _ = Gain::new(ctx.as_ref(), 1);
                }
                drop(process);
                drop(ctx);
            });
        }
        for (e, c) in p.engines.iter().enumerate() {
            if t.map_or(true, |t| t == c.ct) {
                let (ctx, process) = api(1, || make_engine(c));
                w().procs[e] = Some(process);
                w().engines_ready += 1;
                s.ctx.insert(e, Some(ctx));
                signal();
            }
        }
        s
    }

    fn op(&mut self, i: usize) {
        let p = &w().plan;
        let op = &p.ops[i];
        {
            let e = &w().eng[op.e];
            let r = &mut w().ops[i];
            r.b0 = e.begun;
            r.d0 = e.done;
        }
        note(1, i as u64, w().eng[op.e].begun as u64);
        set_label(i as u32);
        let mut res = None;
        for _ in 0..if w().valid[i] { op.times } else { 0 } {
            res = self.act(op);
        }
        set_label(u32::MAX);
        note(2, i as u64, w().eng[op.e].begun as u64);
        let e = &w().eng[op.e];
        let r = &mut w().ops[i];
        r.b1 = e.begun;
        r.d1 = e.done;
        r.accesses = host::accesses(op.e);
        r.res = res;
        r.done = true;
        signal();
        yield_point(Y_OP);
    }

    fn act(&mut self, op: &Op) -> Option<Res> {
        let p = &w().plan;
        let sr = p.engines[op.e].sr;
        let at = |t: f64| Timestamp::from_samples(t, sr);
        let nodes = &mut self.nodes;
        let ctx = self.ctx.get_mut(&op.e);
        match &op.act {
            Act::Start => api(1, || ctx.unwrap().as_mut().unwrap().start()),
            Act::Stop => api(1, || ctx.unwrap().as_mut().unwrap().stop()),
            Act::Create { id, kind } => {
                let o = api(simrt::alloc::NODE_TAG + *id, || {
                    create(ctx.unwrap().as_mut().unwrap(), kind, sr)
                });
                nodes.insert(*id, (op.e, o));
            }
            Act::Drop { id } => {
                let (_, o) = nodes.remove(id).unwrap();
                api(1, || drop(o));
            }
            Act::Churn { id, to } => {
                let n = api(simrt::alloc::NODE_TAG + *id, || {
                    create(ctx.unwrap().as_mut().unwrap(), &Kind::Gain { ch: 1 }, sr)
                });
                if let Some(d) = to {
                    let d = &nodes[d].1;
                    api(1, || n.with(|a| d.with(|b| a.connect_channels_to(b, 0, 0, 1))));
                }
                api(1, || drop(n));
            }
            Act::Conn { s, d } => {
                let (a, b) = (&nodes[s].1, &nodes[d].1);
                api(1, || a.with(|a| b.with(|b| a.connect_to(b))));
            }
            Act::ConnCh { s, d, sc, dc, n } => {
                let (a, b) = (&nodes[s].1, &nodes[d].1);
                api(1, || {
                    a.with(|a| b.with(|b| a.connect_channels_to(b, *sc, *dc, *n)))
                });
            }
            Act::Disc { s, d } => {
                let (a, b) = (&nodes[s].1, &nodes[d].1);
                if s == d {
                    api(1, || a.with(|a| a.disconnect_from_node(a)));
                } else {
                    api(1, || a.with(|a| b.with(|b| a.disconnect_from_node(b))));
                }
            }
            Act::Chain { ids, input, output } => {
                fn link<R>(nodes: &BTreeMap<u32, (usize, Obj)>, ids: &[u32], so_far: &mut Vec<*const GraphNode>, f: &mut dyn FnMut(&[*const GraphNode]) -> R) -> R {
                    match ids.split_first() {
                        None => f(so_far),
                        Some((id, rest)) => nodes[id].1.with(|n| {
                            so_far.push(n);
                            link(nodes, rest, so_far, f)
                        }),
                    }
                }
                struct Of<'a> {
                    node: &'a GraphNode,
                }
                link(nodes, ids, &mut vec![], &mut |n| {
                    // The nodes are borrowed until this returns.
                    let n: Vec<Of> = n.iter().map(|n| Of { node: unsafe { &**n } }).collect();
                    let n = &n[..];
                    api(1, || match (n, input, output) {
                        ([a], true, _) => {
                            connect_nodes!("input" => a);
                        }
                        ([a], _, _) => {
                            connect_nodes!(a => "output");
                        }
                        ([a, b], true, true) => {
                            connect_nodes!("input" => a => b => "output");
                        }
                        ([a, b], true, false) => {
                            connect_nodes!("input" => a => b);
                        }
                        ([a, b], false, true) => {
                            connect_nodes!(a => b => "output");
                        }
                        ([a, b], false, false) => {
                            connect_nodes!(a => b);
                        }
                        ([a, b, c], true, true) => {
                            connect_nodes!("input" => a => b => c => "output");
                        }
                        ([a, b, c], true, false) => {
                            connect_nodes!("input" => a => b => c);
                        }
                        ([a, b, c], false, true) => {
                            connect_nodes!(a => b => c => "output");
                        }
                        ([a, b, c], false, false) => {
                            connect_nodes!(a => b => c);
                        }
                        ([a, b, c, d], true, true) => {
                            connect_nodes!("input" => a => b => c => d => "output");
                        }
                        ([a, b, c, d], true, false) => {
                            connect_nodes!("input" => a => b => c => d);
                        }
                        ([a, b, c, d], false, true) => {
                            connect_nodes!(a => b => c => d => "output");
                        }
                        ([a, b, c, d], false, false) => {
                            connect_nodes!(a => b => c => d);
                        }
                        _ => unreachable!(),
                    });
                });
            }
            Act::ConnIn { id } => api(1, || nodes[id].1.with(|n| n.connect_to_input())),
            Act::ConnOut { id } => api(1, || nodes[id].1.with(|n| n.connect_to_output())),
            Act::Param { id, p: ix, set } => {
                let o = &mut nodes.get_mut(id).unwrap().1;
                api(1, || {
                    let q = o.param(*ix);
                    match *set {
                        PSet::Now(v) => q.set_value_now(v),
                        PSet::At(v, t) => q.set_value_at_time(v, at(t)),
                        PSet::Lin(v, a, b) => q.linear_ramp_to_value(v, at(a), at(b)),
                        PSet::Exp(v, a, b) => q.exponential_ramp_to_value(v, at(a), at(b)),
                        PSet::Cancel => q.cancel_scheduled_changes(),
                        PSet::CancelAfter(t) => q.cancel_scheduled_changes_ending_after(at(t)),
                    }
                });
            }
            Act::ReadParam { id, p: ix } => {
                let o = &mut nodes.get_mut(id).unwrap().1;
                let v = api(1, || o.param(*ix).get_value().load(Ordering::Acquire));
                return Some(Res::Param(v));
            }
            Act::ReadTime => {
                let t = api(1, || ctx.unwrap().as_ref().unwrap().current_time());
                return Some(Res::Time(t.as_seconds()));
            }
            Act::Level { id, i, o, v } => {
                if let Obj::Mixer(m) = &mut nodes.get_mut(id).unwrap().1 {
                    api(1, || m.set_level(*i, *o, Level::from_linear(*v)));
                }
            }
            Act::Note { id, on, t } => {
                if let Obj::Adsr(a) = &mut nodes.get_mut(id).unwrap().1 {
                    api(1, || {
                        if *on {
                            a.note_on_at_time(at(*t))
                        } else {
                            a.note_off_at_time(at(*t))
                        }
                    });
                }
            }
            Act::AdsrTime { id, which, ms: m } => {
                if let Obj::Adsr(a) = &mut nodes.get_mut(id).unwrap().1 {
                    api(1, || match which {
                        0 => a.set_attack_time(ms(*m)),
                        1 => a.set_decay_time(ms(*m)),
                        _ => a.set_release_time(ms(*m)),
                    });
                }
            }
            Act::AdsrSustain { id, db } => {
                if let Obj::Adsr(a) = &mut nodes.get_mut(id).unwrap().1 {
                    api(1, || a.set_sustain_level(Level::from_db(*db)));
                }
            }
            Act::AdsrAll { id, a: at_, d, s, r } => {
                if let Obj::Adsr(a) = &mut nodes.get_mut(id).unwrap().1 {
                    api(1, || a.set_adsr(ms(*at_), ms(*d), Level::from_db(*s), ms(*r)));
                }
            }
            Act::Samp { id, ev } => {
                if let Obj::Samp(s) = &mut nodes.get_mut(id).unwrap().1 {
                    api(1, || match *ev {
                        SEv::StartNow => s.start_now(),
                        SEv::StopNow => s.stop_now(),
                        SEv::Start(t, pos) => s.start_from_position_at_time(at(t), at(pos)),
                        SEv::Stop(t) => s.stop_at_time(at(t)),
                        SEv::Loop(a, b) => s.enable_loop(at(a), at(b)),
                        SEv::LoopAt(t, a, b) => s.enable_loop_at_time(at(t), at(a), at(b)),
                        SEv::CancelLoop => s.cancel_loop(),
                        SEv::CancelLoopAt(t) => s.cancel_loop_at_time(at(t)),
                        SEv::CancelAll => s.cancel_all(),
                    });
                }
            }
            Act::RecStart { id } | Act::RecStop { id } | Act::RecStopAt { id, .. } => {
                if let Obj::Rec(r) = &nodes[id].1 {
                    api(1, || match op.act {
                        Act::RecStart { .. } => r.borrow_mut().record_now(),
                        Act::RecStop { .. } => r.borrow_mut().stop_record_now(),
                        Act::RecStopAt { t, .. } => r.borrow_mut().stop_record_at_time(at(t)),
                        _ => {}
                    });
                }
            }
            Act::RecTake { id } => {
                if let Obj::Rec(r) = &nodes[id].1 {
                    let b = api(1, || r.borrow_mut().take_recording());
                    let v = b.as_ref().map(|b| {
                        (
                            b.sample_rate(),
                            (0..b.channel_count())
                                .map(|c| b.get_channel_data(SampleLocation::channel(c)).to_vec())
                                .collect(),
                        )
                    });
                    api(1, || drop(b));
                    return Some(Res::Rec(v));
                }
            }
            Act::RecFlag { id } => {
                if let Obj::Rec(r) = &nodes[id].1 {
                    return Some(Res::Flag(api(1, || r.borrow().is_recording())));
                }
            }
            Act::EnvTake { id } => {
                if let Obj::Env(r) = &nodes[id].1 {
                    let n = api(1, || r.borrow_mut().take_notifications());
                    let v = n.iter().map(|n| (n.channel_index(), n.peak_level())).collect();
                    api(1, || drop(n));
                    return Some(Res::Env(v));
                }
            }
            Act::Notif => api(1, || ctx.unwrap().as_mut().unwrap().process_notifications()),
            Act::DropCtx => {
                let c = ctx.unwrap().take();
                api(1, || drop(c));
            }
            Act::Sleep { ms } => sleep_ns(ms * 1_000_000),
            Act::History { nodes, adsr, samp, rec } => api(1, || {
                let mut c = p.engines[op.e].clone();
                c.max_frames = 1;
                let (mut ctx, process) = make_engine(&c);
                for _ in 0..*nodes {
                    let _ = Gain::new(ctx.as_ref(), 1);
                }
                if *adsr > 0 {
                    let mut a = Adsr::new(ctx.as_ref(), 1, sr);
                    for _ in 0..*adsr {
                        a.note_off_at_time(Timestamp::zero());
                    }
                }
                if *samp > 0 {
                    let one = OwnedAudioBuffer::new(1, 1, sr);
                    let mut a = Sampler::new_with_event_capacity(ctx.as_ref(), one, *samp as usize + 1);
                    for _ in 0..*samp {
                        a.stop_now();
                    }
                }
                if *rec > 0 {
                    let a = Recorder::new(ctx.as_mut(), 1, sr);
                    for _ in 0..*rec {
                        a.borrow_mut().stop_record_now();
                    }
                }
                drop(process);
            }),
            Act::Mark => {
                return Some(Res::Mark {
                    now: now_ns(),
                    live: unsafe { simrt::alloc::LIVE_BYTES },
                    owned: owned_tags(),
                })
            }
        }
        None
    }

    fn teardown(self, order: u8) {
        let drop_nodes = |nodes: BTreeMap<u32, (usize, Obj)>, rev: bool| {
            let mut v: Vec<_> = nodes.into_values().collect();
            if rev {
                v.reverse();
            }
            for (_, o) in v {
                api(1, || drop(o));
                yield_point(Y_OP);
            }
        };
        let drop_ctx = |ctx: BTreeMap<usize, Option<Box<dyn Context>>>| {
            for c in ctx.into_values() {
                api(1, || drop(c));
                yield_point(Y_OP);
            }
        };
        match order {
            0 => {
                drop_nodes(self.nodes, false);
                drop_ctx(self.ctx);
            }
            1 => {
                drop_ctx(self.ctx);
                drop_nodes(self.nodes, false);
            }
            _ => {
                drop_nodes(self.nodes, true);
                drop_ctx(self.ctx);
            }
        }
    }
}

pub fn owned_tags() -> Vec<u32> {
    unsafe {
        (simrt::alloc::NODE_TAG as usize..simrt::alloc::MAX_TAGS)
            .filter(|t| simrt::alloc::TAG_LIVE[*t] > 0)
            .map(|t| t as u32 - simrt::alloc::NODE_TAG)
            .collect()
    }
}

fn engine_left(e: usize, below: u32) -> bool {
    // all own calls before `below` completed?
    let en = &w().eng[e];
    en.done >= en.own.partition_point(|c| *c < below)
}

fn control_main(t: usize) {
    let mut c = Control::new(Some(t));
    let n = w().plan.ops.len();
    for i in 0..n {
        let (e, g, during) = {
            let op = &w().plan.ops[i];
            (op.e, op.g, op.during)
        };
        if e >= w().plan.engines.len() || w().plan.engines[e].ct != t {
            continue;
        }
        if during {
            gate(|| {
                let en = &w().eng[e];
                en.begun >= en.own.partition_point(|c| *c <= g)
            });
        } else {
            gate(|| engine_left(e, g));
        }
        c.op(i);
    }
    let td = w().plan.teardown;
    if td % 3 == 0 {
        gate(|| w().audio_left == 0);
    } else {
        gate(|| w().eng.iter().all(|e| e.done == e.own.len()));
    }
    c.teardown(td / 3);
    w().control_left -= 1;
    signal();
}

fn audio_main(t: usize) {
    let n_eng = w().plan.engines.iter().filter(|e| e.at == t).count();
    gate(|| {
        w().plan
            .engines
            .iter()
            .enumerate()
            .all(|(i, e)| e.at != t || w().procs[i].is_some())
    });
    let mut procs: BTreeMap<usize, Box<dyn AudioProcess + Send>> = BTreeMap::new();
    for (i, e) in w().plan.engines.iter().enumerate() {
        if e.at == t {
            procs.insert(i, w().procs[i].take().unwrap());
        }
    }
    let _ = n_eng;
    for g in 0..w().plan.calls.len() {
        let e = w().plan.calls[g].e;
        if w().plan.engines[e].at != t {
            continue;
        }
        if w().plan.engines[e].lost_at.map_or(false, |l| g as u32 >= l) {
            if let Some(p) = procs.remove(&e) {
                api(1, || drop(p));
                yield_point(Y_CALL);
            }
            continue;
        }
        gate(|| {
            let w = w();
            w.plan
                .ops
                .iter()
                .zip(w.ops.iter())
                .all(|(o, r)| r.done || o.e != e || o.during || o.g as usize > g)
        });
        do_call(g, &mut procs);
        yield_point(Y_CALL);
    }
    let td = w().plan.teardown;
    if td % 3 == 1 {
        gate(|| w().control_left == 0);
    }
    for (_, p) in procs {
        api(1, || drop(p));
        yield_point(Y_CALL);
    }
    w().audio_left -= 1;
    signal();
}

fn do_call(g: usize, procs: &mut BTreeMap<usize, Box<dyn AudioProcess + Send>>) {
    let c = w().plan.calls[g].clone();
    let cfg = w().plan.engines[c.e].clone();
    let inter = w().plan.interleaved;
    let first = w().eng[c.e].in_frame;
    let input: Vec<Vec<f32>> = (0..c.in_ch)
        .map(|ch| {
            (0..c.frames)
                .map(|f| input_sample(cfg.input, cfg.input_seed, cfg.amp, ch, first + f as u64))
                .collect()
        })
        .collect();
    let p = procs.get_mut(&c.e).unwrap();
    let mut begun = false;
    let out = host::callback(&c, cfg.sr, inter, g as u64, &input, &mut |i, o| {
        if !begun {
            begun = true;
            w().eng[c.e].begun += 1;
            signal();
        }
        note(3, g as u64, 0);
        set_epoch(g as u32);
        set_label(CALL_LABEL + g as u32);
        set_tag(1);
        set_mode(Mode::Callback);
        host::count_accesses_for(c.e);
        p.process(i, o);
        host::count_accesses_for(usize::MAX);
        set_mode(Mode::Free);
        w().calls[g].accesses = host::accesses(c.e);
        set_tag(0);
        set_label(u32::MAX);
    });
    note(4, g as u64, 0);
    w().eng[c.e].in_frame += c.frames as u64;
    advance(c.adv);
    let r = &mut w().calls[g];
    r.done = true;
    r.out = out;
    r.end_ns = now_ns();
    w().eng[c.e].done += 1;
    signal();
}

/// Control and audio on one thread.
fn offline_main() {
    let mut c = Control::new(None);
    let mut procs: BTreeMap<usize, Box<dyn AudioProcess + Send>> = BTreeMap::new();
    for i in 0..w().plan.engines.len() {
        procs.insert(i, w().procs[i].take().unwrap());
    }
    let nops = w().plan.ops.len();
    let mut next = 0;
    for g in 0..=w().plan.calls.len() {
        while next < nops {
            let o = &w().plan.ops[next];
            if o.g as usize > g || (o.during && o.g as usize == g && g < w().plan.calls.len()) {
                break;
            }
            c.op(next);
            next += 1;
        }
        if g == w().plan.calls.len() {
            break;
        }
        let e = w().plan.calls[g].e;
        if w().plan.engines[e].lost_at.map_or(false, |l| g as u32 >= l) {
            if let Some(p) = procs.remove(&e) {
                api(1, || drop(p));
            }
            continue;
        }
        do_call(g, &mut procs);
        yield_point(Y_CALL);
    }
    while next < nops {
        c.op(next);
        next += 1;
    }
    let td = w().plan.teardown;
    if td % 3 == 0 {
        for (_, p) in procs {
            api(1, || drop(p));
        }
        c.teardown(td / 3);
    } else {
        c.teardown(td / 3);
        for (_, p) in procs {
            api(1, || drop(p));
        }
    }
}

fn on_recv(_chan: u64, from: u32, to: u32) {
    if to >= CALL_LABEL && to != u32::MAX && from < CALL_LABEL {
        let c = to - CALL_LABEL;
        if let Some(r) = w().ops.get_mut(from as usize) {
            r.receipt = Some(r.receipt.map_or(c, |x| x.max(c)));
            w().receipts += 1;
            note(5, from as u64, c as u64);
        }
    }
}

/// What the driver saw after everything was torn down.
pub struct EndState {
    pub background_left: usize,
    pub owned: Vec<u32>,
}

/// Runs the plan; the calling thread becomes the driver. Returns when all
/// simulated threads have ended (or the background ones had ample time to).
pub fn run(plan: Plan, replay: Option<Vec<(u64, u8)>>, fatal: fn(&str, &str)) -> EndState {
    let valid = validity(&plan);
    let own = |e: usize| -> Vec<u32> {
        plan.calls
            .iter()
            .enumerate()
            .filter(|(i, c)| {
                c.e == e && plan.engines[e].lost_at.map_or(true, |l| (*i as u32) < l)
            })
            .map(|(i, _)| i as u32)
            .collect()
    };
    let eng: Vec<EngRec> = (0..plan.engines.len())
        .map(|e| EngRec {
            own: own(e),
            ..Default::default()
        })
        .collect();
    let ct = 1 + plan.engines.iter().map(|e| e.ct).max().unwrap_or(0);
    let at = 1 + plan.engines.iter().map(|e| e.at).max().unwrap_or(0);
    let world = Box::new(World {
        ops: vec![OpRec::default(); plan.ops.len()],
        calls: vec![CallRec::default(); plan.calls.len()],
        procs: plan.engines.iter().map(|_| None).collect(),
        engines_ready: 0,
        control_left: ct,
        audio_left: at,
        receipts: 0,
        valid,
        eng,
        plan,
    });
    let p = unsafe {
        WORLD = Box::into_raw(world);
        crossbeam::channel::ON_RECV = Some(on_recv);
        &(*WORLD).plan
    };
    let cfg = SchedCfg {
        seed: p.sched.seed,
        mode: p.sched.mode,
        p_switch: p.sched.p_switch,
        bb_mean: p.sched.bb_mean,
        atomic_mean: p.sched.atomic_mean,
        pct_depth: p.sched.pct_depth,
        starve: p
            .sched
            .starve
            .iter()
            .map(|s| Starve {
                role: match s.role {
                    1 => Role::Control,
                    2 => Role::Audio,
                    _ => Role::Background,
                },
                from: s.from,
                to: s.to,
            })
            .collect(),
        replay,
        hash_seed: p.world.hash_seed,
        pipe: p.world.pipe,
        clock_step: p.world.clock_step,
        callback_budget: 60_000_000,
        total_budget: 1_500_000_000,
    };
    begin(cfg, fatal);
    let mut hs = vec![];
    if p.offline {
        spawn_role(Role::Audio);
        hs.push(std::thread::spawn(offline_main));
    } else {
        for t in 0..ct {
            spawn_role(Role::Control);
            hs.push(std::thread::spawn(move || control_main(t)));
        }
        for t in 0..at {
            spawn_role(Role::Audio);
            hs.push(std::thread::spawn(move || audio_main(t)));
        }
    }
    for h in hs {
        let _ = h.join();
    }
    // The background threads get ample time to finish.
    // (longer when everything they print has to wait for a slow reader)
    // (or is delayed at every look at the clock)
    let pipe = w().plan.world.pipe.map_or(0, |(_, how)| how);
    let delay = pipe + 3 * w().plan.world.clock_step;
    let writes: u64 = w().plan.ops.iter().map(|o| 8 * o.times.max(1) as u64).sum();
    let deadline = now_ns() + 30_000_000_000 + delay * (100 + writes);
    while alive(Role::Background) > 0 && now_ns() < deadline {
        sleep_ns(500_000_000.max(delay));
    }
    let end = EndState {
        background_left: alive(Role::Background),
        owned: owned_tags(),
    };
    simrt::end();
    end
}
