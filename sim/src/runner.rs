//! Runs plans in forked children: every run starts from the same pristine
//! process image, so nothing but its plan can influence it.

use crate::check::{self, Info, Viol};
use crate::exec;
use crate::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    /// 1: held, 2: violation, 3: harness error, 4: inconclusive
    pub status: u8,
    pub viol: Option<Viol>,
    pub schedule: Vec<(u64, u8)>,
    pub ticks: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub by_kind: Vec<u64>,
    pub starve_hits: u64,
    pub sim_ns: u64,
    pub sleeps: u64,
    pub blocks: u64,
    /// Order of calls, callbacks and message receptions.
    pub interleaving: u64,
    /// Everything observable, bit for bit.
    pub digest: u64,
    pub samples: u64,
    pub nonzero: u64,
    pub worst: f64,
    pub racing_ops: u64,
    pub racing_split: u64,
    pub engine_frames: u64,
    pub engine_ms: u64,
    pub counts: BTreeMap<String, u64>,
    pub trigger: bool,
    pub profile: String,
    /// The run was made a second time in the same process.
    #[serde(default)]
    pub twice: bool,
    /// Output samples, for comparisons between variants of a program.
    pub outs: Vec<Vec<Vec<Vec<f32>>>>,
}

const REGION: usize = 24 << 20;
const HEAD: usize = 64 + simrt::COV_MAX;

pub struct Region(*mut u8);

impl Region {
    pub fn new() -> Self {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                REGION,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Region(p as *mut u8)
    }
    fn clear(&self) {
        unsafe { std::ptr::write_bytes(self.0, 0, HEAD) }
    }
    fn put(&self, o: &Outcome) {
        let s = serde_json::to_vec(o).unwrap_or_default();
        unsafe {
            let n = s.len().min(REGION - HEAD);
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.0.add(HEAD), n);
            (self.0 as *mut u64).add(1).write(n as u64);
            std::ptr::copy_nonoverlapping(
                (&raw const simrt::COV) as *const u8,
                self.0.add(64),
                simrt::COV_MAX,
            );
            (self.0 as *mut u64).write(1);
        }
    }
    fn get(&self, cov: Option<&mut [u8]>) -> Option<Outcome> {
        unsafe {
            if (self.0 as *mut u64).read() != 1 {
                return None;
            }
            if let Some(c) = cov {
                for i in 0..simrt::COV_N.min(c.len() - 1) + 1 {
                    c[i] |= *self.0.add(64 + i);
                }
            }
            let n = (self.0 as *mut u64).add(1).read() as usize;
            serde_json::from_slice(std::slice::from_raw_parts(self.0.add(HEAD), n)).ok()
        }
    }
}

static mut OUT: Option<Region> = None;
static mut KEEP: Keep = Keep {
    schedule: false,
    outs: false,
};

#[derive(Clone, Copy, Default)]
pub struct Keep {
    pub schedule: bool,
    pub outs: bool,
}

#[allow(static_mut_refs)]
fn region() -> &'static Region {
    unsafe { OUT.as_ref().unwrap() }
}

fn fill(o: &mut Outcome) {
    let s = simrt::stats();
    o.ticks = s.ticks;
    o.switches = s.switches;
    o.preemptions = s.preemptions;
    o.by_kind = s.by_kind.to_vec();
    o.starve_hits = s.starve_hits;
    if s.pipe_faults > 0 {
        o.counts.insert("fault: standard output's reader slow or gone".into(), s.pipe_faults);
    }
    if s.clock_delays > 0 {
        o.counts.insert("fault: a thread delayed while it reads the clock".into(), s.clock_delays);
    }
    o.sim_ns = s.sim_ns;
    o.sleeps = s.sleeps;
    o.blocks = s.blocks;
    o.interleaving = exec::fingerprint();
    if o.status == 2 || unsafe { KEEP.schedule } {
        o.schedule = simrt::recorded();
    }
}

fn fatal(kind: &str, msg: &str) {
    // no tag: what follows belongs to the harness
    simrt::set_tag(0);
    let place = exec::place();
    let mut o = Outcome {
        status: if kind.starts_with("harness") { 3 } else { 2 },
        viol: Some(Viol {
            oracle: kind.into(),
            detail: format!("{place}{msg}"),
        }),
        ..Default::default()
    };
    fill(&mut o);
    region().put(&o);
    unsafe { libc::_exit(0) }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = format!("{i}").replace('\n', " ");
        if simrt::in_sim() {
            let harness = i.location().map_or(false, |l| {
                let f = l.file();
                f.starts_with("src/") && !f.contains("repo")
                    || f.contains("verif/sim/")
                    || f.contains("simrt/")
                    || f.contains("simcross/")
            });
            simrt::fatal(if harness { "harness-panic" } else { "panic" }, &msg);
        }
        let o = Outcome {
            status: 3,
            viol: Some(Viol {
                oracle: "harness-panic".into(),
                detail: msg,
            }),
            ..Default::default()
        };
        unsafe {
            if (*(&raw const OUT)).is_some() {
                region().put(&o);
            } else {
                eprintln!("{}", o.viol.unwrap().detail);
            }
            libc::_exit(3)
        }
    }));
}

fn h(x: u64, y: u64) -> u64 {
    simrt::rng::mix(x, y)
}

/// The child's whole life.
fn child(mut plan: Plan, r: Region, keep: Keep) -> ! {
    // Kept out of the run's own memory, whose layout must not depend on whether
    // the schedule is drawn or replayed.
    let list = plan.sched.list.take();
    unsafe {
        OUT = Some(r);
        KEEP = keep;
        let l = libc::rlimit {
            rlim_cur: 60,
            rlim_max: 60,
        };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        if n >= 0 {
            libc::dup2(n, 1);
        }
    }
    install_hook();
    simrt::alloc::enter_run_arena(plan.world.jitter);
    let again = plan.clone();
    let drawn = list.is_none();
    let (mut first, mut second) = (list, None);
    if plan.world.twice {
        std::mem::swap(&mut first, &mut second);
    }
    let end = exec::run(plan, first, fatal);
    let mut info = Info::default();
    let mut res = check::check(exec::w(), &end, &mut info);
    // Memory a node left behind may be in a table that is filled once per process.
    let suspect = |r: &Result<(), Viol>| matches!(r, Err(v) if v.oracle == "leak" || v.oracle == "not-destroyed");
    let twice = again.world.twice || drawn && suspect(&res);
    if twice && end.background_left == 0 {
        exec::forget();
        simrt::reset();
        let end = exec::run(again, second, fatal);
        info = Info::default();
        res = check::check(exec::w(), &end, &mut info);
    }
    let w = exec::w();
    let mut o = Outcome {
        status: match (&res, info.inconclusive) {
            (Err(_), _) => 2,
            (Ok(()), true) => 4,
            _ => 1,
        },
        viol: res.err(),
        samples: info.samples,
        nonzero: info.nonzero,
        worst: info.worst,
        racing_ops: info.racing_ops,
        racing_split: info.racing_split,
        engine_frames: info.engine_frames,
        engine_ms: (info.engine_secs * 1000.0) as u64,
        twice,
        ..Default::default()
    };
    let mut d = 1u64;
    for c in &w.calls {
        for ch in &c.out {
            for x in ch {
                d = h(d, x.to_bits() as u64);
            }
        }
        d = h(d, c.end_ns);
    }
    for r in &w.ops {
        for b in format!("{:?}", r.res).bytes() {
            d = h(d, b as u64);
        }
        d = h(d, (r.b0 + (r.b1 << 20)) as u64 ^ ((r.d0 + (r.d1 << 20)) as u64) << 16);
    }
    o.digest = d;
    let c = &mut o.counts;
    let mut add = |k: &str, n: u64| {
        if n > 0 {
            *c.entry(k.into()).or_default() += n;
        }
    };
    add("parameter reads", info.param_reads);
    add("clock reads", info.time_reads);
    add("recorded frames checked", info.rec_frames);
    add("recordings the flag alone shows to be complete", info.flagged);
    add("envelope reports checked", info.env_notes);
    add("memory marks", info.marks);
    add("nodes freed", unsafe { simrt::alloc::FREE_LOG_LEN as u64 });
    for m in &info.model {
        add("events applied", m.events);
        add("events applied late", m.late_events);
        add("parameter changes applied", m.param_changes);
        add("parameter changes applied late", m.late_changes);
        add("ramps", m.ramps);
        add("changes cancelled", m.cancelled);
        add("sampler starts", m.sampler_starts);
        add("sampler loop jumps", m.loops);
        add("sampler voice steals", m.steals);
        add("connected nodes dropped", m.dropped_connected);
        add("callbacks while stopped", m.stopped_calls);
    }
    o.trigger = crate::gen::trigger(&w.plan, &o.counts, o.racing_ops, o.nonzero);
    o.profile = w.plan.profile.clone();
    crate::gen::faults(&w.plan, &mut o.counts);
    fill(&mut o);
    if keep.outs {
        o.outs = w
            .plan
            .engines
            .iter()
            .enumerate()
            .map(|(e, _)| {
                w.calls
                    .iter()
                    .zip(w.plan.calls.iter())
                    .filter(|(r, c)| c.e == e && r.done)
                    .map(|(r, _)| r.out.clone())
                    .collect()
            })
            .collect();
    }
    region().put(&o);
    unsafe { libc::_exit(0) }
}

fn outcome_of(status: i32, r: &Region, cov: Option<&mut [u8]>) -> Outcome {
    if let Some(o) = r.get(cov) {
        return o;
    }
    let mut o = Outcome::default();
    if libc::WIFSIGNALED(status) {
        let s = libc::WTERMSIG(status);
        let (st, kind, d) = match s {
            libc::SIGXCPU => (2, "unbounded", "the run never ends (processor time limit)".to_string()),
            libc::SIGKILL => (3, "harness", "killed".into()),
            s => (2, "crash", format!("the process crashed with signal {s}")),
        };
        o.status = st;
        o.viol = Some(Viol {
            oracle: kind.into(),
            detail: d,
        });
    } else {
        o.status = 3;
        o.viol = Some(Viol {
            oracle: "harness".into(),
            detail: format!("child ended with status {status} and no outcome"),
        });
    }
    o
}

fn spawn(r: &Region, keep: Keep, make: &dyn Fn() -> Plan) -> i32 {
    r.clear();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let plan = make();
        child(plan, Region(r.0), keep);
    }
    pid
}

/// Run one plan.
pub fn run_one(plan: &Plan, keep: Keep) -> Outcome {
    let r = Region::new();
    let pid = spawn(&r, keep, &|| plan.clone());
    if pid < 0 {
        return Outcome {
            status: 3,
            ..Default::default()
        };
    }
    let mut st = 0;
    unsafe {
        libc::waitpid(pid, &mut st, 0);
    }
    let o = outcome_of(st, &r, None);
    unsafe {
        libc::munmap(r.0 as *mut _, REGION);
    }
    o
}

pub struct Pool {
    regions: Vec<Region>,
    pub cov: Vec<u8>,
}

impl Pool {
    pub fn new(jobs: usize) -> Self {
        Self {
            regions: (0..jobs).map(|_| Region::new()).collect(),
            cov: vec![0; simrt::COV_MAX],
        }
    }

    /// Runs jobs 0..n (each made by `make`) in parallel, handing outcomes to
    /// `each` in completion order. `each` returns false to start no more jobs
    /// with a higher index.
    pub fn run(
        &mut self,
        n: u64,
        keep: Keep,
        deadline: std::time::Instant,
        make: &dyn Fn(u64) -> Plan,
        each: &mut dyn FnMut(u64, Outcome) -> bool,
    ) -> u64 {
        let mut busy: Vec<Option<(i32, u64)>> = self.regions.iter().map(|_| None).collect();
        let mut next = 0;
        let mut limit = n;
        let mut started = 0;
        loop {
            for s in 0..busy.len() {
                if busy[s].is_none() && next < limit && std::time::Instant::now() < deadline {
                    let i = next;
                    let pid = spawn(&self.regions[s], keep, &|| make(i));
                    if pid > 0 {
                        busy[s] = Some((pid, i));
                        next += 1;
                        started += 1;
                    }
                }
            }
            if busy.iter().all(|b| b.is_none()) {
                return started;
            }
            let mut st = 0;
            let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
            if let Some(s) = busy.iter().position(|b| b.map_or(false, |b| b.0 == pid)) {
                let (_, i) = busy[s].take().unwrap();
                let o = outcome_of(st, &self.regions[s], Some(&mut self.cov));
                if !each(i, o) {
                    limit = limit.min(i);
                }
            }
        }
    }
}
