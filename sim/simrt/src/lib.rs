//! Simulation runtime: real OS threads, exactly one of which runs at a time.
//! Every hand-over of the baton is decided here from a seed (or a recorded
//! schedule), simulated time replaces the clock, and blocking, sleeping,
//! joining and entropy go through this module (see `interpose`).
#![allow(static_mut_refs)]

pub mod alloc;
pub mod atomics;
pub mod interpose;
pub mod rng;

pub use rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const MAX_THREADS: usize = 64;

pub const Y_SEND: u8 = 0;
pub const Y_RECV: u8 = 1;
pub const Y_BUF: u8 = 2;
pub const Y_BB: u8 = 3;
pub const Y_OP: u8 = 4;
pub const Y_CALL: u8 = 5;
pub const Y_SPAWN: u8 = 6;
pub const Y_BLOCK: u8 = 7;
pub const Y_SLEEP: u8 = 8;
pub const Y_CLOCK: u8 = 9;
pub const Y_ATOMIC: u8 = 10;
pub const Y_KINDS: usize = 11;
pub const Y_NAMES: [&str; Y_KINDS] = [
    "send", "receive", "host-buffer", "basic-block", "op", "callback", "spawn", "block", "sleep",
    "clock", "atomic",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Driver = 0,
    Control = 1,
    Audio = 2,
    Background = 3,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Free,
    /// Inside `AudioProcess::process`: may never wait.
    Callback,
    /// Inside a control call: may never wait.
    ControlOp,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key {
    None,
    Chan(u64),
    Futex(u64),
    Join(u32),
    Gate(u32),
    Sleep,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Unused,
    Reserved,
    Runnable,
    Blocked,
    Finished,
}

struct Th {
    word: AtomicU32,
    st: St,
    key: Key,
    deadline: u64,
    woken: bool,
    role: Role,
    pthread: u64,
    prio: u64,
    /// Scheduling decisions taken while this thread could have run and didn't.
    passed: u32,
    /// Waits for a lock inside a control call, in the expectation that another control thread
    /// holds it.
    lent: bool,
}

#[derive(Clone, Debug)]
pub struct Starve {
    pub role: Role,
    pub from: u32,
    pub to: u32,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub seed: u64,
    /// 0: random walk, 1: priority based with change points, 2: switch only when blocked.
    pub mode: u8,
    pub p_switch: f64,
    /// Mean number of basic blocks between preemptions inside the code under test (0: none).
    pub bb_mean: u64,
    /// Mean number of atomic operations of the code under test between preemptions at one
    /// (0: none but those the basic blocks give).
    pub atomic_mean: u64,
    pub pct_depth: u32,
    pub starve: Vec<Starve>,
    /// Recorded schedule to follow instead of the seeded policy.
    pub replay: Option<Vec<(u64, u8)>>,
    pub hash_seed: u64,
    /// The reader of standard output: (the write at which it fails, how: 0 gone, else
    /// nanoseconds it lets every further writer wait).
    pub pipe: Option<(u64, u64)>,
    /// Nanoseconds for which a thread is delayed whenever it reads the clock.
    pub clock_step: u64,
    pub callback_budget: u64,
    pub total_budget: u64,
}

struct S {
    th: [Th; MAX_THREADS],
    n: usize,
    cur: usize,
    now: u64,
    rng: Rng,
    ent: Rng,
    cfg: Option<SchedCfg>,
    rec: Vec<(u64, u8)>,
    replay_ix: usize,
    pending_role: Role,
    epoch: u32,
    next_bb: u64,
    cb_limit: u64,
    switches: u64,
    preempt: u64,
    by_kind: [u64; Y_KINDS],
    pipe_writes: u64,
    pipe_faults: u64,
    clock_delays: u64,
    pct_points: Vec<u64>,
    starve_hits: u64,
    fatal: Option<fn(&str, &str)>,
    in_fatal: bool,
    sleeps: u64,
    blocks: u64,
}

const TH0: Th = Th {
    word: AtomicU32::new(0),
    st: St::Unused,
    key: Key::None,
    deadline: u64::MAX,
    woken: false,
    role: Role::Background,
    pthread: 0,
    prio: 0,
    passed: 0,
    lent: false,
};

const S0: S = S {
    th: [TH0; MAX_THREADS],
    n: 0,
    cur: 0,
    now: 0,
    rng: Rng::zero(),
    ent: Rng::zero(),
    cfg: None,
    rec: Vec::new(),
    replay_ix: 0,
    pending_role: Role::Background,
    epoch: 0,
    next_bb: u64::MAX,
    cb_limit: u64::MAX,
    switches: 0,
    preempt: 0,
    by_kind: [0; Y_KINDS],
    pipe_writes: 0,
    pipe_faults: 0,
    clock_delays: 0,
    pct_points: Vec::new(),
    starve_hits: 0,
    fatal: None,
    in_fatal: false,
    sleeps: 0,
    blocks: 0,
};
static mut ATOMICS_LEFT: u64 = u64::MAX;
static mut SIM: S = S0;
static mut ACTIVE: bool = false;
pub static mut TICK: u64 = 0;
static mut NEXT_TICK: u64 = u64::MAX;
pub static mut TAGS: [u32; MAX_THREADS] = [0; MAX_THREADS];
pub static mut MODES: [Mode; MAX_THREADS] = [Mode::Free; MAX_THREADS];
/// Label of the control call / callback a thread is executing (for message tracking).
pub static mut LABEL: [u32; MAX_THREADS] = [u32::MAX; MAX_THREADS];

pub const COV_MAX: usize = 1 << 16;
pub static mut COV: [u8; COV_MAX] = [0; COV_MAX];
pub static mut COV_N: usize = 0;

thread_local! {
    static SLOT: Cell<u32> = const { Cell::new(u32::MAX) };
}

#[inline]
pub fn slot_raw() -> u32 {
    SLOT.try_with(|c| c.get()).unwrap_or(u32::MAX)
}
pub fn set_slot(s: u32) {
    let _ = SLOT.try_with(|c| c.set(s));
}
#[inline]
pub fn in_sim() -> bool {
    unsafe { ACTIVE && (slot_raw() as usize) < MAX_THREADS }
}
#[inline]
pub fn now_ns() -> u64 {
    unsafe { SIM.now }
}
pub fn tick() -> u64 {
    unsafe { TICK }
}

/// Stop the run with an error found by the runtime. Never returns.
pub fn fatal(kind: &str, msg: &str) -> ! {
    unsafe {
        if let (Some(f), false) = (SIM.fatal, SIM.in_fatal) {
            SIM.in_fatal = true;
            f(kind, msg);
        }
        libc::_exit(97)
    }
}

unsafe fn futex_wait(w: &AtomicU32) {
    interpose::raw6(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAIT as usize | 128, 0, 0, 0, 0);
}
unsafe fn futex_wake(w: &AtomicU32) {
    interpose::raw6(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0);
}

pub unsafe fn wait_baton(slot: usize) {
    let w = &SIM.th[slot].word;
    let mut spins = 0;
    while w.load(Ordering::Acquire) == 0 {
        spins += 1;
        if spins > 0 {
            futex_wait(w);
        }
    }
    w.store(0, Ordering::Relaxed);
}

unsafe fn give(next: usize) {
    SIM.cur = next;
    SIM.th[next].word.store(1, Ordering::Release);
    futex_wake(&SIM.th[next].word);
}

pub(crate) enum PipeEnd {
    Taken,
    Slow(u64),
    Gone,
}

/// One write to standard output.
pub(crate) fn pipe_write() -> PipeEnd {
    yield_point(Y_SEND);
    unsafe {
        SIM.pipe_writes += 1;
        match SIM.cfg.as_ref().and_then(|c| c.pipe) {
            Some((n, how)) if SIM.pipe_writes > n => {
                SIM.pipe_faults += 1;
                if how == 0 {
                    PipeEnd::Gone
                } else {
                    PipeEnd::Slow(how)
                }
            }
            _ => PipeEnd::Taken,
        }
    }
}

// ---------------------------------------------------------------- lifecycle

/// Begin a run; the calling thread becomes slot 0 (the driver).
pub fn begin(cfg: SchedCfg, fatal: fn(&str, &str)) {
    unsafe {
        SIM.rng = Rng::new(cfg.seed ^ 0x5ced_5ced);
        SIM.ent = Rng::new(cfg.hash_seed);
        SIM.n = 1;
        SIM.cur = 0;
        SIM.now = 1_000_000_000;
        SIM.fatal = Some(fatal);
        SIM.th[0].st = St::Runnable;
        SIM.th[0].role = Role::Driver;
        SIM.rec = Vec::with_capacity(4096);
        SIM.replay_ix = 0;
        for i in 0..cfg.pct_depth {
            let _ = i;
            let horizon = if cfg.bb_mean > 0 { 200_000 } else { 3_000 };
            let p = SIM.rng.below(horizon);
            SIM.pct_points.push(p);
        }
        SIM.pct_points.sort();
        SIM.cfg = Some(cfg);
        TICK = 0;
        set_slot(0);
        interpose::init_exit_key();
        ACTIVE = true;
        SIM.th[0].prio = prio();
        arm();
        arm_atomics();
    }
}

unsafe fn prio() -> u64 {
    SIM.rng.next() >> 8 | 1 << 62
}

/// End of a run (the process exits shortly after, or makes the run once more).
pub fn end() {
    unsafe {
        ACTIVE = false;
        NEXT_TICK = u64::MAX;
    }
}

/// After a run whose threads have all ended: the next run in this process begins
/// as the first one did, but for what the code under test keeps in its statics.
pub fn reset() {
    unsafe {
        assert!(!ACTIVE);
        SIM = S0;
        TICK = 0;
        TAGS = [0; MAX_THREADS];
        MODES = [Mode::Free; MAX_THREADS];
        LABEL = [u32::MAX; MAX_THREADS];
        alloc::reset();
    }
}

unsafe fn arm() {
    let c = SIM.cfg.as_ref().unwrap();
    let mut next = c.total_budget.min(SIM.cb_limit);
    if let Some(r) = &c.replay {
        while SIM.replay_ix < r.len() && r[SIM.replay_ix].0 <= TICK {
            SIM.replay_ix += 1;
        }
        if SIM.replay_ix < r.len() {
            next = next.min(r[SIM.replay_ix].0);
        }
    } else {
        if c.bb_mean > 0 {
            let g = 1 + (-(1.0 - SIM.rng.f64()).ln() * c.bb_mean as f64) as u64;
            SIM.next_bb = TICK + g;
            next = next.min(SIM.next_bb);
        }
    }
    NEXT_TICK = next;
}

unsafe fn arm_atomics() {
    let c = SIM.cfg.as_ref().unwrap();
    ATOMICS_LEFT = if c.atomic_mean > 0 && c.replay.is_none() {
        1 + (-(1.0 - SIM.rng.f64()).ln() * c.atomic_mean as f64) as u64
    } else {
        u64::MAX
    };
}

/// An atomic operation of the code under test is about to be made.
#[inline]
unsafe fn atomic_point() {
    TICK += 1;
    ATOMICS_LEFT = ATOMICS_LEFT.saturating_sub(1);
    if TICK >= NEXT_TICK {
        bb_slow();
    } else if ATOMICS_LEFT == 0 {
        atomic_slow();
    }
}

#[cold]
#[inline(never)]
unsafe fn atomic_slow() {
    let me = slot_raw() as usize;
    if !ACTIVE || me >= MAX_THREADS {
        ATOMICS_LEFT = if ACTIVE { 1 } else { u64::MAX };
        return;
    }
    SIM.by_kind[Y_ATOMIC as usize] += 1;
    arm_atomics();
    let next = choose_voluntary(me);
    if next != me {
        SIM.rec.push((TICK, next as u8));
        SIM.preempt += 1;
    }
    arm_keep();
    switch(me, next);
}

pub fn set_epoch(e: u32) {
    unsafe {
        SIM.epoch = e;
    }
}

pub fn spawn_role(role: Role) {
    unsafe {
        SIM.pending_role = role;
    }
}

pub(crate) unsafe fn new_slot() -> Option<usize> {
    let s = (1..MAX_THREADS).find(|i| SIM.th[*i].st == St::Unused)?;
    SIM.th[s].st = St::Reserved;
    SIM.th[s].role = SIM.pending_role;
    SIM.pending_role = Role::Background;
    SIM.th[s].word.store(0, Ordering::Relaxed);
    SIM.th[s].key = Key::None;
    SIM.th[s].prio = prio();
    SIM.th[s].passed = 0;
    TAGS[s] = 0;
    MODES[s] = Mode::Free;
    LABEL[s] = u32::MAX;
    SIM.n = SIM.n.max(s + 1);
    Some(s)
}
pub(crate) unsafe fn publish_slot(s: usize, pthread: u64) {
    SIM.th[s].pthread = pthread;
    SIM.th[s].st = St::Runnable;
}
pub(crate) unsafe fn abandon_slot(s: usize) {
    SIM.th[s].st = St::Unused;
}

pub(crate) unsafe fn thread_finished(slot: usize) {
    SIM.th[slot].st = St::Finished;
    wake_n(Key::Join(slot as u32), usize::MAX);
    TICK += 1;
    let next = choose_forced();
    if SIM.cfg.as_ref().unwrap().replay.is_some() {
        SIM.rec.push((TICK, next as u8));
    }
    SIM.switches += 1;
    set_slot(u32::MAX);
    give(next);
}

pub(crate) unsafe fn join_slot(pthread: u64) {
    let s = (0..SIM.n).rev().find(|i| SIM.th[*i].pthread == pthread && SIM.th[*i].st != St::Unused);
    if let Some(s) = s {
        while SIM.th[s].st != St::Finished {
            block(Key::Join(s as u32), u64::MAX);
        }
    }
}

/// Number of live simulated threads with a role.
pub fn alive(role: Role) -> usize {
    unsafe {
        (0..SIM.n)
            .filter(|i| {
                SIM.th[*i].role == role
                    && matches!(SIM.th[*i].st, St::Runnable | St::Blocked | St::Reserved)
            })
            .count()
    }
}
pub fn role_of(slot: u32) -> Option<Role> {
    unsafe {
        if (slot as usize) < MAX_THREADS {
            Some(SIM.th[slot as usize].role)
        } else {
            None
        }
    }
}
pub fn my_role() -> Option<Role> {
    if in_sim() {
        role_of(slot_raw())
    } else {
        None
    }
}

// --------------------------------------------------------------- scheduling

unsafe fn wake_sleepers() {
    for i in 0..SIM.n {
        let t = &mut SIM.th[i];
        if t.st == St::Blocked && t.deadline <= SIM.now {
            t.st = St::Runnable;
            t.woken = t.key == Key::Sleep;
            t.deadline = u64::MAX;
        }
    }
}

unsafe fn starved(i: usize) -> bool {
    let c = SIM.cfg.as_ref().unwrap();
    let r = SIM.th[i].role;
    c.starve
        .iter()
        .any(|s| s.role == r && SIM.epoch >= s.from && SIM.epoch < s.to)
}

unsafe fn candidates(buf: &mut [usize; MAX_THREADS]) -> usize {
    let mut n = 0;
    let mut skipped = 0;
    for i in 0..SIM.n {
        if SIM.th[i].st == St::Runnable {
            if starved(i) {
                skipped += 1;
            } else {
                buf[n] = i;
                n += 1;
            }
        }
    }
    if skipped > 0 {
        SIM.starve_hits += 1;
    }
    n
}

unsafe fn replay_at(t: u64) -> Option<usize> {
    let c = SIM.cfg.as_ref().unwrap();
    let r = c.replay.as_ref()?;
    let mut ix = SIM.replay_ix;
    while ix < r.len() && r[ix].0 < t {
        ix += 1;
    }
    SIM.replay_ix = ix;
    if ix < r.len() && r[ix].0 == t {
        let th = r[ix].1 as usize;
        if th < SIM.n && SIM.th[th].st == St::Runnable {
            return Some(th);
        }
    }
    None
}

/// Every schedule is fair in the long run: a thread that could run (stalled or of low priority)
/// isn't passed over forever by threads that keep waiting for short times or yielding.
const PATIENCE: u32 = 2_000;

unsafe fn overdue() -> Option<usize> {
    // A wait with a timeout (or a delay) can be repeated without anybody's help, so it counts
    // for more.
    let cur = &SIM.th[SIM.cur];
    let weight = if cur.st == St::Runnable || cur.deadline != u64::MAX { 32 } else { 1 };
    let mut worst = None;
    for i in 0..SIM.n {
        let t = &mut SIM.th[i];
        if t.st != St::Runnable || i == SIM.cur {
            t.passed = 0;
            continue;
        }
        t.passed += weight;
        if t.passed > PATIENCE && worst.is_none() {
            worst = Some(i);
        }
    }
    if let Some(i) = worst {
        SIM.th[i].passed = 0;
        // The stall is over / its priority isn't the lowest any more.
        SIM.th[i].prio = 1 << 63 | SIM.rng.next() >> 8;
        let role = SIM.th[i].role;
        let now = SIM.epoch;
        for s in SIM.cfg.as_mut().unwrap().starve.iter_mut() {
            if s.role == role && now >= s.from && now < s.to {
                s.to = now;
            }
        }
    }
    worst
}

unsafe fn pick(buf: &[usize], me: usize, voluntary: bool) -> usize {
    let mode = SIM.cfg.as_ref().unwrap().mode;
    match mode {
        0 => {
            let p = SIM.cfg.as_ref().unwrap().p_switch;
            if voluntary && SIM.th[me].st == St::Runnable && buf.contains(&me) && !SIM.rng.chance(p) {
                return me;
            }
            buf[SIM.rng.usize(buf.len())]
        }
        1 => *buf.iter().max_by_key(|i| SIM.th[**i].prio).unwrap(),
        _ => {
            if voluntary && buf.contains(&me) {
                me
            } else {
                buf[0]
            }
        }
    }
}

unsafe fn choose_voluntary(me: usize) -> usize {
    let c = SIM.cfg.as_ref().unwrap();
    if c.replay.is_some() {
        return replay_at(TICK).unwrap_or(me);
    }
    if c.mode == 1 && !SIM.pct_points.is_empty() && SIM.pct_points[0] <= TICK {
        SIM.pct_points.remove(0);
        SIM.th[me].prio = SIM.rng.next() >> 34; // below every initial priority
    }
    let mut buf = [0usize; MAX_THREADS];
    let n = candidates(&mut buf);
    if n == 0 {
        return me;
    }
    pick(&buf[..n], me, true)
}

unsafe fn choose_forced() -> usize {
    loop {
        let c = SIM.cfg.as_ref().unwrap();
        let any = (0..SIM.n).any(|i| SIM.th[i].st == St::Runnable);
        if any {
            if c.replay.is_some() {
                if let Some(t) = replay_at(TICK) {
                    return t;
                }
                // Default when the schedule says nothing: first unstarved, else first.
                if let Some(t) = overdue() {
                    return t;
                }
                let mut buf = [0usize; MAX_THREADS];
                let n = candidates(&mut buf);
                if n > 0 {
                    return buf[0];
                }
                return (0..SIM.n).find(|i| SIM.th[*i].st == St::Runnable).unwrap();
            }
            let mut buf = [0usize; MAX_THREADS];
            let mut n = candidates(&mut buf);
            if n == 0 {
                // Only stalled threads could run: if something sleeps, time may pass
                // instead; otherwise the stall ends (bounded stalls).
                for i in 0..SIM.n {
                    if SIM.th[i].st == St::Runnable {
                        buf[n] = i;
                        n += 1;
                    }
                }
            }
            let next = overdue().unwrap_or_else(|| pick(&buf[..n], SIM.cur, false));
            SIM.th[next].passed = 0;
            SIM.rec.push((TICK, next as u8));
            return next;
        }
        // Nothing runnable: jump to the next deadline.
        let d = (0..SIM.n)
            .filter(|i| SIM.th[*i].st == St::Blocked)
            .map(|i| SIM.th[i].deadline)
            .min()
            .unwrap_or(u64::MAX);
        if d == u64::MAX {
            let mut s = String::new();
            for i in 0..SIM.n {
                if SIM.th[i].st == St::Blocked {
                    s.push_str(&format!(" [{:?} waits on {:?}]", SIM.th[i].role, SIM.th[i].key));
                }
            }
            fatal("deadlock", &format!("no thread can ever run again:{s}"));
        }
        SIM.now = SIM.now.max(d);
        wake_sleepers();
    }
}

unsafe fn switch(me: usize, next: usize) {
    if next == me {
        return;
    }
    SIM.switches += 1;
    give(next);
    wait_baton(me);
}

unsafe fn check_budget() {
    let c = SIM.cfg.as_ref().unwrap();
    if TICK >= SIM.cb_limit {
        fatal("unbounded", "callback exceeded its work budget (endless loop)");
    }
    if TICK >= c.total_budget {
        fatal("unbounded", "run exceeded its work budget (endless loop)");
    }
}

/// A point at which another thread may be scheduled.
pub fn yield_point(kind: u8) {
    unsafe {
        let me = slot_raw() as usize;
        if !ACTIVE || me >= MAX_THREADS {
            return;
        }
        TICK += 1;
        SIM.by_kind[kind as usize] += 1;
        if TICK >= NEXT_TICK {
            check_budget();
        }
        let next = choose_voluntary(me);
        if next != me {
            if SIM.cfg.as_ref().unwrap().replay.is_none() {
                SIM.rec.push((TICK, next as u8));
            } else {
                SIM.rec.push((TICK, next as u8));
            }
            SIM.preempt += 1;
        }
        if TICK >= NEXT_TICK {
            arm();
        }
        switch(me, next);
    }
}

/// Spin hint: run somebody else if anybody can run.
pub fn yield_other() {
    unsafe {
        let me = slot_raw() as usize;
        TICK += 1;
        check_budget();
        let mut buf = [0usize; MAX_THREADS];
        let n = candidates(&mut buf);
        let mut others: Vec<usize> = buf[..n].iter().copied().filter(|i| *i != me).collect();
        if others.is_empty() {
            // A spin can only be ended by a stalled thread: the stall ends.
            others = (0..SIM.n)
                .filter(|i| *i != me && SIM.th[*i].st == St::Runnable)
                .collect();
        }
        if others.is_empty() {
            // Let simulated time pass so that sleepers can help.
            SIM.now += 1_000;
            wake_sleepers();
            return;
        }
        let next = match replay_at(TICK) {
            Some(t) => t,
            None => others[SIM.rng.usize(others.len())],
        };
        SIM.rec.push((TICK, next as u8));
        switch(me, next);
    }
}

/// Block the calling thread until woken or `deadline`. True if woken.
/// Like `block`, unless `counter` has moved on from `seen`: whoever wakes the key increments it
/// first, so a wake-up between the caller's last look and this call isn't lost (the caller may be
/// generic code that was compiled into the instrumented crate, where it can be preempted).
#[inline(never)]
pub fn block_unless(key: Key, deadline: u64, counter: &AtomicU64, seen: u64) {
    if counter.load(Ordering::SeqCst) == seen {
        block(key, deadline);
    } else {
        yield_point(Y_BLOCK);
    }
}

#[inline(never)]
pub fn block(key: Key, deadline: u64) -> bool {
    unsafe {
        let me = slot_raw() as usize;
        let internal = MODES[me] != Mode::Free && matches!(key, Key::Futex(_)) && inside_std_queue();
        match MODES[me] {
            _ if internal => {}
            Mode::Callback => fatal(
                "audio-waits",
                &format!("the audio callback would wait for another thread ({})", describe(key)),
            ),
            // Control threads (of different engines) may wait for each other, say for a table that
            // is filled once; who wakes this one shows who it waited for.
            Mode::ControlOp
                if matches!(key, Key::Futex(_))
                    && deadline == u64::MAX
                    && (0..SIM.n).any(|i| {
                        i != me
                            && SIM.th[i].role == Role::Control
                            && SIM.th[i].st == St::Runnable
                            && MODES[i] == Mode::ControlOp
                    }) =>
            {
                SIM.th[me].lent = true
            }
            Mode::ControlOp => fatal(
                "control-waits",
                &format!("a control call would wait for another thread ({})", describe(key)),
            ),
            Mode::Free => {}
        }
        TICK += 1;
        SIM.by_kind[if key == Key::Sleep { Y_SLEEP } else { Y_BLOCK } as usize] += 1;
        if key == Key::Sleep {
            SIM.sleeps += 1;
        } else {
            SIM.blocks += 1;
        }
        if TICK >= NEXT_TICK {
            check_budget();
        }
        let t = &mut SIM.th[me];
        t.st = St::Blocked;
        t.key = key;
        t.deadline = deadline;
        t.woken = false;
        wake_sleepers();
        let next = choose_forced();
        if SIM.cfg.as_ref().unwrap().replay.is_some() {
            SIM.rec.push((TICK, next as u8));
        }
        if TICK >= NEXT_TICK {
            arm();
        }
        switch(me, next);
        SIM.th[me].key = Key::None;
        SIM.th[me].deadline = u64::MAX;
        SIM.th[me].woken
    }
}

/// Is the calling thread inside an operation of std's message queues? Their short internal locks
/// are taken as atomic, like those of the queues in `simcross`.
#[cold]
fn inside_std_queue() -> bool {
    let me = slot_raw();
    set_slot(u32::MAX);
    let trace = std::backtrace::Backtrace::force_capture().to_string();
    set_slot(me);
    for line in trace.lines() {
        let Some(path) = line.trim_start().strip_prefix("at ") else { continue };
        if path.contains("/library/std/src/sync/mp") {
            return true;
        }
        if !path.contains("/library/") && !path.contains("simrt/src/") {
            return false;
        }
    }
    false
}

fn describe(k: Key) -> String {
    match k {
        Key::Chan(_) => "message queue full or empty".into(),
        Key::Futex(_) => "lock or condition".into(),
        Key::Join(_) => "thread join".into(),
        Key::Sleep => "sleep".into(),
        Key::Gate(_) => "gate".into(),
        Key::None => "?".into(),
    }
}

pub fn wake(key: Key) {
    unsafe {
        wake_n(key, usize::MAX);
    }
}

pub(crate) unsafe fn wake_n(key: Key, max: usize) -> usize {
    let mut n = 0;
    for i in 0..SIM.n {
        if n >= max {
            break;
        }
        let t = &mut SIM.th[i];
        if t.st == St::Blocked && t.key == key {
            if std::mem::take(&mut t.lent) && SIM.th[SIM.cur].role != Role::Control {
                fatal("control-waits", "a control call waited for another thread (lock or condition)");
            }
            t.st = St::Runnable;
            t.woken = true;
            t.deadline = u64::MAX;
            n += 1;
        }
    }
    n
}

pub fn sleep_ns(ns: u64) {
    unsafe {
        let d = SIM.now.saturating_add(ns.max(1));
        block(Key::Sleep, d);
    }
}

/// One reading of the clock, after whatever delay the run injects.
pub(crate) fn read_clock() -> u64 {
    unsafe {
        let step = SIM.cfg.as_ref().map_or(0, |c| c.clock_step);
        if step > 0 {
            SIM.clock_delays += 1;
            advance(step);
            let me = slot_raw() as usize;
            if SIM.th[me].role == Role::Background {
                // Others run meanwhile, sooner or later.
                TICK += 1;
                let next = match SIM.cfg.as_ref().unwrap().replay {
                    Some(_) => replay_at(TICK),
                    None => overdue(),
                };
                match next {
                    Some(next) if next != me => {
                        SIM.rec.push((TICK, next as u8));
                        SIM.preempt += 1;
                        switch(me, next);
                    }
                    _ => yield_point(Y_CLOCK),
                }
            }
        }
        SIM.now
    }
}

/// Let simulated time pass (the audio device's clock).
pub fn advance(ns: u64) {
    unsafe {
        SIM.now = SIM.now.saturating_add(ns);
        wake_sleepers();
    }
}

pub fn set_mode(m: Mode) {
    unsafe {
        let me = slot_raw() as usize;
        if me < MAX_THREADS {
            MODES[me] = m;
            let c = SIM.cfg.as_ref();
            if let Some(c) = c {
                if m == Mode::Callback {
                    SIM.cb_limit = TICK + c.callback_budget;
                } else if SIM.th[me].role == Role::Audio || SIM.th[me].role == Role::Driver {
                    SIM.cb_limit = u64::MAX;
                }
                arm_keep();
            }
        }
    }
}

/// Recompute NEXT_TICK without drawing randomness.
unsafe fn arm_keep() {
    let c = SIM.cfg.as_ref().unwrap();
    let mut next = c.total_budget.min(SIM.cb_limit);
    if let Some(r) = &c.replay {
        if SIM.replay_ix < r.len() {
            next = next.min(r[SIM.replay_ix].0.max(TICK + 1));
        }
    } else if c.bb_mean > 0 {
        next = next.min(SIM.next_bb);
    }
    NEXT_TICK = next;
}

pub fn set_tag(t: u32) {
    unsafe {
        let me = slot_raw() as usize;
        if me < MAX_THREADS {
            TAGS[me] = t;
        }
    }
}
/// Make allocations of this thread belong to no node; returns the old tag.
pub fn generic_tag() -> u32 {
    unsafe {
        let me = slot_raw() as usize;
        if me < MAX_THREADS {
            let t = TAGS[me];
            TAGS[me] = t.min(1);
            t
        } else {
            0
        }
    }
}
pub fn set_label(l: u32) {
    unsafe {
        let me = slot_raw() as usize;
        if me < MAX_THREADS {
            LABEL[me] = l;
        }
    }
}
pub fn label() -> u32 {
    unsafe {
        let me = slot_raw() as usize;
        if me < MAX_THREADS {
            LABEL[me]
        } else {
            u32::MAX
        }
    }
}

pub(crate) fn entropy(b: &mut [u8]) {
    unsafe {
        for x in b.iter_mut() {
            *x = SIM.ent.next() as u8;
        }
    }
}

// ------------------------------------------------------------------- stats

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub ticks: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub by_kind: [u64; Y_KINDS],
    pub starve_hits: u64,
    pub pipe_faults: u64,
    pub clock_delays: u64,
    pub sim_ns: u64,
    pub sleeps: u64,
    pub blocks: u64,
}
pub fn stats() -> Stats {
    unsafe {
        Stats {
            ticks: TICK,
            switches: SIM.switches,
            preemptions: SIM.preempt,
            by_kind: SIM.by_kind,
            starve_hits: SIM.starve_hits,
            pipe_faults: SIM.pipe_faults,
            clock_delays: SIM.clock_delays,
            sim_ns: SIM.now - 1_000_000_000,
            sleeps: SIM.sleeps,
            blocks: SIM.blocks,
        }
    }
}
pub fn recorded() -> Vec<(u64, u8)> {
    unsafe { SIM.rec.clone() }
}

// ---------------------------------------------------- basic-block callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        if COV_N + 1 < COV_MAX {
            COV_N += 1;
        }
        *p = COV_N as u32;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    *COV.get_unchecked_mut(*g as usize & (COV_MAX - 1)) = 1;
    TICK += 1;
    if TICK >= NEXT_TICK {
        bb_slow();
    }
}

#[cold]
#[inline(never)]
unsafe fn bb_slow() {
    let me = slot_raw() as usize;
    if !ACTIVE || me >= MAX_THREADS {
        NEXT_TICK = if ACTIVE { NEXT_TICK } else { u64::MAX };
        return;
    }
    check_budget();
    SIM.by_kind[Y_BB as usize] += 1;
    let next = choose_voluntary(me);
    if next != me {
        SIM.rec.push((TICK, next as u8));
        SIM.preempt += 1;
    }
    arm();
    switch(me, next);
}
