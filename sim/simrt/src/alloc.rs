//! Deterministic global allocator.
//!
//! Two fixed-address arenas (one for the tool itself, one entered by every
//! simulated run after its fork) make every address a pure function of the
//! run, so that nothing in a run can depend on where memory happened to lie.
//! The allocator is also an observation point (which thread frees a node's
//! state, inside or outside a callback; live bytes) and a fault point (seeded
//! misalignment of sample buffers, rubbish in memory that was never written).

use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, Ordering};

pub struct SimAlloc;

const ARENA0: usize = 0x1000_0000_0000;
const ARENA1: usize = 0x2000_0000_0000;
const ARENA_SIZE: usize = 8 << 30;

const NCLASS: usize = 64 + 4 * 32;

struct Arena {
    bump: usize,
    end: usize,
    free: [usize; NCLASS],
}

static LOCK: AtomicBool = AtomicBool::new(false);
static mut ARENAS: [Arena; 2] = [
    Arena { bump: 0, end: 0, free: [0; NCLASS] },
    Arena { bump: 0, end: 0, free: [0; NCLASS] },
];
static mut CUR: usize = 0;
static mut READY: bool = false;

pub static mut LIVE_BYTES: i64 = 0;
pub static mut LIVE_COUNT: i64 = 0;
pub static mut PEAK_BYTES: i64 = 0;
static mut JITTER: bool = false;
static mut JSTATE: u64 = 0;

#[derive(Clone, Copy)]
pub struct FreeEvent {
    pub tag: u32,
    pub size: u64,
    pub slot: u32,
    pub in_callback: bool,
    pub tick: u64,
}
pub const FREE_LOG_MAX: usize = 1 << 14;
pub static mut FREE_LOG: [FreeEvent; FREE_LOG_MAX] = [FreeEvent {
    tag: 0,
    size: 0,
    slot: 0,
    in_callback: false,
    tick: 0,
}; FREE_LOG_MAX];
pub static mut FREE_LOG_LEN: usize = 0;
/// Live tagged blocks per tag.
pub const MAX_TAGS: usize = 4096;
pub static mut TAG_LIVE: [u32; MAX_TAGS] = [0; MAX_TAGS];
pub static mut TAG_TOTAL: [u32; MAX_TAGS] = [0; MAX_TAGS];
pub static mut TAG_MIN_SIZE: usize = 512;

fn lock() {
    while LOCK
        .compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed)
        .is_err()
    {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::Release);
}

unsafe fn map(addr: usize) {
    let p = libc::mmap(
        addr as *mut _,
        ARENA_SIZE,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if p as usize != addr {
        libc::abort();
    }
}

unsafe fn init() {
    map(ARENA0);
    map(ARENA1);
    ARENAS[0].bump = ARENA0;
    ARENAS[0].end = ARENA0 + ARENA_SIZE;
    ARENAS[1].bump = ARENA1;
    ARENAS[1].end = ARENA1 + ARENA_SIZE;
    READY = true;
}

/// Called in the forked child before a run: all further allocations come from
/// the pristine second arena.
pub fn enter_run_arena(jitter_seed: Option<u64>) {
    unsafe {
        CUR = 1;
        JITTER = jitter_seed.is_some();
        JSTATE = jitter_seed.unwrap_or(0);
        LIVE_BYTES = 0;
        LIVE_COUNT = 0;
        PEAK_BYTES = 0;
        FREE_LOG_LEN = 0;
    }
}

/// Blocks that are left belong to nobody any more.
pub fn reset() {
    unsafe {
        LIVE_BYTES = 0;
        LIVE_COUNT = 0;
        PEAK_BYTES = 0;
        FREE_LOG_LEN = 0;
        TAG_LIVE = [0; MAX_TAGS];
        TAG_TOTAL = [0; MAX_TAGS];
    }
}

pub fn enter_tool_arena() {
    unsafe {
        CUR = 0;
        JITTER = false;
    }
}

fn class_of(total: usize) -> (usize, usize) {
    if total <= 4096 {
        let c = (total + 63) / 64;
        (c - 1, c * 64)
    } else {
        let mut p = 4096usize;
        let mut i = 0;
        loop {
            for q in 1..=4 {
                let s = p + p / 4 * q;
                if total <= s {
                    return (64 + i * 4 + q - 1, s);
                }
            }
            p *= 2;
            i += 1;
        }
    }
}

const HDR: usize = 32;

/// What memory holds that nobody has written yet: never the zeroes of a fresh
/// page, so that code that reads it shows.
unsafe fn scribble(p: *mut u8, from: usize, to: usize) {
    if CUR == 1 && from < to {
        std::ptr::write_bytes(p.add(from), if JITTER { 0x4b } else { 0xbf }, to - from);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = self.grab(l, my_tag()).0;
        if !p.is_null() {
            scribble(p, 0, l.size());
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (p, fresh) = self.grab(l, my_tag());
        if !p.is_null() && !fresh {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.release(p, l, true)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        // A block that is merely resized keeps its owner and raises no event;
        // resized on behalf of another node, it belongs to what they share.
        let h = (p as usize - HDR) as *mut u64;
        let mut tag = (h.add(1).read_unaligned() & TAG_MASK) as u32;
        let t = my_tag();
        if tag >= NODE_TAG && t >= NODE_TAG && t != tag {
            tag = 1;
        }
        let q = self.grab(nl, tag).0;
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            scribble(q, l.size(), new);
            self.release(p, l, false);
        }
        q
    }
}

/// Tags below this mark engine work that belongs to no node.
pub const NODE_TAG: u32 = 16;
const COUNTED: u64 = 1 << 30;
const TAG_MASK: u64 = COUNTED - 1;

unsafe fn my_tag() -> u32 {
    let slot = crate::slot_raw() as usize;
    if slot < crate::MAX_THREADS {
        crate::TAGS[slot]
    } else {
        0
    }
}

impl SimAlloc {
    /// The block, and whether its memory has never been used.
    unsafe fn grab(&self, l: Layout, tag: u32) -> (*mut u8, bool) {
        lock();
        if !READY {
            init();
        }
        let a = CUR;
        let align = l.align().max(16);
        let jit = if JITTER && l.size() >= 64 && l.align() <= 16 {
            let r = crate::rng::splitmix(&mut JSTATE) as usize;
            let step = l.align().max(4);
            (r % (64 / step)) * step
        } else {
            0
        };
        let total = l.size() + HDR + 64 + if align > 64 { align } else { 64 };
        let (class, bytes) = class_of(total);
        let arena = &mut ARENAS[a];
        let mut fresh = false;
        let base = if arena.free[class] != 0 {
            let b = arena.free[class];
            arena.free[class] = *(b as *const usize);
            b
        } else {
            let b = arena.bump;
            if b + bytes > arena.end {
                unlock();
                return (std::ptr::null_mut(), false);
            }
            arena.bump += bytes;
            fresh = true;
            b
        };
        let user = ((base + HDR + align - 1) & !(align - 1)) + jit;
        let mut word = ((a as u64) << 63) | ((class as u64) << 32);
        if a == 1 && tag != 0 {
            word |= tag as u64 & TAG_MASK;
            LIVE_BYTES += l.size() as i64;
            LIVE_COUNT += 1;
            if LIVE_BYTES > PEAK_BYTES {
                PEAK_BYTES = LIVE_BYTES;
            }
            if tag >= NODE_TAG && (tag as usize) < MAX_TAGS && l.size() >= TAG_MIN_SIZE {
                word |= COUNTED;
                TAG_LIVE[tag as usize] += 1;
                TAG_TOTAL[tag as usize] += 1;
            }
        }
        let h = (user - HDR) as *mut u64;
        h.write_unaligned(base as u64);
        h.add(1).write_unaligned(word);
        h.add(2).write_unaligned(0xA110_CA7E_D000_0000 | (user as u64 & 0xff_ffff));
        unlock();
        (user as *mut u8, fresh)
    }

    unsafe fn release(&self, p: *mut u8, l: Layout, event: bool) {
        lock();
        let h = (p as usize - HDR) as *mut u64;
        let base = h.read_unaligned() as usize;
        let v = h.add(1).read_unaligned();
        let magic = h.add(2).read_unaligned();
        if magic != 0xA110_CA7E_D000_0000 | (p as u64 & 0xff_ffff) {
            unlock();
            crate::fatal("memory", "free of a block that is not live (double free or corruption)");
        }
        h.add(2).write_unaligned(0);
        let a = (v >> 63) as usize;
        let class = ((v >> 32) & 0x7fff_ffff) as usize;
        let tag = (v & TAG_MASK) as u32;
        if a == 1 && tag != 0 {
            LIVE_BYTES -= l.size() as i64;
            LIVE_COUNT -= 1;
            if v & COUNTED != 0 {
                TAG_LIVE[tag as usize] = TAG_LIVE[tag as usize].saturating_sub(1);
                if event && FREE_LOG_LEN < FREE_LOG_MAX {
                    let slot = crate::slot_raw();
                    FREE_LOG[FREE_LOG_LEN] = FreeEvent {
                        tag,
                        size: l.size() as u64,
                        slot,
                        in_callback: (slot as usize) < crate::MAX_THREADS
                            && crate::MODES[slot as usize] == crate::Mode::Callback,
                        tick: crate::TICK,
                    };
                    FREE_LOG_LEN += 1;
                }
            }
        }
        *(base as *mut usize) = ARENAS[a].free[class];
        ARENAS[a].free[class] = base;
        unlock();
    }
}
