//! The seams under std: libc symbols that std calls are defined here, so in
//! this binary thread creation, joins, sleeps, futex waits, clocks and entropy
//! requested by simulated threads are decided by the simulator. Outside a run
//! (and for threads that are not simulated) they forward to libc.

use crate::*;
use libc::{c_int, c_long, c_void, clockid_t, pthread_attr_t, pthread_t, timespec};
use std::sync::atomic::{AtomicUsize, Ordering};

static mut REAL: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];

unsafe fn real(i: usize, name: &[u8]) -> usize {
    let p = REAL[i].load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
    REAL[i].store(p, Ordering::Relaxed);
    p
}

/// Raw system call that no interposition sees.
pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let ret: i64;
    std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;

struct Tramp {
    f: StartFn,
    arg: *mut c_void,
    slot: usize,
}

static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut EXIT_KEY_SET: bool = false;

unsafe extern "C" fn on_thread_exit(v: *mut c_void) {
    // Second round: every other TLS destructor has run.
    let slot = v as usize - 1;
    thread_finished(slot);
}

pub unsafe fn init_exit_key() {
    if !EXIT_KEY_SET {
        libc::pthread_key_create(&raw mut EXIT_KEY, Some(on_thread_exit));
        EXIT_KEY_SET = true;
    }
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = &*(p as *const Tramp);
        set_slot(t.slot as u32);
        wait_baton(t.slot);
        let t = Box::from_raw(p as *mut Tramp);
        libc::pthread_setspecific(EXIT_KEY, (t.slot + 1) as *const c_void);
        let (f, a) = (t.f, t.arg);
        drop(t);
        f(a)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    let rf: extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int =
        std::mem::transmute(real(0, b"pthread_create\0"));
    if !in_sim() {
        return rf(out, attr, f, arg);
    }
    init_exit_key();
    let slot = match new_slot() {
        Some(s) => s,
        None => return libc::EAGAIN,
    };
    let t = Box::into_raw(Box::new(Tramp { f, arg, slot }));
    let rc = rf(out, attr, trampoline, t as *mut c_void);
    if rc == 0 {
        publish_slot(slot, *out as u64);
        yield_point(Y_SPAWN);
    } else {
        drop(Box::from_raw(t));
        abandon_slot(slot);
    }
    rc
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, ret: *mut *mut c_void) -> c_int {
    let rf: extern "C" fn(pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(real(1, b"pthread_join\0"));
    if in_sim() {
        join_slot(t as u64);
    }
    rf(t, ret)
}

unsafe fn sim_sleep(ns: u64) {
    sleep_ns(ns);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if in_sim() {
        sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    let r = raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: clockid_t,
    flags: c_int,
    req: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if in_sim() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            let now = now_ns();
            if ns > now {
                sim_sleep(ns - now);
            }
        } else {
            sim_sleep(ns);
        }
        return 0;
    }
    -raw6(
        libc::SYS_clock_nanosleep,
        clock as usize,
        flags as usize,
        req as usize,
        rem as usize,
        0,
        0,
    ) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: clockid_t, ts: *mut timespec) -> c_int {
    if in_sim() {
        let n = crate::read_clock();
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw6(libc::SYS_clock_gettime, clock as usize, ts as usize, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        // A spinning thread must let others make progress.
        yield_other();
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    0
}

/// Standard output and error are a pipe whose reader may be slow or gone.
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if in_sim() && (fd == 1 || fd == 2) {
        return match pipe_write() {
            PipeEnd::Taken => len as isize,
            PipeEnd::Slow(ns) => {
                sim_sleep(ns);
                len as isize
            }
            PipeEnd::Gone => {
                *libc::__errno_location() = libc::EPIPE;
                -1
            }
        };
    }
    let r = raw6(libc::SYS_write, fd as usize, buf as usize, len, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if in_sim() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        entropy(b);
        return len as isize;
    }
    let r = raw6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            return futex(a, b as i32, c as u32, d as *const timespec, f as u32);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b, c as u32) as c_long;
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}

unsafe fn futex(addr: usize, op: i32, val: u32, to: *const timespec, _bits: u32) -> c_long {
    let cmd = op & 0x7f & !libc::FUTEX_CLOCK_REALTIME;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if (*(addr as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) != val {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            let deadline = if to.is_null() {
                u64::MAX
            } else {
                let ns = (*to).tv_sec as u64 * 1_000_000_000 + (*to).tv_nsec as u64;
                if cmd == libc::FUTEX_WAIT {
                    now_ns() + ns
                } else {
                    ns
                }
            };
            if block(Key::Futex(addr as u64), deadline) {
                0
            } else {
                *libc::__errno_location() = libc::ETIMEDOUT;
                -1
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            wake_n(Key::Futex(addr as u64), val as usize) as c_long
        }
        _ => {
            *libc::__errno_location() = libc::ENOSYS;
            -1
        }
    }
}
