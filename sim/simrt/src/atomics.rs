//! Atomic operations of the code under test, which the compiler turns into
//! calls of these functions (LLVM's `tsan` pass with everything else of it
//! switched off): each is a point at which the scheduler may take over, so
//! that two atomic operations in a row can be separated.

use std::sync::atomic::*;

macro_rules! width {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            crate::atomic_point();
            (*p).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            crate::atomic_point();
            (*p).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _: i32) -> $t {
            crate::atomic_point();
            (*p).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const $a, v: $t, _: i32) -> $t {
            crate::atomic_point();
            (*p).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _: i32) -> $t {
            crate::atomic_point();
            (*p).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const $a, v: $t, _: i32) -> $t {
            crate::atomic_point();
            (*p).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const $a, v: $t, _: i32) -> $t {
            crate::atomic_point();
            (*p).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _: i32) -> $t {
            crate::atomic_point();
            (*p).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _: i32) -> $t {
            crate::atomic_point();
            (*p).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _: i32, _: i32) -> $t {
            crate::atomic_point();
            match (*p).compare_exchange(old, new, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(v) => v,
                Err(v) => v,
            }
        }
    };
}

width!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
width!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
width!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
width!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    fence(Ordering::SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    compiler_fence(Ordering::SeqCst);
}
