//! Preemption between the memory accesses of the code under test.
//!
//! The build for C16 compiles fixed-map and everything generic instantiated with it under the compiler's thread
//! sanitizer instrumentation (see rustc.sh), but links no sanitizer: every access calls one of the functions
//! below. Inside code under test each atomic access and each access to writable static memory is a scheduling
//! point, and the plan places further ones by counting the accesses to memory that is not the client's own stack.
//! A client that would block on a lock gives the processor away instead; a deadlock ends the process.

use crate::ctx::{Cx, Site, CX, SCHED};
use std::sync::atomic::{fence, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

extern "C" {
    static __data_start: u8;
    static _end: u8;
    fn __errno_location() -> *mut i32;
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, a: *mut [u64; 8]) -> i32;
    fn pthread_attr_getstack(a: *const [u64; 8], lo: *mut usize, n: *mut usize) -> i32;
    fn pthread_attr_destroy(a: *mut [u64; 8]) -> i32;
}

/// Consecutive atomic accesses without progress before other clients are forced to run, and before giving up.
const SPIN: u32 = 3_000;
const LIVELOCK: u32 = 300_000;
/// Times a client may find a lock taken within one operation before giving up.
const DEADLOCK: u32 = 3_000;

/// The stack of the calling thread.
pub fn own_stack() -> (usize, usize) {
    let mut a = [0u64; 8];
    let (mut lo, mut n) = (0usize, 0usize);
    unsafe {
        if pthread_getattr_np(pthread_self(), &mut a) != 0 {
            return (0, 0);
        }
        pthread_attr_getstack(&a, &mut lo, &mut n);
        pthread_attr_destroy(&mut a);
    }
    (lo, lo + n)
}

fn give_up(what: &str) -> ! {
    eprintln!("fmsim: {what}");
    std::process::abort()
}

/// Run scheduler code in the middle of code under test.
fn outside<R>(c: &Cx, f: impl FnOnce(usize) -> R) -> R {
    c.armed.set(false);
    let r = f(c.client.get());
    c.armed.set(true);
    r
}

#[cold]
#[inline(never)]
fn plain(c: &Cx, p: usize) {
    let (lo, hi) = c.stack.get();
    if c.auditing.get() || (p >= lo && p < hi) {
        return;
    }
    c.accesses.set(c.accesses.get() + 1);
    let statics = unsafe { (&raw const __data_start) as usize..(&raw const _end) as usize };
    if statics.contains(&p) {
        outside(c, |me| SCHED.yield_at(me, Site::Memory));
        return;
    }
    match c.gap.get() {
        0 => {}
        1 => c.gap.set(outside(c, |me| SCHED.yield_gap(me))),
        n => c.gap.set(n - 1),
    }
}

#[cold]
#[inline(never)]
fn atomic(c: &Cx) {
    c.accesses.set(c.accesses.get() + 1);
    let n = c.spin.get() + 1;
    c.spin.set(n);
    if n > LIVELOCK {
        give_up("a client spins for ever");
    }
    if n > SPIN && c.one_of_many.get() {
        outside(c, |me| SCHED.force(me));
    } else if c.multi.get() {
        outside(c, |me| SCHED.yield_at(me, Site::Atomic));
    }
}

#[inline(always)]
fn rw(p: *const u8) {
    CX.with(|c| {
        if c.multi.get() && c.armed.get() {
            plain(c, p as usize);
        }
    })
}

#[inline(always)]
fn sync() {
    CX.with(|c| {
        if c.armed.get() {
            atomic(c);
        }
    })
}

macro_rules! accesses {
    ($($name:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $name(p: *const u8) { rw(p) })* };
}
accesses! {
    __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
    __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
    __tsan_vptr_read
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(p: *const u8, _: *const u8) {
    rw(p)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    rw(from);
    rw(to);
    std::ptr::copy_nonoverlapping(from, to, n);
    to
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    rw(from);
    rw(to);
    std::ptr::copy(from, to, n);
    to
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(to: *mut u8, v: i32, n: usize) -> *mut u8 {
    rw(to);
    std::ptr::write_bytes(to, v as u8, n);
    to
}

// One processor at a time runs, so every atomic access may be as strong as it gets.
macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            sync();
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            sync();
            (*p).store(v, SeqCst)
        }
        atomics!(@ $t, $a, $swap swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, c: $t, v: $t, _: i32, _: i32) -> $t {
            sync();
            (*p).compare_exchange(c, v, SeqCst, SeqCst).unwrap_or_else(|x| x)
        }
    };
    (@ $t:ty, $a:ty, $($name:ident $f:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const $a, v: $t, _: i32) -> $t {
            sync();
            (*p).$f(v, SeqCst)
        }
    )* };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    fence(SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

// ---------------------------------------------------------------- locks of the code under test

const FUTEX: i64 = 202;
const EAGAIN: i32 = 11;

/// The standard library's locks wait here (it calls libc's `syscall`, which this replaces).
/// A client that would sleep lets another one run and looks again.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == FUTEX && matches!(b & 127, 0 | 9) {
        let handled = CX.with(|x| {
            if !x.armed.get() {
                return false;
            }
            let n = x.waits.get() + 1;
            x.waits.set(n);
            if n > DEADLOCK || !x.one_of_many.get() || !outside(x, |me| SCHED.force(me)) {
                give_up("deadlock: every client waits for a lock");
            }
            true
        });
        if handled {
            *__errno_location() = EAGAIN;
            return -1;
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
