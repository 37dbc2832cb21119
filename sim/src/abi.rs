//! The `__tsan_*` entry points the compiler inserts, and the wrapped libc functions.

use crate::rt::{ACTIVE, active, rd, rt, wr};
use std::arch::global_asm;

#[unsafe(no_mangle)]
pub static mut SIM_PC: u64 = 0;

#[inline(always)]
fn pc() -> u32 {
    unsafe { SIM_PC as u32 }
}

macro_rules! shim {
    ($($name:literal => $target:literal;)*) => {
        $(global_asm!(
            concat!(".globl ", $name),
            concat!(".type ", $name, ",@function"),
            concat!($name, ":"),
            "mov rax, qword ptr [rsp]",
            "mov qword ptr [rip + SIM_PC], rax",
            concat!("jmp ", $target),
        );)*
    };
}

macro_rules! plain {
    ($($f:ident $n:literal $w:literal;)*) => {
        $(#[unsafe(no_mangle)]
        extern "C" fn $f(a: usize) {
            if !active() { return; }
            let p = pc();
            unsafe { ACTIVE = false };
            rt().range(a, $n, $w, p);
            unsafe { ACTIVE = true };
        })*
    };
}
plain! {
    sim_read1 1 false; sim_read2 2 false; sim_read4 4 false; sim_read8 8 false; sim_read16 16 false;
    sim_write1 1 true; sim_write2 2 true; sim_write4 4 true; sim_write8 8 true; sim_write16 16 true;
}
shim! {
    "__tsan_read1" => "sim_read1"; "__tsan_read2" => "sim_read2"; "__tsan_read4" => "sim_read4";
    "__tsan_read8" => "sim_read8"; "__tsan_read16" => "sim_read16";
    "__tsan_write1" => "sim_write1"; "__tsan_write2" => "sim_write2"; "__tsan_write4" => "sim_write4";
    "__tsan_write8" => "sim_write8"; "__tsan_write16" => "sim_write16";
    "__tsan_unaligned_read2" => "sim_read2"; "__tsan_unaligned_read4" => "sim_read4";
    "__tsan_unaligned_read8" => "sim_read8"; "__tsan_unaligned_read16" => "sim_read16";
    "__tsan_unaligned_write2" => "sim_write2"; "__tsan_unaligned_write4" => "sim_write4";
    "__tsan_unaligned_write8" => "sim_write8"; "__tsan_unaligned_write16" => "sim_write16";
    "__tsan_read1_pc" => "sim_read1";
    "__tsan_vptr_update" => "sim_write8"; "__tsan_vptr_read" => "sim_read8";
    "__tsan_memcpy" => "sim_memcpy"; "__tsan_memmove" => "sim_memmove"; "__tsan_memset" => "sim_memset";
    "__tsan_read_range" => "sim_read_range"; "__tsan_write_range" => "sim_write_range";
    "__tsan_atomic_thread_fence" => "sim_thread_fence";
}

#[unsafe(no_mangle)]
extern "C" fn __tsan_init() {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_func_entry(_pc: usize) {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_func_exit() {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_ignore_thread_begin() {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_ignore_thread_end() {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}

#[inline(always)]
fn with<R>(f: impl FnOnce() -> R) -> R {
    // the simulator's own allocations stay out of the arena
    unsafe {
        ACTIVE = false;
        crate::rt::ARENA_ON = false;
    }
    let r = f();
    unsafe {
        ACTIVE = true;
        crate::rt::ARENA_ON = true;
    }
    r
}

#[unsafe(no_mangle)]
extern "C" fn sim_thread_fence(mo: i32) {
    if active() {
        with(|| rt().a_fence(mo));
    } else {
        std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
    }
}
#[unsafe(no_mangle)]
extern "C" fn sim_read_range(a: usize, n: usize) {
    if active() {
        let p = pc();
        with(|| rt().range(a, n, false, p));
    }
}
#[unsafe(no_mangle)]
extern "C" fn sim_write_range(a: usize, n: usize) {
    if active() {
        let p = pc();
        with(|| rt().range(a, n, true, p));
    }
}
#[unsafe(no_mangle)]
extern "C" fn sim_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if active() {
        let p = pc();
        with(|| {
            rt().range(s as usize, n, false, p);
            rt().range(d as usize, n, true, p);
        });
    }
    unsafe { std::ptr::copy_nonoverlapping(s, d, n) };
    d
}
#[unsafe(no_mangle)]
extern "C" fn sim_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if active() {
        let p = pc();
        with(|| {
            rt().range(s as usize, n, false, p);
            rt().range(d as usize, n, true, p);
        });
    }
    unsafe { std::ptr::copy(s, d, n) };
    d
}
#[unsafe(no_mangle)]
extern "C" fn sim_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    if active() {
        let p = pc();
        with(|| rt().range(d as usize, n, true, p));
    }
    unsafe { std::ptr::write_bytes(d, v as u8, n) };
    d
}

macro_rules! atomics {
    ($($bits:literal $t:ty: $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => {
        $(
        #[unsafe(no_mangle)]
        extern "C" fn $load(a: *const $t, mo: i32) -> $t {
            let n = size_of::<$t>();
            unsafe {
                if !active() { return rd(a as usize, n) as $t; }
                let p = pc();
                with(|| rt().a_load(a as usize, n, mo, p)) as $t
            }
        }
        #[unsafe(no_mangle)]
        extern "C" fn $store(a: *mut $t, v: $t, mo: i32) {
            let n = size_of::<$t>();
            unsafe {
                if !active() { wr(a as usize, n, v as u128); return; }
                let p = pc();
                with(|| rt().a_store(a as usize, n, v as u128, mo, p))
            }
        }
        #[unsafe(no_mangle)]
        extern "C" fn $xchg(a: *mut $t, v: $t, mo: i32) -> $t { rmw(a, mo, move |_| v) }
        #[unsafe(no_mangle)]
        extern "C" fn $add(a: *mut $t, v: $t, mo: i32) -> $t { rmw(a, mo, move |o: $t| o.wrapping_add(v)) }
        #[unsafe(no_mangle)]
        extern "C" fn $sub(a: *mut $t, v: $t, mo: i32) -> $t { rmw(a, mo, move |o: $t| o.wrapping_sub(v)) }
        #[unsafe(no_mangle)]
        extern "C" fn $and(a: *mut $t, v: $t, mo: i32) -> $t { rmw(a, mo, move |o: $t| o & v) }
        #[unsafe(no_mangle)]
        extern "C" fn $or(a: *mut $t, v: $t, mo: i32) -> $t { rmw(a, mo, move |o: $t| o | v) }
        #[unsafe(no_mangle)]
        extern "C" fn $xor(a: *mut $t, v: $t, mo: i32) -> $t { rmw(a, mo, move |o: $t| o ^ v) }
        #[unsafe(no_mangle)]
        extern "C" fn $nand(a: *mut $t, v: $t, mo: i32) -> $t { rmw(a, mo, move |o: $t| !(o & v)) }
        #[unsafe(no_mangle)]
        extern "C" fn $cas(a: *mut $t, exp: $t, new: $t, mo: i32, fmo: i32) -> $t {
            let n = size_of::<$t>();
            unsafe {
                if !active() {
                    let o = rd(a as usize, n) as $t;
                    if o == exp { wr(a as usize, n, new as u128); }
                    return o;
                }
                let p = pc();
                with(|| rt().a_cas(a as usize, n, exp as u128, new as u128, mo, fmo, p)) as $t
            }
        }
        )*
    };
}
trait Word: Copy {
    fn to(self) -> u128;
    fn from(v: u128) -> Self;
}
macro_rules! words { ($($t:ty)*) => { $(impl Word for $t {
    #[inline(always)] fn to(self) -> u128 { self as u128 }
    #[inline(always)] fn from(v: u128) -> Self { v as $t }
})* } }
words!(u8 u16 u32 u64 u128);

#[inline(always)]
fn rmw<T: Word>(a: *mut T, mo: i32, f: impl FnOnce(T) -> T) -> T {
    let n = size_of::<T>();
    unsafe {
        if !active() {
            let o = T::from(rd(a as usize, n));
            wr(a as usize, n, f(o).to());
            return o;
        }
        let p = pc();
        T::from(with(|| rt().a_rmw(a as usize, n, mo, p, |o| f(T::from(o)).to())))
    }
}
atomics! {
    8 u8: sim_a8_load sim_a8_store sim_a8_xchg sim_a8_add sim_a8_sub sim_a8_and sim_a8_or sim_a8_xor sim_a8_nand sim_a8_cas;
    16 u16: sim_a16_load sim_a16_store sim_a16_xchg sim_a16_add sim_a16_sub sim_a16_and sim_a16_or sim_a16_xor sim_a16_nand sim_a16_cas;
    32 u32: sim_a32_load sim_a32_store sim_a32_xchg sim_a32_add sim_a32_sub sim_a32_and sim_a32_or sim_a32_xor sim_a32_nand sim_a32_cas;
    64 u64: sim_a64_load sim_a64_store sim_a64_xchg sim_a64_add sim_a64_sub sim_a64_and sim_a64_or sim_a64_xor sim_a64_nand sim_a64_cas;
    128 u128: sim_a128_load sim_a128_store sim_a128_xchg sim_a128_add sim_a128_sub sim_a128_and sim_a128_or sim_a128_xor sim_a128_nand sim_a128_cas;
}
shim! {
    "__tsan_atomic8_load" => "sim_a8_load";
    "__tsan_atomic8_store" => "sim_a8_store";
    "__tsan_atomic8_exchange" => "sim_a8_xchg";
    "__tsan_atomic8_fetch_add" => "sim_a8_add";
    "__tsan_atomic8_fetch_sub" => "sim_a8_sub";
    "__tsan_atomic8_fetch_and" => "sim_a8_and";
    "__tsan_atomic8_fetch_or" => "sim_a8_or";
    "__tsan_atomic8_fetch_xor" => "sim_a8_xor";
    "__tsan_atomic8_fetch_nand" => "sim_a8_nand";
    "__tsan_atomic8_compare_exchange_val" => "sim_a8_cas";
    "__tsan_atomic16_load" => "sim_a16_load";
    "__tsan_atomic16_store" => "sim_a16_store";
    "__tsan_atomic16_exchange" => "sim_a16_xchg";
    "__tsan_atomic16_fetch_add" => "sim_a16_add";
    "__tsan_atomic16_fetch_sub" => "sim_a16_sub";
    "__tsan_atomic16_fetch_and" => "sim_a16_and";
    "__tsan_atomic16_fetch_or" => "sim_a16_or";
    "__tsan_atomic16_fetch_xor" => "sim_a16_xor";
    "__tsan_atomic16_fetch_nand" => "sim_a16_nand";
    "__tsan_atomic16_compare_exchange_val" => "sim_a16_cas";
    "__tsan_atomic32_load" => "sim_a32_load";
    "__tsan_atomic32_store" => "sim_a32_store";
    "__tsan_atomic32_exchange" => "sim_a32_xchg";
    "__tsan_atomic32_fetch_add" => "sim_a32_add";
    "__tsan_atomic32_fetch_sub" => "sim_a32_sub";
    "__tsan_atomic32_fetch_and" => "sim_a32_and";
    "__tsan_atomic32_fetch_or" => "sim_a32_or";
    "__tsan_atomic32_fetch_xor" => "sim_a32_xor";
    "__tsan_atomic32_fetch_nand" => "sim_a32_nand";
    "__tsan_atomic32_compare_exchange_val" => "sim_a32_cas";
    "__tsan_atomic64_load" => "sim_a64_load";
    "__tsan_atomic64_store" => "sim_a64_store";
    "__tsan_atomic64_exchange" => "sim_a64_xchg";
    "__tsan_atomic64_fetch_add" => "sim_a64_add";
    "__tsan_atomic64_fetch_sub" => "sim_a64_sub";
    "__tsan_atomic64_fetch_and" => "sim_a64_and";
    "__tsan_atomic64_fetch_or" => "sim_a64_or";
    "__tsan_atomic64_fetch_xor" => "sim_a64_xor";
    "__tsan_atomic64_fetch_nand" => "sim_a64_nand";
    "__tsan_atomic64_compare_exchange_val" => "sim_a64_cas";
    "__tsan_atomic128_load" => "sim_a128_load";
    "__tsan_atomic128_store" => "sim_a128_store";
    "__tsan_atomic128_exchange" => "sim_a128_xchg";
    "__tsan_atomic128_fetch_add" => "sim_a128_add";
    "__tsan_atomic128_fetch_sub" => "sim_a128_sub";
    "__tsan_atomic128_fetch_and" => "sim_a128_and";
    "__tsan_atomic128_fetch_or" => "sim_a128_or";
    "__tsan_atomic128_fetch_xor" => "sim_a128_xor";
    "__tsan_atomic128_fetch_nand" => "sim_a128_nand";
    "__tsan_atomic128_compare_exchange_val" => "sim_a128_cas";
}

// ------------------------------------------------------------------ wrapped libc

unsafe extern "C" {
    fn __real_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64;
    fn __real_sched_yield() -> i32;
    fn __real_nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32;
    fn __real_clock_nanosleep(c: i32, f: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32;
    fn __real_clock_gettime(c: i32, t: *mut libc::timespec) -> i32;
    fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}
fn ns(t: *const libc::timespec) -> u64 {
    unsafe { ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64) }
}
fn errno(e: i32) -> i64 {
    unsafe { *libc::__errno_location() = e };
    -1
}

#[unsafe(no_mangle)]
extern "C" fn __wrap_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_membarrier {
        // supported on every simulated machine
        if active() && a != 0 {
            with(|| rt().membarrier());
        }
        return if a == 0 { 0x1ff } else { 0 };
    }
    if !active() {
        return unsafe { __real_syscall(n, a, b, c, d, e, f) };
    }
    if n == libc::SYS_futex {
        let op = b as i32 & 0x7f;
        return with(|| {
            let r = rt();
            match op {
                0 | 9 => {
                    let dl = if d == 0 {
                        u64::MAX
                    } else if op == 0 {
                        r.now + ns(d as *const _)
                    } else {
                        ns(d as *const _)
                    };
                    match r.futex_wait(a as usize, c as u32, dl) {
                        0 => 0,
                        e => errno(e),
                    }
                }
                1 | 10 => r.futex_wake(a as usize, c as usize) as i64,
                _ => crate::result::harness_error("unsupported futex operation"),
            }
        });
    }
    unsafe { __real_syscall(n, a, b, c, d, e, f) }
}
#[unsafe(no_mangle)]
extern "C" fn __wrap_sched_yield() -> i32 {
    if active() {
        with(|| rt().sched_yield());
        return 0;
    }
    unsafe { __real_sched_yield() }
}
#[unsafe(no_mangle)]
extern "C" fn __wrap_nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if active() {
        with(|| rt().sleep(ns(a)));
        return 0;
    }
    unsafe { __real_nanosleep(a, b) }
}
#[unsafe(no_mangle)]
extern "C" fn __wrap_clock_nanosleep(c: i32, f: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if active() {
        with(|| {
            let r = rt();
            let t = ns(a);
            let d = if f & 1 == 1 { t.saturating_sub(r.now) } else { t };
            r.sleep(d);
        });
        return 0;
    }
    unsafe { __real_clock_nanosleep(c, f, a, b) }
}
#[unsafe(no_mangle)]
extern "C" fn __wrap_clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    if active() {
        let r = rt();
        r.now += 50;
        unsafe {
            (*t).tv_sec = (r.now / 1_000_000_000) as i64;
            (*t).tv_nsec = (r.now % 1_000_000_000) as i64;
        }
        return 0;
    }
    unsafe { __real_clock_gettime(c, t) }
}
shim! { "__wrap_memcmp" => "sim_memcmp"; "__wrap_bcmp" => "sim_bcmp"; }
#[unsafe(no_mangle)]
extern "C" fn sim_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    if active() {
        let p = pc();
        with(|| {
            rt().range(a as usize, n, false, p);
            rt().range(b as usize, n, false, p);
        });
    }
    unsafe { __real_memcmp(a, b, n) }
}
#[unsafe(no_mangle)]
extern "C" fn sim_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    if active() {
        let p = pc();
        with(|| {
            rt().range(a as usize, n, false, p);
            rt().range(b as usize, n, false, p);
        });
    }
    unsafe { __real_bcmp(a, b, n) }
}
