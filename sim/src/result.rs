//! What one simulated run reports, in memory shared with the parent process.

use crate::rt::{Counters, Dec};

pub const MAXDEC: usize = 100_000;
pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const HARNESS: u32 = 3;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    kind_len: u32,
    kind: [u8; 64],
    msg_len: u32,
    msg: [u8; 8000],
    pub npcs: u32,
    pub pcs: [u64; 4],
    pub ndec: u32,
    pub c: Counters,
    pub hash: u64,
    pub cov: u64,
    pub stats: [u64; 32],
    pub dec: [Dec; MAXDEC],
}

static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}
pub fn map() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SH = p as *mut Shared;
    }
}
pub fn clear() {
    let s = sh();
    s.status = 0;
    s.kind_len = 0;
    s.msg_len = 0;
    s.npcs = 0;
    s.ndec = 0;
    s.c = Counters::default();
    s.hash = 0;
    s.cov = 0;
    s.stats = [0; 32];
}
pub fn kind() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.kind[..s.kind_len as usize]).into_owned()
}
pub fn msg() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned()
}
fn put(status: u32, kind: &str, msg: &str, pcs: &[u64]) {
    let s = sh();
    let n = kind.len().min(64);
    s.kind[..n].copy_from_slice(&kind.as_bytes()[..n]);
    s.kind_len = n as u32;
    let n = msg.len().min(8000);
    s.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
    s.msg_len = n as u32;
    s.npcs = pcs.len() as u32;
    s.pcs[..pcs.len()].copy_from_slice(pcs);
    flush();
    s.status = status;
}
/// Copy the runtime's counters and decision list out.
pub fn flush() {
    let s = sh();
    if crate::rt::rt_ready() {
        let r = crate::rt::rt();
        s.c = r.c;
        s.c.vtime_ns = r.now - 1_000_000_000;
        s.hash = r.hash;
        s.cov = r.cov;
        if r.trace {
            crate::dump_trace();
        }
    }
}
fn exit_now() -> ! {
    unsafe {
        libc::syscall(libc::SYS_exit_group, 0);
    }
    loop {}
}
pub fn violate(kind: &str, msg: &str) -> ! {
    violate_at(kind, msg, &[])
}
pub fn violate_at(kind: &str, msg: &str, pcs: &[u64]) -> ! {
    unsafe {
        crate::rt::ACTIVE = false;
        crate::rt::ARENA_ON = false;
    }
    put(VIOLATION, kind, msg, pcs);
    exit_now()
}
pub fn harness_error(msg: &str) -> ! {
    unsafe {
        crate::rt::ACTIVE = false;
        crate::rt::ARENA_ON = false;
    }
    put(HARNESS, "harness", msg, &[]);
    exit_now()
}
pub fn ok() -> ! {
    flush();
    sh().status = OK;
    exit_now()
}

/// Code locations reached, shared by all workers: one byte per address of the program text.
/// Bit 0: executed while simulated; bit 1: another thread took over there.
const TEXT: usize = 0x20_0000;
const TEXTLEN: usize = 16 << 20;
static mut SITES: *mut u8 = std::ptr::null_mut();
pub fn map_sites() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            TEXTLEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SITES = p as *mut u8;
    }
}
#[inline(always)]
pub fn site(pc: u32, bit: u8) {
    let i = (pc as usize).wrapping_sub(TEXT);
    if i < TEXTLEN {
        unsafe {
            let b = SITES.add(i);
            if *b & bit == 0 {
                *b |= bit;
            }
        }
    }
}
pub fn sites() -> (Vec<u64>, Vec<u64>) {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    for i in 0..TEXTLEN {
        let v = unsafe { *SITES.add(i) };
        if v & 1 != 0 {
            a.push((i + TEXT) as u64);
        }
        if v & 2 != 0 {
            b.push((i + TEXT) as u64);
        }
    }
    (a, b)
}
