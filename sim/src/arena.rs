//! Deterministic allocator for the code under simulation, with object lifetimes tracked.

use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x10_0000_0000;
pub const SIZE: usize = 256 << 20;
const STATE: usize = 0x20_0000_0000; // SIZE/16 bytes
const SHADOW: usize = 0x30_0000_0000; // SIZE*4 bytes

pub const NEVER: u8 = 0;
pub const FREED: u8 = 1;
pub const LIVE: u8 = 2;

pub struct Alloc;

pub struct Ar {
    top: usize,
    pub reuse: bool,
    free: Vec<Vec<usize>>, // by rounded size / 16
    pub live_blocks: usize,
    pub live_bytes: usize,
    pub log: Vec<(usize, usize)>,
    /// (address, alignment) of blocks aligned beyond 16
    pub wide: Vec<(usize, usize)>,
}
static mut AR: Option<Ar> = None;

#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Ar {
    unsafe { AR.as_mut().unwrap() }
}

/// Reserve the address ranges (once, before forking).
pub fn map() {
    unsafe {
        for (a, n) in [(BASE, SIZE), (STATE, SIZE / 16), (SHADOW, SIZE * 4)] {
            let p = libc::mmap(
                a as *mut _,
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            if p as usize != a {
                eprintln!("msim: cannot map the arena at {a:#x}");
                std::process::exit(2);
            }
        }
    }
}
pub fn reset(reuse: bool) {
    unsafe {
        AR = Some(Ar { top: BASE + 4096, reuse, free: vec![Vec::new(); 1025], live_blocks: 0, live_bytes: 0, log: Vec::new(), wide: Vec::new() })
    };
}

#[inline(always)]
pub fn contains(a: usize) -> bool {
    a.wrapping_sub(BASE) < SIZE
}
#[inline(always)]
pub fn state(a: usize) -> u8 {
    unsafe { *((STATE + (a - BASE) / 16) as *const u8) }
}
fn set_state(a: usize, len: usize, s: u8) {
    let lo = (a - BASE) / 16;
    let hi = (a + len - 1 - BASE) / 16;
    unsafe { std::ptr::write_bytes((STATE + lo) as *mut u8, s, hi - lo + 1) };
}
#[inline(always)]
pub fn shadow(word: usize) -> &'static mut [u64; 4] {
    unsafe { &mut *((SHADOW + (word - BASE) * 4) as *mut [u64; 4]) }
}

pub fn describe(a: usize) -> String {
    let r = ar();
    // find the block
    let mut best = None;
    for &(b, n) in r.log.iter().rev() {
        if a >= b && a < b + n {
            best = Some((b, n));
            break;
        }
    }
    match best {
        Some((b, n)) => format!("offset {} of a {}-byte block{}", a - b, n, if state(a) == FREED { " (freed)" } else { "" }),
        None => "unallocated arena memory".to_string(),
    }
}

fn round(n: usize) -> usize {
    // at least one untracked granule between blocks
    (n + 15) / 16 * 16 + 16
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let r = ar();
    let n = l.size().max(1);
    let rs = round(n);
    let al = l.align().max(16);
    let mut p = 0;
    let sim = crate::rt::rt_ready();
    if r.reuse && al == 16 && rs / 16 < r.free.len() {
        if let Some(a) = r.free[rs / 16].pop() {
            p = a;
            if sim {
                let g = crate::rt::rt();
                g.c.reused += 1;
                let vc = g.free_vc.remove(&a);
                if let Some(v) = vc {
                    let me = g.cur;
                    g.th[me].vc.join(&v);
                }
                g.forget(a, a + rs);
            }
            // fresh object: nobody's earlier accesses count
            unsafe { std::ptr::write_bytes((SHADOW + (a - BASE) * 4) as *mut u8, 0, rs * 4) };
        }
    }
    if p == 0 {
        p = (r.top + al - 1) / al * al;
        r.top = p + rs;
        if r.top > BASE + SIZE {
            crate::result::violate("runaway-memory", "the simulated process used up 256 MiB although every run needs far less");
        }
    }
    set_state(p, n, LIVE);
    r.live_blocks += 1;
    r.live_bytes += n;
    r.log.push((p, n));
    if l.align() > 16 {
        r.wide.push((p, l.align()));
    }
    if sim {
        crate::rt::rt().c.allocs += 1;
    }
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: Layout, simulated: bool) {
    let a = p as usize;
    let n = l.size().max(1);
    let r = ar();
    if state(a) != LIVE || state(a + n - 1) != LIVE {
        crate::result::violate("double-free", &format!("free of {} bytes at {}", n, describe(a)));
    }
    if simulated {
        // freeing conflicts with every unordered access to the block
        let g = crate::rt::rt();
        let mut x = a;
        while x < a + n {
            let k = (a + n - x).min(8 - (x & 7));
            g.access(x, k, true, false, 0xfff0);
            x += k;
        }
    }
    set_state(a, n, FREED);
    r.live_blocks -= 1;
    r.live_bytes -= n;
    if crate::rt::rt_ready() {
        let g = crate::rt::rt();
        g.c.frees += 1;
        if r.reuse {
            let me = g.cur;
            g.free_vc.insert(a, g.th[me].vc);
        }
    }
    // poison, so uninstrumented readers see garbage too
    unsafe { std::ptr::write_bytes(p, 0xdb, n) };
    if r.reuse && l.align() <= 16 && round(n) / 16 < r.free.len() {
        r.free[round(n) / 16].push(a);
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if crate::rt::ARENA_ON {
                crate::rt::ARENA_ON = false;
                let act = crate::rt::ACTIVE;
                crate::rt::ACTIVE = false;
                let p = arena_alloc(l);
                crate::rt::ACTIVE = act;
                crate::rt::ARENA_ON = true;
                p
            } else {
                System.alloc(l)
            }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if contains(p as usize) {
                let on = crate::rt::ARENA_ON;
                let act = crate::rt::ACTIVE;
                crate::rt::ARENA_ON = false;
                crate::rt::ACTIVE = false;
                arena_free(p, l, act);
                crate::rt::ACTIVE = act;
                crate::rt::ARENA_ON = on;
            } else {
                System.dealloc(p, l)
            }
        }
    }
}
