//! The simulator runtime: scheduler, memory model, race and lifetime detector.
//!
//! The code under simulation is compiled with the thread-sanitizer pass, so each of its
//! memory accesses is a call to one of the `__tsan_*` functions in `abi.rs`, which end up
//! here. Exactly one simulated thread holds the token at any time; before every visible
//! operation the scheduler may take the token away and give it to another thread. All
//! choices come from one seeded generator or, in replay, from a recorded decision list.

use crate::arena;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 10; // main + 9 simulated threads
const HIST: usize = 8;

// ------------------------------------------------------------------ PRNG

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Steps until the next event with mean `m`.
    pub fn geo(&mut self, m: u64) -> u64 {
        if m <= 1 {
            return 1;
        }
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        let v = (1.0 - u).ln() / (1.0 - 1.0 / m as f64).ln();
        (v as u64).min(m * 40) + 1
    }
}

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v).wrapping_mul(0x9fb2_1c65_1e98_df25);
    x ^ (x >> 29)
}

// ------------------------------------------------------------------ clocks

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct VC(pub [u32; MAXT]);
impl VC {
    pub const ZERO: VC = VC([0; MAXT]);
    #[inline]
    pub fn join(&mut self, o: &VC) {
        for i in 0..MAXT {
            if o.0[i] > self.0[i] {
                self.0[i] = o.0[i];
            }
        }
    }
    pub fn le(&self, o: &VC) -> bool {
        (0..MAXT).all(|i| self.0[i] <= o.0[i])
    }
}

// ------------------------------------------------------------------ configuration

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Base {
    /// Preempt with mean interval `mean` steps, uniformly chosen target.
    Walk { mean: u64 },
    /// Random priorities with `depth` priority change points spread over `est` steps.
    Pct { depth: u32, est: u64 },
    /// Preempt with probability 1/2 at a random subset of code sites; otherwise rarely.
    Sites { mask: u64, salt: u64, mean: u64 },
    /// One thread gets on in short slices of mean length `slice` (0: up to the next of a few places in the code), with everyone else running for
    /// mean length `mean` in between: it meets a changed world again and again.
    Starve { victim: u8, slice: u64, mean: u64 },
    /// Follow the decision list of a replay file only.
    Replay,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct SchedCfg {
    pub seed: u64,
    pub base: Base,
    /// Preempt only right before writes / read-modify-writes.
    pub store_bias: bool,
    /// Thread stalls: (mean gap in steps, max length in steps); 0 = off.
    pub stall_gap: u64,
    pub stall_len: u64,
    /// Stall the n-th execution of any site in the selected class: (salt, class, nth, length).
    pub site_stall: Option<(u64, u64, u64, u64)>,
    /// Weak memory: loads may return older values the memory model still allows,
    /// with probability 1/stale per load; 0 = sequentially consistent memory.
    pub stale: u64,
    /// Mean length in steps of a window in which a thread's loads all lag behind; 0: each load
    /// decides for itself.
    pub lag: u64,
    /// Loads never return a value overwritten longer than this many steps ago.
    pub horizon: u64,
    /// Treat operation boundaries as synchronisation between all threads.
    pub sync_ops: bool,
    /// Freed memory is reused at once instead of never.
    pub reuse: bool,
    /// Report data races.
    pub races: bool,
    /// Mean gap in steps between jumps of the virtual clock; 0 = off.
    pub clock_jump: u64,
    /// Probability 1/n of a spurious wake-up when a thread blocks; 0 = off.
    pub spurious: u64,
    /// After this many steps scheduling becomes fair and faults stop.
    pub fair_after: u64,
    /// Progress bound: steps allowed after that.
    pub cap_after_fair: u64,
    /// Stop a thread for good inside one of its lookups: (thread, operation, after that many steps
    /// (or right after that many atomic writes) within it, count writes). It goes on only when
    /// every other thread has finished.
    #[serde(default)]
    pub freeze: Option<(u8, u16, u32, bool)>,
    /// Suspend whichever thread is about to make the n-th atomic write for that many steps, even if
    /// all others can do meanwhile is to wait for it.
    #[serde(default)]
    pub long_stall: Option<(u64, u64)>,
}

/// A recorded non-default choice: thread, its local step, what, value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Dec {
    pub tid: u8,
    pub kind: u8,
    /// Index of the operation in the thread's program, and step within that operation.
    pub op: u16,
    pub step: u32,
    pub val: u32,
}
pub const D_SWITCH: u8 = 0;
pub const D_STALE: u8 = 1;
pub const D_JUMP: u8 = 2;
pub const D_SPUR: u8 = 3;
pub const D_STALL: u8 = 4;

// ------------------------------------------------------------------ state

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Fresh,
    Run,
    Blocked,
    Done,
}

#[derive(Clone, Copy)]
struct SpinEnt {
    pc: u32,
    addr: usize,
    val: u64,
    count: u32,
    stores: u32,
}

pub struct Thr {
    pub fut: AtomicU32,
    pub st: St,
    wait_addr: usize,
    deadline: u64,
    timed_out: bool,
    pub vc: VC,
    relf: VC,
    acq: VC,
    /// Step of the last sequentially consistent fence.
    fence_at: u64,
    lag_until: u64,
    pub steps: u32,
    op: u16,
    prio: i64,
    stall_until: u64,
    /// Not to be run before this step, unless nobody else can.
    asleep_until: u64,
    spin: [SpinEnt; 16],
    stores: u32,
    /// An override for the next load decision etc.
    pub ops_done: u32,
    in_op: bool,
    adding: bool,
    op_since: u64,
    add_end: u64,
}

struct Ent {
    val: u128,
    tid: u8,
    clk: u32,
    rel: VC,
    seen: [u32; MAXT],
    at: u64,
    sc: bool,
}
struct Loc {
    addr: usize,
    size: u8,
    hist: Vec<Ent>,
}

#[derive(Default, Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
#[repr(C)]
pub struct Counters {
    pub steps: u64,
    pub atomics: u64,
    pub plains: u64,
    pub preempts: u64,
    pub forced: u64,
    pub spin_yields: u64,
    pub stalls: u64,
    pub site_stalls: u64,
    pub long_stalls: u64,
    pub stale_loads: u64,
    pub weak_loads: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spurious: u64,
    pub clock_jumps: u64,
    pub timeouts: u64,
    pub membarriers: u64,
    pub reused: u64,
    pub allocs: u64,
    pub frees: u64,
    pub vtime_ns: u64,
    pub fair_entered: u64,
    pub respawns: u64,
    pub yields: u64,
    /// Threads stopped for good inside a lookup.
    pub frozen: u64,
}

pub struct Rt {
    pub cfg: SchedCfg,
    pub rng: Rng,
    pub th: Vec<Thr>,
    pub n: usize,
    pub cur: usize,
    pub seq: u64,
    pub hash: u64,
    pub cov: u64,
    next_preempt: u64,
    next_stall: u64,
    /// Atomic writes until the long stall.
    long_in: u64,
    next_jump: u64,
    change: Vec<u64>,
    low: i64,
    site_hits: u64,
    last_progress: u64,
    sc: VC,
    sync: VC,
    pub now: u64,
    pub c: Counters,
    locs: Vec<Loc>,
    ltab: Vec<u32>,
    pub replay: Vec<Vec<Dec>>,
    rpos: Vec<usize>,
    is_replay: bool,
    /// Only the main thread is left.
    quiet: bool,
    pub free_vc: std::collections::HashMap<usize, VC, BH>,
    pub trace: bool,
    pub tlog: Vec<(u8, u32, u8, u32, u64, u64)>,
    pub switch_pairs: Vec<u64>,
    last_pc: u32,
    /// Thread to be stopped for good once it has made that many steps in this operation.
    armed: Option<(usize, u32, bool)>,
    frozen: usize,
    frozen_writer: bool,
    /// Blocks of memory touched, while wanted.
    pub path: Option<Vec<usize>>,
}

#[derive(Default, Clone)]
pub struct BH;
impl std::hash::BuildHasher for BH {
    type Hasher = FH;
    fn build_hasher(&self) -> FH {
        FH(0)
    }
}
pub struct FH(u64);
impl std::hash::Hasher for FH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0, *x as u64);
        }
    }
    fn write_usize(&mut self, v: usize) {
        self.0 = mix(self.0, v as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = mix(self.0, v);
    }
}

struct Glob(UnsafeCell<*mut Rt>);
unsafe impl Sync for Glob {}
static RT: Glob = Glob(UnsafeCell::new(std::ptr::null_mut()));

#[thread_local]
pub static mut ACTIVE: bool = false;
#[thread_local]
pub static mut TID: usize = 0;
/// Allocation goes to the arena although accesses are not simulated (prefill, audit).
#[thread_local]
pub static mut ARENA_ON: bool = false;

#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
#[inline(always)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut **RT.0.get() }
}
pub fn rt_ready() -> bool {
    unsafe { !(*RT.0.get()).is_null() }
}

fn fresh_thr() -> Thr {
    Thr {
        fut: AtomicU32::new(0),
        st: St::Fresh,
        wait_addr: 0,
        deadline: u64::MAX,
        timed_out: false,
        vc: VC::ZERO,
        relf: VC::ZERO,
        acq: VC::ZERO,
        fence_at: 0,
        lag_until: 0,
        steps: 0,
        op: 0,
        prio: 0,
        stall_until: 0,
        asleep_until: 0,
        spin: [SpinEnt { pc: 0, addr: 0, val: 0, count: 0, stores: 0 }; 16],
        stores: 0,
        ops_done: 0,
        in_op: false,
        adding: false,
        op_since: 0,
        add_end: 0,
    }
}

pub fn init(cfg: SchedCfg, n: usize, decisions: &[Dec], trace: bool) {
    assert!(n < MAXT);
    let mut rng = Rng::new(cfg.seed ^ 0x5ced);
    let mut th: Vec<Thr> = (0..=n).map(|_| fresh_thr()).collect();
    for (i, t) in th.iter_mut().enumerate() {
        t.vc.0[i] = 1;
        t.vc.0[0] = t.vc.0[0].max(1);
        t.prio = 1000 + rng.below(1_000_000) as i64;
    }
    let is_replay = cfg.base == Base::Replay;
    let mut replay: Vec<Vec<Dec>> = vec![Vec::new(); n + 1];
    for d in decisions {
        if (d.tid as usize) <= n {
            replay[d.tid as usize].push(*d);
        }
    }
    for r in &mut replay {
        r.sort_by_key(|d| (d.op, d.step));
    }
    let mut change = Vec::new();
    if let Base::Pct { depth, est } = cfg.base {
        for _ in 0..depth {
            change.push(rng.below(est.max(1)) + 1);
        }
        change.sort_unstable();
    }
    let next_preempt = match cfg.base {
        Base::Walk { mean } | Base::Sites { mean, .. } | Base::Starve { mean, .. } => rng.geo(mean),
        _ => u64::MAX,
    };
    let long_in = cfg.long_stall.map_or(0, |l| l.0);
    let next_stall = if cfg.stall_gap > 0 { rng.geo(cfg.stall_gap) } else { u64::MAX };
    let next_jump = if cfg.clock_jump > 0 { rng.geo(cfg.clock_jump) } else { u64::MAX };
    let r = Rt {
        cfg,
        rng,
        th,
        n,
        cur: 0,
        seq: 0,
        hash: 0,
        cov: 0,
        next_preempt,
        next_stall,
        long_in,
        next_jump,
        change,
        low: 900,
        site_hits: 0,
        last_progress: 0,
        sc: VC::ZERO,
        sync: VC::ZERO,
        now: 1_000_000_000,
        c: Counters::default(),
        locs: Vec::with_capacity(4096),
        ltab: vec![0; 1 << 13],
        replay,
        rpos: vec![0; n + 1],
        is_replay,
        quiet: false,
        free_vc: Default::default(),
        trace,
        tlog: Vec::new(),
        switch_pairs: Vec::new(),
        last_pc: 0,
        armed: None,
        frozen: 0,
        frozen_writer: false,
        path: None,
    };
    unsafe { *RT.0.get() = Box::into_raw(Box::new(r)) };
}

// ------------------------------------------------------------------ token passing

fn futex_raw(addr: *const u32, op: i32, val: u32) {
    unsafe {
        let mut _ret: i64;
        std::arch::asm!("syscall", inlateout("rax") 202i64 => _ret,
            in("rdi") addr, in("rsi") op as i64, in("rdx") val as i64,
            in("r10") 0i64, in("r8") 0i64, in("r9") 0i64,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
}

fn give(to: usize) {
    let r = rt();
    r.cur = to;
    let f = &r.th[to].fut as *const AtomicU32;
    unsafe {
        (*f).store(1, Ordering::Release);
        futex_raw(f as *const u32, 129, 1);
    }
}
pub fn take(me: usize) {
    let f = &rt().th[me].fut as *const AtomicU32;
    unsafe {
        loop {
            if (*f).swap(0, Ordering::Acquire) == 1 {
                return;
            }
            futex_raw(f as *const u32, 128, 0);
        }
    }
}

impl Rt {
    pub fn last_site(&self) -> u32 {
        self.last_pc
    }
    #[inline]
    fn runnable(&self, t: usize) -> bool {
        self.th[t].st == St::Run && t != self.frozen && (self.th[t].asleep_until <= self.c.steps || self.fair())
    }
    fn fair(&self) -> bool {
        self.c.steps > self.cfg.fair_after
    }

    fn lookup(&mut self, tid: usize, kind: u8) -> Option<u32> {
        let at = (self.th[tid].op, self.th[tid].steps);
        let v = &self.replay[tid];
        let mut p = self.rpos[tid];
        while p < v.len() && (v[p].op, v[p].step) < at {
            p += 1;
        }
        self.rpos[tid] = p;
        while p < v.len() && (v[p].op, v[p].step) == at {
            if v[p].kind == kind {
                return Some(v[p].val);
            }
            p += 1;
        }
        None
    }
    fn record(&mut self, kind: u8, val: u32) {
        let tid = self.cur;
        let s = crate::result::sh();
        let n = s.ndec as usize;
        if n < crate::result::MAXDEC {
            s.dec[n] = Dec { tid: tid as u8, kind, op: self.th[tid].op, step: self.th[tid].steps, val };
        }
        s.ndec += 1;
    }

    /// Hand the token to `to` and wait to get it back.
    fn switch(&mut self, to: usize) {
        let me = self.cur;
        if to == me {
            return;
        }
        crate::result::site(self.last_pc, 2);
        self.hash = mix(self.hash, 0x5157_0000 + ((me as u64) << 8) + to as u64);
        self.cov = mix(self.cov, ((self.last_pc as u64) << 8) ^ ((me * 16 + to) as u64));
        give(to);
        take(me);
    }

    /// Next runnable thread after the current one in thread order.
    fn rr(&self, include_self: bool) -> Option<usize> {
        let n = self.n;
        let me = self.cur;
        for d in 1..=n {
            let t = (me + d - 1) % n + 1; // threads are 1..=n
            let t = if me == 0 { d } else { t };
            if t != me && self.runnable(t) {
                return Some(t);
            }
        }
        if include_self && me != 0 && self.runnable(me) { Some(me) } else { None }
    }

    /// Who runs when the current thread gives up its turn. `None`: nobody can.
    fn choose(&mut self, include_self: bool) -> Option<usize> {
        let mut def = self.rr(include_self);
        if def.is_none() && (1..=self.n).any(|t| self.th[t].asleep_until > self.c.steps && self.th[t].st == St::Run) {
            // only suspended threads are left to run
            for t in 1..=self.n {
                self.th[t].asleep_until = 0;
            }
            def = self.rr(include_self);
        }
        if self.is_replay {
            if let Some(v) = self.lookup(self.cur, D_SWITCH) {
                let v = v as usize;
                if v >= 1 && v <= self.n && self.runnable(v) && (include_self || v != self.cur) {
                    return Some(v);
                }
            }
            return def;
        }
        let d = def?;
        if self.fair() {
            return Some(d);
        }
        let mut cand = [0usize; MAXT];
        let mut k = 0;
        for t in 1..=self.n {
            if self.runnable(t) && (include_self || t != self.cur) && self.th[t].stall_until <= self.c.steps {
                cand[k] = t;
                k += 1;
            }
        }
        let pick = if k == 0 {
            // everyone who could run is stalled: the stalls end
            for t in 1..=self.n {
                self.th[t].stall_until = 0;
            }
            d
        } else {
            match self.cfg.base {
                Base::Pct { .. } => {
                    let mut b = cand[0];
                    for &t in &cand[..k] {
                        if self.th[t].prio > self.th[b].prio {
                            b = t;
                        }
                    }
                    b
                }
                _ => cand[self.rng.below(k as u64) as usize],
            }
        };
        if pick != d {
            self.record(D_SWITCH, pick as u32);
        }
        Some(pick)
    }

    /// The current thread offers its turn although it could go on (spin, yield).
    fn yield_turn(&mut self) {
        self.c.forced += 1;
        let me = self.cur;
        if let Base::Pct { .. } = self.cfg.base {
            self.low -= 1;
            self.th[me].prio = self.low;
        }
        // nobody has made progress for a while: stalls end
        if self.c.steps - self.last_progress > 3000 {
            for t in 1..=self.n {
                self.th[t].stall_until = 0;
            }
        }
        // never come back to ourselves if someone else can run and is not stalled
        let mut other = false;
        for t in 1..=self.n {
            other |= t != me && self.runnable(t);
        }
        if !other {
            self.advance_sleepers();
            return;
        }
        if let Some(t) = self.choose(false) {
            self.switch(t);
        }
    }

    /// Virtual time: make due timeouts fire.
    fn wake_due(&mut self) {
        for t in 1..=self.n {
            if self.th[t].st == St::Blocked && self.th[t].deadline <= self.now {
                self.th[t].st = St::Run;
                self.th[t].timed_out = true;
                self.c.timeouts += 1;
            }
        }
    }
    fn advance_sleepers(&mut self) -> bool {
        let mut d = u64::MAX;
        for t in 1..=self.n {
            if self.th[t].st == St::Blocked {
                d = d.min(self.th[t].deadline);
            }
        }
        if d == u64::MAX {
            return false;
        }
        self.now = self.now.max(d);
        self.wake_due();
        true
    }

    /// Block the current thread on `addr` until woken or `deadline`. Returns true on timeout.
    fn block(&mut self, addr: usize, deadline: u64) -> bool {
        let me = self.cur;
        self.th[me].steps += 1;
        self.c.steps += 1;
        self.th[me].st = St::Blocked;
        self.th[me].wait_addr = addr;
        self.th[me].deadline = deadline;
        self.th[me].timed_out = false;
        self.c.forced += 1;
        loop {
            if self.th[me].st == St::Run {
                break;
            }
            match self.choose(false) {
                Some(t) => {
                    self.switch(t);
                    break;
                }
                None => {
                    if !self.advance_sleepers() {
                        self.stuck("deadlock", "all threads are blocked");
                    }
                }
            }
        }
        self.th[me].wait_addr = 0;
        self.th[me].timed_out
    }

    pub fn describe(&self, what: &str) -> String {
        let mut s = format!("{what}; step {}", self.c.steps);
        for t in 1..=self.n {
            s.push_str(&format!(
                "; T{t} {:?} ops_done={}{}",
                self.th[t].st,
                self.th[t].ops_done,
                if self.th[t].in_op { " inside an operation" } else { "" }
            ));
        }
        s
    }

    /// Whether every thread that waits does so in an operation that overlaps another thread's
    /// insert of a new key. Such an insert may split an inner node, and an operation that was on
    /// its way through that node may come out far to the left of its key.
    fn on_detours(&self) -> bool {
        (1..=self.n).filter(|t| *t != self.frozen && self.th[*t].st != St::Done && self.th[*t].in_op).all(|t| {
            (1..=self.n).any(|u| {
                u != t && (self.th[u].add_end >= self.th[t].op_since || u != self.frozen && self.th[u].adding)
            })
        })
    }
    /// Returns only if the thread that was stopped for good goes on instead.
    fn stuck(&mut self, kind: &str, what: &str) {
        if self.frozen != 0 && self.frozen_writer && self.on_detours() {
            self.cfg.cap_after_fair += self.c.steps;
            self.frozen = 0;
            return;
        }
        if self.frozen != 0 {
            crate::result::violate(
                if self.frozen_writer { "writer-blocks" } else { "reader-blocks" },
                &self.describe(&format!(
                    "{what} while T{} is stopped inside {}",
                    self.frozen,
                    if self.frozen_writer { "an overwrite elsewhere in the map" } else { "a lookup" }
                )),
            );
        }
        crate::result::violate(kind, &self.describe(what))
    }
    /// The operation the current thread is about to begin may add a key.
    pub fn set_adding(&mut self, yes: bool) {
        let me = self.cur;
        self.th[me].adding = yes && self.cfg.freeze.is_some();
    }
    /// The lookup the current thread is about to do may be the one it is stopped in.
    pub fn arm(&mut self, writer: bool) {
        if let Some((t, o, s, writes)) = self.cfg.freeze {
            let me = self.cur;
            if t as usize == me && self.th[me].op == o {
                self.armed = Some((me, s, writes));
                self.frozen_writer = writer;
            }
        }
    }
    #[cold]
    fn freeze(&mut self) {
        let me = self.cur;
        self.armed = None;
        if (1..=self.n).all(|t| t == me || self.th[t].st == St::Done) {
            return;
        }
        self.frozen = me;
        self.c.frozen += 1;
        self.hash = mix(self.hash, 0xf3ee + me as u64);
        loop {
            if let Some(t) = self.choose(false) {
                self.switch(t);
                return;
            }
            if !self.advance_sleepers() {
                self.stuck("deadlock", "all other threads are blocked");
            }
        }
    }

    /// Before every visible operation of the current thread.
    #[inline]
    fn point(&mut self, pc: u32, store: bool) {
        let me = self.cur;
        self.c.steps += 1;
        let s = self.c.steps;
        self.th[me].steps += 1;
        self.now += 9;
        self.last_pc = pc;
        crate::result::site(pc, 1);
        if let Some((t, at, writes)) = self.armed {
            if t == me {
                if pc == 0xffe0 || if writes { at == 0 } else { self.th[me].steps >= at } {
                    self.freeze();
                    return;
                }
                if writes && store {
                    self.armed = Some((t, at - 1, true));
                }
            }
        }
        if s >= self.next_jump || s > self.cfg.fair_after {
            self.rare(s);
        }
        if self.is_replay {
            if s <= self.cfg.fair_after {
                if let Some(v) = self.lookup(me, D_JUMP) {
                    self.now += v as u64 * 1000;
                    self.c.clock_jumps += 1;
                    self.wake_due();
                }
                if let Some(v) = self.lookup(me, D_STALL) {
                    self.suspend(v as u64);
                    return;
                }
                if let Some(v) = self.lookup(me, D_SWITCH) {
                    let v = v as usize;
                    if v >= 1 && v <= self.n && v != me && self.runnable(v) {
                        self.c.preempts += 1;
                        self.switch(v);
                    }
                }
            }
            return;
        }
        if s > self.cfg.fair_after {
            return;
        }
        if store && self.long_in > 0 {
            self.long_in -= 1;
            if self.long_in == 0 {
                let len = self.cfg.long_stall.map_or(0, |l| l.1);
                if self.rr(false).is_some() {
                    self.record(D_STALL, len as u32);
                    self.suspend(len);
                    return;
                }
            }
        }
        // stalls
        let mut stall = 0;
        if s >= self.next_stall && (store || !self.cfg.store_bias) {
            self.next_stall = s + self.rng.geo(self.cfg.stall_gap);
            stall = self.rng.range(1, self.cfg.stall_len);
            self.c.stalls += 1;
        }
        if let Some((salt, class, nth, len)) = self.cfg.site_stall {
            if mix(salt, pc as u64) & 31 == class {
                self.site_hits += 1;
                if self.site_hits % nth == 0 {
                    stall = stall.max(len);
                    self.c.site_stalls += 1;
                }
            }
        }
        if stall > 0 {
            self.th[me].stall_until = s + stall;
            self.preempt();
            return;
        }
        match self.cfg.base {
            Base::Walk { mean } => {
                if s >= self.next_preempt && (store || !self.cfg.store_bias) {
                    self.next_preempt = s + self.rng.geo(mean);
                    self.preempt();
                }
            }
            Base::Starve { victim, slice, mean } => {
                let mine = victim as usize == me;
                if mine && slice == 0 {
                    // wherever it passes one of a few places
                    if mix(self.cfg.seed, pc as u64) & 15 == 0 {
                        self.next_preempt = s;
                    } else if self.next_preempt <= s {
                        self.next_preempt = s + 500;
                    }
                } else if mine && self.next_preempt > s + 2 * slice {
                    self.next_preempt = s + slice / 2 + self.rng.below(slice);
                }
                if s >= self.next_preempt {
                    self.next_preempt = s + if mine { self.rng.geo(mean) } else if slice == 0 { 500 } else { slice / 2 + self.rng.below(slice) };
                    self.preempt();
                }
            }
            Base::Sites { mask, salt, mean } => {
                if s >= self.next_preempt {
                    self.next_preempt = s + self.rng.geo(mean);
                    self.preempt();
                } else if (mask >> (mix(salt, pc as u64) & 63)) & 1 == 1 && self.rng.next() & 1 == 0 {
                    self.preempt();
                }
            }
            Base::Pct { .. } => {
                if !self.change.is_empty() && s >= self.change[0] {
                    self.change.remove(0);
                    self.low -= 1;
                    self.th[me].prio = self.low;
                    self.preempt();
                }
            }
            Base::Replay => {}
        }
    }

    #[cold]
    fn suspend(&mut self, len: u64) {
        if self.rr(false).is_none() {
            return;
        }
        let me = self.cur;
        self.c.long_stalls += 1;
        self.th[me].asleep_until = self.c.steps + len;
        if let Some(t) = self.choose(false) {
            self.switch(t);
        }
    }

    #[cold]
    fn rare(&mut self, s: u64) {
        if s > self.cfg.fair_after {
            self.c.fair_entered = 1;
            if s > self.cfg.fair_after + self.cfg.cap_after_fair {
                self.stuck("no-progress", "operations did not finish although faults stopped and scheduling became fair");
            }
            // fair round robin
            if s % 40 == 0 {
                let me = self.cur;
                if let Some(t) = self.rr(false) {
                    if t != me {
                        self.switch(t);
                    }
                }
            }
            return;
        }
        if s >= self.next_jump && !self.is_replay {
            self.next_jump = s + self.rng.geo(self.cfg.clock_jump);
            let us = 1 << self.rng.below(24);
            self.now += us as u64 * 1000;
            self.c.clock_jumps += 1;
            self.record(D_JUMP, us);
            self.wake_due();
        }
    }

    fn preempt(&mut self) {
        let me = self.cur;
        let mut cand = [0usize; MAXT];
        let mut k = 0;
        for t in 1..=self.n {
            if t != me && self.runnable(t) && self.th[t].stall_until <= self.c.steps {
                cand[k] = t;
                k += 1;
            }
        }
        if k == 0 {
            return;
        }
        let victim = if let Base::Starve { victim, .. } = self.cfg.base { victim as usize } else { 0 };
        let t = if victim != 0 && cand[..k].contains(&victim) {
            victim
        } else if let Base::Pct { .. } = self.cfg.base {
            let mut b = cand[0];
            for &t in &cand[..k] {
                if self.th[t].prio > self.th[b].prio {
                    b = t;
                }
            }
            if self.th[b].prio < self.th[me].prio && self.th[me].stall_until <= self.c.steps {
                return;
            }
            b
        } else {
            cand[self.rng.below(k as u64) as usize]
        };
        self.c.preempts += 1;
        self.record(D_SWITCH, t as u32);
        self.switch(t);
    }

    // -------------------------------------------------------------- spin detection

    #[inline]
    fn spin_check(&mut self, pc: u32, addr: usize, val: u128) {
        let me = self.cur;
        let th = &mut self.th[me];
        let v = val as u64;
        let e = &mut th.spin[(pc as usize ^ (pc as usize >> 5)) & 15];
        if e.pc == pc && e.addr == addr && e.val == v && e.stores == th.stores {
            e.count += 1;
            if e.count >= 6 {
                e.count = 0;
                self.c.spin_yields += 1;
                self.th[me].steps += 1;
                self.c.steps += 1;
                self.yield_turn();
            }
        } else {
            *e = SpinEnt { pc, addr, val: v, count: 0, stores: th.stores };
        }
    }

    // -------------------------------------------------------------- locations

    fn loc(&mut self, addr: usize, size: usize) -> usize {
        let mask = self.ltab.len() - 1;
        let mut h = mix(0, addr as u64) as usize & mask;
        loop {
            let x = self.ltab[h];
            if x == 0 {
                break;
            }
            if self.locs[x as usize - 1].addr == addr {
                let i = x as usize - 1;
                if self.locs[i].size as usize != size {
                    self.locs[i].size = size as u8;
                    self.locs[i].hist.clear();
                }
                return i;
            }
            h = (h + 1) & mask;
        }
        self.locs.push(Loc { addr, size: size as u8, hist: Vec::new() });
        self.ltab[h] = self.locs.len() as u32;
        let i = self.locs.len() - 1;
        if self.locs.len() * 2 > self.ltab.len() {
            let n = self.ltab.len() * 2;
            self.ltab = vec![0; n];
            for (j, l) in self.locs.iter().enumerate() {
                let mut h = mix(0, l.addr as u64) as usize & (n - 1);
                while self.ltab[h] != 0 {
                    h = (h + 1) & (n - 1);
                }
                self.ltab[h] = j as u32 + 1;
            }
        }
        i
    }
    /// Forget atomic histories inside a range (memory was handed out again).
    pub fn forget(&mut self, lo: usize, hi: usize) {
        for l in &mut self.locs {
            if l.addr >= lo && l.addr < hi {
                l.hist.clear();
            }
        }
    }

    #[inline]
    fn ensure(&mut self, l: usize, real: u128) {
        let loc = &mut self.locs[l];
        if loc.hist.last().map(|e| e.val) != Some(real) {
            // first sight, or changed by plain code: one entry everybody can see
            loc.hist.clear();
            loc.hist.push(Ent { val: real, tid: 0, clk: 0, rel: VC::ZERO, seen: [0; MAXT], at: 0, sc: false });
        }
    }

    fn push_ent(&mut self, l: usize, val: u128, rel: VC, sc: bool) {
        let me = self.cur;
        let clk = self.th[me].vc.0[me];
        let mut seen = [u32::MAX; MAXT];
        seen[me] = clk;
        let at = self.c.steps;
        let weak = self.cfg.stale > 0;
        let h = &mut self.locs[l].hist;
        if !weak {
            h.clear();
        } else if h.len() >= HIST {
            h.remove(0);
        }
        h.push(Ent { val, tid: me as u8, clk, rel, seen, at, sc });
    }

    // -------------------------------------------------------------- atomics

    fn acquire(&mut self, l: usize, e: usize, mo: i32) {
        let me = self.cur;
        let rel = self.locs[l].hist[e].rel;
        if mo == 1 || mo == 2 || mo == 4 || mo == 5 {
            self.th[me].vc.join(&rel);
        } else {
            self.th[me].acq.join(&rel);
        }
    }
    fn rel_clock(&self, mo: i32) -> VC {
        let t = &self.th[self.cur];
        if mo == 3 || mo == 4 || mo == 5 { t.vc } else { t.relf }
    }
    #[inline]
    fn tick(&mut self) {
        let me = self.cur;
        self.th[me].vc.0[me] += 1;
    }

    pub fn a_load(&mut self, addr: usize, size: usize, mo: i32, pc: u32) -> u128 {
        self.c.atomics += 1;
        self.point(pc, false);
        self.access(addr, size, false, true, pc);
        let real = unsafe { rd(addr, size) };
        let l = self.loc(addr, size);
        self.ensure(l, real);
        let me = self.cur;
        let last = self.locs[l].hist.len() - 1;
        let mut e = last;
        if self.cfg.stale > 0 && last > 0 && !self.fair() {
            // oldest entry this thread may still return
            let h = &self.locs[l].hist;
            let vc = &self.th[me].vc;
            let mut lo = 0;
            for i in (1..=last).rev() {
                let x = &h[i];
                let hidden = x.at + self.cfg.horizon < self.c.steps
                    || (mo == 5 && (x.sc || (x.clk > 0 && x.clk <= self.sc.0[x.tid as usize])))
                    || (x.sc && x.at <= self.th[me].fence_at)
                    || (0..MAXT).any(|t| x.seen[t] != u32::MAX && x.seen[t] <= vc.0[t]);
                if hidden {
                    lo = i;
                    break;
                }
            }
            if lo < last {
                self.c.weak_loads += 1;
                let back = if self.is_replay {
                    self.lookup(me, D_STALE).unwrap_or(0) as usize
                } else if self.th[me].lag_until > self.c.steps || self.rng.below(self.cfg.stale) == 0 {
                    let mut b = 1 + self.rng.below((last - lo) as u64) as usize;
                    if self.cfg.lag > 0 {
                        if self.th[me].lag_until <= self.c.steps {
                            self.th[me].lag_until = self.c.steps + self.rng.geo(self.cfg.lag);
                        }
                        if self.rng.next() & 3 != 0 {
                            b = last - lo;
                        }
                    }
                    self.record(D_STALE, b as u32);
                    b
                } else {
                    0
                };
                if back > 0 {
                    e = last.saturating_sub(back).max(lo);
                    self.c.stale_loads += 1;
                }
            }
        }
        let clk = self.th[me].vc.0[me];
        let ent = &mut self.locs[l].hist[e];
        if ent.seen[me] == u32::MAX {
            ent.seen[me] = clk;
        }
        let val = ent.val;
        self.acquire(l, e, mo);
        self.note(pc, addr, val);
        if self.trace && e != last {
            self.tlog.last_mut().unwrap().2 = 3;
        }
        self.spin_check(pc, addr, val);
        val
    }

    pub fn a_store(&mut self, addr: usize, size: usize, val: u128, mo: i32, pc: u32) {
        self.c.atomics += 1;
        self.point(pc, true);
        self.access(addr, size, true, true, pc);
        let real = unsafe { rd(addr, size) };
        let l = self.loc(addr, size);
        self.ensure(l, real);
        let rel = self.rel_clock(mo);
        self.push_ent(l, val, rel, mo == 5);
        self.tick();
        unsafe { wr(addr, size, val) };
        let me = self.cur;
        self.th[me].stores = self.th[me].stores.wrapping_add(1);
        self.last_progress = self.c.steps;
        self.note(pc, addr, val);
    }

    pub fn a_rmw(&mut self, addr: usize, size: usize, mo: i32, pc: u32, f: impl FnOnce(u128) -> u128) -> u128 {
        self.c.atomics += 1;
        self.point(pc, true);
        self.access(addr, size, true, true, pc);
        let old = unsafe { rd(addr, size) };
        let l = self.loc(addr, size);
        self.ensure(l, old);
        let last = self.locs[l].hist.len() - 1;
        self.acquire(l, last, mo);
        let mut rel = self.rel_clock(mo);
        let prev = self.locs[l].hist[last].rel;
        rel.join(&prev);
        let new = f(old) & mask(size);
        self.push_ent(l, new, rel, mo == 5);
        self.tick();
        unsafe { wr(addr, size, new) };
        let me = self.cur;
        if new != old {
            self.th[me].stores = self.th[me].stores.wrapping_add(1);
            self.last_progress = self.c.steps;
        }
        self.note(pc, addr, new);
        if new == old {
            self.spin_check(pc, addr, old);
        }
        old
    }

    pub fn a_cas(&mut self, addr: usize, size: usize, exp: u128, new: u128, mo: i32, fmo: i32, pc: u32) -> u128 {
        self.c.atomics += 1;
        self.point(pc, true);
        let old = unsafe { rd(addr, size) };
        let ok = old == exp;
        self.access(addr, size, ok, true, pc);
        let l = self.loc(addr, size);
        self.ensure(l, old);
        let last = self.locs[l].hist.len() - 1;
        let me = self.cur;
        if ok {
            self.acquire(l, last, mo);
            let mut rel = self.rel_clock(mo);
            let prev = self.locs[l].hist[last].rel;
            rel.join(&prev);
            self.push_ent(l, new, rel, mo == 5);
            self.tick();
            unsafe { wr(addr, size, new) };
            self.th[me].stores = self.th[me].stores.wrapping_add(1);
            self.last_progress = self.c.steps;
            self.note(pc, addr, new);
        } else {
            let clk = self.th[me].vc.0[me];
            let ent = &mut self.locs[l].hist[last];
            if ent.seen[me] == u32::MAX {
                ent.seen[me] = clk;
            }
            self.acquire(l, last, fmo);
            self.note(pc, addr, old);
            self.spin_check(pc, addr, old);
        }
        old
    }

    pub fn a_fence(&mut self, mo: i32) {
        let me = self.cur;
        if mo == 2 || mo == 4 || mo == 5 {
            let a = self.th[me].acq;
            self.th[me].vc.join(&a);
        }
        if mo == 5 && self.cfg.stale > 0 {
            let s = self.sc;
            self.th[me].vc.join(&s);
            let v = self.th[me].vc;
            self.sc.join(&v);
            self.th[me].fence_at = self.c.steps;
        }
        if mo == 3 || mo == 4 || mo == 5 {
            self.th[me].relf = self.th[me].vc;
            self.tick();
        }
    }

    pub fn membarrier(&mut self) {
        self.c.membarriers += 1;
        if self.cfg.stale > 0 {
            for round in 0..2 {
                for t in 1..=self.n {
                    let a = if round == 0 { self.th[t].acq } else { VC::ZERO };
                    self.th[t].vc.join(&a);
                    let s = self.sc;
                    self.th[t].vc.join(&s);
                    let v = self.th[t].vc;
                    self.sc.join(&v);
                    self.th[t].relf.join(&v);
                    self.th[t].fence_at = self.c.steps;
                    self.th[t].vc.0[t] += 1;
                }
            }
        }
    }

    #[inline]
    fn note(&mut self, pc: u32, addr: usize, val: u128) {
        let a = if arena::contains(addr) { addr as u64 } else { 0 };
        let v = if a != 0 { val as u64 ^ (val >> 64) as u64 } else { 0 };
        self.hash = mix(self.hash, ((pc as u64) << 8 | self.cur as u64) ^ a.rotate_left(24));
        self.hash = mix(self.hash, v);
        if self.trace {
            let st = self.th[self.cur].steps;
            self.tlog.push((self.cur as u8, st, 0, pc, a, v));
        }
    }

    // -------------------------------------------------------------- plain accesses

    /// A plain access: visible only on the arena.
    #[inline]
    pub fn plain(&mut self, addr: usize, size: usize, write: bool, pc: u32) {
        if !arena::contains(addr) {
            return;
        }
        self.c.plains += 1;
        self.point(pc, write);
        self.access(addr, size, write, false, pc);
        if write {
            let me = self.cur;
            self.th[me].stores = self.th[me].stores.wrapping_add(1);
            self.last_progress = self.c.steps;
        }
        let a = addr as u64;
        self.hash = mix(self.hash, ((pc as u64) << 8 | self.cur as u64) ^ a.rotate_left(24));
        if self.trace {
            let st = self.th[self.cur].steps;
            self.tlog.push((self.cur as u8, st, 1 + write as u8, pc, a, size as u64));
        }
    }

    pub fn range(&mut self, addr: usize, len: usize, write: bool, pc: u32) {
        if len == 0 || !arena::contains(addr) {
            return;
        }
        self.plain(addr, len.min(16), write, pc);
        let mut a = addr + len.min(16);
        let end = addr + len;
        while a < end {
            let n = (end - a).min(16);
            self.access(a, n, write, false, pc);
            a += n;
        }
    }

    /// Lifetime and race checks for [addr, addr+size), size <= 16.
    #[inline]
    pub fn access(&mut self, addr: usize, size: usize, write: bool, atomic: bool, pc: u32) {
        if !arena::contains(addr) {
            return;
        }
        if self.path.is_some() {
            self.touch(addr);
        }
        let bad = arena::state(addr) != arena::LIVE || arena::state(addr + size - 1) != arena::LIVE;
        if bad {
            let st = arena::state(addr).min(arena::state(addr + size - 1));
            let freed = arena::state(addr) == arena::FREED || arena::state(addr + size - 1) == arena::FREED;
            let _ = st;
            crate::result::violate_at(
                if freed { "use-after-free" } else { "out-of-bounds" },
                &format!(
                    "{} of {} bytes at {} by T{}",
                    if write { "write" } else { "read" },
                    size,
                    arena::describe(addr),
                    self.cur
                ),
                &[pc as u64],
            );
        }
        if self.cfg.races {
            let mut a = addr;
            let end = addr + size;
            while a < end {
                let w = a & !7;
                let n = (w + 8 - a).min(end - a);
                let m = (((1u32 << n) - 1) << (a - w)) as u8;
                self.race_word(w, m, write, atomic, pc);
                a += n;
            }
        }
    }

    #[cold]
    fn touch(&mut self, addr: usize) {
        let log = &arena::ar().log;
        let i = log.partition_point(|&(b, _)| b <= addr).wrapping_sub(1);
        let v = self.path.as_mut().unwrap();
        if i < log.len() && !v.contains(&i) {
            v.push(i);
        }
    }

    fn race_word(&mut self, w: usize, m: u8, write: bool, atomic: bool, pc: u32) {
        let me = self.cur;
        let vc = &self.th[me].vc;
        let my = vc.0[me];
        let cells = arena::shadow(w);
        let mut put = None;
        let mut oldest = 0;
        let mut oldest_clk = u32::MAX;
        for i in 0..4 {
            let c = cells[i];
            if c == 0 {
                if put.is_none() {
                    put = Some(i);
                }
                continue;
            }
            let c = Cell::unpack(c);
            if c.tid as usize == me {
                // same thread: replace if the new access is at least as strong
                if c.mask & !m == 0 && (write || !c.write) && (!atomic || c.atomic) {
                    put = Some(i);
                }
                continue;
            }
            let ordered = vc.0[c.tid as usize] >= c.clk;
            if c.mask & m != 0 && (write || c.write) && !(atomic && c.atomic) && !ordered {
                let k = |w: bool, a: bool| match (w, a) {
                    (true, true) => "atomic write",
                    (true, false) => "write",
                    (false, true) => "atomic read",
                    (false, false) => "read",
                };
                crate::result::violate_at(
                    "data-race",
                    &format!(
                        "{} by T{} and earlier {} by T{} at {} are not ordered",
                        k(write, atomic),
                        me,
                        k(c.write, c.atomic),
                        c.tid,
                        arena::describe(w)
                    ),
                    &[pc as u64, c.pc as u64],
                );
            }
            if ordered && c.clk < oldest_clk {
                oldest = i;
                oldest_clk = c.clk;
            }
        }
        let i = match put {
            Some(i) => i,
            None => {
                if oldest_clk == u32::MAX {
                    (self.c.steps & 3) as usize
                } else {
                    oldest
                }
            }
        };
        cells[i] = Cell { tid: me as u8, clk: my, mask: m, write, atomic, pc }.pack();
    }

    // -------------------------------------------------------------- futex, time

    /// Returning from a wait synchronises with the last release of the word: std's own
    /// contended mutex path is precompiled, so its acquiring swap is not visible here.
    pub fn futex_wait(&mut self, addr: usize, val: u32, deadline: u64) -> i32 {
        let r = self.futex_wait_(addr, val, deadline);
        let me = self.cur;
        let l = self.loc(addr, 4);
        if let Some(rel) = self.locs[l].hist.last().map(|e| e.rel) {
            self.th[me].vc.join(&rel);
        }
        r
    }
    fn futex_wait_(&mut self, addr: usize, val: u32, deadline: u64) -> i32 {
        self.point(0xfff1, true);
        let real = unsafe { std::ptr::read_volatile(addr as *const u32) };
        if real != val {
            return libc::EAGAIN;
        }
        self.c.futex_waits += 1;
        if !self.fair() {
            let me = self.cur;
            let sp = if self.is_replay {
                self.lookup(me, D_SPUR).is_some()
            } else {
                self.cfg.spurious > 0 && self.rng.below(self.cfg.spurious) == 0
            };
            if sp {
                self.c.spurious += 1;
                if !self.is_replay {
                    self.record(D_SPUR, 1);
                }
                return 0;
            }
        }
        if self.block(addr, deadline) { libc::ETIMEDOUT } else { 0 }
    }
    pub fn futex_wake(&mut self, addr: usize, n: usize) -> usize {
        self.point(0xfff2, true);
        let mut k = 0;
        for t in 1..=self.n {
            if k < n && self.th[t].st == St::Blocked && self.th[t].wait_addr == addr {
                self.th[t].st = St::Run;
                self.th[t].wait_addr = 0;
                k += 1;
                self.c.futex_wakes += 1;
            }
        }
        self.last_progress = self.c.steps;
        k
    }
    pub fn sched_yield(&mut self) {
        self.c.yields += 1;
        let me = self.cur;
        self.th[me].steps += 1;
        self.c.steps += 1;
        self.now += 500;
        if self.c.steps > self.cfg.fair_after {
            self.rare(self.c.steps);
        }
        self.yield_turn();
    }
    pub fn sleep(&mut self, ns: u64) {
        let d = self.now + ns;
        self.block(0, d);
    }

    // -------------------------------------------------------------- operation boundaries

    /// The current thread starts on operation `op` of its program.
    pub fn set_op(&mut self, op: usize) {
        let me = self.cur;
        self.th[me].op = op.min(65535) as u16;
        self.th[me].steps = 0;
    }
    /// Invocation or response of a client operation: a globally ordered event.
    pub fn event(&mut self, begin: bool) -> (u64, VC) {
        let me = self.cur;
        // a scheduling point of its own
        self.point(0xffe0 + begin as u32, true);
        if self.cfg.sync_ops {
            let s = self.sync;
            self.th[me].vc.join(&s);
            let v = self.th[me].vc;
            self.sync.join(&v);
        }
        self.seq += 1;
        if begin {
            self.th[me].op_since = self.c.steps;
        } else if self.th[me].adding {
            self.th[me].adding = false;
            self.th[me].add_end = self.c.steps;
        }
        if self.trace {
            let t = &self.th[me];
            self.tlog.push((me as u8, t.steps, if begin { 4 } else { 5 }, 0, t.op as u64, self.seq));
        }
        let v = self.th[me].vc;
        self.th[me].in_op = begin;
        if !begin {
            self.th[me].ops_done += 1;
            self.last_progress = self.c.steps;
        }
        self.tick();
        (self.seq, v)
    }
}

#[derive(Clone, Copy)]
struct Cell {
    tid: u8,
    clk: u32,
    mask: u8,
    write: bool,
    atomic: bool,
    pc: u32,
}
impl Cell {
    #[inline]
    fn pack(self) -> u64 {
        (self.tid as u64)
            | (self.write as u64) << 4
            | (self.atomic as u64) << 5
            | (self.mask as u64) << 6
            | ((self.clk as u64) & 0xf_ffff) << 14
            | (self.pc as u64) << 34
    }
    #[inline]
    fn unpack(x: u64) -> Cell {
        Cell {
            tid: (x & 15) as u8,
            write: x >> 4 & 1 == 1,
            atomic: x >> 5 & 1 == 1,
            mask: (x >> 6) as u8,
            clk: (x >> 14 & 0xf_ffff) as u32,
            pc: (x >> 34) as u32,
        }
    }
}

#[inline]
fn mask(size: usize) -> u128 {
    if size >= 16 { u128::MAX } else { (1u128 << (size * 8)) - 1 }
}
#[inline]
pub unsafe fn rd(a: usize, size: usize) -> u128 {
    unsafe {
        match size {
            1 => std::ptr::read_volatile(a as *const u8) as u128,
            2 => std::ptr::read_volatile(a as *const u16) as u128,
            4 => std::ptr::read_volatile(a as *const u32) as u128,
            8 => std::ptr::read_volatile(a as *const u64) as u128,
            _ => std::ptr::read_volatile(a as *const u128),
        }
    }
}
#[inline]
pub unsafe fn wr(a: usize, size: usize, v: u128) {
    unsafe {
        match size {
            1 => std::ptr::write_volatile(a as *mut u8, v as u8),
            2 => std::ptr::write_volatile(a as *mut u16, v as u16),
            4 => std::ptr::write_volatile(a as *mut u32, v as u32),
            8 => std::ptr::write_volatile(a as *mut u64, v as u64),
            _ => std::ptr::write_volatile(a as *mut u128, v),
        }
    }
}

// ------------------------------------------------------------------ thread life cycle

/// First thing on a simulated thread: wait for the token.
pub fn thread_begin(tid: usize) {
    unsafe { TID = tid };
    take(tid);
}
/// Run `f` with its accesses simulated.
pub fn simulated<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        ACTIVE = true;
        ARENA_ON = true;
    }
    let r = f();
    unsafe {
        ACTIVE = false;
        ARENA_ON = false;
    }
    r
}
/// Run `f` with allocations in the arena but accesses not simulated.
pub fn passive<R>(f: impl FnOnce() -> R) -> R {
    unsafe { ARENA_ON = true };
    let r = f();
    unsafe { ARENA_ON = false };
    r
}
/// Last thing on a simulated thread, after its thread-local destructors.
pub fn thread_end() {
    let r = rt();
    let me = r.cur;
    r.th[me].st = St::Done;
    r.th[me].steps += 1;
    r.c.steps += 1;
    r.last_progress = r.c.steps;
    loop {
        if (1..=r.n).all(|t| r.th[t].st == St::Done) {
            give(0);
            return;
        }
        if r.frozen != 0 && (1..=r.n).all(|t| t == r.frozen || r.th[t].st == St::Done) {
            // everybody else is done: the stopped thread goes on
            r.cfg.cap_after_fair += r.c.steps;
            r.frozen = 0;
        }
        match r.choose(false) {
            Some(t) => {
                r.hash = mix(r.hash, 0xd0 + t as u64);
                give(t);
                return;
            }
            None => {
                if !r.advance_sleepers() {
                    r.stuck("deadlock", "all remaining threads are blocked");
                }
            }
        }
    }
}
/// Main: start the simulation and wait for it to end.
pub fn run_all() {
    let r = rt();
    for t in 1..=r.n {
        r.th[t].st = St::Run;
        let v = r.th[0].vc;
        r.th[t].vc.join(&v);
    }
    r.cur = 0;
    let first = r.choose(false).unwrap();
    give(first);
    take(0);
    // main joins everyone
    for t in 1..=r.n {
        let v = r.th[t].vc;
        r.th[0].vc.join(&v);
    }
    r.cur = 0;
    // what follows (audit, teardown) runs alone, without faults
    r.is_replay = true;
    r.replay = vec![Vec::new(); r.n + 1];
    r.rpos = vec![0; r.n + 1];
    r.quiet = true;
    r.cfg.fair_after = u64::MAX;
    r.next_jump = u64::MAX;
    r.c.vtime_ns = r.now - 1_000_000_000;
}
