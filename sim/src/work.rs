//! One simulated run: workload description, execution, recorded history.

use crate::rt::{self, Dec, SchedCfg, VC};
use crate::{arena, oracle, result};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicPtr, Ordering};
use subject as s;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Variant {
    /// `MassTree<V>`, reference-counted values.
    Arc,
    /// `MassTree24Inline<V>`, copied values.
    Inline,
    /// `MassTreeIndex<V>`: exclusive insertion, shared reading.
    Index,
    /// The version lock on its own.
    Lock,
    /// A leaf node on its own.
    Leaf,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    /// Insert or update key `k`; `g`: through the thread's held guard; `keep`: hold on to the
    /// returned previous value for the rest of the run.
    Ins { k: u32, g: bool, keep: bool },
    /// mode 0 get, 1 get_with_guard, 2 get_ref
    Get { k: u32, mode: u8 },
    /// get_ref whose reference is kept and re-read until the guard goes.
    Hold { k: u32 },
    /// Re-read all kept references.
    Check,
    /// Drop the held guard (if any) and take a new one.
    Guard,
    /// Drop the held guard.
    Unguard,
    Len,
    Empty,
    /// The OS thread exits and a new one carries on.
    Respawn,
    /// Debug-format the tree.
    Debug,
    /// Lookup (0: by reference, 1: owned) or insert (2) of `k` under a guard of another map.
    Foreign { k: u32, how: u8 },
    /// An operation with a key longer than any the map takes: `ins` it or look it up.
    Over { k: u32, extra: u16, ins: bool, g: bool },
    /// A second map is created, filled with `n` keys of which `ov` are overwritten, read and
    /// dropped.
    Side { n: u8, ov: u8 },
    /// Removed by the minimiser.
    Nop,
    // version lock runs
    LWrite { how: u8, mark: u8, us: u32 },
    LRead,
    // leaf node runs
    NPub { pos: u8 },
    NFind { wait: bool },
    NCut { n: u8, back: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunCfg {
    pub profile: String,
    pub seed: u64,
    pub variant: Variant,
    pub default_ctor: bool,
    /// Reclamation settings of the simulated machine: retired objects per batch, processors,
    /// and whether the kernel lacks expedited memory barriers.
    pub batch: usize,
    pub cpus: usize,
    pub no_membarrier: bool,
    pub sched: SchedCfg,
    #[serde(with = "hexkeys")]
    pub keys: Vec<Vec<u8>>,
    /// Keys inserted before the threads start (indices into `keys`), in this order.
    pub prefill: Vec<u32>,
    pub threads: Vec<Vec<Op>>,
    /// Values look themselves up in the map when they are dropped.
    #[serde(default)]
    pub reenter: bool,
    /// Which outcomes count: names of oracle kinds switched off (none by default).
    #[serde(default)]
    pub mute: Vec<String>,
}

mod hexkeys {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &[Vec<u8>], s: S) -> Result<S::Ok, S::Error> {
        let x: Vec<String> = v.iter().map(|k| k.iter().map(|b| format!("{b:02x}")).collect()).collect();
        x.serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<Vec<u8>>, D::Error> {
        let x: Vec<String> = Vec::deserialize(d)?;
        Ok(x.iter()
            .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect())
            .collect())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res {
    None,
    New,
    /// value id
    Val(u64),
    Num(u64),
    Bool(bool),
    Pair(u64, u64),
}

#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub op: Op,
    pub tid: usize,
    pub idx: usize,
    pub id: u64,
    pub inv: u64,
    pub ret: u64,
    pub inv_vc: VC,
    pub ret_vc: VC,
    pub res: Res,
}

pub struct World {
    pub cfg: RunCfg,
    tree: AtomicPtr<u8>,
    pub recs: Vec<Vec<Rec>>,
    /// per value id: times dropped
    pub dropped: Vec<u32>,
    /// per value id: created (an insert of it was invoked)
    pub created: Vec<bool>,
    /// per value id: key it was written to
    pub id_key: Vec<u32>,
    /// ids assigned to the inserts of each thread, in order
    pub ids: Vec<Vec<u64>>,
    pub bad_drop: bool,
    /// previous values still held by clients
    pub kept: Vec<Vec<usize>>,
    /// per thread: a panic is expected
    pub expect_panic: Vec<bool>,
    /// per thread: inside a value's destructor that uses the map
    pub nested: Vec<bool>,
    pub reentered: u64,
    /// Leaf runs: by thread, what its operations saw and took out.
    pub sets: Vec<Vec<(usize, Vec<u64>, Vec<u64>)>>,
    /// Lock shape: a clock of its own; threads at or in a critical section; when the latest of them
    /// set out; when those set out whose critical section changed or split the node and is over.
    clock: u64,
    inside: u32,
    last_begin: u64,
    changed_from: u64,
    split_from: u64,
    pub sides: u64,
    pub overs: u64,
}
static mut W: Option<World> = None;
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}

#[unsafe(no_mangle)]
extern "C" fn sim_val_dropped(id: u64, ok: bool) {
    let act = unsafe { rt::ACTIVE };
    let on = unsafe { rt::ARENA_ON };
    unsafe {
        rt::ACTIVE = false;
        rt::ARENA_ON = false;
    }
    let w = w();
    if !ok || id == 0 || id as usize >= w.dropped.len() {
        result::violate("double-drop", &format!("a value was dropped with corrupted contents (id {id:#x})"));
    }
    w.dropped[id as usize] += 1;
    if w.dropped[id as usize] > 1 {
        result::violate("double-drop", &format!("value {id} was dropped twice"));
    }
    let tid = unsafe { rt::TID };
    let again = w.cfg.reenter
        && act
        && tid < w.nested.len()
        && !w.nested[tid]
        && !w.tree.load(Ordering::Relaxed).is_null()
        && (w.id_key[id as usize] as usize) < w.cfg.keys.len();
    unsafe {
        rt::ACTIVE = act;
        rt::ARENA_ON = on;
    }
    if again {
        // the destructor is user code: it may use the map
        w.nested[tid] = true;
        w.reentered += 1;
        let k = w.id_key[id as usize];
        let key: &[u8] = &w.cfg.keys[k as usize];
        if let Some(p) = s::a_get(atree(), key) {
            let (i, ok) = s::Val::read(p);
            if !ok || w.id_key.get(i as usize) != Some(&k) {
                result::violate("wrong-key", &format!("a lookup from a value's destructor returned v{i} (intact {ok}) for key #{k}"));
            }
            unsafe { s::arc_free(p) };
        } else {
            result::violate("lost-key", &format!("a lookup from a value's destructor did not find key #{k}, which was inserted before"));
        }
        w.nested[tid] = false;
    }
}

fn atree() -> &'static s::ATree {
    unsafe { &*(w().tree.load(Ordering::Relaxed) as *const s::ATree) }
}
fn itree() -> &'static s::ITree {
    unsafe { &*(w().tree.load(Ordering::Relaxed) as *const s::ITree) }
}
fn xtree() -> &'static mut s::XTree {
    unsafe { &mut *(w().tree.load(Ordering::Relaxed) as *mut s::XTree) }
}
fn leaf() -> &'static s::leaf::Leaf {
    unsafe { &*(w().tree.load(Ordering::Relaxed) as *const s::leaf::Leaf) }
}
impl World {
    fn moment(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
}
fn cell() -> &'static s::ver::Cell {
    unsafe { &*(w().tree.load(Ordering::Relaxed) as *const s::ver::Cell) }
}

/// The client on one simulated thread.
struct Client {
    tid: usize,
    guard: usize,
    held: Vec<(usize, u64, u32)>,
    next_ins: usize,
    /// Index of the current operation.
    at: usize,
}

fn torn(what: &str, k: u32) -> ! {
    result::violate("torn-value", &format!("{what} of key #{k} returned a value with inconsistent contents"))
}

impl Client {
    fn guard(&mut self) -> usize {
        if self.guard == 0 {
            self.guard = match w().cfg.variant {
                Variant::Arc => s::a_guard(atree()) as usize,
                Variant::Inline => s::i_guard(itree()) as usize,
                _ => 0,
            };
        }
        self.guard
    }
    fn gref(&mut self) -> &'static seize::LocalGuard<'static> {
        let g = self.guard();
        unsafe { &*(g as *const seize::LocalGuard<'static>) }
    }
    fn unguard(&mut self) {
        self.check();
        self.held.clear();
        if self.guard != 0 {
            unsafe { s::guard_free(self.guard as *mut _) };
            self.guard = 0;
        }
    }
    /// Re-read every reference obtained under the current guard.
    fn check(&mut self) {
        for &(p, id, k) in &self.held {
            let (i, ok) = match w().cfg.variant {
                Variant::Arc => s::Val::read(p as *const s::Val),
                _ => s::i_read_ref(p as *const s::Wide),
            };
            if !ok || i != id {
                result::violate(
                    "dangling-ref",
                    &format!("a reference to the value {id} of key #{k}, held under its guard, now reads id {i} intact={ok}"),
                );
            }
            if w().cfg.variant == Variant::Arc && w().dropped[id as usize] > 0 {
                result::violate(
                    "dangling-ref",
                    &format!("value {id} of key #{k} was dropped while a guard protected a reference to it"),
                );
            }
        }
    }

    /// The life of a second map.
    fn side(&mut self, n: usize, ov: usize, v: Variant) {
        let at = self.next_ins;
        self.next_ins += n + ov;
        let id = |i: usize| {
            let id = w().ids[self.tid][at + i];
            w().created[id as usize] = true;
            id
        };
        let m = n.min(w().cfg.keys.len());
        let key = |i: usize| -> &'static [u8] { &w().cfg.keys[i % m.max(1)] };
        let bad = |what: &str, i: usize| -> ! {
            result::violate("side-map", &format!("a second map used by one thread only: {what} (key #{i}, {n} inserted, {ov} overwritten)"))
        };
        // key index -> current id
        let mut cur: [u64; 16] = [0; 16];
        match v {
            Variant::Arc => {
                let t: &'static s::ATree = unsafe { &*s::a_new(true) };
                let g = s::a_guard(t);
                for i in 0..n + ov {
                    let k = i % m.max(1);
                    let d = id(i);
                    let (r, old) = s::a_insert_g(t, key(k), d, unsafe { &*g });
                    let ok = match r {
                        s::Ins::New => cur[k] == 0,
                        s::Ins::Replaced(o, ok) => ok && cur[k] == o,
                        s::Ins::Err(_) => false,
                    };
                    if !ok {
                        bad("an insert returned the wrong previous value", k);
                    }
                    cur[k] = d;
                    if let Some(p) = old {
                        unsafe { s::arc_free(p) };
                    }
                }
                for k in 0..m.min(n + ov) {
                    match s::a_get_ref(t, key(k), unsafe { &*g }).map(s::Val::read) {
                        Some((i, true)) if i == cur[k] => {}
                        _ => bad("a lookup returned the wrong value", k),
                    }
                }
                if s::a_len(t) != m.min(n + ov) {
                    bad("len is wrong", 0);
                }
                unsafe { s::guard_free(g) };
                unsafe { s::a_free(t as *const s::ATree as *mut s::ATree) };
            }
            Variant::Inline => {
                let t: &'static s::ITree = unsafe { &*s::i_new(true) };
                let g = s::i_guard(t);
                for i in 0..n + ov {
                    let k = i % m.max(1);
                    let d = id(i);
                    let ok = match s::i_insert_g(t, key(k), d, unsafe { &*g }) {
                        s::Ins::New => cur[k] == 0,
                        s::Ins::Replaced(o, ok) => ok && cur[k] == o,
                        s::Ins::Err(_) => false,
                    };
                    if !ok {
                        bad("an insert returned the wrong previous value", k);
                    }
                    cur[k] = d;
                }
                for k in 0..m.min(n + ov) {
                    match s::i_get_ref(t, key(k), unsafe { &*g }).map(s::i_read_ref) {
                        Some((i, true)) if i == cur[k] => {}
                        _ => bad("a lookup returned the wrong value", k),
                    }
                }
                if s::i_len(t) != m.min(n + ov) {
                    bad("len is wrong", 0);
                }
                unsafe { s::guard_free(g) };
                unsafe { s::i_free(t as *const s::ITree as *mut s::ITree) };
            }
            _ => {}
        }
    }

    /// Runs inside the simulation.
    fn exec(&mut self, op: Op) -> Res {
        let v = w().cfg.variant;
        match op {
            Op::Ins { k, g, keep } => {
                let key: &[u8] = &w().cfg.keys[k as usize];
                let id = w().ids[self.tid][self.next_ins];
                self.next_ins += 1;
                w().created[id as usize] = true;
                let (r, old) = match v {
                    Variant::Arc => {
                        if g {
                            let gr = self.gref();
                            s::a_insert_g(atree(), key, id, gr)
                        } else {
                            s::a_insert(atree(), key, id)
                        }
                    }
                    Variant::Inline => {
                        if g {
                            let gr = self.gref();
                            (s::i_insert_g(itree(), key, id, gr), None)
                        } else {
                            (s::i_insert(itree(), key, id), None)
                        }
                    }
                    _ => (s::x_insert(xtree(), key, id), None),
                };
                let res = match r {
                    s::Ins::New => Res::New,
                    s::Ins::Replaced(i, ok) => {
                        if !ok {
                            torn("insert", k);
                        }
                        Res::Val(i)
                    }
                    s::Ins::Err(e) => {
                        result::violate("insert-error", &format!("insert of key #{k} (length {}) failed: {e}", key.len()))
                    }
                };
                if let Some(p) = old {
                    if keep {
                        keep_arc(self.tid, p as usize);
                    } else {
                        unsafe { s::arc_free(p) };
                    }
                }
                res
            }
            Op::Get { k, mode } => {
                let key: &[u8] = &w().cfg.keys[k as usize];
                let r: Option<(u64, bool)> = match v {
                    Variant::Arc => match mode {
                        0 | 1 => {
                            let p = if mode == 0 {
                                s::a_get(atree(), key)
                            } else {
                                let g = self.gref();
                                s::a_get_g(atree(), key, g)
                            };
                            p.map(|p| {
                                let r = s::Val::read(p);
                                unsafe { s::arc_free(p) };
                                r
                            })
                        }
                        _ => {
                            let g = self.gref();
                            s::a_get_ref(atree(), key, g).map(s::Val::read)
                        }
                    },
                    Variant::Inline => match mode {
                        0 => s::i_get(itree(), key),
                        1 => {
                            let g = self.gref();
                            s::i_get_g(itree(), key, g)
                        }
                        _ => {
                            let g = self.gref();
                            s::i_get_ref(itree(), key, g).map(s::i_read_ref)
                        }
                    },
                    _ => s::x_get(xtree(), key),
                };
                match r {
                    None => Res::None,
                    Some((i, ok)) => {
                        if !ok {
                            torn("get", k);
                        }
                        Res::Val(i)
                    }
                }
            }
            Op::Hold { k } => {
                let key: &[u8] = &w().cfg.keys[k as usize];
                let g = self.gref();
                let r = match v {
                    Variant::Arc => s::a_get_ref(atree(), key, g).map(|p| (p as usize, s::Val::read(p))),
                    _ => s::i_get_ref(itree(), key, g).map(|p| (p as usize, s::i_read_ref(p))),
                };
                match r {
                    None => Res::None,
                    Some((p, (i, ok))) => {
                        if !ok {
                            torn("get_ref", k);
                        }
                        hold(&mut self.held, p, i, k);
                        Res::Val(i)
                    }
                }
            }
            Op::Check => {
                self.check();
                Res::None
            }
            Op::Guard => {
                self.unguard();
                self.guard();
                Res::None
            }
            Op::Unguard => {
                self.unguard();
                Res::None
            }
            Op::Len => Res::Num(match v {
                Variant::Arc => s::a_len(atree()),
                Variant::Inline => s::i_len(itree()),
                _ => s::x_len(xtree()),
            } as u64),
            Op::Empty => Res::Bool(match v {
                Variant::Arc => s::a_is_empty(atree()),
                Variant::Inline => s::i_is_empty(itree()),
                _ => s::x_is_empty(xtree()),
            }),
            Op::Debug => {
                if v == Variant::Arc {
                    s::a_debug(atree());
                }
                Res::None
            }
            Op::Respawn | Op::Nop => Res::None,
            Op::Over { k, extra, ins, g } => {
                w().overs += 1;
                let key = outside(|| {
                    let mut key = w().cfg.keys[k as usize].clone();
                    key.resize(257 + extra as usize, 0x77);
                    key
                });
                let mut id = 0;
                if ins {
                    id = w().ids[self.tid][self.next_ins];
                    self.next_ins += 1;
                    w().created[id as usize] = true;
                }
                let gr = if g && matches!(v, Variant::Arc | Variant::Inline) { Some(self.gref()) } else { None };
                w().expect_panic[self.tid] = true;
                let r = match v {
                    Variant::Arc => s::a_over(atree(), &key, ins as u8, id, gr),
                    Variant::Inline => s::i_over(itree(), &key, ins as u8, id, gr),
                    _ => s::x_over(xtree(), &key, ins as u8, id),
                };
                w().expect_panic[self.tid] = false;
                if r == s::Refusal::Accepted {
                    result::violate("over-long", &format!("an operation with a key of {} bytes was not refused (insert: {ins})", key.len()));
                }
                outside(|| drop(key));
                Res::None
            }
            Op::Foreign { k, how } => {
                w().overs += 1;
                let key: &[u8] = &w().cfg.keys[k as usize];
                let mut id = 0;
                if how >= 2 {
                    id = w().ids[self.tid][self.next_ins];
                    self.next_ins += 1;
                    w().created[id as usize] = true;
                }
                let refused = match v {
                    Variant::Arc => {
                        let t: &'static s::ATree = unsafe { &*s::a_new(true) };
                        let g = s::a_guard(t);
                        w().expect_panic[self.tid] = true;
                        let r = s::a_foreign(atree(), key, how, id, unsafe { &*g });
                        w().expect_panic[self.tid] = false;
                        unsafe { s::guard_free(g) };
                        unsafe { s::a_free(t as *const s::ATree as *mut s::ATree) };
                        r
                    }
                    _ => {
                        let t: &'static s::ITree = unsafe { &*s::i_new(true) };
                        let g = s::i_guard(t);
                        w().expect_panic[self.tid] = true;
                        let r = s::i_foreign(itree(), key, how, id, unsafe { &*g });
                        w().expect_panic[self.tid] = false;
                        unsafe { s::guard_free(g) };
                        unsafe { s::i_free(t as *const s::ITree as *mut s::ITree) };
                        r
                    }
                };
                if !refused {
                    let what = ["a lookup by reference", "a lookup", "an insert"][how.min(2) as usize];
                    result::violate("foreign-guard", &format!("{what} accepted a guard that protects another map"));
                }
                Res::None
            }
            Op::Side { n, ov } => {
                w().sides += 1;
                self.side(n as usize, ov as usize, v);
                Res::None
            }
            Op::LWrite { how, mark, us } => {
                let id = w().ids[self.tid][self.next_ins];
                self.next_ins += 1;
                let h = match how {
                    0 => s::ver::How::Lock,
                    1 => s::ver::How::TryLock,
                    2 => s::ver::How::TryLockFor(us as u64),
                    _ => s::ver::How::LockYield,
                };
                let from = w().moment();
                let m = match mark {
                    0 => s::ver::Mark::Nothing,
                    1 => s::ver::Mark::Insert,
                    _ => s::ver::Mark::Split,
                };
                w().inside += 1;
                w().last_begin = from;
                let done = s::ver::write(cell(), h, m, id, 4);
                w().inside -= 1;
                match done {
                    None => Res::None,
                    Some((before, ok)) => {
                        if mark > 0 {
                            w().changed_from = w().changed_from.max(from);
                        }
                        if mark > 1 {
                            w().split_from = w().split_from.max(from);
                        }
                        if !ok {
                            result::violate("lock-exclusion", "two lock holders overlapped: protected words disagree");
                        }
                        Res::Pair(before, if m == s::ver::Mark::Nothing { 0 } else { id })
                    }
                }
            }
            Op::LRead => {
                let quiet = w().inside == 0;
                let from = w().moment();
                let ver = s::ver::stable(cell());
                let read = w().moment();
                let (_, agree, val, valid) = s::ver::read(cell());
                if s::ver::is_dirty_bits(ver) {
                    result::violate("lock-unstable", "a reader was handed a version that has a modification in progress");
                }
                // only with one order of all accesses do these moments mean anything to a reader
                if w().cfg.sched.stale == 0 {
                    let split = self.at % 2 == 1;
                    let latest = if split { w().split_from } else { w().changed_from };
                    let told = if split { s::ver::has_split(cell(), ver) } else { s::ver::has_changed(cell(), ver) };
                    let what = if split { "split" } else { "change" };
                    if latest > read && !told {
                        result::violate("lock-hidden", &format!("a whole {what} since the version was read is not reported"));
                    }
                    if quiet && w().last_begin < from && told {
                        result::violate("lock-hidden", &format!("a {what} is reported although nobody has held the lock since"));
                    }
                }
                if valid && !agree {
                    result::violate("lock-torn-read", "a validated optimistic read saw a mix of two critical sections");
                }
                if valid { Res::Val(val) } else { Res::None }
            }
            Op::NPub { pos } => {
                let id = w().ids[self.tid][self.next_ins];
                self.next_ins += 1;
                match s::leaf::publish(leaf(), id, pos as usize) {
                    s::leaf::Pub::Done => Res::Val(id),
                    s::leaf::Pub::Stolen => result::violate("leaf-slot", &format!("the slot T{} claimed for entry {id} did not stay its own", self.tid)),
                    _ => Res::None,
                }
            }
            Op::NFind { wait } => match s::leaf::find(leaf(), wait) {
                None => Res::None,
                Some(e) => {
                    let ids = pairs(&e, "a validated read");
                    outside(|| w().sets[self.tid].push((self.at, ids, Vec::new())));
                    Res::Num(e.len() as u64)
                }
            },
            Op::NCut { n, back } => {
                let (a, b, out, frozen) = s::leaf::cut(leaf(), n as usize, back);
                if !frozen {
                    result::violate("leaf-freeze", "the permutation did not stay frozen while a guard was held");
                }
                if a != b {
                    result::violate("leaf-freeze", "entries of a frozen leaf changed under the holder of the lock");
                }
                let ids = pairs(&a, "the holder of the lock");
                outside(|| w().sets[self.tid].push((self.at, ids, out.clone())));
                Res::Num(a.len() as u64)
            }
        }
    }
}

/// The identities of a leaf's entries, each of which must carry its own key.
fn pairs(e: &[(u64, u64)], who: &str) -> Vec<u64> {
    outside(|| {
        for (k, id) in e {
            if *id == 0 || s::leaf::ikey_of(*id) != *k {
                result::violate("leaf-slot", &format!("{who} saw value {id} with the key {k:#x} of another entry"));
            }
        }
        e.iter().map(|x| x.1).collect()
    })
}

fn outside<R>(f: impl FnOnce() -> R) -> R {
    let a = unsafe { rt::ACTIVE };
    let o = unsafe { rt::ARENA_ON };
    unsafe {
        rt::ACTIVE = false;
        rt::ARENA_ON = false;
    }
    let r = f();
    unsafe {
        rt::ACTIVE = a;
        rt::ARENA_ON = o;
    }
    r
}
fn keep_arc(tid: usize, p: usize) {
    outside(|| w().kept[tid].push(p));
}
fn hold(v: &mut Vec<(usize, u64, u32)>, p: usize, i: u64, k: u32) {
    outside(|| v.push((p, i, k)));
}

/// First thread-local destructor registered on a client's OS thread, so the last to run:
/// ends the simulated part of the thread.
struct Last(bool);
impl Drop for Last {
    fn drop(&mut self) {
        unsafe {
            rt::ACTIVE = false;
            rt::ARENA_ON = false;
        }
        if self.0 {
            rt::thread_end();
        }
    }
}
/// Last destructor registered, so the first to run: those of the code under simulation
/// (seize's thread records) run simulated.
struct First;
impl Drop for First {
    fn drop(&mut self) {
        unsafe {
            rt::ACTIVE = true;
            rt::ARENA_ON = true;
        }
    }
}
thread_local! {
    static LAST: std::cell::RefCell<Last> = const { std::cell::RefCell::new(Last(false)) };
    static FIRST: std::cell::RefCell<First> = const { std::cell::RefCell::new(First) };
}

fn client_main(tid: usize) {
    rt::thread_begin(tid);
    LAST.with(|l| l.borrow_mut().0 = true);
    let ops = w().cfg.threads[tid - 1].clone();
    let mut c = Client { tid, guard: 0, held: Vec::new(), next_ins: 0, at: 0 };
    let mut i = 0;
    // each stretch between respawns runs on its own OS thread
    loop {
        let stop = ops[i..].iter().position(|o| *o == Op::Respawn).map(|p| i + p);
        let end = stop.unwrap_or(ops.len());
        let chunk: Vec<(usize, Op)> = (i..end).map(|j| (j, ops[j])).collect();
        if stop.is_none() {
            run_ops(&mut c, &chunk);
            finish_client(&mut c, end);
            break;
        }
        let cp = &mut c as *mut Client as usize;
        rt::rt().c.respawns += 1;
        let h = std::thread::Builder::new()
            .stack_size(512 << 10)
            .spawn(move || {
                LAST.with(|l| l.borrow_mut().0 = false);
                unsafe { rt::TID = tid };
                let c = unsafe { &mut *(cp as *mut Client) };
                run_ops(c, &chunk);
                finish_client(c, end);
                FIRST.with(|_| ());
            })
            .unwrap();
        h.join().unwrap();
        i = end + 1;
    }
    FIRST.with(|_| ());
}
fn finish_client(c: &mut Client, at: usize) {
    rt::rt().set_op(at);
    rt::simulated(|| c.unguard());
}

fn run_ops(c: &mut Client, ops: &[(usize, Op)]) {
    // the first guard of an OS thread registers the thread, under a process-wide lock
    let mut known = false;
    for &(idx, op) in ops {
        let id = match op {
            Op::Ins { .. } | Op::LWrite { .. } | Op::NPub { .. } => w().ids[c.tid][c.next_ins],
            _ => 0,
        };
        if op == Op::Nop {
            continue;
        }
        rt::rt().set_op(idx);
        c.at = idx;
        rt::rt().set_adding(matches!(op, Op::Ins { k, .. } if !w().cfg.prefill.contains(&k)));
        let (inv, inv_vc) = rt::rt().event(true);
        let lookup = matches!(op, Op::Get { .. } | Op::Hold { .. });
        if known && (lookup || matches!(op, Op::Len | Op::Empty)) {
            rt::rt().arm(false);
        } else if op == Op::LRead {
            rt::rt().arm(false);
        } else if known && matches!(op, Op::Ins { .. }) && w().cfg.sched.freeze.is_some_and(|f| f.0 as usize == c.tid && f.1 as usize == idx) {
            if crate::plan::apart(&w().cfg) {
                rt::rt().arm(true);
            }
        }
        known |= lookup;
        let res = rt::simulated(|| c.exec(op));
        let (ret, ret_vc) = rt::rt().event(false);
        w().recs[c.tid].push(Rec { op, tid: c.tid, idx, id, inv, ret, inv_vc, ret_vc, res });
    }
}

pub struct Opts {
    pub trace: bool,
}

/// Execute one run in this process; does not return.
pub fn execute(cfg: &RunCfg, decisions: &[Dec], opts: &Opts) -> ! {
    let n = cfg.threads.len();
    arena::reset(cfg.sched.reuse);
    let mut ids: Vec<Vec<u64>> = vec![Vec::new(); n + 1];
    let mut id_key = vec![u32::MAX];
    for k in &cfg.prefill {
        ids[0].push(id_key.len() as u64);
        id_key.push(*k);
    }
    for (t, ops) in cfg.threads.iter().enumerate() {
        for o in ops {
            match o {
                Op::Ins { k, .. } => {
                    ids[t + 1].push(id_key.len() as u64);
                    id_key.push(*k);
                }
                Op::LWrite { .. } | Op::NPub { .. } => {
                    ids[t + 1].push(id_key.len() as u64);
                    id_key.push(0);
                }
                Op::Over { ins: true, .. } | Op::Foreign { how: 2.., .. } => {
                    ids[t + 1].push(id_key.len() as u64);
                    id_key.push(u32::MAX);
                }
                Op::Side { n, ov } => {
                    for _ in 0..*n as usize + *ov as usize {
                        ids[t + 1].push(id_key.len() as u64);
                        id_key.push(u32::MAX);
                    }
                }
                _ => {}
            }
        }
    }
    let total = id_key.len();
    unsafe {
        W = Some(World {
            cfg: cfg.clone(),
            tree: AtomicPtr::new(std::ptr::null_mut()),
            recs: vec![Vec::new(); n + 1],
            dropped: vec![0; total],
            created: vec![false; total],
            id_key,
            ids,
            bad_drop: false,
            kept: vec![Vec::new(); n + 1],
            expect_panic: vec![false; n + 1],
            nested: vec![false; n + 1],
            reentered: 0,
            sides: 0,
            sets: vec![Vec::new(); n + 1],
            clock: 0,
            inside: 0,
            last_begin: 0,
            changed_from: 0,
            split_from: 0,
            overs: 0,
        });
    }
    install_panic_hook();
    seize::sim::BATCH.store(cfg.batch, Ordering::Relaxed);
    seize::sim::THREADS.store(cfg.cpus, Ordering::Relaxed);
    seize::sim::NO_MEMBARRIER.store(cfg.no_membarrier, Ordering::Relaxed);
    let d = cfg.default_ctor;
    let tree = rt::passive(|| match cfg.variant {
        Variant::Arc => s::a_new(d) as *mut u8,
        Variant::Inline => s::i_new(d) as *mut u8,
        Variant::Index => s::x_new(d) as *mut u8,
        Variant::Lock => s::ver::new(true) as *mut u8,
        Variant::Leaf => s::leaf::new() as *mut u8,
    });
    w().tree.store(tree, Ordering::Relaxed);
    // prefill: the same client code, not simulated
    let mut main = Client { tid: 0, guard: 0, held: Vec::new(), next_ins: 0, at: 0 };
    for (i, k) in cfg.prefill.iter().enumerate() {
        let op = Op::Ins { k: *k, g: false, keep: false };
        let id = w().ids[0][i];
        let res = rt::passive(|| main.exec(op));
        w().recs[0].push(Rec { op, tid: 0, idx: i, id, inv: 0, ret: 0, inv_vc: VC::ZERO, ret_vc: VC::ZERO, res });
    }
    rt::init(cfg.sched.clone(), n, decisions, opts.trace);
    let hs: Vec<_> = (1..=n)
        .map(|t| std::thread::Builder::new().stack_size(1 << 20).spawn(move || client_main(t)).unwrap())
        .collect();
    if n > 0 {
        rt::run_all();
    }
    for h in hs {
        h.join().unwrap();
    }
    oracle::history();
    audit(&mut main);
    result::ok()
}

/// Quiescent checks through the public API, then teardown accounting.
fn audit(main: &mut Client) {
    let cfg = &w().cfg;
    if cfg.variant == Variant::Lock {
        oracle::lock_history();
        return;
    }
    if cfg.variant == Variant::Leaf {
        match rt::simulated(|| s::leaf::rest(leaf())) {
            None => result::violate("leaf-freeze", "the permutation is frozen although nobody holds a guard"),
            Some((e, left)) => {
                let ids = pairs(&e, "the last reader");
                oracle::leaf_history(&ids);
                if left > 0 {
                    result::violate("leaf-slot", &format!("{left} free slots are still claimed at the end"));
                }
            }
        }
        unsafe { s::leaf::free(leaf() as *const _ as *mut _) };
        return;
    }
    oracle::reclaim();
    oracle::space();
    let fin = oracle::final_state();
    let mut sorted: Vec<&[u8]> = fin.keys().map(|k| &cfg.keys[*k as usize][..]).collect();
    sorted.sort();
    for k in 0..cfg.keys.len() as u32 {
        let modes: &[u8] = match cfg.variant {
            Variant::Index => &[0],
            _ => {
                if cfg.keys.len() > 200 && k % 8 != 0 {
                    &[&[0], &[1], &[2]][k as usize % 3][..]
                } else {
                    &[0, 1, 2]
                }
            }
        };
        for &m in modes {
            let walk = !cfg.sched.reuse && k as usize % (cfg.keys.len() / 64 + 1) == 0;
            if walk {
                rt::rt().path = Some(Vec::new());
            }
            let r = rt::simulated(|| main.exec(Op::Get { k, mode: m }));
            oracle::final_get(k, r, &fin);
            if walk {
                let p = rt::rt().path.take().unwrap();
                oracle::path(k, &p, &sorted);
            }
        }
    }
    let len = rt::simulated(|| main.exec(Op::Len));
    let empty = rt::simulated(|| main.exec(Op::Empty));
    oracle::final_len(len, empty, &fin);
    rt::simulated(|| main.unguard());
    // current values must still be alive
    if cfg.variant == Variant::Arc {
        for (k, id) in fin.iter() {
            if w().dropped[*id as usize] != 0 {
                result::violate("drop-early", &format!("value {id}, current for key #{k}, was already dropped"));
            }
        }
    }
    let t = w().tree.swap(std::ptr::null_mut(), Ordering::Relaxed);
    rt::simulated(|| unsafe {
        match cfg.variant {
            Variant::Arc => s::a_free(t as *mut _),
            Variant::Inline => s::i_free(t as *mut _),
            _ => s::x_free(t as *mut _),
        }
    });
    let kept: Vec<usize> = w().kept.iter().flatten().copied().collect();
    for p in &kept {
        let (i, ok) = s::Val::read(*p as *const s::Val);
        if !ok || w().dropped[i as usize] != 0 {
            result::violate("drop-early", &format!("a previous value handed to a client (id {i}) was dropped while the client still owns it"));
        }
    }
    rt::simulated(|| {
        for p in &kept {
            unsafe { s::arc_free(*p as *const s::Val) };
        }
    });
    oracle::teardown();
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let tid = unsafe { rt::TID };
        if w().expect_panic.get(tid) == Some(&true) {
            return;
        }
        unsafe {
            rt::ACTIVE = false;
            rt::ARENA_ON = false;
        }
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if l.starts_with("src/") {
            result::harness_error(&format!("harness panic at {l}: {m}"));
        }
        result::violate("panic", &format!("panic at {l}: {m}"));
    }));
}
