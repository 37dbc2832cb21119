//! Seeded generation of runs: workload, schedule and fault configuration.

use crate::rt::{Base, Rng, SchedCfg};
use crate::work::{Op, RunCfg, Variant};

/// What a property asks of the generator.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Shape {
    /// A handful of keys, fully contended.
    Small,
    /// Prefilled to just below a leaf split.
    Boundary,
    /// Keys that collide in their first slices: layers are created concurrently.
    Layers,
    /// Keys with equal zero-padded slices and different lengths, at leaf capacity.
    Twins,
    /// Enough leaves that internal nodes split.
    Multi,
    /// Three levels of internal nodes.
    Deep,
    /// One thread held up inside an operation while others split nodes hundreds of times.
    Storm,
    /// Repeated overwrites with guards held and released.
    Overwrite,
    /// Long runs of overwrites without guards, to count garbage.
    Garbage,
    /// Threads come and go.
    Lifecycle,
    /// Values held by reference while overwritten.
    Hold,
    /// len / is_empty next to inserts.
    Count,
    /// Growth from an empty tree.
    Grow,
    /// Exclusive index: one writer or many readers.
    Index,
    /// Version lock.
    Lock,
    /// Lookups held up while their leaf splits and its slots are given to other keys.
    Slots,
    /// Long keys in descending order: slots of one leaf are reused over and over.
    Bloat,
    /// One thread overwrites keys in one part of the key space, the others work elsewhere.
    Zones,
    /// A leaf node on its own.
    Leaf,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Mem {
    Sc,
    Races,
    Weak,
    /// Freed memory handed out again at once.
    Reuse,
}


/// `n` (or fewer) distinct keys of one family.
pub fn family(r: &mut Rng, which: u64, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let big = n > 300;
    let mut seen = std::collections::HashSet::new();
    let mut add = |v: &mut Vec<Vec<u8>>, k: Vec<u8>| {
        if k.len() <= 256 && seen.insert(k.clone()) {
            v.push(k);
        }
    };
    let mut tries = 0;
    match which {
        // short strings over an alphabet with zero bytes
        0 => {
            let al = [0u8, 0, 1, b'a', 0xff];
            let maxl = if n > 20 { 9 } else { 3 };
            while v.len() < n && tries < n * 20 {
                tries += 1;
                let l = r.below(maxl + 1) as usize;
                let k = (0..l).map(|_| *r.pick(&al)).collect();
                add(&mut v, k);
            }
        }
        // lengths around the slice boundaries, few distinct bytes
        1 => {
            let c = *r.pick(&[0u8, b'a', 0xff]);
            while v.len() < n && tries < n * 20 {
                tries += 1;
                let base = *r.pick(&[8u64, 8, 8, 16, 24]);
                let l = (base + r.below(5)).saturating_sub(2) as usize;
                let mut k = vec![c; l];
                for _ in 0..r.below(3) {
                    let p = r.below(l.max(1) as u64) as usize;
                    if p < l {
                        k[p] = *r.pick(&[0u8, 1, b'b', 0xfe]);
                    }
                }
                add(&mut v, k);
            }
        }
        // dense 8-byte integers
        2 => {
            let stride = *r.pick(&[1u64, 1, 2, 256, 1 << 40]);
            let base = *r.pick(&[0u64, 1 << 33, u64::MAX - stride.wrapping_mul(n as u64)]);
            let le = !big && r.chance(1, 6);
            for i in 0..n as u64 {
                let x = base.wrapping_add(i.wrapping_mul(stride));
                add(&mut v, if le { x.to_le_bytes().to_vec() } else { x.to_be_bytes().to_vec() });
            }
        }
        // shared prefix of whole slices, dense tail: a populated sub-layer
        3 => {
            let j = 1 + r.below(3) as usize;
            let p: Vec<u8> = (0..8 * j).map(|_| *r.pick(&[0u8, b'p', b'q'])).collect();
            for i in 0..n as u64 {
                let mut k = p.clone();
                k.extend_from_slice(&i.to_be_bytes());
                add(&mut v, k);
            }
        }
        // same first slice, random suffixes
        4 => {
            let slices: Vec<Vec<u8>> = (0..1 + r.below(3)).map(|_| (0..8).map(|_| *r.pick(&[0u8, b'x', b'y'])).collect()).collect();
            while v.len() < n && tries < n * 20 {
                tries += 1;
                let mut k: Vec<u8> = r.pick(&slices).clone();
                let l = r.range(0, 20);
                for _ in 0..l {
                    k.push(*r.pick(&[0u8, 0, b's', b't']));
                }
                add(&mut v, k);
            }
        }
        // every prefix of a few long strings
        5 => {
            let s: Vec<Vec<u8>> = (0..2)
                .map(|_| (0..250).map(|_| *r.pick(&[0u8, 0, 0, b'z', 0xff])).collect::<Vec<u8>>())
                .collect();
            while v.len() < n && tries < n * 30 {
                tries += 1;
                let x = &s[r.below(2) as usize];
                let l = if n > 60 { r.below(250) } else { r.below(34) } as usize;
                add(&mut v, x[..l].to_vec());
            }
        }
        // long keys
        6 => {
            let p: Vec<u8> = (0..256).map(|i| (i % 7) as u8 * 31).collect();
            while v.len() < n && tries < n * 20 {
                tries += 1;
                let l = r.range(100, 256) as usize;
                let mut k = p[..l].to_vec();
                if r.chance(2, 3) {
                    let q = r.below(l as u64) as usize;
                    k[q] ^= 1 + r.below(3) as u8;
                }
                add(&mut v, k);
            }
        }
        // one slice value at all its lengths (0..8), plus longer keys under it, plus neighbours
        7 => {
            let m = r.below(5) as usize;
            let base: Vec<u8> = (0..m).map(|_| *r.pick(&[1u8, b'm', 0x80])).collect();
            for l in m..=8 {
                let mut k = base.clone();
                k.resize(l, 0);
                add(&mut v, k);
            }
            let mut k = base.clone();
            k.resize(8, 0);
            for _ in 0..r.below(4) {
                let mut q = k.clone();
                for _ in 0..r.range(1, 9) {
                    q.push(*r.pick(&[0u8, 1]));
                }
                add(&mut v, q);
            }
            while v.len() < n && tries < n * 20 {
                tries += 1;
                let l = r.range(1, 8) as usize;
                add(&mut v, (0..l).map(|_| r.below(256) as u8).collect());
            }
            v.truncate(n.max(4));
            // a random order decides which of them are prefilled
            for i in (1..v.len()).rev() {
                let j = r.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
        }
        // several populated sub-layers next to each other
        8 => {
            let m = 1 + n / 30;
            for i in 0..n {
                let mut k = format!("layer{:03}", i % m).into_bytes();
                k.extend_from_slice(&((i / m) as u32).to_be_bytes());
                if r.chance(1, 2) {
                    k.extend_from_slice(b"tail");
                }
                add(&mut v, k);
            }
        }
        // keys that are alike up to some depth, however deep, and differ from there on
        11 => {
            let (a, b) = (r.below(249), 8 * r.below(32));
            let d = *r.pick(&[a, 247, 239, b, 127, 63]) as usize;
            let p: Vec<u8> = (0..d).map(|_| *r.pick(&[0u8, 0xff, b'p', 0x80])).collect();
            let groups = r.range(1, 5);
            while v.len() < n && tries < n * 20 {
                tries += 1;
                let top = *r.pick(&[1u64, 2, 9, 17, 256]);
                let l = d + r.range(0, top.min(256 - d as u64)) as usize;
                let mut k = p.clone();
                if d > 3 {
                    k[3] = r.below(groups) as u8;
                }
                while k.len() < l {
                    k.push(*r.pick(&[0u8, 0, 1, 0xff]));
                }
                if r.chance(1, 8) && d > 0 {
                    k[r.below(d as u64) as usize] ^= 0x55;
                }
                add(&mut v, k);
            }
        }
        // long keys that differ in their first slice
        10 => {
            let l = *r.pick(&[256usize, 256, 250, 200, 100]);
            let t = r.below(256) as u8;
            for i in 0..n as u64 {
                let mut k = (i * 3 + 1).to_be_bytes().to_vec();
                k.resize(if r.chance(1, 8) { r.range(9, 256) as usize } else { l }, t);
                add(&mut v, k);
            }
        }
        // random
        _ => {
            while v.len() < n && tries < n * 20 {
                tries += 1;
                let l = r.range(0, 16) as usize;
                add(&mut v, (0..l).map(|_| r.below(256) as u8).collect());
            }
        }
    }
    v
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

/// Order in which a bulk of keys is inserted.
fn arrange(r: &mut Rng, mut ks: Vec<u32>, keys: &[Vec<u8>]) -> Vec<u32> {
    match r.below(4) {
        0 => ks.sort_by(|a, b| keys[*a as usize].cmp(&keys[*b as usize])),
        1 => ks.sort_by(|a, b| keys[*b as usize].cmp(&keys[*a as usize])),
        _ => shuffle(r, &mut ks),
    }
    ks
}

struct Mix {
    ins: u64,
    get: u64,
    hold: u64,
    check: u64,
    guard: u64,
    unguard: u64,
    len: u64,
    empty: u64,
    debug: u64,
    respawn: u64,
}
const MIX: Mix = Mix { ins: 50, get: 40, hold: 4, check: 2, guard: 2, unguard: 2, len: 1, empty: 1, debug: 0, respawn: 0 };

fn one(r: &mut Rng, m: &Mix, k: u32, g: bool) -> Op {
    let w = [m.ins, m.get, m.hold, m.check, m.guard, m.unguard, m.len, m.empty, m.debug, m.respawn];
    let tot: u64 = w.iter().sum();
    let mut x = r.below(tot);
    let mut i = 0;
    while x >= w[i] {
        x -= w[i];
        i += 1;
    }
    match i {
        0 => Op::Ins { k, g: g && r.chance(1, 2), keep: r.chance(1, 4) },
        1 => Op::Get { k, mode: if g { r.below(3) as u8 } else { 0 } },
        2 => Op::Hold { k },
        3 => Op::Check,
        4 => Op::Guard,
        5 => Op::Unguard,
        6 => Op::Len,
        7 => Op::Empty,
        8 => Op::Debug,
        _ => Op::Respawn,
    }
}

fn sched(r: &mut Rng, mem: Mem, est: u64) -> SchedCfg {
    let base = match r.below(11) {
        10 => Base::Starve { victim: 1 + r.below(3) as u8, slice: *r.pick(&[0u64, 0, 3, 6, 10, 25]), mean: *r.pick(&[60u64, 100, 200]) },
        0 | 1 => Base::Walk { mean: *r.pick(&[4u64, 12, 30]) },
        2 | 3 => Base::Walk { mean: *r.pick(&[60u64, 150, 400]) },
        4 | 5 | 6 => Base::Pct { depth: 1 + r.below(6) as u32, est },
        _ => {
            let mut mask = 0u64;
            for _ in 0..1 + r.below(6) {
                mask |= 1 << r.below(64);
            }
            Base::Sites { mask, salt: r.next(), mean: *r.pick(&[100u64, 1000, 5000]) }
        }
    };
    let stall = r.chance(1, 3);
    SchedCfg {
        seed: r.next(),
        base,
        store_bias: r.chance(1, 4),
        stall_gap: if stall { *r.pick(&[50u64, 300, 1500]) } else { 0 },
        stall_len: *r.pick(&[100u64, 1000, 5000, 20_000]),
        site_stall: if r.chance(1, 3) {
            Some((r.next(), r.below(32), 1 + r.below(12), *r.pick(&[200u64, 2000, 20_000])))
        } else {
            None
        },
        stale: if mem == Mem::Weak { *r.pick(&[2u64, 4, 12]) } else { 0 },
        lag: if mem == Mem::Weak { *r.pick(&[0u64, 60, 400, 3000]) } else { 0 },
        horizon: *r.pick(&[1500u64, 6000]),
        sync_ops: r.chance(1, 2),
        reuse: mem == Mem::Reuse,
        races: mem == Mem::Races || (mem == Mem::Weak && r.chance(1, 2)),
        clock_jump: if r.chance(1, 5) { *r.pick(&[200u64, 2000]) } else { 0 },
        spurious: if r.chance(1, 3) { 3 } else { 0 },
        fair_after: u64::MAX,
        cap_after_fair: 0,
        freeze: None,
        long_stall: if r.chance(1, 12) { Some((1 + r.below(est / 4 + 1), *r.pick(&[3000u64, 20_000, 60_000]))) } else { None },
    }
}

pub fn make(profile: &str, shape: Shape, mem: Mem, seed: u64) -> RunCfg {
    make_as(profile, shape, mem, seed, None)
}
pub fn make_as(profile: &str, shape: Shape, mem: Mem, seed: u64, force: Option<Variant>) -> RunCfg {
    let r = &mut Rng::new(seed);
    let variant = match shape {
        Shape::Index => Variant::Index,
        Shape::Lock => Variant::Lock,
        Shape::Leaf => Variant::Leaf,
        _ if force.is_some() => force.unwrap(),
        Shape::Overwrite | Shape::Garbage | Shape::Lifecycle if mem == Mem::Reuse => Variant::Arc,
        Shape::Garbage => Variant::Arc,
        Shape::Hold => if r.chance(3, 4) { Variant::Arc } else { Variant::Inline },
        _ => if r.chance(2, 3) { Variant::Arc } else { Variant::Inline },
    };
    let mut keys: Vec<Vec<u8>>;
    let mut prefill: Vec<u32> = Vec::new();
    let mut threads: Vec<Vec<Op>> = Vec::new();
    let g = r.chance(1, 2);
    let mut stopped = None;
    let mut asleep = None;
    // keys [0, usable) are candidates for insertion, the rest are only ever looked up
    match shape {
        Shape::Small => {
            let n = r.range(1, 6) as usize;
            let f = *r.pick(&[0u64, 1, 3, 4, 5, 6, 7, 9, 11]);
            keys = family(r, f, n + 2);
            let usable = n.min(keys.len());
            for k in 0..usable as u32 {
                if r.chance(1, 3) {
                    prefill.push(k);
                }
            }
            let t = r.range(2, 4);
            for _ in 0..t {
                let mut ops = Vec::new();
                for _ in 0..r.range(3, 14) {
                    let probe = r.chance(1, 12) && keys.len() > usable;
                    let k = if probe { r.range(usable as u64, keys.len() as u64 - 1) } else { r.below(usable as u64) } as u32;
                    let mut op = one(r, &MIX, k, g);
                    if probe {
                        op = Op::Get { k, mode: 0 };
                    }
                    ops.push(op);
                }
                threads.push(ops);
            }
        }
        Shape::Boundary | Shape::Twins | Shape::Layers => {
            let f = match shape {
                Shape::Boundary => *r.pick(&[2u64, 2, 0, 3, 9, 7, 8]),
                Shape::Twins => 7,
                _ => *r.pick(&[4u64, 4, 5, 3, 8, 1, 6, 11, 11]),
            };
            let total = match shape {
                Shape::Layers => r.range(4, 40),
                _ => r.range(24, 60),
            } as usize;
            keys = family(r, f, total);
            let total = keys.len();
            let pre = match shape {
                Shape::Layers => r.below(total as u64 * 2 / 3 + 1) as usize,
                _ => (r.range(14, 24) as usize).min(total.saturating_sub(1)),
            };
            let mut idx: Vec<u32> = (0..total as u32).collect();
            match r.below(3) {
                0 => {}
                1 => idx.reverse(),
                _ => shuffle(r, &mut idx),
            }
            prefill = idx[..pre].to_vec();
            prefill = arrange(r, prefill, &keys);
            let rest: Vec<u32> = idx[pre..].to_vec();
            let t = r.range(2, 4) as usize;
            let hot: Vec<u32> = (0..r.range(1, 4)).map(|_| *r.pick(&idx)).collect();
            for ti in 0..t {
                let mut ops = Vec::new();
                let reader = ti > 0 && r.chance(1, 3);
                let mut mine: Vec<u32> = rest.iter().copied().filter(|_| r.chance(1, t as u64) || r.chance(1, 4)).collect();
                shuffle(r, &mut mine);
                let nops = r.range(4, 16);
                for _ in 0..nops {
                    if !reader && r.chance(2, 3) {
                        if let Some(k) = mine.pop() {
                            ops.push(Op::Ins { k, g: g && r.chance(1, 2), keep: false });
                            if r.chance(1, 3) {
                                ops.push(Op::Get { k, mode: 0 });
                            }
                            continue;
                        }
                    }
                    let k = if r.chance(1, 2) { *r.pick(&hot) } else { *r.pick(&idx) };
                    let mut op = one(r, &MIX, k, g);
                    if reader {
                        if let Op::Ins { k, .. } = op {
                            op = Op::Get { k, mode: if g { r.below(3) as u8 } else { 0 } };
                        }
                    }
                    ops.push(op);
                }
                threads.push(ops);
            }
        }
        Shape::Grow | Shape::Multi | Shape::Deep => {
            let f = *r.pick(&[2u64, 2, 3, 8, 9, 0, 4, 5]);
            let (pre, extra) = match shape {
                Shape::Grow => (r.below(10), r.range(30, 120)),
                Shape::Multi => (r.range(120, 420), r.range(20, 90)),
                // tall enough that a split climbs four levels and adds a fifth
                _ if r.chance(1, 10) => (r.range(9000, 26000), r.range(20, 120)),
                _ => (r.range(2600, 5600), r.range(20, 120)),
            };
            let f = if shape == Shape::Deep { *r.pick(&[2u64, 2, 3]) } else { f };
            keys = family(r, f, (pre + extra) as usize);
            let total = keys.len();
            let extra = (extra as usize).min(total / 2).max(1);
            let pre = total - extra;
            let mut idx: Vec<u32> = (0..total as u32).collect();
            // which keys are left for the threads: a cluster, the top, or anywhere
            match r.below(4) {
                0 => {}
                1 => {
                    let s = r.below(total as u64) as usize;
                    idx.rotate_left(s);
                }
                2 => {
                    // every other key in a window
                    let w = (2 * extra).min(total);
                    let s = r.below((total - w) as u64 + 1) as usize;
                    let (mut keep, mut out) = (Vec::new(), Vec::new());
                    for (i, k) in idx.iter().enumerate() {
                        if i >= s && i < s + w && (i - s) % 2 == 0 && out.len() < extra {
                            out.push(*k);
                        } else {
                            keep.push(*k);
                        }
                    }
                    keep.extend(out);
                    idx = keep;
                }
                _ => shuffle(r, &mut idx),
            }
            prefill = arrange(r, idx[..pre].to_vec(), &keys);
            let mut rest: Vec<u32> = idx[pre..].to_vec();
            match r.below(3) {
                0 => {}
                1 => rest.reverse(),
                _ => shuffle(r, &mut rest),
            }
            let t = r.range(2, 4) as usize;
            let writers = 1 + r.below(t as u64) as usize;
            for ti in 0..t {
                let mut ops = Vec::new();
                if ti < writers {
                    let overlap = r.chance(1, 3);
                    for (i, k) in rest.iter().enumerate() {
                        if i % writers == ti || (overlap && r.chance(1, 3)) {
                            ops.push(Op::Ins { k: *k, g: g && r.chance(1, 3), keep: false });
                            if r.chance(1, 5) {
                                let q = *r.pick(&idx);
                                ops.push(Op::Get { k: q, mode: 0 });
                            }
                        }
                    }
                } else {
                    for _ in 0..r.range(8, 60) {
                        let k = if r.chance(1, 3) { *r.pick(&rest) } else { *r.pick(&idx) };
                        let m = Mix { ins: 3, ..MIX };
                        ops.push(one(r, &m, k, g));
                    }
                }
                threads.push(ops);
            }
        }
        Shape::Storm => {
            let f = *r.pick(&[2u64, 3, 3]);
            let n = r.range(1700, 3400) as usize;
            keys = family(r, f, n);
            let n = keys.len();
            let pre = r.range(10, 60) as usize;
            prefill = (0..pre as u32).collect();
            let mut rest: Vec<u32> = (pre as u32..n as u32).collect();
            let rev = r.chance(1, 6);
            if rev {
                rest.reverse();
            }
            let victims = r.range(1, 2);
            let mut late: Vec<u32> = Vec::new();
            for _ in 0..8 {
                let i = rest.len() - 1 - r.below((rest.len() / 12) as u64) as usize;
                late.push(rest.remove(i));
            }
            threads.push(rest.iter().map(|k| Op::Ins { k: *k, g: false, keep: false }).collect());
            for _ in 0..victims {
                let mut ops = Vec::new();
                for _ in 0..r.range(2, 5) {
                    let k = *r.pick(&late);
                    ops.push(if r.chance(2, 3) { Op::Ins { k, g: false, keep: false } } else { Op::Get { k: *r.pick(&rest), mode: 0 } });
                    ops.push(Op::Get { k, mode: 0 });
                }
                threads.push(ops);
            }
        }
        Shape::Overwrite | Shape::Hold | Shape::Lifecycle => {
            let n = r.range(1, 6) as usize;
            let f = *r.pick(&[0u64, 4, 3, 5, 9]);
            keys = family(r, f, n);
            let n = keys.len() as u64;
            if r.chance(2, 3) {
                prefill = (0..n as u32).collect();
            }
            let t = r.range(2, 4);
            let m = match shape {
                Shape::Hold => Mix { ins: 40, get: 20, hold: 20, check: 12, guard: 5, unguard: 5, ..MIX },
                Shape::Lifecycle => Mix { ins: 50, get: 20, hold: 6, check: 3, guard: 4, unguard: 4, respawn: 6, ..MIX },
                _ => Mix { ins: 70, get: 15, hold: 6, check: 4, guard: 3, unguard: 4, ..MIX },
            };
            // threads that never write see the writers only through what they read
            let readers = if shape != Shape::Lifecycle && r.chance(1, 2) { 1 + r.below(2) } else { 0 };
            for ti in 0..t {
                let m = if ti > 0 && ti <= readers { Mix { ins: 0, get: 60, hold: 15, ..m } } else { Mix { ..m } };
                let len = match shape {
                    Shape::Overwrite => r.range(40, 120),
                    Shape::Lifecycle => r.range(10, 90),
                    _ => if ti == 0 { r.range(40, 110) } else { r.range(10, 60) },
                };
                let mut ops: Vec<Op> = (0..len).map(|_| { let k = r.below(n) as u32; one(r, &m, k, g || shape == Shape::Hold) }).collect();
                if shape == Shape::Lifecycle {
                    // threads that start again first let their guard go
                    ops = ops.into_iter().flat_map(|o| if o == Op::Respawn { vec![Op::Unguard, o] } else { vec![o] }).collect();
                }
                threads.push(ops);
            }
        }
        Shape::Garbage => {
            let n = r.range(1, 5) as usize;
            let f = *r.pick(&[0u64, 4, 9]);
            keys = family(r, f, n);
            let n = keys.len() as u64;
            prefill = (0..n as u32).collect();
            for _ in 0..r.range(1, 4) {
                let mut ops = Vec::new();
                for _ in 0..r.range(150, 400) {
                    let k = r.below(n) as u32;
                    ops.push(if r.chance(7, 8) { Op::Ins { k, g: false, keep: false } } else { Op::Get { k, mode: 0 } });
                }
                threads.push(ops);
            }
        }
        Shape::Slots => {
            let f = *r.pick(&[2u64, 2, 10, 8, 9, 4]);
            let n = r.range(40, 90) as usize;
            keys = family(r, f, n);
            let n = keys.len();
            let mut idx: Vec<u32> = (0..n as u32).collect();
            idx.sort_by(|a, b| keys[*b as usize].cmp(&keys[*a as usize]));
            if r.chance(1, 4) {
                idx.reverse();
            }
            let pre = (r.range(14, 24) as usize).min(n / 2);
            prefill = idx[..pre].to_vec();
            if r.chance(1, 2) {
                shuffle(r, &mut prefill);
            }
            let rest = idx[pre..].to_vec();
            let writers = r.range(1, 2) as usize;
            let readers = r.range(1, 3) as usize;
            for t in 0..writers {
                threads.push(rest.iter().enumerate().filter(|(i, _)| i % writers == t).map(|(_, k)| Op::Ins { k: *k, g: false, keep: false }).collect());
            }
            for _ in 0..readers.min(4 - writers) {
                threads.push(
                    (0..r.range(6, 30))
                        .map(|_| {
                            let k = if r.chance(4, 5) { *r.pick(&idx[..pre]) } else { *r.pick(&idx) };
                            if r.chance(1, 8) { Op::Ins { k, g: false, keep: false } } else { Op::Get { k, mode: *r.pick(&[0u8, 1, 2, 2]) } }
                        })
                        .collect(),
                );
            }
        }
        Shape::Bloat => {
            let n = r.range(260, 420) as usize;
            keys = family(r, 10, n);
            let n = keys.len();
            let pre = r.range(0, 200) as usize;
            let mut idx: Vec<u32> = (0..n as u32).rev().collect();
            if r.chance(1, 6) {
                shuffle(r, &mut idx);
            }
            prefill = idx[..pre].to_vec();
            let t = r.range(1, 2) as usize;
            for i in 0..t {
                threads.push(idx[pre..].iter().enumerate().filter(|(j, _)| j % t == i).map(|(_, k)| Op::Ins { k: *k, g: false, keep: false }).collect());
            }
        }
        Shape::Zones => {
            let mut mine: Vec<u32> = Vec::new();
            let mut theirs: Vec<u32> = Vec::new();
            keys = Vec::new();
            let n = r.range(140, 420);
            let long = r.chance(1, 3);
            let c = match r.below(3) {
                0 => 0,
                1 => n - 6,
                _ => r.below(n - 6),
            };
            // the zone may be a layer of its own, and so may a few places far away
            let layered = r.chance(1, 2);
            let fresh = layered && r.chance(1, 2);
            let f = *r.pick(&[0u64, 2, 3, 4, 9, 9]);
            let p = *r.pick(&[b'a', b'a', 0]);
            for i in 0..n {
                let k = (i * 5 + 2).to_be_bytes().to_vec();
                let near = i >= c && i < c + 6;
                let away = i + 60 < c || i > c + 66;
                let mut put = |k: Vec<u8>, keys: &mut Vec<Vec<u8>>| {
                    let x = keys.len() as u32;
                    if near { mine.push(x) } else if away { theirs.push(x) }
                    keys.push(k);
                };
                if layered && if near { i == c + 2 } else { away && r.chance(1, 40) } {
                    let most = if !near { 5 } else if r.chance(1, 2) { 40 } else { 6 };
                    let m = r.range(2, most) as usize;
                    let mut had: Vec<Vec<u8>> = Vec::new();
                    for tail in family(r, f, m.max(2)) {
                        let mut k = k.clone();
                        k.push(p);
                        k.extend_from_slice(&tail[..tail.len().min(200)]);
                        if !had.contains(&k) {
                            had.push(k.clone());
                            put(k, &mut keys);
                        }
                    }
                    continue;
                }
                if layered && near {
                    keys.push(k);
                    continue;
                }
                let mut k = k;
                if long && r.chance(1, 2) {
                    k.extend_from_slice(b"suffix");
                }
                put(k, &mut keys);
            }
            // all of the first zone is there from the start
            for k in 0..keys.len() as u32 {
                let first = mine.iter().position(|m| *m == k);
                if first.is_some_and(|i| !fresh || i < 2 || r.chance(1, 2)) || first.is_none() && (!theirs.contains(&k) || r.chance(3, 4)) {
                    prefill.push(k);
                }
            }
            prefill = arrange(r, prefill, &keys);
            let t = r.range(2, 4) as usize;
            let one_of = r.below(t as u64) as usize;
            let m = Mix { ins: 60, get: 30, hold: 4, ..MIX };
            let still = fresh || r.chance(1, 2);
            let hot: Vec<u32> = (0..6).map(|_| *r.pick(&theirs)).collect();
            for i in 0..t {
                let zone = if i == one_of { &mine } else if r.chance(1, 2) { &hot } else { &theirs };
                let len = r.range(3, if i == one_of { 8 } else { 20 });
                threads.push(
                    (0..len)
                        .map(|_| {
                            let k = *r.pick(zone);
                            match one(r, &m, k, g) {
                                // others must not need nodes while one may be allocating some,
                                // and must not split any if they are to be sure of a direct way
                                Op::Ins { k, .. } if still && i != one_of && !prefill.contains(&k) => Op::Get { k, mode: 0 },
                                o => o,
                            }
                        })
                        .collect(),
                );
            }
            stopped = Some((one_of, fresh));
        }
        Shape::Count => {
            let f = *r.pick(&[0u64, 2, 3, 4, 8, 9]);
            let n = r.range(1, 40) as usize;
            keys = family(r, f, n);
            let n = keys.len() as u64;
            for k in 0..n as u32 {
                if r.chance(1, 4) {
                    prefill.push(k);
                }
            }
            if r.chance(1, 3) {
                prefill.clear();
            }
            let m = Mix { ins: 60, get: 5, len: 25, empty: 10, ..MIX };
            for _ in 0..r.range(2, 4) {
                let len = r.range(4, 30);
                threads.push((0..len).map(|_| { let k = r.below(n) as u32; one(r, &m, k, g) }).collect());
            }
        }
        Shape::Index => {
            let f = *r.pick(&[0u64, 1, 2, 3, 4, 5, 7, 8, 9]);
            let n = r.range(2, 200) as usize;
            keys = family(r, f, n);
            let n = keys.len() as u64;
            if r.chance(1, 2) {
                // one exclusive user
                let m = Mix { ins: 60, get: 30, hold: 0, check: 0, guard: 0, unguard: 0, len: 5, empty: 3, ..MIX };
                let len = r.range(10, 250);
                threads.push((0..len).map(|_| { let k = r.below(n) as u32; one(r, &m, k, false) }).collect());
            } else {
                for k in 0..n as u32 {
                    if r.chance(2, 3) {
                        prefill.push(k);
                    }
                }
                prefill = arrange(r, prefill, &keys);
                let m = Mix { ins: 0, get: 30, hold: 0, check: 0, guard: 0, unguard: 0, len: 2, empty: 2, ..MIX };
                for _ in 0..r.range(2, 4) {
                    let len = r.range(5, 40);
                    threads.push((0..len).map(|_| { let k = r.below(n) as u32; one(r, &m, k, false) }).collect());
                }
            }
        }
        Shape::Leaf => {
            keys = vec![vec![]];
            let cutter = r.below(5);
            let crowded = r.chance(1, 3);
            for _ in 0..r.range(2, 4) {
                let mut ops = Vec::new();
                let c = *r.pick(&[cutter, 0, 8]);
                for _ in 0..if crowded { r.range(10, 24) } else { r.range(3, 12) } {
                    ops.push(match r.below(10) {
                        x if x < c => Op::NCut { n: *r.pick(&[1u8, 1, 2, 5, 24]), back: r.chance(1, 3) },
                        x if x < 8 => Op::NPub { pos: *r.pick(&[0u8, 0, 1, 3, 24]) },
                        _ => Op::NFind { wait: r.chance(1, 2) },
                    });
                }
                threads.push(ops);
            }
        }
        Shape::Lock => {
            keys = vec![vec![]];
            // sometimes a reader sleeps through so many changes that part of the version comes round
            let many = r.chance(1, 10);
            if many {
                let mark = r.range(1, 2) as u8;
                threads.push((0..64 * r.range(1, 2)).map(|_| Op::LWrite { how: 0, mark, us: 1 }).collect());
                threads.push(vec![Op::LRead; 3]);
                asleep = Some((2u8, r.below(3) as u16, r.range(1, 15) as u32, false));
            }
            for _ in 0..if many { 0 } else { r.range(2, 5) } {
                let mut ops = Vec::new();
                let reader = r.chance(1, 3);
                for _ in 0..r.range(3, 14) {
                    if r.chance(if reader { 9 } else { 3 }, 10) {
                        ops.push(Op::LRead);
                    } else {
                        ops.push(Op::LWrite { how: r.below(4) as u8, mark: *r.pick(&[0u8, 1, 1, 2, 2]), us: 1 << r.below(12) });
                    }
                }
                threads.push(ops);
            }
        }
    }
    let total: u64 = threads.iter().map(|t| t.len() as u64).sum();
    let per = match shape {
        Shape::Lock => 40,
        _ => 180,
    };
    let est = total * per;
    let mut sched = sched(r, mem, est);
    match shape {
        Shape::Storm => {
            let salt = r.next();
            sched.site_stall = Some((salt, r.below(32), 1 + r.below(600), 5_000_000));
            sched.base = match r.below(2) {
                0 => Base::Walk { mean: *r.pick(&[400u64, 3000]) },
                _ => Base::Sites { mask: 0, salt: 0, mean: 2000 },
            };
            sched.stall_gap = 0;
        }
        Shape::Garbage => {
            sched.site_stall = None;
        }
        Shape::Overwrite if r.chance(1, 4) => {
            // a thread that only reads, if there is one, hardly gets on
            let only_reads = |t: &Vec<Op>| t.iter().all(|o| !matches!(o, Op::Ins { .. }));
            let t = threads.iter().position(only_reads).unwrap_or(0) as u8 + 1;
            sched.base = Base::Starve { victim: t, slice: *r.pick(&[0u64, 0, 2, 4, 8]), mean: *r.pick(&[80u64, 120, 200]) };
            sched.stall_gap = 0;
            // and the others have plenty to do meanwhile
            if r.chance(1, 3) {
                let most = r.range(150, 500) as usize;
                for (i, ops) in threads.iter_mut().enumerate() {
                    if i + 1 != t as usize {
                        let of: Vec<Op> = ops.iter().filter(|o| matches!(o, Op::Ins { keep: false, .. })).cloned().collect();
                        while !of.is_empty() && ops.len() < most {
                            ops.extend_from_slice(&of);
                        }
                    }
                }
            }
        }
        Shape::Slots => {
            if r.chance(3, 4) {
                sched.stall_gap = *r.pick(&[60u64, 150, 400]);
                sched.stall_len = *r.pick(&[1500u64, 4000, 9000]);
            }
        }
        _ => {}
    }
    // rare operations
    if !matches!(shape, Shape::Lock | Shape::Storm | Shape::Deep | Shape::Garbage | Shape::Bloat | Shape::Index | Shape::Zones | Shape::Leaf) {
        let (side, over) = match shape {
            Shape::Lifecycle => (2, 4),
            Shape::Hold => (3, 12),
            Shape::Overwrite | Shape::Small | Shape::Layers => (8, 8),
            _ => (20, 12),
        };
        if r.chance(1, side) {
            for _ in 0..r.range(1, 3) {
                let t = r.below(threads.len() as u64) as usize;
                let at = r.below(threads[t].len() as u64 + 1) as usize;
                threads[t].insert(at, Op::Side { n: r.range(1, 8) as u8, ov: r.below(7) as u8 });
            }
        }
        if matches!(variant, Variant::Arc | Variant::Inline) && r.chance(1, over) {
            let t = r.below(threads.len() as u64) as usize;
            let at = r.below(threads[t].len() as u64 + 1) as usize;
            let k = r.below(keys.len() as u64) as u32;
            threads[t].insert(at, Op::Foreign { k, how: r.below(3) as u8 });
        }
        if r.chance(1, over) {
            for _ in 0..r.range(1, 2) {
                let t = r.below(threads.len() as u64) as usize;
                let at = r.below(threads[t].len() as u64 + 1) as usize;
                let k = r.below(keys.len() as u64) as u32;
                threads[t].insert(at, Op::Over { k, extra: *r.pick(&[0u16, 0, 1, 7, 8, 300]), ins: r.chance(2, 3), g });
            }
        }
    }
    let reenter = variant == Variant::Arc
        && match shape {
            Shape::Overwrite | Shape::Lifecycle | Shape::Hold | Shape::Layers => r.chance(1, 4),
            Shape::Small | Shape::Garbage | Shape::Boundary => r.chance(1, 8),
            _ => false,
        };
    // everything finishes long before this unless threads wait for each other forever
    sched.fair_after = total * 2500 + 30_000;
    sched.cap_after_fair = total * 4000 + 200_000;
    if asleep.is_some() {
        sched.freeze = asleep;
    }
    if let Some(t) = stopped {
        stop_writer(r, t.0, t.1, &mut threads, &mut sched);
    }
    RunCfg {
        profile: profile.into(),
        seed,
        variant,
        default_ctor: r.chance(1, 3),
        batch: if r.chance(1, 2) { 32 } else { *r.pick(&[1usize, 1, 2, 4, 8]) },
        cpus: *r.pick(&[8usize, 8, 1, 2]),
        no_membarrier: r.chance(1, 6),
        sched,
        keys,
        prefill,
        threads,
        reenter,
        mute: Vec::new(),
    }
}

/// Thread `t` is to be stopped for good inside one of its overwrites.
fn stop_writer(r: &mut Rng, t: usize, fresh: bool, threads: &mut [Vec<Op>], sched: &mut SchedCfg) {
    let ops = &mut threads[t];
    let at = r.below(ops.len() as u64 + 1) as usize;
    // the key used next, so that it is new if the thread adds keys
    let key = |o: &Op| if let Op::Ins { k, .. } | Op::Get { k, .. } | Op::Hold { k } = o { Some(*k) } else { None };
    let k = match ops[at..].iter().find_map(key).or_else(|| ops.iter().find_map(key)) {
        Some(k) => k,
        None => return,
    };
    ops.insert(at, Op::Ins { k, g: r.chance(1, 2), keep: false });
    ops.insert(at, Op::Get { k, mode: r.below(3) as u8 });
    let writes = r.chance(3, 4);
    let many = if fresh { *r.pick(&[20, 60, 160]) } else { 20 };
    let far = if fresh { *r.pick(&[250u64, 3000]) } else { *r.pick(&[60u64, 250]) };
    let n = if writes { r.below(many) } else { r.below(far) };
    sched.freeze = Some((t as u8 + 1, at as u16 + 1, n as u32, writes));
}

/// Whether nothing another thread does comes near the entry the insert at the stopping point
/// writes: every other key in use lives at least two leaves away in the uppermost layer, whose
/// leaf an insert locks on its way down, and either the entry exists from the start, or it is new
/// in a lower layer that exists from the start and the others only look up and overwrite keys.
pub fn apart(cfg: &RunCfg) -> bool {
    let Some((t, at, ..)) = cfg.sched.freeze else { return false };
    let t = t as usize - 1;
    let Some(Op::Ins { k, .. }) = cfg.threads.get(t).and_then(|o| o.get(at as usize)).copied() else { return false };
    if cfg.reenter {
        return false;
    }
    let there_already = |k: &u32| cfg.prefill.contains(k);
    let slice = |k: u32| {
        let b = &cfg.keys[k as usize];
        let mut s = [0u8; 8];
        let n = b.len().min(8);
        s[..n].copy_from_slice(&b[..n]);
        s
    };
    let long = |k: u32| cfg.keys[k as usize].len() > 8;
    let mine = slice(k);
    // its layer exists from the start
    let layer = long(k) && cfg.prefill.iter().filter(|q| long(**q) && slice(**q) == mine).count() >= 2;
    let theirs = || cfg.threads.iter().enumerate().filter(|(i, _)| *i != t).flat_map(|(_, o)| o);
    // an insert that adds a key may be stopped while it allocates a node, and nodes are allocated
    // under a lock: the others must not need any
    if !there_already(&k) && !(layer && theirs().all(|o| if let Op::Ins { k, .. } = o { there_already(k) } else { true })) {
        return false;
    }
    let mut there: Vec<[u8; 8]> = cfg.prefill.iter().map(|q| slice(*q)).collect();
    there.sort();
    there.dedup();
    let far = |q: [u8; 8]| {
        let (lo, hi) = (mine.min(q), mine.max(q));
        there.iter().filter(|s| **s > lo && **s < hi).count() >= 48
    };
    theirs().all(|o| match o {
        Op::Ins { k, .. } | Op::Get { k, .. } | Op::Hold { k } => {
            let q = slice(*k);
            q != mine && far(q)
        }
        Op::Check | Op::Guard | Op::Unguard | Op::Len | Op::Empty | Op::Nop => true,
        _ => false,
    }) && cfg.threads[t].iter().all(|o| match o {
        Op::Ins { .. } | Op::Get { .. } | Op::Hold { .. } | Op::Check | Op::Guard | Op::Unguard | Op::Len | Op::Empty | Op::Nop => true,
        _ => false,
    })
}

/// One thread is to be stopped for good inside a lookup.
pub fn stop_reader(cfg: &mut RunCfg) {
    if cfg.threads.len() < 2 || !matches!(cfg.variant, Variant::Arc | Variant::Inline) {
        return;
    }
    let mut r = Rng::new(cfg.seed ^ 0x5709);
    let t = r.below(cfg.threads.len() as u64) as usize;
    // a key others write to, or one near it
    let written: Vec<u32> = cfg
        .threads
        .iter()
        .enumerate()
        .filter(|(i, _)| *i != t)
        .flat_map(|(_, o)| o.iter())
        .filter_map(|o| if let Op::Ins { k, .. } = o { Some(*k) } else { None })
        .collect();
    let n = cfg.keys.len() as u64;
    let k = if written.is_empty() || r.chance(1, 4) { r.below(n) as u32 } else { *r.pick(&written) };
    let k = ((k as u64 + *r.pick(&[0, 0, 0, 1, n - 1])) % n) as u32;
    let at = r.below(cfg.threads[t].len() as u64 + 1) as usize;
    let first = Op::Get { k: r.below(n) as u32, mode: r.below(3) as u8 };
    let op = match r.below(12) {
        0 => Op::Len,
        1 => Op::Empty,
        2..=4 => Op::Hold { k },
        _ => Op::Get { k, mode: r.below(3) as u8 },
    };
    let ops = &mut cfg.threads[t];
    ops.insert(at, op);
    ops.insert(at, first);
    // only what a lookup has written can be in anybody's way
    let writes = r.chance(3, 4);
    let n = if writes {
        1 + r.below(10)
    } else {
        match r.below(3) {
            0 => r.below(40),
            1 => r.below(130),
            _ => r.below(400),
        }
    };
    cfg.sched.freeze = Some((t as u8 + 1, at as u16 + 1, n as u32, writes));
}
