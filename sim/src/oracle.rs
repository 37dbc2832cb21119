//! Oracles over the recorded history and the quiescent state.

use crate::result::violate;
use crate::work::{Op, Rec, Res, Variant, w};
use crate::{arena, rt};
use std::collections::BTreeMap;

/// `a` returned before `b` was invoked, in the order clients can observe.
fn precedes(a: &Rec, b: &Rec) -> bool {
    if a.tid == 0 {
        return b.tid != 0 || a.idx < b.idx;
    }
    if b.tid == 0 {
        return false;
    }
    let c = &w().cfg.sched;
    if c.stale > 0 && !c.sync_ops {
        if a.tid == b.tid {
            return a.idx < b.idx;
        }
        b.inv_vc.0[a.tid] >= a.ret_vc.0[a.tid]
    } else {
        a.ret < b.inv
    }
}

fn show(r: &Rec) -> String {
    let res = match r.res {
        Res::None => "None".into(),
        Res::New => "None".into(),
        Res::Val(i) => format!("Some(v{i})"),
        Res::Num(n) => format!("{n}"),
        Res::Bool(b) => format!("{b}"),
        Res::Pair(a, b) => format!("{a}->{b}"),
    };
    let what = match r.op {
        Op::Ins { k, g, .. } => format!("insert{}(k{k}, v{})", if g { "_with_guard" } else { "" }, r.id),
        Op::Get { k, mode } => format!("{}(k{k})", ["get", "get_with_guard", "get_ref"][mode as usize % 3]),
        Op::Hold { k } => format!("get_ref(k{k})"),
        o => format!("{o:?}"),
    };
    format!("T{} {what} = {res} @[{},{}]", r.tid, r.inv, r.ret)
}

pub fn key_text(k: u32) -> String {
    let b = &w().cfg.keys[k as usize];
    let mut s = String::new();
    for x in b.iter().take(40) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 40 {
        s.push_str("..");
    }
    format!("k{k}=0x{s} ({} bytes)", b.len())
}

fn key_of(op: &Op) -> Option<u32> {
    match op {
        Op::Ins { k, .. } | Op::Get { k, .. } | Op::Hold { k } => Some(*k),
        _ => None,
    }
}

/// Order of the inserts of one key implied by the previous values they returned.
fn chain(k: u32, ops: &[&Rec]) -> Vec<u64> {
    let ins: Vec<&&Rec> = ops.iter().filter(|r| matches!(r.op, Op::Ins { .. })).collect();
    let mut succ: BTreeMap<u64, u64> = BTreeMap::new(); // old id (0 = absent) -> new id
    for r in &ins {
        let old = match r.res {
            Res::New => 0,
            Res::Val(i) => i,
            _ => 0,
        };
        if let Some(other) = succ.insert(old, r.id) {
            let o = ins.iter().find(|x| x.id == other).unwrap();
            let (a, b) = if precedes(o, r) || o.ret <= r.inv { (o, r) } else { (r, o) };
            if old == 0 {
                let kind = if precedes(a, b) { "lost-key" } else { "update-chain" };
                violate(
                    kind,
                    &format!("{}: two inserts both found the key absent: {}; {}", key_text(k), show(a), show(b)),
                );
            }
            violate("update-chain", &format!("{}: value v{old} was returned as previous value twice: {}; {}", key_text(k), show(a), show(b)));
        }
    }
    let mut order = Vec::new();
    let mut cur = 0;
    while let Some(n) = succ.get(&cur) {
        order.push(*n);
        cur = *n;
        if order.len() > ins.len() {
            break;
        }
    }
    if order.len() != ins.len() {
        let t: Vec<String> = ins.iter().map(|r| show(r)).collect();
        violate("update-chain", &format!("{}: previous values do not form one chain: {}", key_text(k), t.join("; ")));
    }
    order
}

fn by_key() -> BTreeMap<u32, Vec<&'static Rec>> {
    let mut m: BTreeMap<u32, Vec<&'static Rec>> = BTreeMap::new();
    for v in &w().recs {
        for r in v {
            if let Some(k) = key_of(&r.op) {
                m.entry(k).or_default().push(r);
            }
        }
    }
    m
}

pub fn history() {
    if matches!(w().cfg.variant, Variant::Lock | Variant::Leaf) {
        return;
    }
    let mut ops = 0u64;
    let mut conc = 0u64;
    for (k, recs) in by_key() {
        // every value seen on this key was written to this key
        for r in &recs {
            if let Res::Val(i) = r.res {
                let wk = w().id_key.get(i as usize).copied().unwrap_or(u32::MAX);
                if wk != k {
                    let from = if wk == u32::MAX { "nowhere".into() } else { key_text(wk) };
                    violate("wrong-key", &format!("{}: {} returned a value written to {from}", key_text(k), show(r)));
                }
            }
        }
        let order = chain(k, &recs);
        let mut pos: BTreeMap<u64, u64> = BTreeMap::new();
        pos.insert(0, 0);
        for (i, id) in order.iter().enumerate() {
            pos.insert(*id, i as u64 + 1);
        }
        let p = |r: &Rec| -> u64 {
            match r.op {
                Op::Ins { .. } => 2 * pos[&r.id],
                _ => match r.res {
                    Res::Val(i) => 2 * pos.get(&i).copied().unwrap_or(0) + 1,
                    _ => 1,
                },
            }
        };
        for (x, a) in recs.iter().enumerate() {
            ops += 1;
            for b in recs.iter().skip(x + 1) {
                if a.tid == 0 && b.tid == 0 {
                    continue;
                }
                let (pa, pb) = (p(a), p(b));
                let bad = if precedes(a, b) {
                    (pa > pb || (pa == pb && matches!(a.op, Op::Ins { .. }) && false)).then_some((a, b))
                } else if precedes(b, a) {
                    (pb > pa).then_some((b, a))
                } else {
                    conc += 1;
                    None
                };
                if let Some((f, l)) = bad {
                    let lost = matches!(l.res, Res::None | Res::New);
                    violate(
                        if lost { "lost-key" } else { "stale-read" },
                        &format!("{}: {} happened before {}, which did not see it", key_text(k), show(f), show(l)),
                    );
                }
            }
        }
    }
    let pubs = published();
    lens();
    let s = &mut crate::result::sh().stats;
    s[17] = pubs;
    s[0] = ops;
    s[1] = conc;
}

/// Whoever reads a value synchronizes with the insert that wrote it: everything its thread did
/// before the insert happened before the read returned.
fn published() -> u64 {
    if w().cfg.sched.sync_ops {
        return 0;
    }
    let mut by: BTreeMap<u64, &Rec> = BTreeMap::new();
    for r in w().recs.iter().flatten() {
        if matches!(r.op, Op::Ins { .. }) && r.tid != 0 {
            by.insert(r.id, r);
        }
    }
    let mut n = 0;
    for r in w().recs.iter().flatten() {
        let Res::Val(i) = r.res else { continue };
        let Some(x) = by.get(&i) else { continue };
        if r.tid == 0 || r.tid == x.tid {
            continue;
        }
        n += 1;
        if r.ret_vc.0[x.tid] < x.inv_vc.0[x.tid] {
            violate(
                "unordered-read",
                &format!(
                    "{}: {} returned v{i} without synchronizing with {}: what T{} did before the insert need not be visible to T{}",
                    key_text(key_of(&x.op).unwrap()), show(r), show(x), x.tid, r.tid
                ),
            );
        }
    }
    n
}

fn first_inserts() -> Vec<&'static Rec> {
    // for each key, the insert that created it
    let mut v = Vec::new();
    for r in w().recs.iter().flatten() {
        if matches!(r.op, Op::Ins { .. }) && r.res == Res::New {
            v.push(r);
        }
    }
    v
}

fn lens() {
    let firsts = first_inserts();
    let mut seen: Vec<(&Rec, u64)> = Vec::new();
    for r in w().recs.iter().flatten() {
        let lo = || firsts.iter().filter(|f| precedes(f, r)).count() as u64;
        let hi = || firsts.iter().filter(|f| !precedes(r, f)).count() as u64;
        match r.res {
            Res::Num(n) if r.op == Op::Len => {
                let (lo, hi) = (lo(), hi());
                if n < lo || n > hi {
                    violate("len", &format!("{}: between {lo} and {hi} keys were inserted at that point", show(r)));
                }
                for (o, m) in &seen {
                    if precedes(o, r) && *m > n {
                        violate("len", &format!("len went backwards: {} then {}", show(o), show(r)));
                    }
                    if precedes(r, o) && *m < n {
                        violate("len", &format!("len went backwards: {} then {}", show(r), show(o)));
                    }
                }
                seen.push((r, n));
            }
            Res::Bool(e) if r.op == Op::Empty => {
                if e && lo() > 0 {
                    violate("len", &format!("{} although {} keys had been inserted", show(r), lo()));
                }
                if !e && hi() == 0 {
                    violate("len", &format!("{} although nothing had been inserted", show(r)));
                }
            }
            _ => {}
        }
    }
}

/// key -> current value id
pub fn final_state() -> BTreeMap<u32, u64> {
    let mut m = BTreeMap::new();
    for (k, recs) in by_key() {
        if let Some(id) = chain(k, &recs).last() {
            m.insert(k, *id);
        }
    }
    m
}

pub fn final_get(k: u32, r: Res, fin: &BTreeMap<u32, u64>) {
    match (r, fin.get(&k)) {
        (Res::None, None) => {}
        (Res::Val(i), Some(id)) if i == *id => {}
        (Res::None, Some(id)) => violate(
            "lost-key",
            &format!("{} is absent at the end although v{id} was inserted ({})", key_text(k), who(*id)),
        ),
        (Res::Val(i), exp) => {
            let wk = w().id_key.get(i as usize).copied().unwrap_or(u32::MAX);
            if wk != k {
                violate("wrong-key", &format!("{} finally reads v{i}, which was never written to it", key_text(k)));
            }
            violate("stale-read", &format!("{} finally reads v{i}, expected {exp:?}", key_text(k)));
        }
        _ => {}
    }
}
fn who(id: u64) -> String {
    for r in w().recs.iter().flatten() {
        if r.id == id {
            return show(r);
        }
    }
    String::new()
}

pub fn final_len(len: Res, empty: Res, fin: &BTreeMap<u32, u64>) {
    let n = fin.len() as u64;
    if len != Res::Num(n) {
        violate("len", &format!("at the end len() = {len:?} but {n} keys are present"));
    }
    if empty != Res::Bool(n == 0) {
        violate("len", &format!("at the end is_empty() = {empty:?} but {n} keys are present"));
    }
}

/// Garbage bound at quiescence, all guards released, before the tree is dropped.
pub fn reclaim() {
    let cfg = &w().cfg;
    let s = &mut crate::result::sh().stats;
    if cfg.variant != Variant::Arc {
        return;
    }
    let mut replaced = 0u64;
    let mut dropped = 0u64;
    for r in w().recs.iter().flatten() {
        if let (Op::Ins { .. }, Res::Val(i)) = (r.op, r.res) {
            replaced += 1;
            dropped += (w().dropped[i as usize] > 0) as u64;
        }
    }
    let kept: u64 = w().kept.iter().map(|k| k.len() as u64).sum();
    s[2] = replaced;
    s[3] = dropped;
    s[6] = replaced - dropped - kept.min(replaced - dropped);
    let t = cfg.threads.len() as u64 + 1;
    s[7] = t * (cfg.batch.next_power_of_two() as u64).max(t + 1);
    if s[6] > s[7] + t {
        violate(
            "garbage",
            &format!(
                "{} replaced values are still not reclaimed although no guard is left ({} replaced, {} dropped, {} kept by clients; {} threads, batches of {})",
                s[6], replaced, dropped, kept, t, cfg.batch
            ),
        );
    }
}

/// What a lookup touches when nobody else is active: the nodes on the way from the root, not a
/// detour that grows with the number of keys.
pub fn path(k: u32, blocks: &[usize], sorted: &[&[u8]]) {
    let key = &w().cfg.keys[k as usize][..];
    let mut bound = 9;
    let mut j = 0;
    let mut text = String::new();
    loop {
        // keys in the layer the lookup reaches after j slices
        let pre = &key[..(8 * j).min(key.len())];
        let lo = sorted.partition_point(|x| *x < pre);
        let n = sorted[lo..].partition_point(|x| x.starts_with(pre));
        if j > 0 && n < 2 {
            break;
        }
        let h = match n {
            0..12 => 0,
            12..100 => 1,
            100..1000 => 2,
            1000..8000 => 3,
            _ => 4,
        };
        bound += h + 1;
        text.push_str(&format!(" {n}"));
        j += 1;
        if 8 * j >= key.len() {
            break;
        }
    }
    let got = blocks.len() as u64;
    let s = &mut crate::result::sh().stats;
    s[13] = s[13].max(got * 100 / bound);
    s[14] = s[14].max(got);
    s[16] = s[16].max(j as u64);
    if got > bound {
        violate(
            "long-path",
            &format!("a lookup of {} with nobody else active touches {got} blocks of memory (bound {bound}; keys per layer{text})", key_text(k)),
        );
    }
}

/// Memory at quiescence: what the map keeps is proportional to what is in it.
pub fn space() {
    let cfg = &w().cfg;
    let a = arena::ar();
    let inserts: u64 = w().recs.iter().flatten().filter(|r| matches!(r.op, Op::Ins { .. })).count() as u64;
    let mut largest = 0u64;
    let mut total = 0u64;
    let last: BTreeMap<usize, usize> = a.log.iter().copied().collect();
    for (b, n) in last {
        if arena::state(b) == arena::LIVE {
            largest = largest.max(n as u64);
            total += n as u64;
        }
    }
    let s = &mut crate::result::sh().stats;
    s[8] = largest;
    s[9] = total;
    s[10] = w().reentered;
    s[11] = w().sides;
    s[12] = w().overs;
    let block = 48 * 1024 + 16 * inserts;
    if largest > block {
        violate("bloat", &format!("one block of {largest} bytes is allocated after {inserts} inserts of {} keys (bound {block})", cfg.keys.len()));
    }
    let keys: u64 = cfg.keys.iter().map(|k| 700 * (k.len() as u64 / 8 + 1) + 3 * k.len() as u64 + 300).sum();
    let garbage = (cfg.threads.len() as u64 + 1) * (cfg.batch as u64 + 8) * 9000;
    let bound = 200_000 + keys + garbage;
    if total > bound {
        violate("bloat", &format!("{total} bytes are allocated after {inserts} inserts of {} keys (bound {bound})", cfg.keys.len()));
    }
}

pub fn teardown() {
    let cfg = &w().cfg;
    let s = &mut crate::result::sh().stats;
    s[4] = arena::ar().live_blocks as u64;
    s[5] = arena::ar().live_bytes as u64;
    if std::env::var_os("MSIM_LIVE").is_some() {
        let on = unsafe { rt::ARENA_ON };
        unsafe { rt::ARENA_ON = false };
        for &(b, n) in &arena::ar().log {
            if arena::state(b) == arena::LIVE {
                let v: Vec<u64> = (0..(n / 8).min(8)).map(|i| unsafe { *((b + i * 8) as *const u64) }).collect();
                eprintln!("live {b:#x} {n} {v:x?}");
            }
        }
        unsafe { rt::ARENA_ON = on };
    }
    if cfg.variant == Variant::Arc {
        for id in 1..w().dropped.len() {
            if w().created[id] && w().dropped[id] == 0 {
                violate(
                    "leak",
                    &format!("value {id} ({}) was never dropped although the tree and every handle are gone", who(id as u64)),
                );
            }
        }
    }
    // Node memory. What may remain is static storage of dependencies: seize's list of free
    // thread ids (one small block) and parking_lot's table of parked threads (a small header
    // and a cache-line aligned array of buckets for each time it grew).
    let a = arena::ar();
    let wide: std::collections::HashMap<usize, usize> = a.wide.iter().copied().collect();
    let mut tables = 0;
    let mut small = 0;
    let mut other: Vec<(usize, usize)> = Vec::new();
    // a reused address counts as what it last was
    let last: BTreeMap<usize, usize> = a.log.iter().copied().collect();
    for (b, n) in last {
        if arena::state(b) != arena::LIVE {
            continue;
        }
        if wide.get(&b) == Some(&64) && n.is_power_of_two() && n >= 1024 {
            tables += 1;
        } else if n.is_power_of_two() && (32..=1024).contains(&n) {
            small += 1;
            other.push((b, n));
        } else {
            other.insert(0, (b, n));
            small += 1000;
        }
    }
    if small > 1 + tables || tables > 4 {
        violate(
            "leak-mem",
            &format!(
                "{} blocks are still allocated although the tree and every guard, handle and thread are gone, among them one of {} bytes",
                other.len(),
                other[0].1
            ),
        );
    }
    let _ = rt::rt();
}

pub fn lock_history() {
    // the writes chain like updates of one register
    let mut ws: Vec<&Rec> = Vec::new();
    let mut reads: Vec<&Rec> = Vec::new();
    for r in w().recs.iter().flatten() {
        match (r.op, r.res) {
            (Op::LWrite { .. }, Res::Pair(_, n)) if n != 0 => ws.push(r),
            (Op::LWrite { .. }, Res::Pair(_, _)) => reads.push(r),
            (Op::LRead, Res::Val(_)) => reads.push(r),
            _ => {}
        }
    }
    let mut succ: BTreeMap<u64, u64> = BTreeMap::new();
    for r in &ws {
        if let Res::Pair(b, n) = r.res {
            if succ.insert(b, n).is_some() {
                violate("lock-exclusion", &format!("two critical sections both started from {b}: {}", show(r)));
            }
        }
    }
    let mut pos: BTreeMap<u64, u64> = BTreeMap::new();
    pos.insert(0, 0);
    let mut cur = 0;
    let mut i = 0;
    while let Some(n) = succ.get(&cur) {
        i += 1;
        pos.insert(*n, i);
        cur = *n;
        if i > ws.len() as u64 {
            break;
        }
    }
    if i != ws.len() as u64 {
        violate("lock-exclusion", "critical sections do not form one sequence");
    }
    let p = |r: &Rec| match r.res {
        Res::Pair(_, n) if n != 0 => 2 * pos[&n],
        Res::Pair(b, _) | Res::Val(b) => 2 * pos.get(&b).copied().unwrap_or(u64::MAX / 4) + 1,
        _ => 0,
    };
    let all: Vec<&Rec> = ws.iter().chain(reads.iter()).copied().collect();
    for (x, a) in all.iter().enumerate() {
        for b in all.iter().skip(x + 1) {
            for (f, l) in [(a, b), (b, a)] {
                if precedes(f, l) && p(f) > p(l) {
                    violate("lock-order", &format!("{} happened before {}, which did not see it", show(f), show(l)));
                }
            }
        }
    }
    crate::result::sh().stats[0] = all.len() as u64;
}

/// The entries of a leaf are a set: published once, there until taken out, then gone.
pub fn leaf_history(last: &[u64]) {
    let find = |t: usize, idx: usize| w().recs[t].iter().find(|r| r.idx == idx).unwrap();
    let mut added: BTreeMap<u64, &Rec> = BTreeMap::new();
    let mut never: BTreeMap<u64, &Rec> = BTreeMap::new();
    for r in w().recs.iter().flatten() {
        if let Op::NPub { .. } = r.op {
            if r.res == Res::None { never.insert(r.id, r) } else { added.insert(r.id, r) };
        }
    }
    let mut gone: BTreeMap<u64, &Rec> = BTreeMap::new();
    let mut views: Vec<(&Rec, &Vec<u64>)> = Vec::new();
    for (t, v) in w().sets.iter().enumerate() {
        for (idx, seen, out) in v {
            let r = find(t, *idx);
            views.push((r, seen));
            for id in out {
                if let Some(o) = gone.insert(*id, r) {
                    violate("leaf-set", &format!("entry {id} was taken out twice: {}; {}", show(o), show(r)));
                }
            }
        }
    }
    let check = |what: &str, seen: &[u64]| {
        let mut s = seen.to_vec();
        s.sort();
        for p in s.windows(2) {
            if p[0] == p[1] {
                violate("leaf-set", &format!("{what} saw entry {} twice", p[0]));
            }
        }
        for id in seen {
            if !added.contains_key(id) {
                violate("leaf-set", &format!("{what} saw entry {id}, whose publication {}", if never.contains_key(id) { "failed" } else { "never began" }));
            }
        }
    };
    let mut conc = 0;
    for (r, seen) in &views {
        let what = show(r);
        check(&what, seen);
        for (id, a) in &added {
            let x = gone.get(id);
            if seen.contains(id) {
                if precedes(r, a) {
                    violate("leaf-set", &format!("{what} saw entry {id} before its publication {}", show(a)));
                }
                if let Some(x) = x {
                    if !std::ptr::eq(*x, *r) && precedes(x, r) {
                        violate("leaf-set", &format!("{what} saw entry {id}, which {} had taken out", show(x)));
                    }
                }
            } else if precedes(a, r) && x.is_none_or(|x| precedes(r, x)) {
                violate("leaf-set", &format!("{what} did not see entry {id}, published by {}", show(a)));
            } else if !precedes(a, r) && !precedes(r, a) {
                conc += 1;
            }
        }
    }
    check("the last reader", last);
    for id in added.keys() {
        if last.contains(id) == gone.contains_key(id) {
            violate("leaf-set", &format!("entry {id} was published{} and is {} in the end", if gone.contains_key(id) { " and taken out" } else { "" }, if last.contains(id) { "there" } else { "missing" }));
        }
    }
    let s = &mut crate::result::sh().stats;
    s[0] = (added.len() + never.len() + views.len()) as u64;
    s[1] = conc;
}
