//! `check`: the seeded search for one property, its evidence and its replay files.

use crate::minim;
use crate::plan::{self, Mem, Shape};
use crate::props::{self, Prop};
use crate::result;
use crate::rt::{Base, Counters, Dec, Rng, mix};
use crate::run::{self, Outcome};
use crate::work::{Op, Opts, RunCfg, Variant};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub fn shape(s: &str) -> Shape {
    for x in props::SHAPES {
        if format!("{x:?}").eq_ignore_ascii_case(s) {
            return *x;
        }
    }
    panic!("shape {s}")
}
pub fn mem(s: &str) -> Mem {
    use Mem::*;
    for x in [Sc, Races, Weak, Reuse] {
        if format!("{x:?}").eq_ignore_ascii_case(s) {
            return x;
        }
    }
    panic!("mem {s}")
}

fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}
fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0x51ed_2701, |h, b| mix(h, b as u64 + 1))
}

/// The `i`-th run of a property's search.
pub fn nth(p: &Prop, base: u64, i: u64) -> (Shape, Mem, u64, RunCfg) {
    let mut r = Rng::new(mix(mix(base, hash_str(p.id)), i));
    let tot: u64 = p.mix.iter().map(|m| m.2).sum();
    let mut x = r.below(tot);
    let mut k = 0;
    while x >= p.mix[k].2 {
        x -= p.mix[k].2;
        k += 1;
    }
    let seed = r.next();
    let (s, m, _) = p.mix[k];
    let mut cfg = plan::make_as(p.id, s, m, seed, p.force);
    cfg.reenter |= p.id == "C17";
    if p.id == "C20" {
        cfg.sched.sync_ops = false;
    }
    if p.id == "C18" {
        plan::stop_reader(&mut cfg);
    }
    (s, m, seed, cfg)
}

/// Where the machinery lives: the parent of the directory `sim`.
fn root() -> std::path::PathBuf {
    match std::env::var_os("MSIM_ROOT") {
        Some(r) => r.into(),
        None => std::env::current_dir().unwrap(),
    }
}

// ------------------------------------------------------------------ known findings

struct Known {
    line: String,
    kind: String,
    matches: String,
}
/// Lines `finding: property=<id> kind=<kind> match=<text> -- <what fails>`; `fixed:` lines and
/// comments suppress nothing.
fn known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in t.lines() {
        let Some(rest) = l.strip_prefix("finding:") else { continue };
        let field = |n: &str| {
            rest.split_whitespace().find_map(|w| w.strip_prefix(n)).unwrap_or("").to_string()
        };
        if field("property=") == id {
            let m = rest.split_once("match=").map(|x| x.1).unwrap_or("");
            let m = m.split(" -- ").next().unwrap_or("").to_string();
            v.push(Known { line: rest.trim().into(), kind: field("kind="), matches: m });
        }
    }
    v
}
fn is_known(k: &[Known], o: &Outcome) -> bool {
    if k.is_empty() {
        return false;
    }
    let s = format!("{} {}", o.msg, sym(&o.pcs).join(" "));
    k.iter().any(|k| k.kind == o.kind && !k.matches.is_empty() && s.contains(&k.matches))
}

// ------------------------------------------------------------------ the search

#[derive(Serialize, Deserialize, Default)]
struct Tally {
    runs: u64,
    nontrivial: u64,
    concurrent: u64,
    by: BTreeMap<String, u64>,
    variants: BTreeMap<String, u64>,
    c: Counters,
    faulty: BTreeMap<String, u64>,
    ops: u64,
    pubs: u64,
    hashes: Vec<u64>,
    covs: Vec<u64>,
    max_steps: u64,
    det: (u64, u64),
    other: BTreeMap<String, (u64, u64)>,
    known: BTreeMap<String, u64>,
    harness: Vec<String>,
    bad: Vec<(u64, String, String)>,
    batches: BTreeMap<usize, u64>,
}
impl Tally {
    fn add(&mut self, sh: Shape, me: Mem, cfg: &RunCfg, o: &Outcome) {
        self.runs += 1;
        *self.by.entry(format!("{sh:?}/{me:?}")).or_default() += 1;
        *self.variants.entry(format!("{:?}", cfg.variant)).or_default() += 1;
        *self.batches.entry(cfg.batch).or_default() += 1;
        add(&mut self.c, &o.c);
        self.max_steps = self.max_steps.max(o.c.steps);
        self.ops += o.stats[0];
        self.pubs += o.stats[17];
        let f = &mut self.faulty;
        for (n, x) in [
            ("preemption", o.c.preempts),
            ("stalled thread", o.c.stalls + o.c.site_stalls + o.c.long_stalls),
            ("stale (reordered) load", o.c.stale_loads),
            ("clock jump", o.c.clock_jumps),
            ("lock timeout", o.c.timeouts),
            ("spurious wakeup", o.c.spurious),
            ("freed memory reused at once", o.c.reused),
            ("thread exit and respawn", o.c.respawns),
            ("thread stopped for good inside an operation", o.c.frozen),
            ("value destructor re-entering the map", o.stats[10]),
            ("second map created and dropped meanwhile", o.stats[11]),
            ("over-long key refused", o.stats[12]),
            ("no expedited membarrier", cfg.no_membarrier as u64),
        ] {
            *f.entry(n.into()).or_default() += (x > 0) as u64;
        }
        if o.stats[1] > 0 {
            self.concurrent += 1;
        }
        let nontrivial = cfg.threads.len() > 1
            && (o.c.preempts + o.c.stalls + o.c.site_stalls + o.c.stale_loads) > 0
            && (o.stats[1] > 0 || matches!(cfg.variant, Variant::Lock | Variant::Index));
        if nontrivial {
            self.nontrivial += 1;
            self.hashes.push(o.hash);
            self.covs.push(o.cov);
        }
    }
    fn merge(&mut self, t: Tally) {
        self.runs += t.runs;
        self.nontrivial += t.nontrivial;
        self.concurrent += t.concurrent;
        for (k, v) in t.by {
            *self.by.entry(k).or_default() += v;
        }
        for (k, v) in t.variants {
            *self.variants.entry(k).or_default() += v;
        }
        for (k, v) in t.batches {
            *self.batches.entry(k).or_default() += v;
        }
        for (k, v) in t.faulty {
            *self.faulty.entry(k).or_default() += v;
        }
        add(&mut self.c, &t.c);
        self.ops += t.ops;
        self.pubs += t.pubs;
        self.hashes.extend(t.hashes);
        self.covs.extend(t.covs);
        self.max_steps = self.max_steps.max(t.max_steps);
        self.det.0 += t.det.0;
        self.det.1 += t.det.1;
        for (k, v) in t.other {
            let e = self.other.entry(k).or_insert((0, v.1));
            e.0 += v.0;
            e.1 = e.1.min(v.1);
        }
        for (k, v) in t.known {
            *self.known.entry(k).or_default() += v;
        }
        self.harness.extend(t.harness);
        self.bad.extend(t.bad);
    }
}
fn add(a: &mut Counters, b: &Counters) {
    let n = size_of::<Counters>() / 8;
    let (x, y) = (a as *mut Counters as *mut u64, b as *const Counters as *const u64);
    for i in 0..n {
        unsafe { *x.add(i) += *y.add(i) };
    }
}

/// A quick look at all properties together, for trying out changes: `1/scale` of every quick
/// check, interleaved; stops at the first outcome that is not "ok".
pub fn sweep(rest: &[&str]) -> i32 {
    let scale: u64 = rest.first().and_then(|x| x.parse().ok()).unwrap_or(10);
    let t0 = Instant::now();
    let base = base_seed();
    let ctl = run::ctl();
    let np = props::PROPS.len() as u64;
    let most = props::PROPS.iter().map(|p| p.quick / scale).max().unwrap_or(0);
    let outs = run::workers(run::cpus(), |_| {
        let mut bad: Vec<(u64, String)> = Vec::new();
        let mut done = 0u64;
        loop {
            let j = ctl.next.fetch_add(1, Ordering::SeqCst);
            let (p, i) = (&props::PROPS[(j % np) as usize], j / np);
            if i >= most || j > ctl.min_bad.load(Ordering::SeqCst) {
                break;
            }
            if i >= p.quick / scale {
                continue;
            }
            let (sh, me, _, cfg) = nth(p, base, i);
            let o = run::run_one(&cfg, &[], &Opts { trace: false });
            done += 1;
            if o.harness || !o.kind.is_empty() {
                ctl.min_bad.fetch_min(j, Ordering::SeqCst);
                let who: Vec<&str> = props::PROPS.iter().filter(|p| props::relevant(p, &o.kind)).map(|p| p.id).collect();
                bad.push((j, format!("{} {sh:?}/{me:?} run {i}: {} [{}] {}", p.id, o.kind, who.join(" "), o.msg)));
            }
        }
        serde_json::to_string(&(done, bad)).unwrap()
    });
    let mut all: Vec<(u64, String)> = Vec::new();
    let mut runs = 0;
    for o in &outs {
        match serde_json::from_str::<(u64, Vec<(u64, String)>)>(o) {
            Ok((d, b)) => {
                runs += d;
                all.extend(b);
            }
            Err(e) => all.push((0, format!("a worker died: {e}"))),
        }
    }
    all.sort();
    println!("sweep: {runs} runs, {:.1} s", t0.elapsed().as_secs_f64());
    for (_, b) in all.iter().take(3) {
        println!("BAD {}", b.lines().next().unwrap_or(""));
    }
    !all.is_empty() as i32
}

pub fn check(id: &str, tier: &str, rest: &[&str]) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("msim: no property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let base = base_seed();
    let mut n = if tier == "thorough" { p.thorough } else { p.quick };
    if let Some(x) = rest.first().and_then(|x| x.parse().ok()) {
        n = x;
    }
    let cap = Duration::from_secs(if tier == "thorough" { 760 } else { 400 });
    let kn = known(id);
    let ctl = run::ctl();
    // the first runs of each worker are done twice more: once from the seed and once from
    // the recorded decisions, and must not differ
    const DET: u64 = 12;
    let outs = run::workers(run::cpus(), |_| {
        let mut t = Tally::default();
        loop {
            let i = ctl.next.fetch_add(1, Ordering::SeqCst);
            if i >= n || i > ctl.min_bad.load(Ordering::SeqCst) || t0.elapsed() > cap {
                break;
            }
            let (sh, me, _, cfg) = nth(p, base, i);
            let o = run::run_one(&cfg, &[], &Opts { trace: false });
            if o.harness {
                t.harness.push(format!("run {i}: {}", o.msg));
                if t.harness.len() > 20 {
                    break;
                }
                continue;
            }
            t.add(sh, me, &cfg, &o);
            if !o.kind.is_empty() {
                if is_known(&kn, &o) {
                    *t.known.entry(o.kind.clone()).or_default() += 1;
                } else if props::relevant(p, &o.kind) {
                    ctl.min_bad.fetch_min(i, Ordering::SeqCst);
                    t.bad.push((i, o.kind.clone(), o.msg.clone()));
                } else {
                    let e = t.other.entry(o.kind.clone()).or_insert((0, i));
                    e.0 += 1;
                    e.1 = e.1.min(i);
                }
            } else if t.det.0 < DET && o.ndec < result::MAXDEC {
                let dec = run::decisions();
                let a = run::run_one(&cfg, &[], &Opts { trace: false });
                let mut c = cfg.clone();
                c.sched.base = Base::Replay;
                let b = run::run_one(&c, &dec, &Opts { trace: false });
                t.det.0 += 1;
                if a.hash != o.hash || b.hash != o.hash || !b.kind.is_empty() {
                    t.det.1 += 1;
                }
            }
        }
        serde_json::to_string(&t).unwrap()
    });
    let mut t = Tally::default();
    for o in &outs {
        match serde_json::from_str::<Tally>(o) {
            Ok(x) => t.merge(x),
            Err(e) => t.harness.push(format!("a worker died: {e}")),
        }
    }
    let search = t0.elapsed();
    let (sites, switches) = result::sites();
    if let Some(f) = std::env::var_os("MSIM_SITES") {
        let t: String = sites.iter().map(|a| format!("{a:#x}\n")).collect();
        let _ = std::fs::write(f, t);
    }
    t.bad.sort();
    let mut code = 0;
    let mut lines: Vec<String> = Vec::new();
    let mut viol = Vec::new();
    if let Some((i, kind, msg)) = t.bad.first().cloned() {
        let (path, v) = report(p, base, i, &kind, &msg, t0);
        lines.push(format!("{kind}: {}", msg.chars().take(600).collect::<String>()));
        lines.push(format!("VIOLATION property={id} replay={path}"));
        viol.push(v);
        code = 1;
    }
    for k in &kn {
        if t.known.contains_key(&k.kind) {
            lines.push(format!("KNOWN-FINDING: property={id} {}", k.line));
        } else {
            lines.push(format!("KNOWN-FINDING: property={id} {} (not met in this search)", k.line));
        }
    }
    if code == 0 && (!t.harness.is_empty() || t.runs == 0) {
        for h in t.harness.iter().take(5) {
            eprintln!("msim: {h}");
        }
        code = 2;
    }
    if t.det.1 > 0 {
        eprintln!("msim: {} of {} repeated runs differed", t.det.1, t.det.0);
    }
    let distinct: HashSet<u64> = t.hashes.iter().copied().collect();
    let dcov: HashSet<u64> = t.covs.iter().copied().collect();
    let wall = t0.elapsed().as_secs_f64();
    let c = &t.c;
    let ev = json!({
        "property": id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": distinct.len(),
            "rule": "one evaluation is one simulated execution of the real library, generated from one seed (workload, machine, schedule and faults). Non-trivial: at least two client threads, at least one preemption, stall or reordered load injected, and at least one pair of overlapping client operations on the same key (for the read-mostly index and the bare version lock: at least one injected event). Distinct: different hash of the complete sequence of simulated memory accesses (code address, thread, heap address, value).",
            "samples": samples(p, base, t.runs),
            "concurrent_histories": t.concurrent,
            "distinct_switch_sequences": dcov.len(),
            "code_sites_executed": sites.len(),
            "code_sites_preempted_at": switches.len(),
            "client_operations_checked": t.ops,
            "reads_of_another_thread_s_value_checked_for_ordering": t.pubs,
            "runs_per_second": t.runs as f64 / search.as_secs_f64().max(0.001),
            "runs_and_seeds_per_hour": (t.runs as f64 * 3600.0 / search.as_secs_f64().max(0.001)) as u64,
            "simulated_steps": c.steps,
            "longest_run_steps": t.max_steps,
            "simulated_time_s": c.vtime_ns as f64 / 1e9,
            "faults_injected": {
                "preemptions": c.preempts, "thread_stalls": c.stalls, "thread_stalls_at_chosen_sites": c.site_stalls, "long_thread_stalls": c.long_stalls,
                "stale_loads": c.stale_loads, "loads_with_a_choice": c.weak_loads, "clock_jumps": c.clock_jumps,
                "spurious_wakeups": c.spurious, "timeouts_fired": c.timeouts, "memory_blocks_reused": c.reused,
                "thread_exits": c.respawns,
            },
            "runs_with_fault": t.faulty,
            "other_events": {
                "atomic_operations": c.atomics, "plain_accesses": c.plains, "blocking_waits": c.futex_waits, "wakeups": c.futex_wakes,
                "yields": c.yields, "turns_taken_from_spinning_threads": c.spin_yields, "process_barriers": c.membarriers,
                "allocations": c.allocs, "frees": c.frees, "runs_reaching_the_fair_phase": c.fair_entered,
            },
            "runs_by_shape_and_memory_model": t.by,
            "runs_by_map_variant": t.variants,
            "runs_by_reclamation_batch": t.batches,
            "determinism": { "runs_repeated_from_seed_and_from_decisions": t.det.0, "differences": t.det.1 },
            "components": components(),
            "outcomes_of_other_properties": t.other,
            "known_findings_met": t.known,
        },
        "assumptions": props::ASSUMPTIONS,
        "wall_s": wall,
        "violations": viol,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("msim: cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{id} {tier}: {} runs ({} distinct non-trivial), {:.0} runs/s, {} steps, {} sites, determinism {}/{}, {:.1} s",
        t.runs,
        distinct.len(),
        t.runs as f64 / search.as_secs_f64().max(0.001),
        c.steps,
        sites.len(),
        t.det.0 - t.det.1,
        t.det.0,
        wall
    );
    for (k, (n, i)) in &t.other {
        println!("note: {n} runs ended in {k} (first run {i}), which other properties decide");
    }
    for l in lines {
        println!("{l}");
    }
    code
}

fn components() -> Value {
    json!({
        "real": [
            "masstree (all of it, /repo's working tree, release build, default features)",
            "seize 0.5.1 (guards, reservations, batches, reclamation)",
            "parking_lot 0.12 mutex and condition variable, parking_lot_core, lock_api",
            "portable-atomic 128-bit atomics (its compiler-intrinsic path)",
            "std (Arc, Box, Vec, thread-local storage, thread start and exit)"
        ],
        "simulated": [
            "thread scheduler (one thread at a time, switch points at every memory access)",
            "memory model (sequentially consistent, or C11 release/acquire/relaxed/SC with stale loads)",
            "futex wait and wake, sched_yield, sleep, clock_gettime",
            "membarrier system call, number of processors, reclamation batch size",
            "heap (deterministic arena, lifetime tracking, optional immediate reuse)"
        ],
        "stubbed_or_off": ["tracing feature (off by default)", "seize's mprotect barrier (never chosen)", "real processor caches and compilers other than this one"]
    })
}

fn samples(p: &Prop, base: u64, runs: u64) -> Vec<Value> {
    let mut v = Vec::new();
    for i in [0u64, 1, 2] {
        if i < runs {
            let (sh, me, seed, cfg) = nth(p, base, i);
            let t: Vec<String> = cfg
                .threads
                .iter()
                .map(|ops| ops.iter().take(12).map(op_text).collect::<Vec<_>>().join(" ") + if ops.len() > 12 { " ..." } else { "" })
                .collect();
            v.push(json!({
                "run": i, "seed": seed, "shape": format!("{sh:?}"), "memory": format!("{me:?}"),
                "variant": format!("{:?}", cfg.variant), "keys": cfg.keys.len(), "prefilled": cfg.prefill.len(),
                "schedule": format!("{:?}", cfg.sched.base), "stalls": [cfg.sched.stall_gap, cfg.sched.stall_len], "threads": t,
            }));
        }
    }
    v
}
fn op_text(o: &Op) -> String {
    match o {
        Op::Ins { k, g, .. } => format!("ins{}(k{k})", if *g { "_guard" } else { "" }),
        Op::Get { k, mode } => format!("{}(k{k})", ["get", "get_guard", "get_ref"][*mode as usize % 3]),
        Op::Hold { k } => format!("hold(k{k})"),
        Op::Over { k, extra, ins, .. } => format!("{}(k{k} padded to {} bytes)", if *ins { "ins" } else { "get" }, 257 + *extra as usize),
        Op::Foreign { k, how } => format!("{}(k{k}) under another map's guard", ["get_ref", "get", "ins"][*how as usize % 3]),
        Op::Side { n, ov } => format!("other_map({n} inserts, {ov} overwrites)"),
        o => format!("{o:?}").to_lowercase(),
    }
}

// ------------------------------------------------------------------ violations

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub sites: Vec<String>,
    pub verif_seed: u64,
    pub run: u64,
    pub hash: u64,
    /// Follow `decisions`; otherwise run `cfg` from its own seed.
    pub by_decisions: bool,
    pub cfg: RunCfg,
    pub decisions: Vec<Dec>,
    #[serde(default)]
    pub original: Value,
    #[serde(default)]
    pub how_to_read: String,
    #[serde(default)]
    pub schedule: Vec<String>,
}

fn report(p: &Prop, base: u64, i: u64, kind: &str, msg: &str, t0: Instant) -> (String, Value) {
    let (sh, me, seed, cfg) = nth(p, base, i);
    let o = run::run_one(&cfg, &[], &Opts { trace: false });
    let ndec = o.ndec;
    let dec = run::decisions();
    let mut r = Replay {
        property: p.id.into(),
        kind: kind.into(),
        message: msg.into(),
        sites: sym(&o.pcs),
        verif_seed: base,
        run: i,
        hash: o.hash,
        by_decisions: false,
        cfg: cfg.clone(),
        decisions: Vec::new(),
        original: json!({ "shape": format!("{sh:?}"), "memory": format!("{me:?}"), "seed": seed, "base": cfg.sched.base,
            "operations": cfg.threads.iter().map(|t| t.len()).sum::<usize>(), "decisions": ndec, "prefilled": cfg.prefill.len() }),
        how_to_read: "cfg: machine, keys (hex), keys inserted before the threads start, and each thread's program (Nop: removed by minimisation). decisions: the injected events (kind 0: give the turn to thread val; 1: load returns the val-th older value; 2: clock jump of val us; 3: spurious wake-up) before step `step` of operation `op` of thread `tid`. schedule: the resulting execution.".into(),
        schedule: Vec::new(),
    };
    let left = Duration::from_secs(if t0.elapsed().as_secs() > 600 { 20 } else { 60 });
    if o.kind == kind && ndec < result::MAXDEC && kind != "hang" {
        if let Some(m) = minim::minimise(&cfg, dec, kind, left) {
            r.message = m.out.msg.clone();
            r.sites = sym(&m.out.pcs);
            r.hash = m.out.hash;
            r.by_decisions = true;
            r.cfg = m.cfg;
            r.decisions = m.dec;
            r.original["minimisation_runs"] = json!(m.tried);
            // programs without their removed tail
            for t in &mut r.cfg.threads {
                while t.last() == Some(&Op::Nop) {
                    t.pop();
                }
            }
            let o2 = run::run_one(&r.cfg, &r.decisions, &Opts { trace: false });
            r.hash = o2.hash;
            r.message = o2.msg.clone();
        }
    }
    r.schedule = schedule(&r);
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{}-{}-{}.json", p.id, kind, base, i));
    std::fs::write(&f, serde_json::to_string_pretty(&r).unwrap() + "\n").unwrap();
    let path = f.to_string_lossy().into_owned();
    // in a process of its own
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let ok = std::process::Command::new(exe)
        .arg("replay")
        .arg(&path)
        .env_remove("MSIM_REEXEC")
        .output()
        .map(|o| o.status.code() == Some(1))
        .unwrap_or(false);
    println!("replay {}: {}", if ok { "reproduces exactly" } else { "does NOT reproduce" }, path);
    let v = json!({ "kind": kind, "message": r.message, "replay": path, "run": i, "seed": seed, "replay_reproduces": ok,
        "operations": r.cfg.threads.iter().flatten().filter(|o| **o != Op::Nop).count(), "decisions": r.decisions.len() });
    (path, v)
}

/// The execution as a readable list: operations, and who took over where.
fn schedule(r: &Replay) -> Vec<String> {
    use std::os::fd::AsRawFd;
    let tmp = std::env::temp_dir().join(format!("msim-trace-{}", std::process::id()));
    let Ok(f) = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&tmp) else { return vec![] };
    unsafe {
        let save = libc::dup(2);
        libc::dup2(f.as_raw_fd(), 2);
        let d: &[Dec] = if r.by_decisions { &r.decisions } else { &[] };
        run::run_one(&r.cfg, d, &Opts { trace: true });
        libc::dup2(save, 2);
        libc::close(save);
    }
    let t = std::fs::read_to_string(&tmp).unwrap_or_default();
    let _ = std::fs::remove_file(&tmp);
    struct E<'a> {
        t: usize,
        kind: &'a str,
        pc: u64,
        addr: u64,
        step: &'a str,
    }
    let hex = |s: &str| u64::from_str_radix(s.split_once("0x").map(|x| x.1).unwrap_or("0"), 16).unwrap_or(0);
    let ev: Vec<E> = t
        .lines()
        .filter_map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() != 6 || !w[0].starts_with('T') {
                return None;
            }
            Some(E { t: w[0][1..].parse().ok()?, step: w[1], kind: w[2], pc: hex(w[3]), addr: hex(w[4]) })
        })
        .collect();
    let mut items: Vec<(String, Option<u64>)> = Vec::new();
    for (i, e) in ev.iter().enumerate() {
        if e.t == 0 {
            continue;
        }
        if e.kind == "BEGIN" || e.kind == "END" {
            let op = r.cfg.threads.get(e.t - 1).and_then(|p| p.get(e.addr as usize)).map(op_text).unwrap_or_default();
            items.push((format!("T{} {} op {} {op}", e.t, if e.kind == "BEGIN" { "begins" } else { "ends  " }, e.addr), None));
        }
        if e.kind == "STALE" {
            items.push((format!("T{} step {} reads an old value at", e.t, e.step), Some(e.pc)));
        }
        if let Some(n) = ev.get(i + 1) {
            if n.t != e.t {
                let pc = (e.pc > 0x1_0000).then_some(e.pc);
                items.push((format!("T{} step {} -> T{} takes over, after", e.t, e.step, n.t), pc));
            }
        }
    }
    if items.len() > 400 {
        let cut = items.len() - 400;
        items.drain(..cut);
        items.insert(0, (format!("... {cut} earlier lines left out"), None));
    }
    let pcs: Vec<u64> = items.iter().filter_map(|x| x.1).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let names: BTreeMap<u64, String> = pcs.iter().copied().zip(sym(&pcs)).collect();
    items
        .into_iter()
        .map(|(s, pc)| match pc {
            Some(p) => format!("{s} {}", names.get(&p).map(|n| short(n)).unwrap_or_default()),
            None => s,
        })
        .collect()
}
fn short(s: &str) -> String {
    // innermost frames; generic arguments only clutter
    let mut depth = 0;
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' if !o.ends_with(' ') || depth > 0 => depth += 1,
            '>' if depth > 0 => depth -= 1,
            c if depth == 0 => o.push(c),
            _ => {}
        }
    }
    o.chars().take(300).collect()
}

pub fn replay(f: &str, trace: bool) -> i32 {
    let Ok(t) = std::fs::read_to_string(f) else {
        eprintln!("msim: cannot read {f}");
        return 2;
    };
    let Ok(r) = serde_json::from_str::<Replay>(&t) else {
        eprintln!("msim: {f} is not a replay file");
        return 2;
    };
    let d: &[Dec] = if r.by_decisions { &r.decisions } else { &[] };
    let o = run::run_one(&r.cfg, d, &Opts { trace });
    if o.kind == r.kind {
        println!("{}: {}", o.kind, o.msg);
        for s in sym(&o.pcs) {
            println!("  at {s}");
        }
        let exact = o.hash == r.hash && o.msg == r.message;
        println!("{}", if exact { "the same execution, step for step" } else { "the same kind of violation, but not the identical execution" });
        println!("VIOLATION property={} replay={f}", r.property);
        return if exact { 1 } else { 4 };
    }
    println!("no violation of this kind (outcome: {} {})", if o.kind.is_empty() { "ok" } else { &o.kind }, o.msg);
    0
}

/// The same seeds on different workers, and from their decision lists.
pub fn selftest(a: &[&str]) -> i32 {
    let n: u64 = a.first().and_then(|x| x.parse().ok()).unwrap_or(200);
    let mut bad = 0;
    let mut runs = 0;
    for p in props::PROPS {
        let go = |workers: usize| -> BTreeMap<u64, (u64, String)> {
            let ctl = run::ctl();
            let outs = run::workers(workers, |_| {
                let mut m: BTreeMap<u64, (u64, String)> = BTreeMap::new();
                loop {
                    let i = ctl.next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let (_, _, _, cfg) = nth(p, 7, i);
                    let o = run::run_one(&cfg, &[], &Opts { trace: false });
                    if workers > 1 && o.ndec < result::MAXDEC {
                        let dec = run::decisions();
                        let mut c = cfg.clone();
                        c.sched.base = Base::Replay;
                        let b = run::run_one(&c, &dec, &Opts { trace: false });
                        if b.hash != o.hash || b.kind != o.kind {
                            m.insert(1_000_000 + i, (0, format!("decision replay differs: {} {}", b.kind, b.msg)));
                        }
                    }
                    m.insert(i, (o.hash, o.kind));
                }
                serde_json::to_string(&m).unwrap()
            });
            outs.iter().flat_map(|o| serde_json::from_str::<BTreeMap<u64, (u64, String)>>(o).unwrap()).collect()
        };
        let (x, y) = (go(3), go(run::cpus()));
        for (i, v) in &x {
            runs += 1;
            if *i >= 1_000_000 {
                println!("{} run {}: {}", p.id, i - 1_000_000, v.1);
                bad += 1;
            } else if y.get(i) != Some(v) {
                println!("{} run {i}: {v:?} then {:?}", p.id, y.get(i));
                bad += 1;
            }
        }
    }
    println!("selftest: {runs} runs, {bad} differences");
    (bad > 0) as i32
}
pub fn list() -> i32 {
    for p in props::PROPS {
        println!("{} quick {} thorough {} {}", p.id, p.quick, p.thorough, p.what);
    }
    0
}

// ------------------------------------------------------------------ developing

pub fn one(a: &[&str]) -> i32 {
    let cfg = plan::make("one", shape(a[0]), mem(a[1]), a[2].parse().unwrap());
    if a.contains(&"-v") {
        println!("{}", serde_json::to_string(&cfg).unwrap());
    }
    let t = std::time::Instant::now();
    let o = run::run_one(&cfg, &[], &Opts { trace: a.contains(&"--trace") });
    println!("{:?} in {:?}", o, t.elapsed());
    for p in sym(&o.pcs) {
        println!("  {p}");
    }
    0
}
pub fn sym(pcs: &[u64]) -> Vec<String> {
    if pcs.is_empty() {
        return Vec::new();
    }
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let mut cmd = std::process::Command::new("addr2line");
    cmd.args(["-a", "-f", "-C", "-i", "-e"]).arg(&exe);
    for p in pcs {
        cmd.arg(format!("{:#x}", p.wrapping_sub(1)));
    }
    let plain = || pcs.iter().map(|p| format!("{p:#x}")).collect::<Vec<_>>();
    let Ok(o) = cmd.output() else { return plain() };
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut v: Vec<String> = Vec::new();
    let mut frames: Vec<&str> = Vec::new();
    let flush = |f: &mut Vec<&str>, v: &mut Vec<String>| {
        if !f.is_empty() {
            v.push(f.chunks(2).map(|c| format!("{} ({})", c[0], c.get(1).unwrap_or(&"").rsplit('/').next().unwrap_or(""))).collect::<Vec<_>>().join(" < "));
        }
        f.clear();
    };
    let mut first = true;
    for l in s.lines() {
        if l.starts_with("0x") {
            if !first {
                flush(&mut frames, &mut v);
            }
            first = false;
        } else {
            frames.push(l);
        }
    }
    flush(&mut frames, &mut v);
    if v.len() == pcs.len() { v } else { plain() }
}
/// Run a batch, summarise outcome kinds.
pub fn fuzz(a: &[&str]) -> i32 {
    let (sh, me, n) = (shape(a[0]), mem(a[1]), a[2].parse::<u64>().unwrap());
    let s0: u64 = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(0);
    let ctl = run::ctl();
    let t = std::time::Instant::now();
    type Sum = (BTreeMap<String, (u64, u64, String)>, Counters, u64, u64, u64, u64);
    let outs = run::workers(run::cpus(), |_| {
        let mut s: Sum = Default::default();
        loop {
            let i = ctl.next.fetch_add(1, Ordering::SeqCst);
            if i >= n {
                break;
            }
            let seed = s0 + i;
            let cfg = plan::make("fuzz", sh, me, seed);
            let o = run::run_one(&cfg, &[], &Opts { trace: false });
            let key = if o.kind.is_empty() {
                format!("ok path {:3}% layers {} reenter {} side {} over {} frozen {}", o.stats[13] / 10 * 10, o.stats[16], (o.stats[10] > 0) as u8, (o.stats[11] > 0) as u8, (o.stats[12] > 0) as u8, o.c.frozen)
            } else {
                format!("{} {:?}", o.kind, sym(&o.pcs).iter().map(|s| s.split(" < ").take(4).collect::<Vec<_>>().join(" < ")).collect::<Vec<_>>())
            };
            let e = s.0.entry(key).or_insert((0, seed, o.msg.clone()));
            e.0 += 1;
            if seed < e.1 {
                e.1 = seed;
                e.2 = o.msg.clone();
            }
            add(&mut s.1, &o.c);
            s.2 = s.2.max(o.c.steps);
            s.3 += o.stats[0];
            s.4 = s.4.max(o.stats[8]);
            s.5 = s.5.max(o.stats[9]);
        }
        serde_json::to_string(&s).unwrap()
    });
    let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut c = Counters::default();
    let (mut mx, mut ops, mut big) = (0, 0, (0, 0));
    for o in outs {
        let s: Sum = serde_json::from_str(&o).unwrap();
        for (k, v) in s.0 {
            let e = m.entry(k).or_insert((0, u64::MAX, String::new()));
            e.0 += v.0;
            if v.1 < e.1 {
                e.1 = v.1;
                e.2 = v.2;
            }
        }
        add(&mut c, &s.1);
        mx = mx.max(s.2);
        ops += s.3;
        big = (big.0.max(s.4), big.1.max(s.5));
    }
    println!("largest block {} most bytes {}", big.0, big.1);
    println!(
        "{n} runs in {:?}; steps {} preempts {} stalls {} stale {}/{} ops {ops} max steps {mx}",
        t.elapsed(),
        c.steps,
        c.preempts,
        c.stalls + c.site_stalls,
        c.stale_loads,
        c.weak_loads
    );
    for (k, v) in m {
        println!("{:6} first seed {} {k}\n        {}", v.0, v.1, v.2);
    }
    0
}
