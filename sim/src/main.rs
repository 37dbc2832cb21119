#![feature(thread_local)]
//! Deterministic simulation of masstree: entry point and command line.

mod abi;
mod arena;
mod check;
mod plan;
mod minim;
mod oracle;
mod props;
mod result;
mod rt;
mod run;
mod work;

#[global_allocator]
static GLOBAL: arena::Alloc = arena::Alloc;

/// Called at the end of a traced run.
pub fn dump_trace() {
    let r = rt::rt();
    for (tid, step, kind, pc, addr, val) in &r.tlog {
        let k = ["A", "r", "w", "STALE", "BEGIN", "END"][*kind as usize];
        eprintln!("T{tid} {step} {k} pc={pc:#x} addr={addr:#x} val={val:#x}");
    }
}

fn main() {
    run::fix_addresses();
    arena::map();
    result::map();
    result::map_sites();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1).copied() {
        Some("check") => check::check(a[2], a.get(3).copied().unwrap_or("quick"), &a[4..]),
        Some("replay") => check::replay(a[2], a.contains(&"--trace")),
        Some("fuzz") => check::fuzz(&a[2..]),
        Some("one") => check::one(&a[2..]),
        Some("sweep") => check::sweep(&a[2..]),
        Some("selftest") => check::selftest(&a[2..]),
        Some("props") => check::list(),
        _ => {
            eprintln!("usage: msim check ID quick|thorough | replay FILE | fuzz SHAPE MEM N [SEED] | one SHAPE MEM SEED | selftest N");
            2
        }
    };
    std::process::exit(code);
}
