//! Running one simulated execution in a process of its own, and many of them on all cores.

use crate::result;
use crate::rt::{Counters, Dec};
use crate::work::{self, Opts, RunCfg};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

#[derive(Clone, Debug)]
pub struct Outcome {
    /// empty: no violation
    pub kind: String,
    pub msg: String,
    pub pcs: Vec<u64>,
    pub harness: bool,
    pub ndec: usize,
    pub c: Counters,
    pub hash: u64,
    pub cov: u64,
    pub stats: [u64; 32],
}

/// Run with a fixed address layout.
pub fn fix_addresses() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("MSIM_REEXEC").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                std::env::set_var("MSIM_REEXEC", "1");
                let args: Vec<std::ffi::CString> =
                    std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut v: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                v.push(std::ptr::null());
                libc::execv(c"/proc/self/exe".as_ptr(), v.as_ptr());
            }
        }
    }
}

pub fn pin(i: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[i % cpus.len()], &mut one);
        libc::sched_setaffinity(0, size_of::<libc::cpu_set_t>(), &one);
    }
}
pub fn cpus() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1)
}

/// The code under simulation died: say where.
extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let u = ctx as *const libc::ucontext_t;
        let pc = (*u).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        let simulated = crate::rt::ACTIVE || crate::rt::ARENA_ON;
        let at = crate::rt::rt_ready().then(|| crate::rt::rt().last_site()).unwrap_or(0);
        let what = if sig == libc::SIGSEGV || sig == libc::SIGBUS {
            format!(" accessing address {:#x}", (*info).si_addr() as usize)
        } else {
            String::new()
        };
        let _ = simulated;
        result::violate_at("crash", &format!("the process died of signal {sig}{what}"), &[pc + 1, at as u64]);
    }
}

/// Fork, execute, wait. The recorded decisions stay in the shared page.
pub fn run_one(cfg: &RunCfg, dec: &[Dec], opts: &Opts) -> Outcome {
    result::clear();
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            let lim = libc::rlimit { rlim_cur: 30, rlim_max: 35 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(240);
            if !opts.trace {
                // panics are reported through the shared page
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
            }
            for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_fault as *const () as usize;
                sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESETHAND;
                libc::sigaction(sig, &sa, std::ptr::null_mut());
            }
        }
        work::execute(cfg, dec, opts);
    }
    if pid < 0 {
        eprintln!("msim: fork failed");
        std::process::exit(3);
    }
    let mut st = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) != pid {}
    }
    let s = result::sh();
    let mut o = Outcome {
        kind: String::new(),
        msg: String::new(),
        pcs: Vec::new(),
        harness: false,
        ndec: s.ndec as usize,
        c: s.c,
        hash: s.hash,
        cov: s.cov,
        stats: s.stats,
    };
    match s.status {
        result::OK => {}
        result::VIOLATION => {
            o.kind = result::kind();
            o.msg = result::msg();
            o.pcs = s.pcs[..s.npcs as usize].to_vec();
        }
        result::HARNESS => {
            o.harness = true;
            o.kind = "harness".into();
            o.msg = result::msg();
        }
        _ => {
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                match sig {
                    libc::SIGXCPU | libc::SIGALRM => {
                        o.kind = "hang".into();
                        o.msg = "the run used up its processor time without finishing".into();
                    }
                    libc::SIGKILL => {
                        o.harness = true;
                        o.kind = "harness".into();
                        o.msg = "the run was killed from outside".into();
                    }
                    _ => {
                        o.kind = "crash".into();
                        o.msg = format!("the process died of signal {sig}");
                    }
                }
            } else {
                o.harness = true;
                o.kind = "harness".into();
                o.msg = format!("the run ended without a verdict (status {st})");
            }
        }
    }
    o
}
pub fn decisions() -> Vec<Dec> {
    let s = result::sh();
    s.dec[..(s.ndec as usize).min(result::MAXDEC)].to_vec()
}

/// Memory shared between the worker processes.
#[repr(C)]
pub struct Ctl {
    pub next: std::sync::atomic::AtomicU64,
    pub min_bad: std::sync::atomic::AtomicU64,
}
pub fn ctl() -> &'static Ctl {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let c = &*(p as *const Ctl);
        c.min_bad.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
        c
    }
}

/// Run `body(worker)` in `n` forked processes and collect what each returns.
pub fn workers(n: usize, body: impl Fn(usize) -> String) -> Vec<String> {
    let mut kids = Vec::new();
    let _ = std::io::stdout().flush();
    for i in 0..n {
        let mut fds = [0i32; 2];
        unsafe { assert!(libc::pipe(fds.as_mut_ptr()) == 0) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::close(fds[0]) };
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            pin(i);
            result::map();
            let out = body(i);
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let _ = f.write_all(out.as_bytes());
            drop(f);
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        kids.push((pid, fds[0]));
    }
    kids.into_iter()
        .map(|(pid, fd)| {
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            let mut s = String::new();
            let _ = f.read_to_string(&mut s);
            let mut st = 0;
            unsafe { while libc::waitpid(pid, &mut st, 0) != pid {} };
            s
        })
        .collect()
}
