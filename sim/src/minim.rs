//! Shrinking a failing run: fewer operations, fewer decisions, fewer prefilled keys, while the
//! same kind of violation still happens.

use crate::rt::{Base, Dec};
use crate::run::{self, Outcome};
use crate::work::{Op, Opts, RunCfg};
use std::time::{Duration, Instant};

pub struct Mini {
    pub cfg: RunCfg,
    pub dec: Vec<Dec>,
    pub out: Outcome,
    pub tried: u64,
}

struct M {
    kind: String,
    best: Mini,
    end: Instant,
}
impl M {
    fn out_of_time(&self) -> bool {
        Instant::now() > self.end
    }
    fn attempt(&mut self, cfg: &RunCfg, dec: &[Dec]) -> bool {
        if self.out_of_time() {
            return false;
        }
        self.best.tried += 1;
        let o = run::run_one(cfg, dec, &Opts { trace: false });
        if o.kind == self.kind {
            self.best.cfg = cfg.clone();
            self.best.dec = dec.to_vec();
            self.best.out = o;
            true
        } else {
            false
        }
    }
    /// Delta debugging over `n` items; `apply(best, drop)` builds the candidate without them.
    fn ddmin(&mut self, n: impl Fn(&Mini) -> usize, apply: impl Fn(&Mini, std::ops::Range<usize>) -> (RunCfg, Vec<Dec>)) {
        let mut chunk = n(&self.best).div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut hit = false;
            while i < n(&self.best) {
                let e = (i + chunk).min(n(&self.best));
                let (c, d) = apply(&self.best, i..e);
                if self.attempt(&c, &d) {
                    hit = true;
                } else {
                    i = e;
                }
                if self.out_of_time() {
                    return;
                }
            }
            if chunk == 1 {
                if !hit {
                    return;
                }
            } else {
                chunk = chunk.div_ceil(2);
            }
        }
    }
}

fn positions(c: &RunCfg) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for (t, ops) in c.threads.iter().enumerate() {
        for (i, o) in ops.iter().enumerate() {
            if *o != Op::Nop {
                v.push((t, i));
            }
        }
    }
    v
}

/// `None`: following the recorded decisions does not show the violation again.
pub fn minimise(cfg: &RunCfg, dec: Vec<Dec>, kind: &str, budget: Duration) -> Option<Mini> {
    let mut c = cfg.clone();
    c.sched.base = Base::Replay;
    let out = run::run_one(&c, &dec, &Opts { trace: false });
    if out.kind != kind {
        return None;
    }
    let mut m = M { kind: kind.into(), best: Mini { cfg: c, dec, out, tried: 1 }, end: Instant::now() + budget };
    for _ in 0..4 {
        let before = (positions(&m.best.cfg).len(), m.best.dec.len(), m.best.cfg.prefill.len());
        // whole threads
        for t in 0..m.best.cfg.threads.len() {
            let mut c = m.best.cfg.clone();
            if c.threads[t].iter().all(|o| *o == Op::Nop) {
                continue;
            }
            c.threads[t].iter_mut().for_each(|o| *o = Op::Nop);
            let d: Vec<Dec> = m.best.dec.iter().filter(|d| d.tid as usize != t + 1).copied().collect();
            m.attempt(&c, &d);
        }
        // operations
        m.ddmin(
            |b| positions(&b.cfg).len(),
            |b, r| {
                let mut c = b.cfg.clone();
                let p = positions(&c);
                for &(t, i) in &p[r] {
                    c.threads[t][i] = Op::Nop;
                }
                (c, b.dec.clone())
            },
        );
        // decisions
        m.ddmin(
            |b| b.dec.len(),
            |b, r| {
                let mut d = b.dec.clone();
                d.drain(r);
                (b.cfg.clone(), d)
            },
        );
        // keys present at the start
        m.ddmin(
            |b| b.cfg.prefill.len(),
            |b, r| {
                let mut c = b.cfg.clone();
                c.prefill.drain(r);
                (c, b.dec.clone())
            },
        );
        let after = (positions(&m.best.cfg).len(), m.best.dec.len(), m.best.cfg.prefill.len());
        if before == after || m.out_of_time() {
            break;
        }
    }
    Some(m.best)
}
