//! Minimises a failing trace: fewer programs, operations, faults and values,
//! simpler ones where possible, while the same violation class persists. Each
//! candidate is evaluated in a fresh process.

use crate::trace::*;

pub struct Verdict {
    pub class: Option<String>,
    pub op_calls: Vec<Vec<u64>>,
}

pub struct Shrinker<'a> {
    pub eval: &'a mut dyn FnMut(&Trace) -> Verdict,
    pub class: String,
    pub budget: u32,
    pub tried: u32,
}

impl<'a> Shrinker<'a> {
    fn ok(&mut self, t: &Trace) -> bool {
        if self.tried >= self.budget {
            return false;
        }
        self.tried += 1;
        (self.eval)(t).class.as_deref() == Some(self.class.as_str())
    }

    fn step(&mut self, cur: &mut Trace, cand: Trace) -> bool {
        if cand != *cur && self.ok(&cand) {
            *cur = cand;
            return true;
        }
        false
    }

    pub fn run(&mut self, t: Trace) -> Trace {
        let mut cur = t;
        for _ in 0..6 {
            let before = cur.clone();
            self.programs(&mut cur);
            self.bulk(&mut cur);
            self.ops(&mut cur);
            self.faults(&mut cur);
            self.values(&mut cur);
            self.schedule(&mut cur);
            self.device(&mut cur);
            if cur == before || self.tried >= self.budget {
                break;
            }
        }
        cur
    }

    fn programs(&mut self, cur: &mut Trace) {
        let mut i = cur.progs.len();
        while i > 0 && cur.progs.len() > 1 {
            i -= 1;
            let mut c = cur.clone();
            c.progs.remove(i);
            c.schedule = c
                .schedule
                .iter()
                .filter(|s| **s as usize != i)
                .map(|s| if *s as usize > i { s - 1 } else { *s })
                .collect();
            for p in c.progs.iter_mut() {
                for f in p.faults.iter_mut() {
                    if let Fault::Nested(j) = &mut f.1 {
                        if *j > i {
                            *j -= 1;
                        }
                    }
                }
                for f in p.callbacks.iter_mut() {
                    if let CbFault::Nested(j) = &mut f.1 {
                        if *j > i {
                            *j -= 1;
                        }
                    }
                }
            }
            self.step(cur, c);
        }
    }

    fn bulk(&mut self, cur: &mut Trace) {
        for i in 0..cur.progs.len() {
            for what in 0..9 {
                let mut c = cur.clone();
                let p = &mut c.progs[i];
                match what {
                    0 => p.faults.clear(),
                    1 => p.callbacks.clear(),
                    2 => p.dev.max_accept = None,
                    3 => p.dev.garbage = p.dev.garbage.min(1),
                    4 => p.dev.garbage = 0,
                    5 => p.prelude = 0,
                    6 => p.dev.vectored = false,
                    7 => p.dev.flush = 0,
                    _ => p.segments.clear(),
                }
                self.step(cur, c);
            }
        }
        if cur.arg > 1 {
            for a in [0, 1, cur.arg / 2] {
                let mut c = cur.clone();
                c.arg = a;
                if self.step(cur, c) {
                    break;
                }
            }
        }
    }

    fn ops(&mut self, cur: &mut Trace) {
        for i in 0..cur.progs.len() {
            let mut size = cur.progs[i].ops.len() / 2;
            while size >= 1 {
                let mut at = 0;
                while at < cur.progs[i].ops.len() {
                    let end = (at + size).min(cur.progs[i].ops.len());
                    let calls = (self.eval)(cur).op_calls;
                    let shifted = without(cur, i, at, end, calls.get(i));
                    let plain = without(cur, i, at, end, None);
                    if !(self.step(cur, shifted) || self.step(cur, plain)) {
                        at += size;
                    }
                    if self.tried >= self.budget {
                        return;
                    }
                }
                size /= 2;
            }
        }
    }

    fn faults(&mut self, cur: &mut Trace) {
        for i in 0..cur.progs.len() {
            let mut size = cur.progs[i].faults.len();
            while size >= 1 {
                let mut at = 0;
                while at < cur.progs[i].faults.len() {
                    let mut c = cur.clone();
                    let end = (at + size).min(c.progs[i].faults.len());
                    c.progs[i].faults.drain(at..end);
                    if !self.step(cur, c) {
                        at += size;
                    }
                }
                size /= 2;
            }
            for k in 0..cur.progs[i].faults.len() {
                let f = cur.progs[i].faults[k].1.clone();
                let simpler = match f {
                    Fault::Short(n) if n > 1 => vec![Fault::Short(1)],
                    Fault::Eintr(n) if n > 0 => vec![Fault::Eintr(0)],
                    Fault::Err(_, o) => vec![
                        Fault::Err(ErrForm::Kind(4), 0),
                        Fault::Err(ErrForm::Kind(4), o),
                    ],
                    Fault::Stall(_) => vec![],
                    Fault::PowerCut(n) if n > 1 => vec![Fault::PowerCut(1)],
                    _ => vec![],
                };
                for s in simpler {
                    let mut c = cur.clone();
                    c.progs[i].faults[k].1 = s;
                    if self.step(cur, c) {
                        break;
                    }
                }
            }
            let mut k = 0;
            while k < cur.progs[i].callbacks.len() {
                let mut c = cur.clone();
                c.progs[i].callbacks.remove(k);
                if !self.step(cur, c) {
                    k += 1;
                }
            }
        }
    }

    fn values(&mut self, cur: &mut Trace) {
        for i in 0..cur.progs.len() {
            for o in 0..cur.progs[i].ops.len() {
                if !cur.progs[i].ops[o].late.is_empty() {
                    let mut c = cur.clone();
                    c.progs[i].ops[o].late.clear();
                    self.step(cur, c);
                }
                // fewer values
                loop {
                    let n = cur.progs[i].ops[o].vals.len();
                    if n <= 1 || self.tried >= self.budget {
                        break;
                    }
                    let mut hit = false;
                    for keep in [1, n / 2, n - 1] {
                        if keep >= n || keep == 0 {
                            continue;
                        }
                        let mut c = cur.clone();
                        c.progs[i].ops[o].vals.truncate(keep);
                        if self.step(cur, c) {
                            hit = true;
                            break;
                        }
                    }
                    if !hit {
                        break;
                    }
                }
                if cur.progs[i].ops[o].home != 0 {
                    let mut c = cur.clone();
                    c.progs[i].ops[o].home = 0;
                    self.step(cur, c);
                }
                if cur.progs[i].ops[o].shared.is_some() {
                    let mut c = cur.clone();
                    c.progs[i].ops[o].shared = None;
                    self.step(cur, c);
                }
                if cur.progs[i].ops[o].call != Call::Write && cur.progs[i].ops[o].vals.len() == 1 {
                    let mut c = cur.clone();
                    c.progs[i].ops[o].call = Call::Write;
                    self.step(cur, c);
                }
                // plain components
                let all = |x: u64| {
                    let mut c = cur.clone();
                    for v in c.progs[i].ops[o].vals.iter_mut() {
                        v.iter_mut().for_each(|e| *e = x.min(*e));
                    }
                    c
                };
                let (zero, one) = (all(0), all(1));
                if !self.step(cur, zero) {
                    self.step(cur, one);
                }
            }
        }
    }

    fn preemptions(&mut self, cur: &mut Trace) {
        if cur.progs.iter().all(|p| p.ops.iter().all(|o| o.preempt.is_empty())) {
            return;
        }
        let mut c = cur.clone();
        c.progs.iter_mut().for_each(|p| p.ops.iter_mut().for_each(|o| o.preempt.clear()));
        if self.step(cur, c) {
            return;
        }
        for i in 0..cur.progs.len() {
            for o in 0..cur.progs[i].ops.len() {
                let mut c = cur.clone();
                c.progs[i].ops[o].preempt.clear();
                self.step(cur, c);
                let mut k = 0;
                while k < cur.progs[i].ops[o].preempt.len() {
                    let mut c = cur.clone();
                    c.progs[i].ops[o].preempt.remove(k);
                    if !self.step(cur, c) {
                        k += 1;
                    }
                }
            }
        }
    }

    fn schedule(&mut self, cur: &mut Trace) {
        self.preemptions(cur);
        if cur.schedule.is_empty() {
            return;
        }
        let mut c = cur.clone();
        c.schedule.clear();
        self.step(cur, c);
        let mut size = cur.schedule.len() / 2;
        while size >= 1 {
            let mut at = 0;
            while at < cur.schedule.len() {
                let mut c = cur.clone();
                let end = (at + size).min(c.schedule.len());
                c.schedule.drain(at..end);
                if !self.step(cur, c) {
                    at += size;
                }
                if self.tried >= self.budget {
                    return;
                }
            }
            size /= 2;
        }
    }

    fn device(&mut self, cur: &mut Trace) {
        let mut k = 0;
        while k < cur.device.len() {
            let mut c = cur.clone();
            c.device.remove(k);
            if !self.step(cur, c) {
                for what in 0..3 {
                    let mut c = cur.clone();
                    match what {
                        0 => c.device[k].set.clear(),
                        1 => c.device[k].gaps = 0,
                        _ => c.device[k].bools = 0,
                    }
                    self.step(cur, c);
                }
                k += 1;
            }
        }
    }
}

/// The trace without ops [at, end) of program i; faults move with their ops
/// when the number of sink calls of each op is known.
fn without(t: &Trace, i: usize, at: usize, end: usize, calls: Option<&Vec<u64>>) -> Trace {
    let mut c = t.clone();
    let p = &mut c.progs[i];
    p.ops.drain(at..end);
    p.segments = p
        .segments
        .iter()
        .filter(|s| **s < at || **s >= end)
        .map(|s| if *s >= end { s - (end - at) } else { *s })
        .collect();
    if let Some(k) = calls {
        if let (Some(a), Some(b)) = (k.get(at), k.get(end)) {
            if b >= a {
                p.faults = p
                    .faults
                    .iter()
                    .filter(|f| f.0 < *a || f.0 >= *b)
                    .map(|f| (if f.0 >= *b { f.0 - (b - a) } else { f.0 }, f.1.clone()))
                    .collect();
            }
        }
    }
    c
}
