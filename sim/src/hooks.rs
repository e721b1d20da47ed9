//! Seams on the caller's side: scheduling points and user callbacks. State is
//! per OS thread; each simulated program runs on one.

use crate::dev::Dev;
use crate::edges;
use crate::rng::Rng;
use crate::sched::{Baton, Place};
use crate::trace::CbFault;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{mpsc, Arc, Mutex};

/// Panic payloads the simulator injects.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Injected(pub u32);
pub struct PowerLoss;
pub struct Runaway;

#[derive(Default)]
pub struct CbState {
    pub calls: u64,
    pub script: BTreeMap<u64, CbFault>,
    pub gen: Option<(Rng, u32)>,
    pub fired: Vec<(u64, CbFault)>,
    /// id of a panic injected since the current op began
    pub panicked: Option<u32>,
}

pub type NestedFn = Arc<dyn Fn(usize)>;

#[derive(Default)]
pub struct Ctx {
    pub baton: Option<(Arc<Baton>, usize)>,
    pub cb: Option<CbState>,
    pub nested: Option<NestedFn>,
    /// The device of the program that runs on this thread.
    pub dev: Option<Arc<Mutex<Dev>>>,
    /// Counts at which this program is to be preempted, last one first.
    pub preempt: Vec<u64>,
    /// Count at which the current operation has run for too long.
    pub give_up: u64,
    pub preempted: u64,
    /// Calls into crevice are made on one of these threads.
    pub away: Option<(Arc<Pool>, usize)>,
}

type Job = Box<dyn FnOnce() + Send>;

/// Threads that carry out calls for several programs.
pub struct Pool(Vec<Mutex<mpsc::Sender<Job>>>);

impl Pool {
    pub fn new(n: usize) -> Pool {
        Pool(
            (0..n)
                .map(|_| {
                    let (tx, rx) = mpsc::channel::<Job>();
                    std::thread::spawn(move || rx.into_iter().for_each(|j| j()));
                    Mutex::new(tx)
                })
                .collect(),
        )
    }

    /// Runs `f` on thread `k` with this program's context; returns when it is done.
    fn run<R>(&self, k: usize, f: impl FnOnce() -> R) -> R {
        struct Carried<T>(T);
        // Everything that goes across is only touched by one side at a time.
        unsafe impl<T> Send for Carried<T> {}
        impl<T> Carried<T> {
            fn out(self) -> T {
                self.0
            }
        }
        let (tx, rx) = mpsc::channel();
        let ctx = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let carried = Carried((ctx, f));
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let (mut ctx, f) = carried.out();
            let (baton, away) = (ctx.baton.take(), ctx.away.take());
            ctx.preempt.clear();
            ctx.give_up = edges::count() + OP_POINTS;
            edges::set_next(ctx.give_up);
            CTX.with(|c| *c.borrow_mut() = ctx);
            let r = f();
            let mut ctx = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
            ctx.baton = baton;
            ctx.away = away;
            let _ = tx.send(Carried((ctx, r)));
        });
        // The job ends before this function does.
        let job: Job = unsafe { std::mem::transmute(job) };
        self.0[k % self.0.len()].lock().unwrap().send(job).expect("shared thread");
        let (ctx, r) = rx.recv().expect("shared thread").out();
        CTX.with(|c| *c.borrow_mut() = ctx);
        r
    }
}

/// Chooses the shared thread for what follows, if there are any.
pub fn set_home(k: u8) {
    CTX.with(|c| {
        if let Some((_, h)) = &mut c.borrow_mut().away {
            *h = k as usize;
        }
    });
}

/// Runs a call into crevice where this program's calls are to be run.
pub fn carry_out<R>(f: impl FnOnce() -> R) -> R {
    match CTX.with(|c| c.borrow().away.clone()) {
        Some((p, k)) => {
            yield_point();
            p.run(k, f)
        }
        None => f(),
    }
}

/// Points of code that one operation may pass. The biggest legitimate
/// operation of a run passes less than a hundredth of it.
pub const OP_POINTS: u64 = 400_000_000;
/// The same while several programs share the machine.
pub const OP_POINTS_TOGETHER: u64 = 20_000_000;

/// Called when an operation has run for too long on its own. Does not return.
pub static ENDLESS: Mutex<Option<fn() -> !>> = Mutex::new(None);

/// Begins an operation that is to be preempted at these points.
pub fn begin_points(at: &[u64]) -> u64 {
    let now = edges::count();
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let together = c.baton.is_some();
        c.preempt = match together {
            true => at.iter().map(|a| now + 1 + a).collect(),
            false => vec![],
        };
        c.preempt.sort_by_key(|a| std::cmp::Reverse(*a));
        c.give_up = now + if together { OP_POINTS_TOGETHER } else { OP_POINTS };
        edges::set_next(c.preempt.last().copied().unwrap_or(u64::MAX).min(c.give_up));
    });
    now
}

/// A chosen point inside crevice has been reached.
pub fn inside(n: u64) {
    let (baton, place, endless) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let mut place = None;
        while c.preempt.last().is_some_and(|a| *a <= n) {
            c.preempt.pop();
            c.preempted += 1;
            place = Some(Place::Inside);
        }
        let endless = n >= c.give_up;
        if endless {
            c.give_up = n + OP_POINTS_TOGETHER;
            place = Some(Place::Spinning);
        }
        edges::set_next(c.preempt.last().copied().unwrap_or(u64::MAX).min(c.give_up));
        (c.baton.clone(), place, endless)
    });
    match baton {
        Some((b, id)) => {
            if let Some(p) = place {
                b.yield_at(id, p);
            } else if b.left_behind(id) {
                b.yield_at(id, Place::Inside);
            } else {
                b.let_wake(id);
            }
        }
        None if endless => {
            if let Some(f) = *ENDLESS.lock().unwrap() {
                f()
            }
        }
        None => {}
    }
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// A point at which another program may be scheduled.
pub fn yield_point() {
    let _off = edges::switch(false);
    let b = CTX.with(|c| c.borrow().baton.clone());
    if let Some((b, id)) = b {
        b.yield_at(id, Place::Seam);
    }
}

pub fn run_nested(j: usize) {
    let f = CTX.with(|c| c.borrow().nested.clone());
    if let Some(f) = f {
        f(j);
    }
}

/// Called from inside user-supplied code that crevice calls back into:
/// iterators, hand-written conversions, hand-written composite writes.
pub fn callback() {
    let _off = edges::switch(false);
    yield_point();
    let act = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let cb = c.cb.as_mut()?;
        let k = cb.calls;
        cb.calls += 1;
        let act = match &mut cb.gen {
            Some((rng, p)) => {
                let p = *p;
                rng.permille(p)
                    .then(|| CbFault::Panic(rng.below(1 << 20) as u32))
            }
            None => cb.script.get(&k).cloned(),
        };
        if let Some(a) = &act {
            cb.fired.push((k, a.clone()));
            if let CbFault::Panic(id) = a {
                cb.panicked = Some(*id);
                if let Some(g) = &mut cb.gen {
                    g.1 = 0; // at most one panic per program
                }
            }
        }
        act
    });
    match act {
        Some(CbFault::Panic(id)) => std::panic::panic_any(Injected(id)),
        Some(CbFault::Nested(j)) => run_nested(j),
        None => {}
    }
}

/// Injected panics are silent; others leave their message in LAST_PANIC.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _off = edges::switch(false);
        let p = info.payload();
        if p.is::<Injected>() || p.is::<PowerLoss>() || p.is::<Runaway>() {
            return;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
