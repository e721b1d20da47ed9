//! Runs one program (a history of operations on one writer) against the
//! simulated device and judges it, operation by operation and at the end.

use crate::dev::{lock, Dev, ErrId, Fatal, FaultGen, Fired, Profile, Sink};
use crate::hooks::{CbState, Injected, PowerLoss, Runaway, CTX, LAST_PANIC};
use crate::model::{Layout, Node, Placed, Scalar, Stream, Ty};
use crate::registry::{Built, Registry, Sz, TypeEntry, Wr};
use crate::rng::{mix, Digest, Rng};
use crate::trace::{Call, CbFault, Fault, Op, Prog, Recovery};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// Stable name of what went wrong; shrinking keeps it.
    pub class: String,
    pub msg: String,
}

pub fn viol(class: &str, msg: String) -> Violation {
    Violation {
        class: class.to_string(),
        msg,
    }
}

pub struct Env<'a> {
    pub reg: &'a Registry,
    pub prop: &'a str,
    pub shared: BTreeMap<usize, Built>,
}

/// Random decisions for a program whose faults are not written down yet.
#[derive(Clone)]
pub struct GenCfg {
    pub seed: u64,
    pub profile: Profile,
    pub cb_panic: u32,
}

pub enum Got {
    Ok(usize),
    Err(io::Error),
    Injected(u32),
    Power,
    Runaway,
    Panic(String),
}

impl Got {
    pub fn text(&self) -> String {
        match self {
            Got::Ok(n) => format!("Ok({n})"),
            Got::Err(e) => format!("Err({:?})", ErrId::of(e)),
            Got::Injected(n) => format!("injected panic {n}"),
            Got::Power => "power loss".into(),
            Got::Runaway => "no end to its sink calls".into(),
            Got::Panic(m) => format!("panic: {m}"),
        }
    }
    fn digest(&self, d: &mut Digest) {
        match self {
            Got::Ok(n) => {
                d.add(1);
                d.add(*n as u64)
            }
            Got::Err(e) => {
                d.add(2);
                d.str(&format!("{:?}", ErrId::of(e)))
            }
            Got::Injected(n) => {
                d.add(3);
                d.add(*n as u64)
            }
            Got::Power => d.add(4),
            Got::Runaway => d.add(5),
            Got::Panic(m) => {
                d.add(6);
                d.str(m)
            }
        }
    }
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Got> {
    crate::hooks::carry_out(|| guarded_here(f))
}

fn guarded_here<R>(f: impl FnOnce() -> R) -> Result<R, Got> {
    let r = {
        let _on = crate::edges::switch(true);
        catch_unwind(AssertUnwindSafe(f))
    };
    match r {
        Ok(r) => Ok(r),
        Err(p) => Err(if let Some(i) = p.downcast_ref::<Injected>() {
            Got::Injected(i.0)
        } else if p.is::<PowerLoss>() {
            Got::Power
        } else if p.is::<Runaway>() {
            Got::Runaway
        } else {
            Got::Panic(LAST_PANIC.with(|l| l.borrow().clone()))
        }),
    }
}

fn guarded_io(f: impl FnOnce() -> io::Result<usize>) -> Got {
    match guarded(f) {
        Ok(Ok(n)) => Got::Ok(n),
        Ok(Err(e)) => Got::Err(e),
        Err(g) => g,
    }
}

/// Leaves non-zero bytes where the next calls will put their locals.
#[inline(never)]
pub fn scribble(seed: u64) {
    if cfg!(miri) {
        return;
    }
    let mut a = [0u8; 24 * 1024];
    let m = mix(seed) as u8 | 1;
    for (i, b) in a.iter_mut().enumerate() {
        *b = (i as u8) ^ m | 0x11;
    }
    std::hint::black_box(&mut a);
}

pub struct ProgOut {
    pub violation: Option<Violation>,
    /// The run left the reference in a way that another property owns.
    pub derailed: Option<String>,
    /// One digest per operation and one for the final memory.
    pub log: Vec<u64>,
    pub text: Vec<String>,
    pub fired: Vec<(u64, Fault)>,
    pub cb_fired: Vec<(u64, CbFault)>,
    pub counts: Fired,
    /// Digest of every sink call and its answer.
    pub event_log: u64,
    pub ticks: u64,
    pub sink_calls: u64,
    pub cb_calls: u64,
    pub bytes: u64,
    pub ops: u64,
    pub failures: u64,
    pub dev: Arc<Mutex<Dev>>,
    /// Sink calls made before each op.
    pub op_calls: Vec<u64>,
    /// Points of code inside crevice passed in each op.
    pub op_points: Vec<u64>,
    pub points: u64,
    pub preempted: u64,
    /// What the writer returned for each op that completed.
    pub rets: Vec<Option<usize>>,
    pub completed: bool,
}

/// Restores the callback state of the thread when a program ends.
struct CbScope(Option<CbState>, Option<Arc<Mutex<Dev>>>);
impl CbScope {
    fn enter(s: CbState, d: Arc<Mutex<Dev>>) -> Self {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            CbScope(c.cb.replace(s), c.dev.replace(d))
        })
    }
    fn leave(self) -> CbState {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.dev = self.1;
            std::mem::replace(&mut c.cb, self.0)
        })
        .unwrap_or_default()
    }
}

fn take_cb_panic() -> Option<u32> {
    CTX.with(|c| c.borrow_mut().cb.as_mut().and_then(|s| s.panicked.take()))
}

pub fn op_nodes(e: &TypeEntry, op: &Op) -> Node {
    match op.call {
        Call::Write | Call::Trait | Call::Output => (e.node)(&op.vals[0]),
        _ => Node::Seq(op.vals.iter().map(|v| (e.node)(v)).collect()),
    }
}

/// A device image of one value with arbitrary gaps and words for true.
pub fn dirty_image(ty: &Ty, l: Layout, leaves: &[u64], gaps: u64, bools: u64) -> Vec<u8> {
    let (mut img, mask) = ty.image(l, leaves);
    if gaps != 0 {
        for (i, b) in img.iter_mut().enumerate() {
            if !mask[i] {
                *b = (mix(gaps ^ (i as u64)) >> 7) as u8;
            }
        }
    }
    if bools != 0 {
        let mut comps = Vec::new();
        ty.components(l, 0, &mut comps);
        for (k, (off, s)) in comps.iter().enumerate() {
            if *s == Scalar::Bool && leaves[k] != 0 {
                let w = match mix(bools ^ k as u64) % 5 {
                    0 => u32::MAX,
                    1 => 0x8000_0000,
                    2 => 2,
                    3 => 0x100,
                    _ => (mix(bools ^ (k as u64) << 8) as u32) | 0x10000,
                };
                img[*off..*off + 4].copy_from_slice(&w.to_ne_bytes());
            }
        }
    }
    img
}

fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter()
        .zip(b)
        .position(|(x, y)| x != y)
        .unwrap_or(a.len().min(b.len()))
}

fn hex(b: &[u8]) -> String {
    b.iter()
        .map(|x| format!("{x:02x}"))
        .collect::<Vec<_>>()
        .join(" ")
}

struct Runner<'a> {
    env: &'a Env<'a>,
    prog: &'a Prog,
    dev: Arc<Mutex<Dev>>,
    wr: Option<Wr>,
    stream: Stream,
    failures: u64,
    out_log: Vec<u64>,
    text: Vec<String>,
    violation: Option<Violation>,
    derailed: Option<String>,
    /// writer positions are relative to this
    base: usize,
    /// The current call's iterator has no end.
    endless: bool,
}

enum Step {
    Done,
    Failed,
    Over,
}

impl<'a> Runner<'a> {
    fn is(&self, p: &str) -> bool {
        self.env.prop == p
    }

    fn fail(&mut self, class: &str, msg: String) -> Step {
        if self.violation.is_none() {
            self.violation = Some(viol(class, msg));
        }
        Step::Over
    }

    fn derail(&mut self, msg: String) -> Step {
        if self.derailed.is_none() {
            self.derailed = Some(msg);
        }
        Step::Over
    }

    /// Compares what the sink holds in [from, to) with the reference.
    fn content(&self, from: usize, to: usize) -> Option<String> {
        let d = lock(&self.dev);
        let got = d.slice(from, to);
        let want = self.stream.slice(from, to);
        if got == want {
            return None;
        }
        let i = from + first_diff(got, want);
        let a = i & !15;
        let b = (a + 16).min(to);
        Some(format!(
            "byte {i} of the stream is {:02x}, should be {:02x} (bytes {a}..{b}: got {}, should be {})",
            d.at(i),
            self.stream.slice(i, i + 1)[0],
            hex(d.slice(a.max(from), b)),
            hex(self.stream.slice(a.max(from), b))
        ))
    }

    /// First gap byte in [from, to) that is not zero, provided that all
    /// components there are right. Err: they are not.
    fn gap(&self, from: usize, to: usize) -> Result<Option<usize>, usize> {
        let d = lock(&self.dev);
        let to = to.min(self.stream.len());
        let mut bad = None;
        for i in from..to {
            let v = d.at(i);
            if self.stream.is_value(i) {
                if v != self.stream.slice(i, i + 1)[0] {
                    return Err(i);
                }
            } else if v != 0 && bad.is_none() {
                bad = Some(i);
            }
        }
        Ok(bad)
    }

    fn op_name(&self, i: usize, op: &Op) -> String {
        format!(
            "op {i} ({:?} of {} x{} in {})",
            op.call,
            op.ty,
            op.vals.len(),
            self.prog.layout.name()
        )
    }

    /// Judges one finished write call.
    fn judge(
        &mut self,
        name: &str,
        got: &Got,
        start: usize,
        len_before: usize,
        want_ret: usize,
        placed: &[Placed],
    ) -> Step {
        let (fatal, pos, accepted, after_fatal, calls) = {
            let d = lock(&self.dev);
            (
                d.fatal.clone(),
                d.pos,
                d.accepted(),
                d.after_fatal,
                d.op_calls,
            )
        };
        let cb_panic = take_cb_panic();
        let len = self.wr.as_ref().map(|w| w.len()).unwrap_or(0);
        let want_pos = self.stream.len();

        let mut dg = Digest::new();
        got.digest(&mut dg);
        dg.add(len as u64);
        dg.add(accepted as u64);
        if pos >= start {
            let d = lock(&self.dev);
            dg.bytes(d.slice(start, pos));
        }
        self.out_log.push(dg.0);
        self.text.push(format!(
            "{name}: {}, len {len}, sink holds {accepted}{}",
            got.text(),
            match &fatal {
                Some(f) => format!(", sink answered {f:?}"),
                None => String::new(),
            }
        ));

        if self.endless && self.is("C11") && fatal.is_none() && cb_panic.is_none() {
            return self.fail(
                "endless iterator",
                format!("{name}: {}; the sink, which has room for {:?} bytes, was given {accepted}", got.text(), lock(&self.dev).cfg.cap.unwrap_or(0)),
            );
        }
        if let Got::Runaway = got {
            if self.is("C11") {
                return self.fail(
                    "runaway",
                    format!("{name} made {calls} sink calls for {} bytes", want_pos - start),
                );
            }
            if self.is("C03") && fatal.is_some() {
                return self.fail(
                    "kept trying",
                    format!("{name} kept calling the sink after it answered {fatal:?}"),
                );
            }
            return self.derail(format!("{name}: runaway"));
        }
        if after_fatal > 0 && (self.is("C11") || self.is("C03")) {
            return self.fail(
                "kept trying",
                format!("{name} called the sink {after_fatal} more times after it answered {fatal:?}, result {}", got.text()),
            );
        }

        if fatal.is_none() && cb_panic.is_none() {
            let ret = match got {
                Got::Ok(r) => *r,
                g => {
                    let msg = format!(
                        "{name} failed although the sink did not: {} (it accepted {} of {} bytes)",
                        g.text(),
                        pos - start,
                        want_pos - start
                    );
                    if self.is("C01") || self.is("C05") {
                        return self.fail("spurious failure", msg);
                    }
                    if (self.is("C03") || self.is("C04")) && self.failures > 0 {
                        return self.fail("unusable after a failure", msg);
                    }
                    if self.is("C11") && matches!(g, Got::Err(e) if e.kind() == ErrorKind::Interrupted)
                    {
                        return self.fail("gave up on an interruption", msg);
                    }
                    return self.derail(msg);
                }
            };
            return self.judge_ok(name, ret, start, pos, accepted, len, len_before, want_ret, placed);
        }

        // The sink (or a callback) failed.
        let expected = match (&fatal, cb_panic) {
            (Some(Fatal::Err(id)), _) => match got {
                Got::Err(e) if ErrId::of(e) == *id => None,
                _ => Some(format!("the sink failed with {id:?}")),
            },
            (Some(Fatal::Zero), _) => match got {
                Got::Err(e) if e.kind() == ErrorKind::WriteZero => None,
                _ => Some("the sink accepted nothing (WriteZero expected)".into()),
            },
            (Some(Fatal::Panic(p)), _) => match got {
                Got::Injected(q) if p == q => None,
                _ => Some(format!("the sink panicked ({p})")),
            },
            (Some(Fatal::Power), _) => match got {
                Got::Power => None,
                _ => Some("power was lost".into()),
            },
            (None, Some(p)) => match got {
                Got::Injected(q) if p == *q => None,
                _ => Some(format!("a callback panicked ({p})")),
            },
            (None, None) => unreachable!(),
        };
        self.failures += 1;
        if let Some(why) = expected {
            let msg = format!("{name} returned {} but {why}", got.text());
            if self.is("C03") {
                return self.fail("failure not reported", msg);
            }
            if let Got::Ok(_) = got {
                if self.is("C01") && pos != want_pos {
                    return self.fail(
                        "success with bytes missing",
                        format!("{msg}; {} of {} bytes were sent", pos - start, want_pos - start),
                    );
                }
                if self.is("C02") && len != accepted {
                    return self.fail("len after success", format!("{msg}; len {len}, accepted {accepted}"));
                }
                if self.is("C05") {
                    return self.fail("overflow not reported", msg);
                }
            }
            if !self.is("C04") {
                return self.derail(msg);
            }
            if let Got::Ok(_) = got {
                // The caller cannot know that anything is wrong and goes on.
                return if pos == want_pos && self.content(start, pos).is_none() {
                    Step::Done
                } else {
                    self.fail("failure hidden from the caller", msg)
                };
            }
        }
        if !self.is("C03") {
            return Step::Failed;
        }
        if pos > want_pos {
            return self.fail(
                "sent too much",
                format!("{name} sent {} bytes, only {} belong to it", pos - start, want_pos - start),
            );
        }
        if fatal != Some(Fatal::Power) {
            if let Some(m) = self.content(start, pos) {
                return self.fail("not a prefix", format!("after the failed {name}: {m}"));
            }
        }
        if len < len_before || len > accepted {
            return self.fail(
                "len after failure",
                format!("after the failed {name}: len {len}, was {len_before}, sink accepted {accepted}"),
            );
        }
        Step::Failed
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_ok(
        &mut self,
        name: &str,
        ret: usize,
        start: usize,
        pos: usize,
        accepted: usize,
        len: usize,
        len_before: usize,
        want_ret: usize,
        placed: &[Placed],
    ) -> Step {
        let want_pos = self.stream.len();
        let after = self.failures > 0;
        let bytes_bad = if pos != want_pos {
            Some(format!(
                "{} bytes were sent, should be {}",
                pos as i64 - start as i64,
                want_pos - start
            ))
        } else {
            self.content(start, pos)
        };
        match self.env.prop {
            "C01" => {
                if let Some(m) = bytes_bad {
                    return self.fail("bytes", format!("{name}: {m}"));
                }
            }
            "C02" => {
                if len != accepted {
                    return self.fail(
                        "len",
                        format!("after {name}: len {len}, but the sink accepted {accepted} bytes"),
                    );
                }
                if placed.is_empty() {
                    if ret != len_before || pos != start {
                        return self.fail(
                            "empty write",
                            format!("{name} wrote nothing but returned {ret} at len {len_before} and sent {} bytes", pos - start),
                        );
                    }
                } else {
                    if ret % placed[0].align != 0 {
                        return self.fail(
                            "misaligned offset",
                            format!("{name} returned {ret}, not a multiple of {}", placed[0].align),
                        );
                    }
                    if ret != want_ret || bytes_bad.is_some() {
                        // Is the first value where the offset says?
                        let (img, mask) = placed[0].ty.image(self.prog.layout, &placed[0].leaves);
                        let at = self.base + ret;
                        let ok = ret >= len_before && at + img.len() <= pos && {
                            let d = lock(&self.dev);
                            let got = d.slice(at, at + img.len());
                            (0..img.len()).all(|i| !mask[i] || got[i] == img[i])
                        };
                        if !ok {
                            return self.fail(
                                "wrong offset",
                                format!("{name} returned {ret}, but the first value is not there (it belongs at {want_ret})"),
                            );
                        }
                        return self.derail(format!("{name}: consistent but not the reference's bytes"));
                    }
                }
            }
            "C03" | "C04" if after => {
                if let Some(m) = bytes_bad {
                    return self.fail("bytes after recovery", format!("{name}: {m}"));
                }
                if ret != want_ret {
                    return self.fail(
                        "offset after recovery",
                        format!("{name} returned {ret}, undisturbed it returns {want_ret}"),
                    );
                }
                if len != want_pos - self.base {
                    return self.fail(
                        "len after recovery",
                        format!("after {name}: len {len}, undisturbed it is {}", want_pos - self.base),
                    );
                }
            }
            "C09" => match self.gap(start, pos) {
                Err(i) => {
                    return self.derail(format!("{name}: component byte {i} is wrong"));
                }
                Ok(Some(i)) => {
                    let v = lock(&self.dev).at(i);
                    return self.fail(
                        "gap not zero",
                        format!("{name}: gap byte {i} of the stream is {v:02x}, was not written as zero"),
                    );
                }
                Ok(None) => {
                    if pos < want_pos && (pos..want_pos).all(|i| !self.stream.is_value(i)) {
                        return self.fail(
                            "gap not written",
                            format!("{name}: gap bytes {pos}..{want_pos} were never written"),
                        );
                    }
                    if pos != want_pos {
                        return self.derail(format!("{name}: {pos} bytes, should be {want_pos}"));
                    }
                }
            },
            _ => {}
        }
        let odd = match bytes_bad {
            Some(m) => Some(m),
            None if ret != want_ret || len != want_pos - self.base => {
                Some(format!("returned {ret}, len {len}"))
            }
            None => None,
        };
        if let Some(m) = odd {
            // Another property owns this. Those that judge from outside (what
            // a device sees, what a size calculator says, whether neighbours
            // matter) go on with what the sink really holds.
            let _ = self.derail(format!("{name}: {m}"));
            if !matches!(self.env.prop, "C05" | "C06" | "C07" | "C08" | "C10" | "C11") || pos < start {
                return Step::Over;
            }
            let d = lock(&self.dev);
            self.stream.adopt(start, d.slice(start, pos));
        }
        Step::Done
    }
}

pub fn bound_for(bytes: usize, atoms: usize) -> u64 {
    bytes as u64 * 2 + atoms as u64 * 8 + 64
}

pub fn build_vals(env: &Env, op: &Op) -> Built {
    if let Some(k) = op.shared {
        if let Some(b) = env.shared.get(&k) {
            return b.clone();
        }
    }
    (env.reg.get(&op.ty).build)(&op.vals)
}

pub fn run_prog(env: &Env, prog: &Prog, gen: Option<&GenCfg>) -> ProgOut {
    let mut dev = Dev::new(prog.dev.clone());
    let mut cb = CbState::default();
    match gen {
        Some(g) => {
            dev.gen = Some(FaultGen::new(
                Rng::derive(g.seed, "sink", 0),
                g.profile.clone(),
            ));
            cb.gen = Some((Rng::derive(g.seed, "callback", 0), g.cb_panic));
        }
        None => {
            dev.script = prog.faults.iter().cloned().collect();
            cb.script = prog.callbacks.iter().cloned().collect();
        }
    }
    let dev = Arc::new(Mutex::new(dev));
    let scope = CbScope::enter(cb, dev.clone());
    let (points_before, preempted_before) = (crate::edges::count(), CTX.with(|c| c.borrow().preempted));
    let mut r = Runner {
        env,
        prog,
        dev: dev.clone(),
        wr: Some(Wr::new(prog.layout, Sink(dev.clone()))),
        stream: Stream::default(),
        failures: 0,
        out_log: Vec::new(),
        text: Vec::new(),
        violation: None,
        derailed: None,
        base: 0,
        endless: false,
    };
    let mut placed_all: Vec<Vec<Placed>> = vec![Vec::new(); prog.ops.len()];
    let mut rets: Vec<Option<usize>> = vec![None; prog.ops.len()];
    let mut ops_done = 0u64;
    let mut op_calls: Vec<u64> = vec![0; prog.ops.len() + 1];
    let mut op_points: Vec<u64> = vec![0; prog.ops.len()];
    let mut last_op = usize::MAX;
    let mut op_start = 0u64;
    let mut seg_op = 0usize;
    let mut completed = false;
    let mut attempts = 0u64;
    let mut i = 0usize;
    let unit = crate::gen::segment_unit(env.reg, prog.layout, &prog.ops);

    if prog.prelude > 0 {
        if let Err(v) = prelude(env, &mut r, prog) {
            r.violation = v;
            r.derailed = Some("prelude".into());
            i = usize::MAX;
        }
    }

    'ops: while i < prog.ops.len() {
        let op = &prog.ops[i];
        let entry = env.reg.get(&op.ty);
        let ops = match entry.ops(prog.layout) {
            Some(o) => o,
            None => {
                eprintln!("type {} has no {}", op.ty, prog.layout.name());
                std::process::exit(2)
            }
        };
        ops_done += 1;
        op_calls[i] = lock(&dev).calls;
        if last_op != i {
            if last_op != usize::MAX && op_points[last_op] == 0 {
                op_points[last_op] = crate::edges::count() - op_start;
            }
            last_op = i;
        }
        op_start = crate::hooks::begin_points(&op.preempt);
        crate::hooks::set_home(op.home);
        match op.call {
            Call::Size => {
                side_size(env, &mut r, prog, op, ops);
                i += 1;
                continue;
            }
            Call::Decode => {
                side_decode(env, &mut r, prog, op, entry, ops, i);
                i += 1;
                continue;
            }
            Call::Describe => {
                side_describe(&mut r, op, entry);
                i += 1;
                continue;
            }
            _ => {}
        }
        if prog.recovery == Recovery::Restart
            && prog.segments.contains(&i)
            && r.stream.len() % unit == 0
            && seg_op != i
        {
            // Everything so far is durable.
            let mut d = lock(&dev);
            d.synced = d.pos;
            seg_op = i;
        }
        r.endless = op.call == Call::Endless;
        let name = r.op_name(i, op);
        let node = op_nodes(entry, op);
        let start = r.stream.len();
        let mut placed = Vec::new();
        let want_ret = r.stream.append(prog.layout, &node, &mut placed) - r.base;
        {
            let mut d = lock(&dev);
            let have = d.mask.len().min(start - r.stream.origin);
            d.mask.truncate(have);
            d.mask.extend_from_slice(&r.stream.mask[have..]);
            d.begin_op(bound_for(r.stream.len() - start, placed.len()));
        }
        if op.call == Call::Endless && lock(&dev).cfg.cap.is_none_or(|c| c >= r.stream.len() - r.base) {
            // Not a program anyone could run.
            r.derail(format!("{name}: nothing ends it"));
            break;
        }
        let built = build_vals(env, op);
        let late = match op.call == Call::Iter && !op.late.is_empty() {
            false => None,
            true => Some((entry.build)(&op.late)),
        };
        let len_before = r.wr.as_ref().unwrap().len();
        if env.prop == "C09" {
            scribble(i as u64 + prog.dev.garbage);
        }
        let got = {
            let w = r.wr.as_mut().unwrap();
            guarded_io(|| (ops.write)(w, op.call, &built, late.as_ref()))
        };
        placed_all[i] = placed;
        let mut step = r.judge(&name, &got, start, len_before, want_ret, &placed_all[i]);
        rets[i] = match (&step, &got) {
            (Step::Done, Got::Ok(n)) => Some(*n),
            _ => None,
        };
        if let (Step::Done, "C09", Some(f)) = (&step, env.prop, ops.as_bytes) {
            scribble(prog.dev.garbage ^ 0x77);
            let b = guarded(|| f(&built));
            match b {
                Ok((by_trait, own)) if !placed_all[i].is_empty() => {
                    let p = &placed_all[i][0];
                    let want = r.stream.slice(p.start, p.end);
                    let b = match own {
                        Some(o) if by_trait == want => o,
                        _ => by_trait,
                    };
                    if b != want {
                        let k = first_diff(&b, want);
                        let gap = b.len() == want.len() && !r.stream.is_value(p.start + k);
                        step = if gap {
                            r.fail("as_bytes gap not zero", format!("{name}: byte {k} of as_bytes() is a gap and is {:02x}", b[k]))
                        } else {
                            r.fail("as_bytes differs from upload", format!("{name}: as_bytes() differs from the upload at byte {k} (lengths {} and {})", b.len(), want.len()))
                        };
                    }
                }
                Ok(_) => {}
                Err(_) => {
                    take_cb_panic();
                }
            }
        }

        // Recovery.
        while let Step::Failed = step {
            attempts += 1;
            if attempts > 2000 {
                step = if env.prop == "C04" || env.prop == "C11" {
                    r.fail("no progress", format!("{name}: 2000 attempts were not enough"))
                } else {
                    r.derail("no progress".into())
                };
                break;
            }
            let power = lock(&dev).dead;
            let how = if power && prog.recovery == Recovery::Resume {
                Recovery::Stop
            } else {
                prog.recovery
            };
            match how {
                Recovery::Stop => break,
                Recovery::Restart => {
                    // Reboot: the writer is gone, the disk keeps what it kept.
                    r.wr = None;
                    {
                        let mut d = lock(&dev);
                        d.dead = false;
                        d.outage = None;
                        let s = d.synced;
                        d.pos = s;
                        d.base = s;
                        d.fatal = None;
                        r.base = s;
                    }
                    let b = r.base;
                    r.stream.truncate(b);
                    r.text.push(format!("restart of the segment at {}", r.base));
                    r.wr = Some(Wr::new(prog.layout, Sink(dev.clone())));
                    i = seg_op;
                    continue 'ops;
                }
                Recovery::Resume => {
                    let len = r.wr.as_ref().unwrap().len();
                    let abs = r.base + len;
                    {
                        let mut d = lock(&dev);
                        if abs > d.pos {
                            drop(d);
                            step = if env.prop == "C04" {
                                r.fail("len after failure", format!("{name}: len {len} is beyond what the sink accepted"))
                            } else {
                                r.derail("len beyond sink".into())
                            };
                            break;
                        }
                        d.pos = abs;
                        d.begin_op(bound_for(r.stream.len() - abs.min(r.stream.len()), placed_all[i].len()));
                    }
                    let skip = placed_all[i].iter().filter(|p| p.end <= abs).count();
                    r.text.push(format!("rewind to {len}, write again from value {skip}"));
                    let mut offs = Vec::new();
                    let first = placed_all[i].get(skip).map(|p| p.start - r.base);
                    let got = {
                        let w = r.wr.as_mut().unwrap();
                        let offs = &mut offs;
                        guarded_io(|| {
                            (ops.write_atoms)(w, &built, skip, offs)?;
                            Ok(offs.first().copied().unwrap_or(len))
                        })
                    };
                    let want = first.unwrap_or(len);
                    step = r.judge(&name, &got, abs, len, want, &placed_all[i][skip..]);
                    if let Step::Done = step {
                        for (k, o) in offs.iter().enumerate() {
                            let want = placed_all[i][skip + k].start - r.base;
                            if *o != want {
                                step = if env.prop == "C04" {
                                    r.fail("offset after recovery", format!("{name}: value {} was reported at {o}, undisturbed it is at {want}", skip + k))
                                } else {
                                    r.derail("offset".into())
                                };
                                break;
                            }
                        }
                        rets[i] = placed_all[i].first().map(|p| p.start - r.base);
                    }
                }
            }
        }
        match step {
            Step::Done => {}
            Step::Failed => break,
            Step::Over => break,
        }
        i += 1;
        if i == prog.ops.len() {
            completed = true;
        }
    }
    if prog.ops.is_empty() {
        completed = true;
    }

    if i == usize::MAX {
        completed = false;
    }
    if last_op != usize::MAX && op_points[last_op] == 0 {
        op_points[last_op] = crate::edges::count() - op_start;
    }
    crate::hooks::begin_points(&[]);
    // Dropping the writer sends nothing.
    let before = {
        let mut d = lock(&dev);
        d.begin_op(64);
        d.pos
    };
    let w = r.wr.take();
    let dropped = guarded(|| drop(w));
    let (pos, calls) = {
        let d = lock(&dev);
        (d.pos, d.op_calls)
    };
    if r.violation.is_none() && env.prop == "C01" && (pos != before || dropped.is_err()) {
        r.violation = Some(viol(
            "sent on drop",
            format!("dropping the writer sent {} bytes in {calls} sink calls", pos - before),
        ));
    }
    // And nothing already sent has changed.
    if r.violation.is_none() && r.derailed.is_none() && completed {
        let n = r.stream.len();
        let from = r.stream.origin;
        match env.prop {
            "C01" | "C04" => {
                if let Some(m) = r.content(from, n) {
                    r.violation = Some(viol("final bytes", m));
                }
            }
            "C09" => {
                if let Ok(Some(k)) = r.gap(from, n) {
                    r.violation = Some(viol("gap not zero", format!("gap byte {k} at the end of the run")));
                }
            }
            _ => {}
        }
    }
    let cb = scope.leave();
    if let Some(l) = op_calls.last_mut() {
        *l = lock(&dev).calls;
    }
    let mut d = lock(&dev);
    let mut dg = Digest::new();
    let (wb, pos) = (d.win_base, d.pos);
    dg.bytes(d.slice(wb, pos.max(wb)));
    r.out_log.push(dg.0);
    let mut counts = d.counts.clone();
    for (_, f) in &cb.fired {
        counts.hit(match f {
            CbFault::Panic(_) => "panic in user callback",
            CbFault::Nested(_) => "nested program in user callback",
        });
    }
    let out = ProgOut {
        violation: r.violation,
        derailed: r.derailed,
        log: r.out_log,
        text: r.text,
        fired: std::mem::take(&mut d.fired),
        cb_fired: cb.fired,
        counts,
        event_log: d.log.0,
        ticks: d.clock,
        sink_calls: d.calls,
        cb_calls: cb.calls,
        bytes: d.pos as u64,
        ops: ops_done,
        failures: r.failures,
        dev: dev.clone(),
        op_calls,
        op_points,
        points: crate::edges::count() - points_before,
        preempted: CTX.with(|c| c.borrow().preempted) - preempted_before,
        rets,
        completed,
    };
    drop(d);
    out
}

/// A size calculation in the middle of a program (its own calculator).
fn side_size(env: &Env, r: &mut Runner, prog: &Prog, op: &Op, ops: &crate::registry::Ops) {
    let built = build_vals(env, op);
    let mut dg = Digest::new();
    let got = guarded(|| {
        let mut s = Sz::new(prog.layout);
        let mut offs = Vec::new();
        (ops.sizer)(&mut s, &built, &mut offs);
        crate::hooks::yield_point();
        (ops.sizer)(&mut s, &built, &mut offs);
        let n = (ops.size_slice)(&built);
        (offs, s.len(), n)
    });
    match got {
        Ok((offs, len, n)) => {
            offs.iter().for_each(|o| dg.add(*o as u64));
            dg.add(len as u64);
            dg.add(n as u64);
            r.text.push(format!("sizes of {}: {len}, {n}", op.ty));
        }
        Err(g) => {
            g.digest(&mut dg);
            take_cb_panic();
            r.text.push(format!("sizes of {}: {}", op.ty, g.text()));
        }
    }
    r.out_log.push(dg.0);
}

/// Decoding of a dirty device image in the middle of a program.
fn side_decode(
    env: &Env,
    r: &mut Runner,
    prog: &Prog,
    op: &Op,
    entry: &TypeEntry,
    ops: &crate::registry::Ops,
    i: usize,
) {
    let _ = env;
    let mut dg = Digest::new();
    if let (Some(ty), Some(f)) = (&entry.ty, ops.decode) {
        for v in &op.vals {
            let img = dirty_image(ty, prog.layout, v, 77 + i as u64, 5 + i as u64);
            match guarded(|| f(&img)) {
                Ok(l) => l.iter().for_each(|x| dg.add(*x)),
                Err(g) => {
                    g.digest(&mut dg);
                    take_cb_panic();
                }
            }
        }
    }
    r.text.push(format!("decode of {}", op.ty));
    r.out_log.push(dg.0);
}

/// The description of a type for the device, in the middle of a program.
fn side_describe(r: &mut Runner, op: &Op, entry: &TypeEntry) {
    let mut dg = Digest::new();
    let mut size = 0;
    if let Some(g) = &entry.glsl {
        let got = guarded(|| {
            let first = g.definition.map(|f| f());
            crate::hooks::yield_point();
            let fields = g.fields.map(|f| f());
            let second = g.definition.map(|f| f());
            (first, fields, second)
        });
        match got {
            Ok((first, fields, second)) => {
                size = first.as_ref().map_or(0, |t| t.len());
                let fields = fields.unwrap_or_default();
                let all = [first, second].into_iter().flatten();
                for t in all.chain(fields.into_iter().flat_map(|(a, b)| [a, b])) {
                    dg.add(t.len() as u64);
                    t.bytes().for_each(|b| dg.add(b as u64));
                }
            }
            Err(g) => {
                g.digest(&mut dg);
                take_cb_panic();
            }
        }
    }
    r.text.push(format!("description of {}: {size} characters", op.ty));
    r.out_log.push(dg.0);
}

/// A block of plain bytes, to move a stream forward quickly.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Chunk<const N: usize>(pub [u8; N]);
unsafe impl<const N: usize> bytemuck::Zeroable for Chunk<N> {}
unsafe impl<const N: usize> bytemuck::Pod for Chunk<N> {}
unsafe impl<const N: usize> crevice::std140::Std140 for Chunk<N> {
    const ALIGNMENT: usize = 16;
}
unsafe impl<const N: usize> crevice::std430::Std430 for Chunk<N> {
    const ALIGNMENT: usize = 16;
}

pub const MB: usize = 1 << 20;

static BLOCK: Chunk<MB> = Chunk([0x5A; MB]);

/// A user-defined value of any multiple of 256 bytes.
pub struct Far(pub u64);

macro_rules! far {
    ($m:ident, $tr:ident, $f:ident) => {
        impl crevice::$m::$tr for Far {
            fn $f<W: io::Write>(&self, w: &mut crevice::$m::Writer<W>) -> io::Result<usize> {
                let at = w.len();
                for _ in 0..self.0 / MB as u64 {
                    w.write(&BLOCK)?;
                }
                for _ in 0..self.0 % MB as u64 / 256 {
                    w.write(&Chunk([0xA5u8; 256]))?;
                }
                Ok(at)
            }
        }
    };
}
far!(std140, WriteStd140, write_std140);
far!(std430, WriteStd430, write_std430);

/// Size of one value of `a` bytes, and of a slice of two of `a` and `b` bytes.
pub fn far_sizes(l: Layout, a: u64, b: u64) -> (usize, usize) {
    use crevice::{std140::WriteStd140, std430::WriteStd430};
    let two = [Far(a), Far(b)];
    match l {
        Layout::Std140 => (two[0].std140_size(), two.as_slice().std140_size()),
        Layout::Std430 => (two[0].std430_size(), two.as_slice().std430_size()),
    }
}

pub fn prelude_sizer(s: &mut Sz, prelude: u64) -> (usize, usize) {
    let mut last = 0;
    for _ in 0..prelude / MB as u64 {
        last = match s {
            Sz::S140(s) => s.add::<Chunk<MB>>(),
            Sz::S430(s) => s.add::<Chunk<MB>>(),
        };
    }
    for _ in 0..prelude % MB as u64 / 256 {
        last = match s {
            Sz::S140(s) => s.add::<Chunk<256>>(),
            Sz::S430(s) => s.add::<Chunk<256>>(),
        };
    }
    (last, s.len())
}

/// Sends `prog.prelude` bytes (a multiple of 256) that the device takes but
/// does not keep, so that the program itself runs far into a long stream.
fn prelude(env: &Env, r: &mut Runner, prog: &Prog) -> Result<(), Option<Violation>> {
    let saved = {
        let mut d = lock(&r.dev);
        d.keep = false;
        d.begin_op(u64::MAX / 2);
        (d.gen.take(), std::mem::take(&mut d.script))
    };
    let total = prog.prelude as usize;
    let big = Box::new(Chunk([0x5Au8; MB]));
    let small = Chunk([0xA5u8; 256]);
    let mut at = 0usize;
    let w = r.wr.as_mut().unwrap();
    while at < total {
        let n = if total - at >= MB { MB } else { 256 };
        let got = guarded_io(|| match (&mut *w, n == MB) {
            (Wr::W140(w), true) => w.write_std140(&*big),
            (Wr::W140(w), false) => w.write_std140(&small),
            (Wr::W430(w), true) => w.write_std430(&*big),
            (Wr::W430(w), false) => w.write_std430(&small),
        });
        let accepted = lock(&r.dev).accepted();
        let len = w.len();
        at += n;
        let bad = match got {
            Got::Ok(ret) if ret == at - n && len == at && accepted == at => continue,
            Got::Ok(ret) if accepted == at => Some(viol(
                "long stream",
                format!("write at {} returned {ret}, len {len}, accepted {accepted}", at - n),
            )),
            Got::Ok(_) => None,
            g => Some(viol("long stream", format!("write at {}: {}", at - n, g.text()))),
        };
        return Err(match env.prop {
            "C02" | "C05" => bad,
            _ => None,
        });
    }
    let mut d = lock(&r.dev);
    d.keep = true;
    d.win_base = total;
    d.synced = total;
    d.mem.clear();
    d.mask.clear();
    d.gen = saved.0;
    d.script = saved.1;
    d.calls = 0;
    r.stream.origin = total;
    Ok(())
}
