//! What one run consists of, per property.

use crate::dev::lock;
use crate::engine::*;
use crate::glsl;
use crate::hooks::{Pool, CTX};
use crate::model::{round_up, Layout, Ty};
use crate::registry::{Built, Registry, Sz, TypeEntry};
use crate::rng::{hash_str, mix, Digest, Rng};
use crate::sched::{Baton, Moved, Place};
use crate::trace::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
pub struct RunOut {
    pub violation: Option<Violation>,
    pub derailed: Option<String>,
    /// C08: a program deviates from the reference even on its own.
    pub suspect: bool,
    pub known: BTreeSet<String>,
    pub digest: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub ticks: u64,
    pub sink_calls: u64,
    pub bytes: u64,
    pub ops: u64,
    pub failures: u64,
    pub switches: u64,
    pub preempted: u64,
    pub points: u64,
    pub nested: u64,
    pub sig: u64,
    pub nontrivial: bool,
    pub text: Vec<String>,
    /// Sink calls before each op, per program (the first run of each).
    pub op_calls: Vec<Vec<u64>>,
}

/// Set in workers: say on stdout when programs start to run together.
pub static PROGRESS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn together() {
    if PROGRESS.load(std::sync::atomic::Ordering::Relaxed) {
        println!("T");
    }
}

impl RunOut {
    fn take(&mut self, o: &ProgOut) {
        for (k, n) in &o.counts.0 {
            *self.counts.entry(k).or_default() += n;
        }
        self.ticks += o.ticks;
        self.sink_calls += o.sink_calls;
        self.bytes += o.bytes;
        self.ops += o.ops;
        self.failures += o.failures;
        self.points += o.points;
        self.preempted += o.preempted;
        let mut d = Digest(self.digest);
        o.log.iter().for_each(|l| d.add(*l));
        d.add(o.event_log);
        o.fired.iter().for_each(|f| d.str(&format!("{f:?}")));
        o.cb_fired.iter().for_each(|f| d.str(&format!("{f:?}")));
        if let Some(m) = &o.derailed {
            d.str(m);
        }
        self.digest = d.0;
        self.nontrivial |= !o.fired.is_empty() || !o.cb_fired.is_empty() || o.failures > 0;
        if self.derailed.is_none() {
            self.derailed = o.derailed.clone();
        }
        if self.violation.is_none() {
            self.violation = o.violation.clone();
        }
        self.text.extend(o.text.iter().cloned());
        self.op_calls.push(o.op_calls.clone());
    }

    fn fail(&mut self, class: &str, msg: String) {
        if self.violation.is_none() {
            self.violation = Some(viol(class, msg));
        }
    }
}

pub type Known = BTreeSet<String>;

pub fn run_trace(
    reg: &'static Registry,
    t: &mut Trace,
    gens: Option<&[GenCfg]>,
    known: &Known,
) -> RunOut {
    let mut out = RunOut::default();
    match t.mode {
        Mode::Upload => upload(reg, t, gens, &mut out),
        Mode::Sized => sized(reg, t, gens, &mut out),
        Mode::Device => device(reg, t, gens, &mut out),
        Mode::Arrays => arrays(reg, t, gens, &mut out, known),
        Mode::Readback => readback(reg, t, gens, &mut out),
        Mode::Threads | Mode::Alternate => threads(reg, t, gens, &mut out),
        Mode::Nested => nested(reg, t, gens, &mut out),
        Mode::Pod => pod(reg, t, gens, &mut out),
        Mode::Sequence => sequence(reg, t, gens, &mut out),
    }
    let mut d = Digest::new();
    for p in &t.progs {
        d.add(p.layout as u64);
        for o in &p.ops {
            d.add(o.call as u64);
            d.add(hash_str(&o.ty));
            d.add(o.vals.len().min(40) as u64);
            o.preempt.iter().for_each(|k| d.add(*k));
        }
        for (k, f) in &p.faults {
            d.add(*k);
            d.str(&format!("{f:?}"));
        }
        for (k, f) in &p.callbacks {
            d.add(*k);
            d.str(&format!("{f:?}"));
        }
    }
    t.schedule.iter().for_each(|s| d.add(*s as u64));
    d.add(t.arg);
    out.sig = d.0;
    let mut d = Digest(out.digest);
    if let Some(v) = &out.violation {
        d.str(&v.msg);
    }
    t.schedule.iter().for_each(|s| d.add(*s as u64));
    out.digest = d.0;
    out
}

fn env_for<'a>(reg: &'static Registry, t: &'a Trace, shared: BTreeMap<usize, Built>) -> Env<'a> {
    Env {
        reg,
        prop: &t.property,
        shared,
    }
}

/// Runs program `i` of the trace; writes down the faults that fired.
fn one(reg: &'static Registry, t: &mut Trace, i: usize, gens: Option<&[GenCfg]>, out: &mut RunOut) -> ProgOut {
    let o = {
        let env = env_for(reg, t, BTreeMap::new());
        run_prog(&env, &t.progs[i], gens.map(|g| &g[i]))
    };
    if gens.is_some() {
        t.progs[i].faults = o.fired.clone();
        t.progs[i].callbacks = o.cb_fired.clone();
    }
    out.take(&o);
    o
}

fn upload(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    one(reg, t, 0, gens, out);
}

// ---------------------------------------------------------------- sizes (C05)

fn sized(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    let layout = t.progs[0].layout;
    let env = env_for(reg, t, BTreeMap::new());
    let prog = &t.progs[0];
    // Predictions.
    let mut predicted: Vec<Vec<usize>> = Vec::new();
    let mut after: Vec<usize> = Vec::new();
    let r = guarded(|| {
        let mut s = Sz::new(layout);
        if prog.prelude > 0 {
            let (_, l) = prelude_sizer(&mut s, prog.prelude);
            if l != prog.prelude as usize {
                return Err(format!("after {} bytes of blocks the size calculator says {l}", prog.prelude));
            }
        }
        for op in &prog.ops {
            let ops = reg.get(&op.ty).ops(layout).unwrap();
            let mut offs = Vec::new();
            (ops.sizer)(&mut s, &build_vals(&env, op), &mut offs);
            predicted.push(offs);
            after.push(s.len());
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => return out.fail("prediction", m),
        Err(g) => return out.fail("prediction", format!("size calculation ended with {}", g.text())),
    }
    let total = after.last().copied().unwrap_or(prog.prelude as usize);
    if total < prog.prelude as usize {
        return out.fail("prediction", format!("after {} bytes of blocks and {} values the size calculator says {total}", prog.prelude, after.len()));
    }

    // Each value on its own: sizes against the bytes it takes.
    for (i, op) in prog.ops.iter().enumerate() {
        let ops = reg.get(&op.ty).ops(layout).unwrap();
        let built = build_vals(&env, op);
        let solo = |calls: Call, what: &str, size: usize| -> Option<(String, String)> {
            let p = Prog {
                layout,
                ops: vec![Op { call: calls, ..op.clone() }],
                segments: vec![],
                prelude: 0,
                recovery: Recovery::Stop,
                dev: DevCfg { garbage: 1, cap: None, full_as_zero: false, max_accept: None, vectored: false, flush: 0 },
                faults: vec![],
                callbacks: vec![],
            };
            let o = run_prog(&env, &p, None);
            if o.violation.is_some() {
                return o.violation.map(|v| (v.class, v.msg));
            }
            let wrote = o.bytes as usize;
            if o.rets[0] != Some(0) {
                // not at an aligned position: nothing to compare with
                return None;
            }
            (wrote != size).then(|| ("size".into(), format!("{what} of op {i} ({} x{}) is {size}, writing it takes {wrote} bytes", op.ty, op.vals.len())))
        };
        let checks = guarded(|| {
            let mut bad = None;
            if !op.vals.is_empty() {
                bad = solo(Call::Write, "size of one value", (ops.size_one)(&built));
            }
            if bad.is_none() && !op.vals.is_empty() {
                if let Some(f) = ops.size_static {
                    bad = solo(Call::Write, "static size", f());
                }
            }
            if bad.is_none() {
                bad = solo(Call::Slice, "size of the slice", (ops.size_slice)(&built));
            }
            bad
        });
        match checks {
            Ok(None) => {}
            Ok(Some((c, m))) => return out.fail(&c, m),
            Err(g) => return out.fail("size", format!("size of op {i} ({}) ended with {}", op.ty, g.text())),
        }
    }

    // Values of gigabytes, now and then.
    if prog.prelude >= 1 << 31 && t.run / 2500 % 4 == 0 {
        let (a, b) = match t.run / 10_000 % 2 == 0 {
            true => (prog.prelude, 1024),
            false => (1 << 31, prog.prelude - (1 << 31)),
        };
        match guarded(|| far_sizes(layout, a, b)) {
            Ok((x, y)) if x as u64 == a && y as u64 == a + b => {}
            Ok((x, y)) => {
                return out.fail("size", format!("user-defined values of {a} and {b} bytes: the first alone has size {x}, the slice of both {y}"))
            }
            Err(g) => return out.fail("size", format!("size of a value of {a} bytes ended with {}", g.text())),
        }
    }

    // Where the writer really puts each value, and how far it gets.
    {
        let mut offs_w: Vec<Vec<usize>> = Vec::new();
        let mut len_w = Vec::new();
        let p = Prog { ops: vec![], ..prog.clone() };
        if prog.prelude == 0 {
            let _ = p;
            let dev = Arc::new(Mutex::new(crate::dev::Dev::new(DevCfg {
                garbage: 1,
                cap: None,
                full_as_zero: false,
                max_accept: None,
                vectored: false,
                flush: 0,
            })));
            let mut w = crate::registry::Wr::new(layout, crate::dev::Sink(dev));
            for op in &prog.ops {
                let ops = reg.get(&op.ty).ops(layout).unwrap();
                let mut offs = Vec::new();
                let built = build_vals(&env, op);
                let r = guarded(|| (ops.write_atoms)(&mut w, &built, 0, &mut offs));
                if !matches!(r, Ok(Ok(()))) {
                    out.derailed = Some("undisturbed write failed".into());
                    return;
                }
                offs_w.push(offs);
                len_w.push(w.len());
            }
            for (i, op) in prog.ops.iter().enumerate() {
                if offs_w[i] != predicted[i] {
                    return out.fail(
                        "offset prediction",
                        format!("op {i} ({} x{}): predicted offsets {:?}, the writer used {:?}", op.ty, op.vals.len(), short(&predicted[i]), short(&offs_w[i])),
                    );
                }
                if len_w[i] != after[i] {
                    return out.fail(
                        "length prediction",
                        format!("after op {i} ({} x{}): predicted length {}, the writer is at {}", op.ty, op.vals.len(), after[i], len_w[i]),
                    );
                }
            }
        }
    }

    // The bounded, disturbed upload.
    let short_by = (t.arg as usize).min(total - prog.prelude as usize);
    t.progs[0].dev.cap = Some(total - short_by);
    let o = one(reg, t, 0, gens, out);
    if out.violation.is_some() {
        return;
    }
    let cap = total - short_by;
    let done = o.rets.iter().take_while(|r| r.is_some()).count();
    let prog = &t.progs[0];
    for i in 0..done {
        let (Some(ret), Some(want)) = (o.rets[i], predicted[i].first()) else {
            continue;
        };
        if ret != *want {
            return out.fail(
                "offset prediction",
                format!("op {i} ({}): predicted offset {want}, the disturbed write returned {ret}", prog.ops[i].ty),
            );
        }
    }
    if short_by == 0 {
        if !o.completed {
            out.fail(
                "exact capacity does not fit",
                format!("op {done} ({}) failed in a sink of exactly the predicted {cap} bytes: {}", prog.ops[done].ty, o.text.last().cloned().unwrap_or_default()),
            );
        }
    } else {
        let want = after.iter().position(|a| *a > cap).unwrap();
        if o.completed || done != want {
            out.fail(
                "too small a sink",
                format!(
                    "in a sink of {cap} of the predicted {total} bytes {} instead of op {want}: {}",
                    if o.completed { "nothing failed".to_string() } else { format!("op {done} failed") },
                    o.text.last().cloned().unwrap_or_default()
                ),
            );
        }
    }
}

fn short(v: &[usize]) -> Vec<usize> {
    v.iter().take(12).copied().collect()
}

// --------------------------------------------------------- shader's view (C06)

fn gather(reg: &Registry, name: &str, order: &mut Vec<String>) {
    let e = reg.get(name);
    if order.contains(&e.name) {
        return;
    }
    if let Some(Ty::Struct(d)) = &e.ty {
        for (_, t) in &d.fields {
            if let Ty::Struct(s) = t {
                gather(reg, &s.name, order);
            }
        }
        order.push(e.name.clone());
    }
}

fn device(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    // Each program has a shader of its own.
    for k in 0..t.progs.len() {
        shader(reg, t, k, gens, out);
        if out.violation.is_some() {
            return;
        }
    }
}

fn shader(reg: &'static Registry, t: &mut Trace, which: usize, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    let o = one(reg, t, which, gens, out);
    let prog = &t.progs[which];
    let layout = prog.layout;
    // The shader's source, from nothing but what the library says.
    let mut order = Vec::new();
    for op in &prog.ops {
        gather(reg, &op.ty, &mut order);
    }
    let built = guarded(|| {
        let mut src = String::new();
        for n in &order {
            let g = reg.get(n).glsl.as_ref().unwrap();
            let def = (g.definition.unwrap())();
            src.push_str(&def);
            src.push('\n');
            // The field list agrees with the definition.
            let fields = (g.fields.unwrap())();
            let mut again = format!("struct {} {{", g.name);
            for (ty, name) in &fields {
                again.push_str(&format!("{ty} {name};"));
            }
            again.push_str("};");
            let squash = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ").replace("; ", ";").replace("{ ", "{").replace(" }", "}").replace(" ;", ";");
            if squash(&def) != squash(&again) {
                return Err(format!("glsl_definition of {n} says {:?}, FIELDS says {:?}", squash(&def), squash(&again)));
            }
        }
        src.push_str("buffer Block {\n");
        for (i, op) in prog.ops.iter().enumerate() {
            src.push_str(&format!("    {} m{i};\n", reg.get(&op.ty).glsl.as_ref().unwrap().name));
        }
        src.push_str("};\n");
        Ok(src)
    });
    let src = match built {
        Ok(Ok(s)) => s,
        Ok(Err(m)) => return out.fail("definition", m),
        Err(g) => return out.fail("definition", format!("the GLSL description ended with {}", g.text())),
    };
    if prog.ops.is_empty() {
        return;
    }
    let shader = match glsl::parse(&src) {
        Ok(s) => s,
        Err(e) => return out.fail("not GLSL", format!("{e}\nin\n{src}")),
    };
    let mut dg = Digest(out.digest);
    dg.str(&src);
    out.digest = dg.0;
    // Definitions have the host's members in the host's order.
    for n in &order {
        let e = reg.get(n);
        let g = e.glsl.as_ref().unwrap();
        let Some(Ty::Struct(host)) = &e.ty else { continue };
        let Some(Ty::Struct(dev)) = shader.structs.get(g.name) else {
            return out.fail("definition", format!("the definition of {n} does not define {}", g.name));
        };
        let a: Vec<&str> = host.fields.iter().map(|f| f.0.as_str()).collect();
        let b: Vec<&str> = dev.fields.iter().map(|f| f.0.as_str()).collect();
        if a != b {
            return out.fail("members", format!("struct {n} has members {a:?}, its GLSL definition {b:?}"));
        }
    }
    if !o.completed {
        return;
    }
    let d = lock(&o.dev);
    let end = d.pos;
    let seen = shader.read(layout, &mut |off, n| {
        (off + n <= end).then(|| d.slice(off, off + n).to_vec())
    });
    let seen = match seen {
        Ok(s) => s,
        Err(e) => return out.fail("out of range", e),
    };
    let mut k = 0;
    for (i, op) in prog.ops.iter().enumerate() {
        let ty = reg.get(&op.ty).ty.clone().unwrap();
        let mut paths = Vec::new();
        ty.paths(&format!("m{i}"), &mut paths);
        for (p, v) in paths.iter().zip(&op.vals[0]) {
            match seen.get(k) {
                Some((sp, sv)) if sp == p && sv == v => {}
                Some((sp, sv)) => {
                    return out.fail(
                        "value",
                        format!("in {} the host wrote {p} = {v:#x}, the shader reads {sp} = {sv:#x} ({})", layout.name(), op.ty),
                    )
                }
                None => return out.fail("value", format!("the shader has no {p}")),
            }
            k += 1;
        }
    }
    if k != seen.len() {
        out.fail("value", format!("the shader sees {} components, the host wrote {k}", seen.len()));
    }
}

// ------------------------------------------------------------- arrays (C10)

fn matches_at(d: &crate::dev::Dev, end: usize, l: Layout, ty: &Ty, leaves: &[u64], at: usize) -> bool {
    let (img, mask) = ty.image(l, leaves);
    // An element's own tail gap may be missing at the end of the stream.
    let used = mask.iter().rposition(|m| *m).map_or(0, |p| p + 1);
    at + used <= end && (0..used).all(|i| !mask[i] || d.at(at + i) == img[i])
}

fn arrays(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut, known: &Known) {
    let o = one(reg, t, 0, gens, out);
    let prog = &t.progs[0];
    let l = prog.layout;
    let d = lock(&o.dev);
    let end = d.pos;
    let mut findings: Vec<(String, String)> = Vec::new();
    for (i, op) in prog.ops.iter().enumerate() {
        if !op.call.takes_many() || !op.call.is_write() || op.vals.is_empty() {
            continue;
        }
        let Some(base) = o.rets[i] else { break };
        let ty = reg.get(&op.ty).ty.clone().unwrap();
        let g = match &ty {
            Ty::Struct(_) => "struct".to_string(),
            t => t.glsl_name(),
        };
        let n = op.vals.len();
        let stride = ty.array_stride(l);
        let what = format!("op {i}: {:?} of {n} {} ({}) at {base} in {}", op.call, op.ty, ty.glsl_name(), l.name());
        if base % ty.array_align(l) != 0 {
            findings.push((
                format!("align:{}:{g}:at-element-alignment", l.name()),
                format!("{what}: the array does not start at a multiple of {}", ty.array_align(l)),
            ));
            if base % ty.align(l) != 0 {
                findings.push((format!("align:{}:{g}:other", l.name()), what.clone()));
            }
        }
        let fits = |s: usize| (0..n).all(|k| matches_at(&d, end, l, &ty, &op.vals[k], base + k * s));
        let mut packed_end = base + (n - 1) * stride + ty.size(l);
        if !fits(stride) {
            let packed = round_up(ty.size(l), ty.align(l));
            let got = if fits(packed) { packed.to_string() } else { "other".into() };
            packed_end = base + (n - 1) * packed + ty.size(l);
            findings.push((
                format!("stride:{}:{g}:got={got}", l.name()),
                format!("{what}: elements are not {stride} bytes apart (found {got})"),
            ));
        }
        // The next value written after the array.
        if let (Some(next), Some(Some(at))) = (prog.ops.get(i + 1), o.rets.get(i + 1)) {
            let (Some(nt), false) = (reg.get(&next.ty).ty.clone(), next.vals.is_empty()) else { continue };
            let na = if next.call.takes_many() { nt.array_align(l) } else { nt.align(l) };
            let array_end = round_up(base, ty.array_align(l)) + n * stride;
            let want = round_up(array_end, na);
            if *at != want {
                // an array that follows is judged by its own alignment above
                let packed = round_up(packed_end, nt.align(l));
                let sym = if *at == packed || *at == round_up(base + n * round_up(ty.size(l), ty.align(l)), nt.align(l)) {
                    "packed"
                } else {
                    "other"
                };
                findings.push((
                    format!("tail:{}:{g}:{sym}", l.name()),
                    format!("{what}: the {} after it was written at {at}, belongs at {want}", next.ty),
                ));
            }
        }
    }
    drop(d);
    for (key, msg) in findings {
        if known.contains(&key) {
            out.known.insert(key);
        } else {
            out.fail(&key, format!("{msg} [{key}]"));
        }
    }
}

// ------------------------------------------------------------ readback (C07)

fn readback(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    let o = one(reg, t, 0, gens, out);
    let layout = t.progs[0].layout;
    struct Item<'a> {
        e: &'a TypeEntry,
        ty: Ty,
        leaves: Vec<u64>,
        name: String,
    }
    let mut items: Vec<Item> = Vec::new();
    for (i, op) in t.progs[0].ops.iter().enumerate() {
        let e = reg.get(&op.ty);
        let Some(ty) = &e.ty else { continue };
        for (k, v) in op.vals.iter().enumerate() {
            items.push(Item { e, ty: ty.clone(), leaves: v.clone(), name: format!("value {k} of op {i} ({})", op.ty) });
        }
        // Uploaded, untouched by the device, read back.
        let ops = e.ops(layout).unwrap();
        if let (Some(at), Some(f), Some(sz)) = (o.rets[i], ops.decode, ops.size_static) {
            if op.vals.is_empty() {
                continue;
            }
            let r = {
                let d = lock(&o.dev);
                let n = sz();
                (at + n <= d.pos).then(|| d.slice(at, at + n).to_vec())
            };
            if let Some(b) = r {
                match guarded(|| f(&b)) {
                    Ok(v) if v == op.vals[0] => {}
                    Ok(v) => return out.fail("round trip", format!("op {i} ({} in {}): wrote {:x?}, read back {v:x?}", op.ty, layout.name(), op.vals[0])),
                    Err(g) => return out.fail("decode failed", format!("op {i} ({}): {}", op.ty, g.text())),
                }
            }
        }
    }
    let total: usize = items.iter().map(|i| i.leaves.len()).sum();
    let mut dg = Digest(out.digest);
    for (s, step) in t.device.iter().enumerate() {
        // The device changes components, scribbles on gaps, stores its own
        // words for true.
        if total > 0 {
            for (at, v) in &step.set {
                let mut k = at % total;
                for it in items.iter_mut() {
                    if k < it.leaves.len() {
                        let mut kinds = Vec::new();
                        it.ty.leaf_kinds(&mut kinds);
                        it.leaves[k] = clamp(kinds[k], *v);
                        break;
                    }
                    k -= it.leaves.len();
                }
            }
        }
        for (n, it) in items.iter().enumerate() {
            let ops = it.e.ops(layout).unwrap();
            let (Some(dec), Some(re)) = (ops.decode, ops.reencode) else { continue };
            let salt = |x: u64| if x == 0 { 0 } else { mix(x ^ n as u64) | 1 };
            let img = dirty_image(&it.ty, layout, &it.leaves, salt(step.gaps), salt(step.bools));
            let n_out = ops.size_static.map(|f| f()).unwrap_or(img.len());
            if n_out != img.len() {
                out.derailed = Some(format!("{}: layout type has {n_out} bytes", it.name));
                if n_out < img.len() {
                    // components cannot all be in there
                    let mut comps = Vec::new();
                    it.ty.components(layout, 0, &mut comps);
                    if comps.iter().any(|(o, s)| o + s.size() > n_out) {
                        return out.fail("decode", format!("{}: components lie beyond the layout type's {n_out} bytes", it.name));
                    }
                }
            }
            let mut img2 = img.clone();
            img2.resize(n_out, 0);
            *out.counts.entry("device image with dirty gaps").or_default() += (step.gaps != 0) as u64;
            *out.counts.entry("device image with odd words for true").or_default() += (step.bools != 0) as u64;
            match guarded(|| dec(&img2)) {
                Ok(v) if v == it.leaves => v.iter().for_each(|x| dg.add(*x)),
                Ok(v) => {
                    let mut paths = Vec::new();
                    it.ty.paths("", &mut paths);
                    let k = (0..v.len().min(it.leaves.len())).find(|k| v[*k] != it.leaves[*k]).unwrap_or(0);
                    return out.fail(
                        "decode",
                        format!("step {s}, {} in {}: component {} is {:#x} on the device, decodes to {:#x} (image {:02x?})", it.name, layout.name(), paths[k], it.leaves[k], v[k], img),
                    );
                }
                Err(g) => return out.fail("decode failed", format!("step {s}, {}: {}", it.name, g.text())),
            }
            if let Err(m) = bools(&it.ty, layout, &img) {
                return out.fail("boolean", format!("step {s}, {} in {}: {m}", it.name, layout.name()));
            }
            if !it.e.passthrough {
                let (want, _) = it.ty.image(layout, &it.leaves);
                match guarded(|| re(&img2)) {
                    Ok(b) if b == want => {}
                    Ok(b) => {
                        let k = b.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(b.len()));
                        return out.fail(
                            "re-encode",
                            format!("step {s}, {} in {}: decoding and encoding again gives {:02x?} at byte {k}, canonical is {:02x?}", it.name, layout.name(), b.get(k), want.get(k)),
                        );
                    }
                    Err(g) => return out.fail("decode failed", format!("step {s}, {}: {}", it.name, g.text())),
                }
            }
            out.nontrivial = true;
        }
    }
    out.digest = dg.0;
    // The host sends the values it decoded back up.
    if !t.device.is_empty() && !items.is_empty() {
        let ops: Vec<Op> = items
            .iter()
            .take(24)
            .map(|it| Op { call: Call::Write, ty: it.e.name.clone(), vals: vec![it.leaves.clone()], late: vec![], shared: None, preempt: vec![], home: 0, image: vec![] })
            .collect();
        let p = Prog { ops, segments: vec![], ..t.progs[0].clone() };
        let env = env_for(reg, t, BTreeMap::new());
        let o2 = run_prog(&env, &p, None);
        drop(env);
        out.take(&o2);
        for (i, op) in p.ops.iter().enumerate() {
            let ops = reg.get(&op.ty).ops(layout).unwrap();
            if let (Some(at), Some(f), Some(sz)) = (o2.rets[i], ops.decode, ops.size_static) {
                let b = {
                    let d = lock(&o2.dev);
                    let n = sz();
                    (at + n <= d.pos).then(|| d.slice(at, at + n).to_vec())
                };
                if let Some(Ok(v)) = b.map(|b| guarded(|| f(&b))) {
                    if v != op.vals[0] {
                        return out.fail("round trip", format!("second upload of {}: wrote {:x?}, read back {v:x?}", op.ty, op.vals[0]));
                    }
                }
            }
        }
    }
}

/// Booleans are what they mean, whatever word the device stores for `true`.
fn bools(ty: &Ty, l: Layout, img: &[u8]) -> Result<(), String> {
    use crevice::std140::{BVec2, BVec3, Bool};
    let mut comps = Vec::new();
    ty.components(l, 0, &mut comps);
    let words = comps.iter().filter(|c| c.1 == crate::model::Scalar::Bool).take(5);
    let mut last: Option<(u32, Bool)> = None;
    for (at, _) in words {
        let w = u32::from_ne_bytes(img[*at..at + 4].try_into().unwrap());
        let b: Bool = bytemuck::cast(w);
        for (v, o) in last.into_iter().chain([(1, Bool::from(true)), (0, Bool::from(false))]) {
            let same = (w != 0) == (v != 0);
            if (b == o) != same {
                return Err(format!("booleans stored as {w:#x} and {v:#x} {}", if same { "mean the same, but differ" } else { "are equal" }));
            }
            let f = Bool::from(w % 3 == 0);
            let vectors = [
                BVec2 { x: f, y: b } == BVec2 { x: f, y: o },
                BVec3 { x: b, y: f, z: f } == BVec3 { x: o, y: f, z: f },
            ];
            if vectors != [same; 2] {
                return Err(format!("vectors that differ at most in booleans stored as {w:#x} and {v:#x} compare as {vectors:?}"));
            }
            if (format!("{b:?}") == format!("{o:?}")) != same {
                return Err(format!("booleans stored as {w:#x} and {v:#x} print as {b:?} and {o:?}"));
            }
        }
        last = Some((w, b));
    }
    Ok(())
}

pub fn clamp(s: crate::model::Scalar, v: u64) -> u64 {
    match s {
        crate::model::Scalar::Bool => v & 1,
        crate::model::Scalar::F64 => v,
        crate::model::Scalar::U16 => v as u16 as u64,
        crate::model::Scalar::U8 => v as u8 as u64,
        _ => v as u32 as u64,
    }
}

// ----------------------------------------------------------- isolation (C08)

fn stripped(p: &Prog) -> Prog {
    let mut p = p.clone();
    p.faults.retain(|f| !matches!(f.1, Fault::Nested(_)));
    p.callbacks.retain(|f| !matches!(f.1, CbFault::Nested(_)));
    p
}

fn shared_vals(reg: &'static Registry, t: &Trace) -> BTreeMap<usize, Built> {
    let mut m = BTreeMap::new();
    for p in &t.progs {
        for o in &p.ops {
            if let Some(k) = o.shared {
                m.entry(k).or_insert_with(|| (reg.get(&o.ty).build)(&o.vals));
            }
        }
    }
    m
}

/// Runs every program alone, each on a fresh thread.
fn solo(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) -> Vec<ProgOut> {
    let mut v = Vec::new();
    for i in 0..t.progs.len() {
        let p = stripped(&t.progs[i]);
        let g = gens.map(|g| g[i].clone());
        let prop = t.property.clone();
        let shared = shared_vals(reg, t);
        let o = std::thread::spawn(move || {
            let env = Env { reg, prop: &prop, shared };
            run_prog(&env, &p, g.as_ref())
        })
        .join()
        .expect("solo run");
        if gens.is_some() {
            t.progs[i].faults = o.fired.clone();
            t.progs[i].callbacks = o.cb_fired.clone();
        }
        out.take(&o);
        out.suspect |= o.derailed.is_some();
        v.push(o);
    }
    v
}

fn compare(out: &mut RunOut, how: &str, i: usize, alone: &ProgOut, together: &ProgOut) {
    if alone.log == together.log {
        return;
    }
    let k = alone
        .log
        .iter()
        .zip(&together.log)
        .position(|(a, b)| a != b)
        .unwrap_or(alone.log.len().min(together.log.len()));
    let none = "nothing".to_string();
    let a = alone.text.get(k).unwrap_or(&none);
    let b = together.text.get(k).unwrap_or(&none);
    out.fail(
        "neighbours matter",
        format!("program {i}, {how}: step {k} alone: {a}; together: {b}{}", if a == b { " (different bytes)" } else { "" }),
    );
}

/// Chooses where programs are preempted inside crevice.
fn choose_preemptions(t: &mut Trace, alone: &[ProgOut], r: &mut Rng) {
    let style = r.below(5);
    for (p, o) in t.progs.iter_mut().zip(alone) {
        for (op, n) in p.ops.iter_mut().zip(&o.op_points) {
            op.preempt.clear();
            let k = match style {
                0 => 0,
                1 => r.permille(150) as u64,
                2 => r.permille(500) as u64,
                3 => r.below(4),
                _ => (r.permille(250) as u64) * (1 + r.below(7)),
            };
            if *n == 0 {
                continue;
            }
            // Either anywhere in the op or in a burst of neighbouring points.
            let burst = r.permille(250);
            let mut at = r.below(*n);
            for _ in 0..k {
                op.preempt.push(at);
                at = match (burst, r.below(4)) {
                    (true, _) => at + 1 + r.below(4),
                    (_, 0) => r.below(*n).min(r.below(40)),
                    (_, 1) => n - 1 - r.below(*n).min(r.below(40)),
                    _ => r.below(*n),
                };
            }
            op.preempt.sort();
            op.preempt.dedup();
        }
    }
}

/// Chooses which thread carries out each operation: all on one thread, or
/// spread over a few so that a writer moves from thread to thread.
fn choose_homes(t: &mut Trace, r: &mut Rng) {
    let k = *r.pick(&[1, 1, 2, 3]);
    let stay = *r.pick(&[0, 500, 900]);
    for p in t.progs.iter_mut() {
        let mut home = r.below(k);
        for op in p.ops.iter_mut() {
            op.preempt.clear();
            if !r.permille(stay) {
                home = r.below(k);
            }
            op.home = home as u8;
        }
    }
}

fn threads(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    let alone = solo(reg, t, gens, out);
    together();
    let mut rng = gens.map(|g| Rng::derive(g[0].seed, "schedule", 1));
    let elsewhere = t.mode == Mode::Alternate;
    if let Some(r) = &mut rng {
        if elsewhere {
            choose_homes(t, r);
        } else {
            choose_preemptions(t, &alone, r);
        }
        t.schedule.clear();
    }
    let n = t.progs.len();
    let baton = Arc::new(Baton::new(n, elsewhere));
    let pool = elsewhere.then(|| {
        let k = t.progs.iter().flat_map(|p| &p.ops).map(|o| o.home).max().unwrap_or(0);
        Arc::new(Pool::new(k as usize + 1))
    });
    let shared = shared_vals(reg, t);
    let mut handles = Vec::new();
    for i in 0..n {
        let p = stripped(&t.progs[i]);
        let prop = t.property.clone();
        let shared = shared.clone();
        let baton = baton.clone();
        let pool = pool.clone();
        handles.push(std::thread::spawn(move || {
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                c.baton = Some((baton.clone(), i));
                c.away = pool.map(|p| (p, 0));
            });
            baton.start(i);
            let env = Env { reg, prop: &prop, shared };
            let o = run_prog(&env, &p, None);
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                c.baton = None;
                c.away = None;
            });
            baton.finish(i);
            o
        }));
    }
    baton.assembled();
    let style = rng.as_mut().map(|r| r.below(4)).unwrap_or(0);
    let mut last = usize::MAX;
    let mut step = 0usize;
    let mut left_behind: BTreeSet<usize> = BTreeSet::new();
    loop {
        if !left_behind.is_empty() {
            baton.settle();
            left_behind.retain(|i| baton.left_behind(*i));
        }
        let places = baton.places();
        // A program that waits for another inside crevice has to be let on
        // before anything can be said about it.
        let waits = !left_behind.is_empty() || places.contains(&Place::Spinning);
        let all: Vec<usize> = (0..n).filter(|i| places[*i] != Place::Finished).collect();
        if all.is_empty() {
            break;
        }
        let mut left: Vec<usize> = all.iter().copied().filter(|i| !left_behind.contains(i)).collect();
        if waits {
            let inside: Vec<usize> = left.iter().copied().filter(|i| places[*i] == Place::Inside).collect();
            if inside.is_empty() {
                let who = (0..n).find(|i| left_behind.contains(i) || places[*i] == Place::Spinning).unwrap();
                // A spinning one may have got what it waited for since.
                let spun = places[who] == Place::Spinning && !left_behind.contains(&who);
                let again = spun && {
                    let m = baton.step(who, Duration::from_secs(30));
                    m == Moved::Yielded && baton.places()[who] != Place::Spinning
                };
                if again {
                    if rng.is_some() {
                        t.schedule.push(who as u8);
                    }
                    step += 1;
                    last = who;
                    continue;
                }
                out.fail("blocked", format!("program {who} does not get on while every other program is finished, not begun or inside a sink call or callback (step {step})"));
                return;
            }
            left = inside;
        }
        let pick = match &mut rng {
            Some(r) => {
                let stay = left.contains(&last)
                    && places[last] != Place::Inside
                    && r.permille([0, 700, 950, 0][style as usize]);
                let id = if stay {
                    last
                } else if style == 3 && r.permille(800) {
                    left[step % left.len()]
                } else {
                    *r.pick(&left)
                };
                t.schedule.push(id as u8);
                id
            }
            None => match t.schedule.get(step) {
                Some(s) if left.contains(&(*s as usize)) => *s as usize,
                _ => left[0],
            },
        };
        if pick != last && last != usize::MAX && all.contains(&last) {
            out.switches += 1;
        }
        last = pick;
        step += 1;
        match baton.step(pick, Duration::from_secs(30)) {
            Moved::Yielded => {}
            Moved::Blocked => {
                left_behind.insert(pick);
            }
            Moved::Stuck => {
                out.fail("blocked", format!("program {pick} does not get on (step {step})"));
                return;
            }
        }
    }
    out.nontrivial |= out.switches > 0;
    *out.counts.entry("context switch between programs").or_default() += out.switches;
    for (i, h) in handles.into_iter().enumerate() {
        match h.join() {
            Ok(o) => {
                out.take(&o);
                let how = if elsewhere { "calls taking turns on shared threads" } else { "interleaved" };
                compare(out, how, i, &alone[i], &o)
            }
            Err(_) => out.fail("harness thread died", format!("program {i}")),
        }
    }
    *out.counts.entry("preemption inside crevice").or_default() += out.preempted;
    if elsewhere {
        let moves = t.progs.iter().map(|p| p.ops.windows(2).filter(|w| w[0].home != w[1].home).count() as u64).sum::<u64>();
        *out.counts.entry("writer moved to another thread").or_default() += moves;
    }
}

fn nested(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    let alone = solo(reg, t, gens, out);
    together();
    let n = t.progs.len();
    if let Some(g) = gens {
        // Place each other program inside a sink call or callback of an
        // earlier one.
        let mut r = Rng::derive(g[0].seed, "nesting", 0);
        for j in 1..n {
            if r.permille(100) {
                continue;
            }
            let outer = r.below(j as u64) as usize;
            let (sc, cc) = (alone[outer].sink_calls, alone[outer].cb_calls);
            let in_cb = cc > 0 && (sc == 0 || r.permille(400));
            if in_cb {
                let k = r.below(cc);
                if !t.progs[outer].callbacks.iter().any(|c| c.0 == k) {
                    t.progs[outer].callbacks.push((k, CbFault::Nested(j)));
                }
            } else if sc > 0 {
                let k = r.below(sc);
                if !t.progs[outer].faults.iter().any(|c| c.0 == k) {
                    t.progs[outer].faults.push((k, Fault::Nested(j)));
                }
            }
        }
    }
    let shared = shared_vals(reg, t);
    let state: Arc<Mutex<(BTreeMap<usize, ProgOut>, BTreeSet<usize>, u64)>> = Default::default();
    let progs = Arc::new(t.progs.clone());
    let prop = t.property.clone();
    let run_one = {
        let state = state.clone();
        let progs = progs.clone();
        move |j: usize| {
            if j >= progs.len() || !state.lock().unwrap().1.insert(j) {
                return;
            }
            let env = Env { reg, prop: &prop, shared: shared.clone() };
            let o = run_prog(&env, &progs[j], None);
            state.lock().unwrap().0.insert(j, o);
        }
    };
    let run_one = Arc::new(run_one);
    {
        let f = run_one.clone();
        let st = state.clone();
        CTX.with(|c| {
            c.borrow_mut().nested = Some(Arc::new(move |j| {
                let before = st.lock().unwrap().1.len();
                f(j);
                let mut s = st.lock().unwrap();
                if s.1.len() > before {
                    s.2 += 1;
                }
            }))
        });
    }
    for j in 0..n {
        run_one(j);
    }
    CTX.with(|c| c.borrow_mut().nested = None);
    let mut s = state.lock().unwrap();
    out.nested = s.2;
    out.nontrivial |= s.2 > 0;
    for (j, o) in std::mem::take(&mut s.0) {
        out.take(&o);
        compare(out, "nested", j, &alone[j], &o);
    }
}

/// Programs that begin, fail, panic and are dropped one after another on one
/// thread leave nothing behind that a later one would notice.
fn sequence(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    let alone = solo(reg, t, gens, out);
    together();
    let n = t.progs.len();
    if let Some(g) = gens {
        let mut r = Rng::derive(g[0].seed, "sequence", 0);
        let per_run: u64 = alone.iter().map(|o| o.sink_calls + 20).sum::<u64>() / n as u64;
        let limit = (15_000 / per_run).clamp(2, 3000) as usize;
        let len = match r.below(6) {
            0..=2 => r.range(2, 20),
            3 | 4 => r.range(20, 120),
            _ => r.range(120, 3000),
        };
        let favourite = r.below(n as u64) as u8;
        let bias = *r.pick(&[0, 500, 900]);
        t.schedule = (0..len.min(limit))
            .map(|_| if r.permille(bias) { favourite } else { r.below(n as u64) as u8 })
            .collect();
        // Everyone comes last once.
        t.schedule.extend(0..n as u8);
    }
    let order: Vec<usize> = match t.schedule.is_empty() {
        true => (0..n).collect(),
        false => t.schedule.iter().map(|s| *s as usize).filter(|s| *s < n).collect(),
    };
    let progs: Vec<Prog> = t.progs.iter().map(stripped).collect();
    let prop = t.property.clone();
    let shared = shared_vals(reg, t);
    let runs = order.clone();
    let all = std::thread::spawn(move || {
        let env = Env { reg, prop: &prop, shared };
        let mut all = Vec::new();
        for j in runs {
            all.push(run_prog(&env, &progs[j], None));
        }
        all
    })
    .join();
    let Ok(all) = all else {
        return out.fail("harness thread died", "sequence".into());
    };
    out.nontrivial |= order.len() > 1;
    *out.counts.entry("program after others on its thread").or_default() += order.len() as u64 - 1;
    for (k, (o, j)) in all.iter().zip(&order).enumerate() {
        out.take(o);
        compare(out, &format!("as number {} on its thread", k + 1), *j, &alone[*j], o);
        if out.violation.is_some() {
            return;
        }
    }
}

/// The images a pod run will use, as hexadecimal digits.
pub fn pod_images(reg: &Registry, t: &Trace) -> Vec<Vec<String>> {
    let (gaps, bools) = t.device.first().map(|s| (s.gaps, s.bools)).unwrap_or((0, 0));
    let hex = |b: Vec<u8>| b.iter().map(|b| format!("{b:02x}")).collect::<String>();
    let image = |l: Layout, op: &Op| reg.get(&op.ty).ty.as_ref().map(|ty| hex(dirty_image(ty, l, &op.vals[0], gaps, bools)));
    t.progs.iter().map(|p| p.ops.iter().filter_map(|o| image(p.layout, o)).collect()).collect()
}

/// Layout types as plain bytes, and small uploads; several programs run on
/// free threads. What this looks for is reported by the interpreter it runs
/// under, which also chooses how the threads take turns, and ends the process.
fn pod(reg: &'static Registry, t: &mut Trace, gens: Option<&[GenCfg]>, out: &mut RunOut) {
    let (gaps, bools) = t.device.first().map(|s| (s.gaps, s.bools)).unwrap_or((0, 0));
    let arg = t.arg;
    let shared = shared_vals(reg, t);
    let one_thread = t.progs.len() == 1;
    let mut handles = Vec::new();
    for (i, p) in t.progs.iter().enumerate() {
        let (p, shared, prop) = (p.clone(), shared.clone(), t.property.clone());
        let g = gens.map(|g| g[i].clone());
        let work = move || {
            let env = Env { reg, prop: &prop, shared };
            let mut d = Digest::new();
            let mut text = Vec::new();
            for op in &p.ops {
                let e = reg.get(&op.ty);
                let (Some(ty), Some(ops)) = (&e.ty, e.ops(p.layout)) else { continue };
                let image = match op.image.is_empty() {
                    true => dirty_image(ty, p.layout, &op.vals[0], gaps, bools),
                    false => op.image.clone(),
                };
                let built = build_vals(&env, op);
                d.add(image.len() as u64);
                stages(ops, &built, &image, arg, &mut d, &mut text);
                text.push(format!("{} in {} as plain bytes, image of {} bytes", op.ty, p.layout.name(), image.len()));
            }
            let o = (arg >> 6 & 1 == 1).then(|| run_prog(&env, &p, g.as_ref()));
            (d.0, text, o)
        };
        if one_thread {
            handles.push(Err(work()));
        } else {
            handles.push(Ok(std::thread::spawn(work)));
        }
    }
    for (i, h) in handles.into_iter().enumerate() {
        let (d, text, o) = match h {
            Ok(h) => h.join().expect("program's thread"),
            Err(x) => x,
        };
        if gens.is_some() {
            let (f, c) = o.as_ref().map(|o| (o.fired.clone(), o.cb_fired.clone())).unwrap_or_default();
            t.progs[i].faults = f;
            t.progs[i].callbacks = c;
        }
        out.digest = mix(out.digest ^ d);
        out.text.extend(text);
        if let Some(o) = o {
            out.take(&o);
        }
    }
    out.ops += t.progs.iter().map(|p| p.ops.len() as u64).sum::<u64>() * (arg & 0x3f).count_ones() as u64;
    out.nontrivial |= gaps != 0 || bools != 0 || !one_thread;
    out.violation = None;
    let mut count = |k: &'static str, n: bool| *out.counts.entry(k).or_default() += n as u64;
    count("device image with dirty gaps", gaps != 0);
    count("device image with odd words for true", bools != 0);
    count("free threads", !one_thread);
}

#[cfg(not(miri))]
fn stages(_: &crate::registry::Ops, _: &Built, _: &[u8], _: u64, _: &mut Digest, _: &mut Vec<String>) {}

#[cfg(miri)]
fn stages(ops: &crate::registry::Ops, built: &Built, image: &[u8], arg: u64, d: &mut Digest, text: &mut Vec<String>) {
    let Some(f) = ops.pod else { return };
    for what in (0..6).filter(|w| arg >> w & 1 == 1) {
        match guarded(|| f(built, image, what)) {
            Ok(x) => d.add(x),
            Err(g) => {
                d.str(&g.text());
                text.push(g.text());
            }
        }
    }
}
