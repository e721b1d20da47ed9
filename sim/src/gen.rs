//! Seeded generation of traces, one recipe per property.

use crate::dev::Profile;
use crate::engine::GenCfg;
use crate::model::{Layout, Scalar, Stream, Ty};
use crate::modes::clamp;
use crate::registry::{Registry, Shape, TypeEntry};
use crate::rng::{mix, Rng};
use crate::trace::*;

pub fn component(r: &mut Rng, s: Scalar) -> u64 {
    let v = match s {
        Scalar::Bool => r.below(2),
        Scalar::F32 => match r.below(12) {
            0 => 0,
            1 => 0x8000_0000,
            2 => 0x3f80_0000,
            3 => 0x7f80_0000,
            4 => 0xff80_0000,
            5 => 0x7fc0_0000,
            6 => 0x7fa0_0000 | r.below(0x1fffff),
            7 => 0xffff_ffff,
            8 => r.below(0x7fffff),
            9 => ((r.below(2000) as f32 - 1000.0) / 8.0).to_bits() as u64,
            _ => r.next(),
        },
        Scalar::F64 => match r.below(12) {
            0 => 0,
            1 => 1 << 63,
            2 => 1.0f64.to_bits(),
            3 => f64::INFINITY.to_bits(),
            4 => f64::NAN.to_bits(),
            5 => 0x7ff4_0000_0000_0000 | r.below(1 << 50),
            6 => u64::MAX,
            7 => r.below(1 << 52),
            8 => ((r.below(2000) as f64 - 1000.0) / 8.0).to_bits(),
            9 => r.next() & 0xffff_ffff,
            _ => r.next(),
        },
        _ => match r.below(8) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 0x8000_0000,
            4 => 0x7fff_ffff,
            5 => r.below(256),
            _ => r.next(),
        },
    };
    clamp(s, v)
}

/// The values programs are full of: all zero, all one, identity matrices.
fn plain(ty: &Ty, how: u64, out: &mut Vec<u64>) {
    match ty {
        Ty::Struct(d) => d.fields.iter().for_each(|f| plain(&f.1, how, out)),
        Ty::Dyn(t) => plain(t, how, out),
        _ => {
            let mut k = Vec::new();
            ty.leaf_kinds(&mut k);
            let n = match ty {
                Ty::Mat(_, n) => *n,
                _ => usize::MAX - 1,
            };
            out.extend(k.iter().enumerate().map(|(i, s)| {
                let one = match s {
                    Scalar::F32 => 1.0f32.to_bits() as u64,
                    Scalar::F64 => 1.0f64.to_bits(),
                    _ => 1,
                };
                match how {
                    0 => 0,
                    1 => one,
                    // Vectors become (1, 0, ...).
                    _ if i % (n + 1) == 0 => one,
                    _ => 0,
                }
            }))
        }
    }
}

fn leaves(r: &mut Rng, ty: &Ty, out: &mut Vec<u64>) {
    if r.permille(120) {
        return plain(ty, r.below(4), out);
    }
    let mut k = Vec::new();
    ty.leaf_kinds(&mut k);
    // Some values are all alike, some all different.
    match r.below(10) {
        0 => {
            let x = r.next();
            out.extend(k.iter().map(|s| clamp(*s, x)));
        }
        1 => out.extend(k.iter().enumerate().map(|(i, s)| match s {
            Scalar::Bool => (i % 2) as u64,
            s => clamp(*s, 0x0101_0101_0101_0101u64.wrapping_mul(i as u64 + 1)),
        })),
        _ => out.extend(k.iter().map(|s| component(r, *s))),
    }
}

pub fn value(r: &mut Rng, shape: &Shape) -> Vec<u64> {
    let mut v = Vec::new();
    match shape {
        Shape::Fixed(t) => leaves(r, t, &mut v),
        Shape::Batch(a, b) => {
            leaves(r, a, &mut v);
            for _ in 0..r.below(6) {
                leaves(r, b, &mut v);
            }
        }
        Shape::Tail(b) => {
            for _ in 0..1 + r.below(5) {
                leaves(r, b, &mut v);
            }
        }
    }
    v
}

struct Cx<'a> {
    r: Rng,
    reg: &'a Registry,
    layout: Layout,
    palette: Vec<usize>,
    /// per mille of multi-value calls
    multi: u32,
    long: bool,
}

impl<'a> Cx<'a> {
    fn entry(&mut self) -> &'a TypeEntry {
        let i = *self.r.pick(&self.palette);
        &self.reg.entries[i]
    }

    fn op(&mut self) -> Op {
        let e = self.entry();
        self.op_of(e)
    }

    fn op_of(&mut self, e: &TypeEntry) -> Op {
        let r = &mut self.r;
        let multi = r.permille(self.multi);
        let call = if multi {
            match r.below(if self.layout == Layout::Std140 { 4 } else { 3 }) {
                0 => Call::Slice,
                1 => Call::Iter,
                2 => Call::TraitSlice,
                _ => Call::SliceOld,
            }
        } else {
            *r.pick(&[Call::Write, Call::Write, Call::Trait, Call::Output])
        };
        let n = if !multi {
            1
        } else {
            match r.below(20) {
                0..=2 => 0,
                3..=6 => 1,
                7..=16 => r.range(2, 6),
                17 | 18 => r.range(7, 40),
                _ if self.long && small(e) => match r.below(12) {
                    0 => r.range(65_530, 65_600),
                    _ => r.range(300, 6000),
                },
                _ => r.range(2, 12),
            }
        };
        let vals = (0..n).map(|_| value(r, &e.gen_shape)).collect();
        let late = match call == Call::Iter && r.permille(300) {
            true => (0..r.range(1, 3)).map(|_| value(r, &e.gen_shape)).collect(),
            false => vec![],
        };
        Op {
            call,
            ty: e.name.clone(),
            vals,
            late,
            shared: None,
            preempt: vec![], home: 0, image: vec![],
        }
    }
}

fn small(e: &TypeEntry) -> bool {
    matches!(&e.gen_shape, Shape::Fixed(t) if t.leaf_count() <= 4)
}

fn weight(r: &mut Rng, on: u32, choices: &[u32]) -> u32 {
    if r.permille(on) {
        *r.pick(choices)
    } else {
        0
    }
}

/// Disturbances that must not be visible to the caller.
fn mild(r: &mut Rng, p: &mut Profile) {
    p.short = weight(r, 650, &[20, 100, 300, 700]);
    p.eintr = weight(r, 600, &[20, 100, 300]);
    p.stall = weight(r, 200, &[20, 100]);
    p.burst = weight(r, 400, &[100, 400]);
    p.eintr_run = *r.pick(&[1, 1, 3, 3, 24, 24, 24, 150]);
}

fn harsh(r: &mut Rng, p: &mut Profile, panics: bool, power: bool) {
    let rates = [5u32, 20, 60, 150];
    p.err = weight(r, 600, &rates);
    p.zero = weight(r, 400, &rates);
    if panics {
        p.panic = weight(r, 300, &rates);
    }
    if power {
        p.power = weight(r, 600, &rates);
    }
    p.max_fatal = *r.pick(&[1, 1, 2, 3, 6]);
    p.outage = *r.pick(&[0, 3, 40]);
}

fn dev_cfg(r: &mut Rng) -> DevCfg {
    DevCfg {
        garbage: match r.below(4) {
            0 => 0,
            1 => 1,
            _ => r.next() >> 8 | 2,
        },
        cap: None,
        full_as_zero: r.permille(500),
        max_accept: if r.permille(220) {
            Some(*r.pick(&[1, 1, 2, 3, 4, 5, 7, 12, 16, 17, 64, 256]))
        } else {
            None
        },
        vectored: r.permille(500),
        flush: *r.pick(&[0, 0, 1, 2]),
    }
}

fn model_lens(reg: &Registry, layout: Layout, ops: &[Op]) -> Vec<usize> {
    let mut s = Stream::default();
    let mut out = Vec::new();
    for op in ops {
        if op.call.is_write() {
            let node = crate::engine::op_nodes(reg.get(&op.ty), op);
            s.append(layout, &node, &mut Vec::new());
        }
        out.push(s.len());
    }
    out
}

/// A multiple of the alignments of everything in there.
pub fn segment_unit(reg: &Registry, l: Layout, ops: &[Op]) -> usize {
    let aligns = ops.iter().filter_map(|o| reg.get(&o.ty).ty.as_ref()).map(|t| t.align(l));
    aligns.max().unwrap_or(1).max(256)
}

/// Indices of types usable in a layout, filtered.
fn usable(reg: &Registry, l: Layout, f: &dyn Fn(&TypeEntry) -> bool) -> Vec<usize> {
    (0..reg.entries.len())
        .filter(|i| reg.entries[*i].ops(l).is_some() && f(&reg.entries[*i]))
        .collect()
}

fn n_ops(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=2 => r.range(1, 3),
        3..=7 => r.range(3, 9),
        8 => r.range(9, 20),
        _ => r.range(20, 36),
    }
}

/// C14: one small program on few values of one or two types, or several such
/// programs on threads of their own.
fn make_pod(mut r: Rng, seed: u64, run: u64, schema_seed: u64, reg: &Registry) -> (Trace, Vec<GenCfg>) {
    let derived = |e: &TypeEntry| !e.source.is_empty();
    let n = if r.permille(250) { r.range(2, 3) } else { 1 };
    let upload = r.permille(if n > 1 { 700 } else { 400 });
    let mut progs = Vec::new();
    let mut gens = Vec::new();
    let mut first: Option<Op> = None;
    for i in 0..n {
        let layout = if run % 2 == 0 || i > 0 && r.permille(500) { Layout::Std140 } else { Layout::Std430 };
        let most = if n == 1 && r.permille(50) { 400 } else { 56 };
        let small = |e: &TypeEntry| e.ty.as_ref().is_some_and(|t| t.leaf_count() <= most);
        let all = usable(reg, layout, &small);
        let structs = usable(reg, layout, &|e| small(e) && derived(e));
        let half = run / 2;
        let (pool, turn) = match half % 3 {
            0 if !structs.is_empty() => (&structs, half / 3),
            k => (&all, half / 3 * 2 + k % 2),
        };
        let mut ops = Vec::new();
        for k in 0..r.range(1, 2) {
            let e = match &first {
                // The programs share what the first one writes.
                Some(f) if k == 0 && reg.get(&f.ty).ops(layout).is_some() && r.permille(600) => reg.get(&f.ty),
                _ => &reg.entries[if i == 0 && k == 0 { pool[turn as usize % pool.len()] } else { *r.pick(&all) }],
            };
            let m = if most > 56 { 1 } else { *r.pick(&[1, 1, 2]) };
            let mut op = Op {
                call: if m == 1 { *r.pick(&[Call::Write, Call::Trait, Call::Output]) } else { *r.pick(&[Call::Slice, Call::Iter]) },
                ty: e.name.clone(),
                vals: (0..m).map(|_| value(&mut r, &e.gen_shape)).collect(),
                late: vec![],
                shared: None,
                preempt: vec![],
                home: 0,
                image: vec![],
            };
            match &first {
                Some(f) if f.ty == op.ty => {
                    op.vals = f.vals.clone();
                    op.call = f.call;
                    op.shared = Some(0);
                }
                None if n > 1 => {
                    op.shared = Some(0);
                    first = Some(op.clone());
                }
                _ => {}
            }
            ops.push(op);
        }
        let mut p = Profile::default();
        mild(&mut r, &mut p);
        if r.permille(300) {
            harsh(&mut r, &mut p, true, false);
        }
        p.eintr_run = p.eintr_run.min(3);
        let mut dev = dev_cfg(&mut r);
        // Every step costs much under the interpreter.
        dev.max_accept = dev.max_accept.map(|m| m.max(12));
        let cb_panic = if r.permille(200) { 200 } else { 0 };
        gens.push(GenCfg { seed: r.next(), profile: p, cb_panic });
        progs.push(Prog {
            layout,
            ops,
            segments: vec![],
            prelude: 0,
            recovery: Recovery::Resume,
            dev,
            faults: vec![],
            callbacks: vec![],
        });
    }
    let device = vec![DevStep {
        set: vec![],
        gaps: if r.permille(800) { r.next() } else { 0 },
        bools: if r.permille(800) { r.next() } else { 0 },
    }];
    let t = Trace {
        property: "C14".into(),
        seed,
        run,
        schema_seed,
        mode: Mode::Pod,
        progs,
        schedule: vec![],
        device,
        arg: 0x3f | (upload as u64) << 6,
    };
    (t, gens)
}

pub fn make(prop: &str, seed: u64, run: u64, schema_seed: u64, reg: &Registry) -> (Trace, Vec<GenCfg>) {
    let mut r = Rng::derive(mix(seed ^ schema_seed.rotate_left(32)), prop, run);
    if prop == "C14" {
        return make_pod(r, seed, run, schema_seed, reg);
    }
    let want = |e: &TypeEntry| match prop {
        "C06" => e.glsl.is_some(),
        "C07" => e.ty.is_some(),
        "C10" => e.glsl.is_some(),
        _ => true,
    };
    let n_progs = match prop {
        "C08" => r.range(2, 4),
        // Two shaders.
        "C06" => 1 + r.permille(250) as usize,
        _ => 1,
    };
    let mut progs = Vec::new();
    let mut gens = Vec::new();
    let mut arg = 0;
    // The palette is drawn once, so that neighbours use the same types.
    let first_layout = if run % 2 == 0 { Layout::Std140 } else { Layout::Std430 };
    let n_palette = r.range(1, 6);
    let draws: Vec<u64> = (0..n_palette).map(|_| r.next()).collect();
    for pi in 0..n_progs {
        let layout = if pi == 0 {
            first_layout
        } else if r.permille(700) {
            first_layout
        } else {
            *r.pick(&[Layout::Std140, Layout::Std430])
        };
        let all = usable(reg, layout, &want);
        let forced = all[(run / 2) as usize % all.len()];
        let mut palette: Vec<usize> = draws.iter().map(|d| all[(*d % all.len() as u64) as usize]).collect();
        palette.push(forced);
        let mut cx = Cx {
            r: r.clone(),
            reg,
            layout,
            palette,
            multi: *r.pick(&[0, 200, 450, 800]),
            long: run % 61 == 7 && prop != "C08",
        };
        r.next();
        cx.r = Rng::new(r.next());
        if prop == "C06" {
            cx.multi = 0;
        }
        let mut n = n_ops(&mut cx.r);
        if prop == "C08" {
            n = cx.r.range(1, 6);
        }
        let history = run % 211 == 17 && matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C09" | "C11");
        if history {
            // One writer in use for long.
            n = cx.r.range(300, 900);
            cx.multi = cx.multi.min(200);
            let few: Vec<usize> = cx.palette.iter().copied().filter(|i| small(&reg.entries[*i])).collect();
            if !few.is_empty() {
                cx.palette = few;
            }
        }
        let mut ops: Vec<Op> = Vec::new();
        if prop == "C10" {
            for _ in 0..cx.r.range(1, 3) {
                if cx.r.permille(500) {
                    cx.multi = 0;
                    ops.push(cx.op());
                }
                cx.multi = 1000;
                let f = &reg.entries[if ops.len() < 2 { forced } else { *cx.r.pick(&cx.palette.clone()) }];
                ops.push(cx.op_of(f));
                cx.multi = *cx.r.pick(&[0, 0, 300]);
                ops.push(cx.op());
            }
        } else {
            for _ in 0..n {
                let again = ops.last().filter(|_| cx.r.permille(50)).cloned();
                // Sometimes the same thing twice.
                let op = again.unwrap_or_else(|| cx.op());
                ops.push(op);
            }
            if !ops.iter().any(|o| o.ty == reg.entries[forced].name) {
                let at = cx.r.below(ops.len() as u64 + 1) as usize;
                let op = cx.op_of(&reg.entries[forced]);
                ops.insert(at, op);
            }
        }
        if prop == "C06" {
            // One shader has room for one structure of a name.
            let same = |o: &Op| o.ty.starts_with("Twin#");
            let keep = ops.iter().find(|o| same(o)).map(|o| o.ty.clone());
            ops.retain(|o| !same(o) || Some(&o.ty) == keep.as_ref());
        }
        let rr = &mut cx.r;
        let mut dev = dev_cfg(rr);
        let mut p = Profile::default();
        let mut cb_panic = 0;
        let mut recovery = Recovery::Stop;
        let mut segments = Vec::new();
        let mut prelude = 0u64;
        let mut endless = false;
        let calm = rr.permille(80);
        if !calm {
            mild(rr, &mut p);
        } else {
            dev.max_accept = None;
        }
        match prop {
            "C01" | "C02" => {
                if rr.permille(60) {
                    harsh(rr, &mut p, false, false);
                }
            }
            "C03" => {
                harsh(rr, &mut p, true, false);
                cb_panic = weight(rr, 350, &[5, 30, 120]);
                recovery = if rr.permille(650) { Recovery::Resume } else { Recovery::Stop };
                if rr.permille(150) {
                    let total = model_lens(reg, layout, &ops).last().copied().unwrap_or(0);
                    dev.cap = Some(rr.below(total as u64 + 1) as usize);
                    recovery = Recovery::Stop;
                }
            }
            "C04" | "C09" | "C06" => {
                if prop != "C06" && rr.permille(400) {
                    recovery = Recovery::Restart;
                    harsh(rr, &mut p, true, true);
                } else {
                    recovery = Recovery::Resume;
                    harsh(rr, &mut p, prop == "C04", false);
                    if prop == "C04" {
                        cb_panic = weight(rr, 200, &[5, 30]);
                    }
                }
                p.max_fatal = *rr.pick(&[1, 2, 4, 12]);
                if prop == "C09" && dev.garbage == 0 {
                    dev.garbage = 1;
                }
            }
            "C05" => {
                let total = model_lens(reg, layout, &ops).last().copied().unwrap_or(0);
                arg = match rr.below(10) {
                    0..=3 => 0,
                    4 | 5 => 1,
                    6 => rr.below(17),
                    _ => rr.below(total as u64 + 1),
                };
            }
            "C08" => {
                if rr.permille(500) {
                    harsh(rr, &mut p, true, false);
                    cb_panic = weight(rr, 300, &[10, 60]);
                    recovery = *rr.pick(&[Recovery::Stop, Recovery::Resume]);
                }
                for op in ops.iter_mut() {
                    if !op.vals.is_empty() && reg.get(&op.ty).ty.is_some() && rr.permille(200) {
                        op.call = if rr.permille(500) { Call::Size } else { Call::Decode };
                    } else if !op.vals.is_empty()
                        && reg.get(&op.ty).glsl.as_ref().is_some_and(|g| g.definition.is_some())
                        && rr.permille(250)
                    {
                        op.call = Call::Describe;
                    }
                }
            }
            "C11" => {
                p.eintr = weight(rr, 850, &[100, 500, 900]);
                p.eintr_run = *rr.pick(&[3, 24, 200, 1500]);
                p.short = weight(rr, 500, &[300, 900]);
                harsh(rr, &mut p, true, false);
                p.outage = *rr.pick(&[0, 40, 1_000_000_000]);
                cb_panic = weight(rr, 200, &[5, 30]);
                recovery = if p.outage > 100 || rr.permille(500) { Recovery::Stop } else { Recovery::Resume };
                let last = rr.below(ops.len() as u64) as usize;
                if rr.permille(80) && !ops[last].vals.is_empty() {
                    // An iterator without an end, and a sink that has one.
                    let mut op = ops[last].clone();
                    op.call = Call::Endless;
                    op.vals.truncate(6);
                    op.late.clear();
                    ops.truncate(12);
                    ops.push(op);
                    let lens = model_lens(reg, layout, &ops);
                    let n = lens.len();
                    if lens[n - 1] > lens[n - 2] {
                        dev.cap = Some(lens[n - 2] + rr.below((lens[n - 1] - lens[n - 2]) as u64) as usize);
                        recovery = Recovery::Stop;
                        prelude = 0;
                        endless = true;
                    } else {
                        ops.pop();
                    }
                }
            }
            _ => {}
        }
        if history && recovery == Recovery::Restart {
            recovery = Recovery::Resume;
        }
        // Positions beyond 4 GiB (and beyond 2 GiB), now and then.
        let far = match prop {
            "C02" | "C05" => 1250,
            "C01" | "C03" | "C04" => 3000,
            _ => u64::MAX,
        };
        if run / 2 % far == far - 1 && !endless && recovery != Recovery::Restart {
            let gib = 1u64 << 30;
            let edge = *rr.pick(&[2 * gib, 4 * gib, 4 * gib, 4 * gib, 4 * gib + 256]);
            prelude = edge - 256 * rr.below(5);
            dev.max_accept = None;
            dev.cap = None;
        }
        let plain = matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C09" | "C11");
        if prelude == 0 && !endless && plain && recovery != Recovery::Restart && rr.permille(25) {
            // Positions around smaller powers of two.
            let edge = 1u64 << rr.range(12, 25);
            prelude = edge - 256 * rr.below(5);
            dev.max_accept = None;
            dev.cap = None;
        }
        if recovery == Recovery::Restart {
            // Segments start where every alignment is met.
            let mut out: Vec<Op> = Vec::new();
            let every = rr.range(1, 6);
            let unit = segment_unit(reg, layout, &ops);
            let mut count = 0;
            for op in ops {
                if count == every {
                    let len = model_lens(reg, layout, &out).last().copied().unwrap_or(0);
                    let len = crate::model::round_up(len, 4);
                    let k = (unit - len % unit) % unit / 4;
                    if k > 0 {
                        out.push(Op {
                            call: Call::Slice,
                            ty: "u32".into(),
                            vals: (0..k).map(|_| vec![rr.below(1 << 32)]).collect(),
                            late: vec![],
                            shared: None,
                            preempt: vec![], home: 0, image: vec![],
                        });
                    }
                    segments.push(out.len());
                    count = 0;
                }
                out.push(op);
                count += 1;
            }
            ops = out;
        }
        progs.push(Prog {
            layout,
            ops,
            segments,
            prelude,
            recovery,
            dev,
            faults: vec![],
            callbacks: vec![],
        });
        gens.push(GenCfg {
            seed: mix(seed ^ mix(run) ^ (pi as u64) << 56),
            profile: p,
            cb_panic,
        });
    }
    let mut device = Vec::new();
    if prop == "C07" {
        for _ in 0..r.range(1, 3) {
            let set = (0..r.below(12)).map(|_| (r.below(100_000) as usize, special(&mut r))).collect();
            device.push(DevStep {
                set,
                gaps: if r.permille(850) { r.next() >> 12 | 1 } else { 0 },
                bools: if r.permille(700) { r.next() >> 12 | 1 } else { 0 },
            });
        }
    }
    if prop == "C08" {
        // Values shared between programs.
        for k in 0..r.below(3) as usize {
            let a = r.below(n_progs as u64) as usize;
            let i = r.below(progs[a].ops.len() as u64) as usize;
            let mut op = progs[a].ops[i].clone();
            if op.vals.is_empty() || op.shared.is_some() {
                continue;
            }
            op.shared = Some(k);
            progs[a].ops[i].shared = Some(k);
            for (b, p) in progs.iter_mut().enumerate() {
                if b != a && reg.get(&op.ty).ops(p.layout).is_some() && r.permille(700) {
                    let at = r.below(p.ops.len() as u64 + 1) as usize;
                    let mut o = op.clone();
                    if p.layout == Layout::Std430 && o.call == Call::SliceOld {
                        o.call = Call::Slice;
                    }
                    p.ops.insert(at, o);
                }
            }
        }
    }
    let mode = match prop {
        "C05" => Mode::Sized,
        "C06" => Mode::Device,
        "C07" => Mode::Readback,
        "C08" if r.permille(330) => Mode::Nested,
        "C08" if r.permille(150) => Mode::Sequence,
        "C08" if r.permille(220) => Mode::Alternate,
        "C08" => Mode::Threads,
        "C10" => Mode::Arrays,
        _ => Mode::Upload,
    };
    (
        Trace {
            property: prop.to_string(),
            seed,
            run,
            schema_seed,
            mode,
            progs,
            schedule: vec![],
            device,
            arg,
        },
        gens,
    )
}

fn special(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0x7fa0_0001_7fa0_0001,
        1 => 0xfff8_0000_ffc0_0000,
        2 => u64::MAX,
        3 => 0,
        _ => r.next(),
    }
}
