//! Deterministic simulation of crevice. See ../DESIGN.md.

use crevice_edges as edges;

mod dev;
mod engine;
mod gen;
mod glsl;
mod hooks;
mod model;
mod modes;
mod registry;
mod rng;
mod sched;
mod shrink;
mod simty;
mod trace;

#[allow(unused_imports, private_interfaces, dead_code)]
mod corpus {
    use crate::model::Ty;
    use crate::registry::*;
    use crate::simty::{Reader, SimTy};
    use crevice::std140::DynamicUniform;
    include!(concat!(env!("OUT_DIR"), "/corpus.rs"));
}

use modes::{run_trace, Known, RunOut};
use registry::Registry;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use trace::Trace;

struct Args(BTreeMap<String, String>, Vec<String>);

impl Args {
    fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut rest = Vec::new();
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                rest.push(a);
            }
        }
        Args(m, rest)
    }
    fn s(&self, k: &str) -> String {
        self.0.get(k).cloned().unwrap_or_default()
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn registry() -> &'static Registry {
    Box::leak(Box::new(Registry::load(None)))
}

fn known(path: &str, prop: &str) -> Known {
    let mut out = Known::new();
    let Ok(s) = std::fs::read_to_string(path) else {
        return out;
    };
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let mut w = rest.split_whitespace();
        if w.next() != Some(&format!("property={prop}")) {
            continue;
        }
        if let Some(k) = w.next().and_then(|k| k.strip_prefix("key=")) {
            out.insert(k.to_string());
        }
    }
    out
}

pub fn run() {
    hooks::install_panic_hook();
    edges::set_hook(hooks::inside);
    *hooks::ENDLESS.lock().unwrap() = Some(endless);
    let a = Args::parse();
    let code = match a.1.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a),
        Some("eval") => eval(&a),
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("digests") => digests(&a),
        Some("types") => types(),
        Some("emit") => emit(&a),
        Some("follow") => follow(&a),
        _ => {
            eprintln!("usage: crevice-sim check|replay|worker|eval|digests|types ...");
            2
        }
    };
    std::process::exit(code);
}

/// What this process is running, for when it does not end.
static CURRENT: Mutex<Option<(Option<u64>, Trace)>> = Mutex::new(None);
const ENDLESS_CODE: i32 = 9;

/// The operation on this thread has passed more points of code than any
/// operation can need. Says so and ends the process.
fn endless() -> ! {
    let (dev, cb) = hooks::CTX.with(|c| {
        let mut c = c.borrow_mut();
        (c.dev.clone(), c.cb.take())
    });
    let cur = CURRENT.lock().unwrap().take();
    if let Some((run, mut t)) = cur.filter(|c| c.1.property == "C11" && c.1.progs.len() == 1) {
        if let (Some(_), Some(d)) = (run, dev) {
            t.progs[0].faults = d.try_lock().map(|d| d.fired.clone()).unwrap_or_default();
            t.progs[0].callbacks = cb.map(|c| c.fired).unwrap_or_default();
        }
        let msg = format!("a call passes {} points of code without returning", hooks::OP_POINTS);
        println!(
            "{}",
            json!({"event": "violation", "run": run, "trace": t, "class": "endless", "msg": msg, "digest": "endless", "op_calls": [], "text": []})
        );
        std::process::exit(if run.is_some() { 1 } else { 0 });
    }
    std::process::exit(ENDLESS_CODE);
}

fn types() -> i32 {
    let r = registry();
    for e in &r.entries {
        println!("{:12} {}", e.lib, e.name);
        if !e.source.is_empty() {
            println!("{}", e.source);
        }
    }
    println!("{} types", r.entries.len());
    0
}

fn out_json(o: &RunOut) -> Value {
    json!({
        "class": o.violation.as_ref().map(|v| v.class.clone()),
        "msg": o.violation.as_ref().map(|v| v.msg.clone()),
        "digest": format!("{:016x}", o.digest),
        "suspect": o.suspect,
        "derailed": o.derailed,
        "op_calls": o.op_calls,
        "known": o.known,
    })
}

/// Runs a block of runs; one line per event on stdout.
fn worker(a: &Args) -> i32 {
    let reg = registry();
    let prop = a.s("prop");
    let seed = a.n("seed", 1);
    let known = known(&a.s("known"), &prop);
    let (from, to) = (a.n("from", 0), a.n("to", 0));
    let out = std::io::stdout();
    modes::PROGRESS.store(prop == "C08", std::sync::atomic::Ordering::Relaxed);
    let mut total = RunOut::default();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut derailed = 0u64;
    let mut modes_n: BTreeMap<String, u64> = BTreeMap::new();
    let mut types: BTreeSet<(u8, String)> = BTreeSet::new();
    let mut shapes: BTreeSet<u64> = BTreeSet::new();
    let mut sample: Option<Value> = None;
    let mut bad = 0;
    let mut derail_msg = String::new();
    for n in from..to {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "R {n}");
            let _ = o.flush();
        }
        let (mut t, g) = gen::make(&prop, seed, n, corpus::SCHEMA_SEED, reg);
        if prop == "C11" {
            *CURRENT.lock().unwrap() = Some((Some(n), t.clone()));
        }
        let o = run_trace(reg, &mut t, Some(&g), &known);
        runs += 1;
        for p in &t.progs {
            *total.counts.entry("stream beyond 2 GiB").or_default() += (p.prelude > 1 << 30) as u64;
            *total.counts.entry("stream begins far from zero").or_default() += (p.prelude > 0) as u64;
            *total.counts.entry("history of 300 and more calls").or_default() += (p.ops.len() >= 300) as u64;
            for op in &p.ops {
                types.insert((p.layout as u8, op.ty.clone()));
                let mut d = rng::Digest::new();
                d.add(p.layout as u64);
                d.add(op.call as u64);
                d.str(&op.ty);
                shapes.insert(d.0);
            }
        }
        *modes_n.entry(format!("{:?}", t.mode)).or_default() += 1;
        for (k, c) in &o.counts {
            *total.counts.entry(k).or_default() += c;
        }
        total.ticks += o.ticks;
        total.sink_calls += o.sink_calls;
        total.bytes += o.bytes;
        total.ops += o.ops;
        total.failures += o.failures;
        total.switches += o.switches;
        total.points += o.points;
        total.nested += o.nested;
        total.known.extend(o.known.iter().cloned());
        if o.nontrivial {
            nontrivial += 1;
            sigs.insert(o.sig);
            let small = t.progs.iter().map(|p| p.ops.len()).sum::<usize>() <= 4;
            if sample.is_none() && small {
                sample = Some(json!({"run": n, "trace": brief(&t), "what_happened": o.text.iter().take(8).collect::<Vec<_>>()}));
            }
        }
        if let Some(m) = &o.derailed {
            if o.failures == 0 || derail_msg.is_empty() {
                derail_msg = m.clone();
            }
            derailed += 1;
        }
        let mut d = rng::Digest(total.digest);
        d.add(o.digest);
        total.digest = d.0;
        if o.violation.is_none() && o.suspect {
            println!("{}", json!({"event": "suspect", "run": n, "trace": t, "why": o.derailed}));
        }
        if let Some(v) = &o.violation {
            println!(
                "{}",
                json!({"event": "violation", "run": n, "trace": t, "class": v.class, "msg": v.msg, "digest": format!("{:016x}", o.digest), "text": o.text})
            );
            bad = 1;
            break;
        }
    }
    println!(
        "{}",
        json!({
            "event": "summary", "from": from, "runs": runs, "nontrivial": nontrivial, "derailed": derailed, "derail_msg": derail_msg,
            "counts": total.counts, "ticks": total.ticks, "sink_calls": total.sink_calls, "bytes": total.bytes,
            "ops": total.ops, "failures": total.failures, "switches": total.switches, "points": total.points, "nested": total.nested,
            "known": total.known, "digest": format!("{:016x}", total.digest), "modes": modes_n,
            "types": types, "shapes": shapes.iter().map(|s| format!("{s:x}")).collect::<Vec<_>>(),
            "sigs": sigs.iter().map(|s| format!("{s:x}")).collect::<Vec<_>>(), "sample": sample,
        })
    );
    let _ = std::io::stdout().flush();
    bad
}

/// A trace with long value lists cut, for evidence.
fn brief(t: &Trace) -> Value {
    let mut v = serde_json::to_value(t).unwrap();
    fn cut(v: &mut Value) {
        match v {
            Value::Array(a) => {
                let n = a.len();
                if n > 8 {
                    a.truncate(8);
                    a.push(json!(format!("... {} more", n - 8)));
                }
                a.iter_mut().for_each(cut);
            }
            Value::Object(o) => o.values_mut().for_each(cut),
            _ => {}
        }
    }
    cut(&mut v);
    v
}

/// Evaluates one trace file in this process.
fn eval(a: &Args) -> i32 {
    let reg = registry();
    let s = std::fs::read_to_string(&a.1[1]).expect("trace file");
    let mut t: Trace = serde_json::from_str(&s).expect("trace");
    for p in &t.progs {
        for o in &p.ops {
            if !reg.by_name.contains_key(&o.ty) {
                println!("{}", json!({"class": null, "msg": format!("unknown type {}", o.ty), "digest": "", "op_calls": []}));
                return 0;
            }
        }
    }
    let known = known(&a.s("known"), &t.property);
    *CURRENT.lock().unwrap() = Some((None, t.clone()));
    let o = run_trace(reg, &mut t, None, &known);
    println!("{}", out_json(&o));
    if a.s("verbose") == "1" {
        for l in &o.text {
            eprintln!("  {l}");
        }
    }
    0
}

/// Prints the recorded trace of every run of a block.
fn emit(a: &Args) -> i32 {
    let reg = registry();
    let prop = a.s("prop");
    let out = std::io::stdout();
    for n in a.n("from", 0)..a.n("to", 0) {
        let (mut t, g) = gen::make(&prop, a.n("seed", 1), n, corpus::SCHEMA_SEED, reg);
        let mut o = run_trace(reg, &mut t, Some(&g), &Known::new());
        if o.sink_calls > 40 {
            // Too slow where this is going to be followed.
            t.arg &= 0x3f;
            t.progs.iter_mut().for_each(|p| p.faults.clear());
            o = run_trace(reg, &mut t, None, &Known::new());
        }
        let mut f: BTreeMap<&str, u64> = o.counts.clone();
        f.retain(|_, n| *n > 0);
        let mut out = out.lock();
        let _ = writeln!(
            out,
            "{}",
            json!({"run": n, "trace": t, "images": modes::pod_images(reg, &t), "sig": format!("{:x}", o.sig), "nontrivial": o.nontrivial, "counts": f,
                "ticks": o.ticks, "sink_calls": o.sink_calls, "bytes": o.bytes, "failures": o.failures})
        );
    }
    0
}

/// Follows the traces of a file, one a line.
fn follow(a: &Args) -> i32 {
    let s = std::fs::read_to_string(&a.1[1]).expect("trace file");
    let traces: Vec<Trace> = s.lines().map(|l| serde_json::from_str(l).expect("trace")).collect();
    let mut names: Vec<String> = traces.iter().flat_map(|t| &t.progs).flat_map(|p| &p.ops).map(|o| o.ty.clone()).collect();
    names.sort();
    names.dedup();
    let reg: &'static Registry = Box::leak(Box::new(Registry::load(Some(names))));
    // Values and images may come apart from the rest, as they are in memory:
    // this is much faster.
    let blob = std::fs::read(format!("{}.bin", a.1[1])).ok();
    let mut rest: &[u8] = blob.as_deref().unwrap_or(&[]);
    for mut t in traces {
        if blob.is_some() {
            for p in &mut t.progs {
                for o in &mut p.ops {
                    let ty = reg.get(&o.ty).ty.as_ref().expect("a type of fixed size");
                    for v in &mut o.vals {
                        let (head, tail) = rest.split_at(ty.leaf_count() * 8);
                        *v = head.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                        rest = tail;
                    }
                    let (head, tail) = rest.split_at(ty.size(p.layout));
                    o.image = head.to_vec();
                    rest = tail;
                }
            }
        }
        println!("R {}", t.run);
        let o = run_trace(reg, &mut t, None, &Known::new());
        println!("D {} {:016x} {} {}", t.run, o.digest, o.ops, o.points);
        if let Some(m) = &o.derailed {
            println!("N {} {m}", t.run);
        }
    }
    0
}

/// Prints the digest of every run: the determinism test compares these.
fn digests(a: &Args) -> i32 {
    let reg = registry();
    let prop = a.s("prop");
    let known = known(&a.s("known"), &prop);
    for n in a.n("from", 0)..a.n("to", 0) {
        let (mut t, g) = gen::make(&prop, a.n("seed", 1), n, corpus::SCHEMA_SEED, reg);
        let o = run_trace(reg, &mut t, Some(&g), &known);
        let d1 = o.digest;
        // The recorded trace replays to the same events.
        let mut t2 = t.clone();
        let o2 = run_trace(reg, &mut t2, None, &known);
        println!("{prop} {n} {d1:016x} {:016x} {}", o2.digest, d1 == o2.digest);
    }
    0
}

// --------------------------------------------------------------- coordinator

enum Ev {
    Line(u64, String),
    Lost(u64, u64, bool, bool, Option<i32>),
}

struct Job {
    from: u64,
    to: u64,
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}

fn tmp(name: &str) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("crevice-sim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d.join(name)
}

/// One fresh process for one trace. None: it did not finish.
fn eval_fresh(t: &Trace, known: &str, limit: Duration) -> Result<Value, String> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let f = tmp(&format!("t{}.json", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::write(&f, serde_json::to_string(t).unwrap()).expect("write trace");
    let r = run_limited(
        Command::new(me()).arg("eval").arg(&f).args(["--known", known]),
        limit,
    );
    let _ = std::fs::remove_file(&f);
    match r {
        Ok((Some(0), out)) => out
            .lines()
            .rev()
            .find_map(|l| serde_json::from_str::<Value>(l).ok())
            .ok_or("no verdict".to_string()),
        Ok((Some(ENDLESS_CODE), _)) | Err(()) => Err("hang".to_string()),
        Ok((code, _)) => Err(format!("crash ({code:?})")),
    }
}

fn run_limited(c: &mut Command, limit: Duration) -> Result<(Option<i32>, String), ()> {
    let mut ch = c
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let start = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Ok((st.code(), h.join().unwrap_or_default()));
        }
        if start.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            let _ = h.join();
            return Err(());
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

struct Found {
    run: u64,
    block_from: u64,
    trace: Option<Trace>,
    class: String,
    msg: String,
    text: Vec<String>,
}

fn check(a: &Args) -> i32 {
    let prop = a.s("prop");
    let seed = a.n("seed", 1);
    let runs = a.n("runs", 1000);
    let first = a.n("first", 0);
    let block = a.n("block", 100);
    let jobs = a.n("jobs", 8) as usize;
    let budget = Duration::from_secs(a.n("seconds", 600));
    let known_file = a.s("known");
    let stall = Duration::from_secs(a.n("stall", 60));
    let start = Instant::now();

    let mut queue: VecDeque<Job> = VecDeque::new();
    let mut at = first;
    while at < first + runs {
        let to = (at + block).min(first + runs);
        queue.push_back(Job { from: at, to });
        at = to;
    }
    let queue = Arc::new(Mutex::new(queue));
    let stop_at: Arc<Mutex<u64>> = Arc::new(Mutex::new(u64::MAX));
    let (tx, rx) = mpsc::channel::<Ev>();
    let current: Arc<Mutex<Vec<(u64, u64, u64, bool)>>> = Arc::new(Mutex::new(vec![(0, 0, 0, false); jobs]));
    let mut threads = Vec::new();
    for w in 0..jobs {
        let (queue, tx, stop_at, current) = (queue.clone(), tx.clone(), stop_at.clone(), current.clone());
        let (prop, known_file) = (prop.clone(), known_file.clone());
        threads.push(std::thread::spawn(move || loop {
            let Some(j) = queue.lock().unwrap().pop_front() else { return };
            if j.from > *stop_at.lock().unwrap() || start.elapsed() > budget {
                return;
            }
            current.lock().unwrap()[w] = (j.from, j.to, j.from, false);
            let mut c = Command::new(me());
            c.arg("worker")
                .args(["--prop", &prop, "--seed", &seed.to_string(), "--known", &known_file])
                .args(["--from", &j.from.to_string(), "--to", &j.to.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null());
            let mut ch = c.spawn().expect("spawn worker");
            let so = ch.stdout.take().unwrap();
            let last = Arc::new(Mutex::new(Instant::now()));
            let l2 = last.clone();
            let tx2 = tx.clone();
            let block_from = j.from;
            let cur2 = current.clone();
            let reader = std::thread::spawn(move || {
                for line in BufReader::new(so).lines().map_while(|l| l.ok()) {
                    *l2.lock().unwrap() = Instant::now();
                    if let Some(n) = line.strip_prefix("R ") {
                        let mut c = cur2.lock().unwrap();
                        c[w].2 = n.parse().unwrap_or(0);
                        c[w].3 = false;
                    } else if line == "T" {
                        cur2.lock().unwrap()[w].3 = true;
                    } else {
                        let _ = tx2.send(Ev::Line(block_from, line));
                    }
                }
            });
            let mut hung = false;
            let code = loop {
                if let Ok(Some(st)) = ch.try_wait() {
                    break st.code();
                }
                if last.lock().unwrap().elapsed() > stall {
                    hung = true;
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(2));
            };
            let _ = reader.join();
            let hung = hung || code == Some(ENDLESS_CODE);
            let (from, to, at, together) = current.lock().unwrap()[w];
            let clean = matches!(code, Some(0) | Some(1)) && !hung;
            if !clean {
                // go on behind the run that did not finish
                if at + 1 < to {
                    queue.lock().unwrap().push_front(Job { from: at + 1, to });
                }
                let _ = tx.send(Ev::Lost(from, at, hung, together, code));
            }
        }));
    }
    drop(tx);

    let mut found: Vec<Found> = Vec::new();
    let mut suspects = 0u32;
    let mut suspects_same = 0u32;
    let mut lost: Vec<(u64, u64, bool, bool, Option<i32>)> = Vec::new(); // block, run, hung, together, code
    let mut sums: Vec<Value> = Vec::new();
    for ev in rx {
        match ev {
            Ev::Line(block_from, line) => {
                let Ok(v) = serde_json::from_str::<Value>(&line) else { continue };
                match v["event"].as_str() {
                    Some("summary") => sums.push(v),
                    Some("violation") => {
                        let run = v["run"].as_u64().unwrap();
                        let mut s = stop_at.lock().unwrap();
                        *s = (*s).min(run);
                        found.push(Found {
                            run,
                            block_from,
                            trace: serde_json::from_value(v["trace"].clone()).ok(),
                            class: v["class"].as_str().unwrap_or("?").to_string(),
                            msg: v["msg"].as_str().unwrap_or("?").to_string(),
                            text: v["text"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default(),
                        });
                    }
                    Some("suspect") => {
                        suspects += 1;
                        if suspects > 60 {
                            continue;
                        }
                        let run = v["run"].as_u64().unwrap();
                        let Ok(t) = serde_json::from_value::<Trace>(v["trace"].clone()) else { continue };
                        // Does it deviate in a fresh process too? Then it is
                        // not the history of this process that matters.
                        match eval_fresh(&t, &known_file, stall) {
                            Ok(r) if r["suspect"] == json!(true) => suspects_same += 1,
                            Ok(_) => {
                                let mut s = stop_at.lock().unwrap();
                                *s = (*s).min(run);
                                found.push(Found {
                                    run,
                                    block_from,
                                    trace: None,
                                    class: "history matters".into(),
                                    msg: format!("alone in a fresh process the programs of run {run} give the reference's results, after earlier writers in the same process they do not: {}", v["why"].as_str().unwrap_or("?")),
                                    text: vec![],
                                });
                            }
                            Err(_) => {}
                        }
                    }
                    _ => {}
                }
            }
            Ev::Lost(from, run, hung, together, code) => {
                lost.push((from, run, hung, together, code));
                if lost.len() > 12 {
                    *stop_at.lock().unwrap() = 0;
                }
            }
        }
    }
    for t in threads {
        let _ = t.join();
    }

    // Runs that never ended or took the process down.
    lost.sort();
    let mut notes: Vec<String> = Vec::new();
    for (from, run, hung, tog, code) in &lost {
        let single = run_limited(
            Command::new(me()).arg("worker").args(["--prop", &prop, "--seed", &seed.to_string(), "--known", &known_file, "--from", &run.to_string(), "--to", &(run + 1).to_string()]),
            stall,
        );
        let again = match &single {
            Err(()) | Ok((Some(ENDLESS_CODE), _)) => Some("hang"),
            Ok((Some(0), _)) | Ok((Some(1), _)) => None,
            Ok(_) => Some("crash"),
        };
        let what = if *hung { "hang" } else { "crash" };
        let mine = match what {
            "hang" => prop == "C11" || (prop == "C08" && *tog),
            _ => true,
        };
        if again == Some(what) && mine && !found.iter().any(|f| f.run < *run) {
            found.push(Found {
                run: *run,
                block_from: *run,
                trace: None,
                class: what.into(),
                msg: if *hung {
                    format!("run {run} never ends (no progress for {} s)", stall.as_secs())
                } else {
                    format!("run {run} takes the process down (exit {code:?})")
                },
                text: vec![],
            });
            break;
        }
        notes.push(format!("run {run} (block {from}): {what}, again in a fresh process: {again:?}"));
    }

    let wall = start.elapsed().as_secs_f64();
    let mut result = merge(&sums);
    result["wall_s"] = json!(wall);
    result["suspects"] = json!(suspects);
    result["suspects_deviating_alone"] = json!(suspects_same);
    result["notes"] = json!(notes);
    result["property"] = json!(prop);
    result["seed"] = json!(seed);
    result["schema_seed"] = json!(corpus::SCHEMA_SEED);
    result["schema_types"] = json!(registry().entries.len());

    found.sort_by_key(|f| f.run);
    let mut code = 0;
    if let Some(f) = found.into_iter().next() {
        code = 1;
        let rep = report(&prop, seed, f, &known_file, stall);
        let path = a.s("replay");
        if !path.is_empty() {
            std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay");
        }
        result["violation"] = json!({"class": rep["expect"]["class"], "msg": rep["expect"]["msg"], "run": rep["found"]["run"]});
    }
    let out = a.s("out");
    if !out.is_empty() {
        std::fs::write(out, serde_json::to_string(&result).unwrap()).expect("write result");
    } else {
        let mut r = result.clone();
        r.as_object_mut().unwrap().remove("samples");
        println!("{}", serde_json::to_string_pretty(&r).unwrap());
    }
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("crevice-sim-{}", std::process::id())));
    code
}

fn merge(sums: &[Value]) -> Value {
    let mut s: Vec<&Value> = sums.iter().collect();
    s.sort_by_key(|v| v["from"].as_u64());
    let add = |k: &str| s.iter().map(|v| v[k].as_u64().unwrap_or(0)).sum::<u64>();
    let maps = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for v in &s {
            if let Some(o) = v[k].as_object() {
                for (a, b) in o {
                    *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                }
            }
        }
        m
    };
    let set = |k: &str| {
        let mut m: BTreeSet<String> = BTreeSet::new();
        for v in &s {
            if let Some(o) = v[k].as_array() {
                m.extend(o.iter().map(|x| x.to_string()));
            }
        }
        m
    };
    let mut d = rng::Digest::new();
    for v in &s {
        d.str(v["digest"].as_str().unwrap_or(""));
    }
    let mut samples: Vec<Value> = s.iter().filter(|v| !v["sample"].is_null()).map(|v| v["sample"].clone()).collect();
    samples.sort_by_key(|v| v.to_string().len());
    samples.truncate(3);
    let derail = s.iter().filter_map(|v| v["derail_msg"].as_str()).find(|m| !m.is_empty()).unwrap_or("");
    json!({
        "runs": add("runs"), "nontrivial": add("nontrivial"), "derailed": add("derailed"), "derail_msg": derail,
        "ticks": add("ticks"), "sink_calls": add("sink_calls"), "bytes": add("bytes"), "ops": add("ops"),
        "failures": add("failures"), "switches": add("switches"), "points": add("points"), "nested": add("nested"),
        "counts": maps("counts"), "modes": maps("modes"),
        "distinct": set("sigs").len(), "sigs": set("sigs").into_iter().collect::<Vec<_>>(),
        "types_by_layout": set("types").len(), "calls_by_type": set("shapes").len(),
        "known": set("known").into_iter().map(|k| k.trim_matches('"').to_string()).collect::<Vec<_>>(),
        "digest": format!("{:016x}", d.0), "samples": samples,
    })
}

fn report(prop: &str, seed: u64, f: Found, known: &str, stall: Duration) -> Value {
    let base = json!({"run": f.run, "block_from": f.block_from, "seed": seed, "schema_seed": corpus::SCHEMA_SEED});
    let generate = |from: u64, class: &str, msg: &str| {
        json!({
            "kind": "generate", "property": prop, "seed": seed, "schema_seed": corpus::SCHEMA_SEED,
            "from": from, "to": f.run + 1, "expect": {"class": class, "msg": msg}, "found": base,
        })
    };
    if let Some(t) = &f.trace {
        let first = eval_fresh(t, known, stall);
        if first.as_ref().map(|v| v["class"] == json!(f.class)).unwrap_or(false) {
            let deadline = Instant::now() + Duration::from_secs(100);
            let mut ev = |t: &Trace| {
                if Instant::now() > deadline {
                    return shrink::Verdict { class: None, op_calls: vec![] };
                }
                match eval_fresh(t, known, Duration::from_secs(10).min(stall)) {
                    Ok(v) => shrink::Verdict {
                        class: v["class"].as_str().map(|s| s.to_string()),
                        op_calls: serde_json::from_value(v["op_calls"].clone()).unwrap_or_default(),
                    },
                    Err(_) => shrink::Verdict { class: None, op_calls: vec![] },
                }
            };
            let mut s = shrink::Shrinker { eval: &mut ev, class: f.class.clone(), budget: 2500, tried: 0 };
            let small = s.run(t.clone());
            let tried = s.tried;
            let a = eval_fresh(&small, known, stall);
            let b = eval_fresh(&small, known, stall);
            if let (Ok(a), Ok(b)) = (a, b) {
                if a == b && a["class"] == json!(f.class) {
                    return json!({
                        "kind": "trace", "property": prop, "expect": {"class": a["class"], "msg": a["msg"], "digest": a["digest"]},
                        "trace": small, "found": base, "candidates_tried": tried,
                        "as_found": {"class": f.class, "msg": f.msg, "steps": f.text},
                        "types": sources(&small),
                    });
                }
            }
            let v = first.unwrap();
            return json!({
                "kind": "trace", "property": prop, "expect": {"class": v["class"], "msg": v["msg"], "digest": v["digest"]},
                "trace": t, "found": base, "as_found": {"class": f.class, "msg": f.msg, "steps": f.text}, "types": sources(t),
            });
        }
    }
    // Needs the process's history: keep the shortest block that shows it.
    let mut from = f.block_from;
    let shows = |from: u64| {
        let r = run_limited(
            Command::new(me()).arg("worker").args(["--prop", prop, "--seed", &seed.to_string(), "--known", known, "--from", &from.to_string(), "--to", &(f.run + 1).to_string()]),
            stall,
        );
        match (&r, f.class.as_str()) {
            (Err(()) | Ok((Some(ENDLESS_CODE), _)), "hang") => true,
            (Ok((c, _)), "crash") => !matches!(c, Some(0) | Some(1)),
            (Ok((_, s)), "history matters") => s.contains("\"event\":\"suspect\"") && s.contains(&format!("\"run\":{}", f.run)),
            (Ok((_, s)), c) => s.contains(&format!("\"class\":{}", json!(c))),
            _ => false,
        }
    };
    if f.class != "hang" {
        let mut step = (f.run - from).next_power_of_two();
        while step >= 1 {
            if from + step <= f.run && shows(from + step) {
                from += step;
            } else {
                step /= 2;
            }
        }
    } else {
        from = f.run;
    }
    generate(from, &f.class, &f.msg)
}

fn sources(t: &Trace) -> BTreeMap<String, String> {
    let reg = registry();
    let mut m = BTreeMap::new();
    for p in &t.progs {
        for o in &p.ops {
            let e = reg.get(&o.ty);
            if !e.source.is_empty() {
                m.insert(e.name.clone(), e.source.to_string());
            }
        }
    }
    m
}

/// Reproduces a replay file. Exit 1: the violation is there again.
fn replay(a: &Args) -> i32 {
    let s = std::fs::read_to_string(&a.1[1]).expect("replay file");
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let known = a.s("known");
    let stall = Duration::from_secs(a.n("stall", 60));
    if v["schema_seed"].as_u64().or(v["trace"]["schema_seed"].as_u64()) != Some(corpus::SCHEMA_SEED) {
        eprintln!("this replay needs another schema seed");
        return 2;
    }
    let prop = v["property"].as_str().unwrap_or("?").to_string();
    let want = &v["expect"];
    let (class, msg, digest) = if v["kind"] == json!("trace") {
        let t: Trace = serde_json::from_value(v["trace"].clone()).expect("trace");
        match eval_fresh(&t, &known, stall) {
            Ok(r) => (
                r["class"].as_str().map(|s| s.to_string()),
                r["msg"].as_str().unwrap_or("").to_string(),
                r["digest"].clone(),
            ),
            Err(e) => (Some(e.split(' ').next().unwrap_or("").to_string()), e, Value::Null),
        }
    } else {
        let r = run_limited(
            Command::new(me()).arg("worker").args(["--prop", &prop, "--seed", &v["seed"].to_string(), "--known", &known, "--from", &v["from"].to_string(), "--to", &v["to"].to_string()]),
            stall,
        );
        match r {
            Err(()) | Ok((Some(ENDLESS_CODE), _)) => (Some("hang".to_string()), "no progress".into(), Value::Null),
            Ok((Some(0) | Some(1), s)) => {
                let mut c = None;
                let mut m = String::new();
                for l in s.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()) {
                    if l["event"] == json!("violation") {
                        c = l["class"].as_str().map(|s| s.to_string());
                        m = l["msg"].as_str().unwrap_or("").to_string();
                    } else if l["event"] == json!("suspect") && want["class"] == json!("history matters") {
                        c = Some("history matters".into());
                        m = want["msg"].as_str().unwrap_or("").to_string();
                    }
                }
                (c, m, Value::Null)
            }
            Ok(_) => (Some("crash".to_string()), "the process went down".into(), Value::Null),
        }
    };
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("crevice-sim-{}", std::process::id())));
    match class {
        Some(c) => {
            let same = json!(c) == want["class"] && (v["kind"] != json!("trace") || (json!(msg) == want["msg"] && digest == want["digest"]));
            println!("reproduced: {c}: {msg}");
            println!("exactly as recorded: {same}");
            1
        }
        None => {
            println!("not reproduced: the run shows no violation of {prop}");
            0
        }
    }
}
