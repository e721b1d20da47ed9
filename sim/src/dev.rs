//! The simulated sink: transport, target memory and disk behind `io::Write`.

use crate::hooks::{self, Injected, PowerLoss, Runaway};
use crate::rng::{mix, Digest, Rng};
use crate::trace::{DevCfg, ErrForm, Fault};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Write};
use std::sync::{Arc, Mutex};

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Token(pub u64);
impl std::fmt::Display for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated failure {}", self.0)
    }
}
impl std::error::Error for Token {}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::StorageFull,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::WriteZero,
    ErrorKind::InvalidInput,
    ErrorKind::OutOfMemory,
    ErrorKind::NotConnected,
    ErrorKind::InvalidData,
    ErrorKind::QuotaExceeded,
    ErrorKind::NotFound,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::NotSeekable,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
];
pub const OS_CODES: &[i32] = &[5, 11, 27, 28, 32, 104, 110, 122, 12, 9];

impl ErrForm {
    pub fn make(&self) -> io::Error {
        match self {
            ErrForm::Kind(k) => KINDS[*k].into(),
            ErrForm::Custom(k, t) => io::Error::new(KINDS[*k], Token(*t)),
            ErrForm::Os(c) => io::Error::from_raw_os_error(*c),
        }
    }
}

/// What identifies an error to a caller.
#[derive(Debug, PartialEq, Clone)]
pub struct ErrId {
    pub kind: ErrorKind,
    pub os: Option<i32>,
    pub token: Option<Token>,
}

impl ErrId {
    pub fn of(e: &io::Error) -> ErrId {
        ErrId {
            kind: e.kind(),
            os: e.raw_os_error(),
            token: e
                .get_ref()
                .and_then(|r| r.downcast_ref::<Token>())
                .copied(),
        }
    }
}

/// A sink answer that must end the write call.
#[derive(Debug, Clone, PartialEq)]
pub enum Fatal {
    Err(ErrId),
    Zero,
    Panic(u32),
    Power,
}

#[derive(Clone, Debug, Default)]
pub struct Profile {
    pub short: u32,
    pub eintr: u32,
    pub err: u32,
    pub zero: u32,
    pub panic: u32,
    pub power: u32,
    pub stall: u32,
    /// extra chance (per mille) of a fault right after another one
    pub burst: u32,
    /// how many fatal faults a run may contain
    pub max_fatal: u32,
    /// longest outage after an error, in ticks
    pub outage: u64,
    /// longest run of interruptions
    pub eintr_run: u32,
}

pub struct FaultGen {
    pub rng: Rng,
    pub p: Profile,
    last_was_fault: bool,
    eintr_run: u32,
    fatal: u32,
    /// interruptions left: they stop at some point, and so does the run
    eintr_left: u32,
}

impl FaultGen {
    pub fn new(rng: Rng, p: Profile) -> Self {
        FaultGen {
            rng,
            p,
            last_was_fault: false,
            eintr_run: 0,
            fatal: 0,
            eintr_left: 60_000,
        }
    }

    fn decide(&mut self, len: usize) -> Option<Fault> {
        let boost = if self.last_was_fault { self.p.burst } else { 0 };
        self.last_was_fault = false;
        let r = &mut self.rng;
        let p = &self.p;
        let scale = |w: u32| if w == 0 { 0 } else { w + boost };
        let f = if self.fatal < p.max_fatal && r.permille(scale(p.err)) {
            let form = match r.below(3) {
                0 => ErrForm::Kind(r.below(KINDS.len() as u64) as usize),
                1 => ErrForm::Custom(r.below(KINDS.len() as u64) as usize, r.next() >> 12),
                _ if r.permille(600) => ErrForm::Os(*r.pick(OS_CODES)),
                _ => ErrForm::Os(5 + r.below(128) as i32),
            };
            let outage = if r.permille(300) { r.below(p.outage + 1) } else { 0 };
            Some(Fault::Err(form, outage))
        } else if self.fatal < p.max_fatal && r.permille(scale(p.zero)) {
            Some(Fault::Zero)
        } else if self.fatal < p.max_fatal && r.permille(scale(p.panic)) {
            Some(Fault::Panic(r.below(1 << 20) as u32))
        } else if self.fatal < p.max_fatal && r.permille(scale(p.power)) {
            Some(Fault::PowerCut(r.next() >> 12))
        } else if self.eintr_left > 0 && self.eintr_run < p.eintr_run.max(1) && r.permille(scale(p.eintr)) {
            Some(Fault::Eintr(r.below(3) as u8))
        } else if len > 1 && r.permille(scale(p.short)) {
            let n = match r.below(4) {
                0 => 1,
                1 => len - 1,
                _ => 1 + r.below(len as u64 - 1) as usize,
            };
            Some(Fault::Short(n))
        } else if r.permille(p.stall) {
            Some(Fault::Stall(r.below(50)))
        } else {
            None
        };
        match &f {
            Some(Fault::Eintr(_)) => {
                self.eintr_run += 1;
                self.eintr_left -= 1;
            }
            _ => self.eintr_run = 0,
        }
        match &f {
            Some(Fault::Err(..)) | Some(Fault::Zero) | Some(Fault::Panic(_))
            | Some(Fault::PowerCut(_)) => self.fatal += 1,
            _ => {}
        }
        self.last_was_fault = f.is_some();
        f
    }
}

/// Counters of faults that actually fired, by kind and by what was being sent.
#[derive(Clone, Debug, Default)]
pub struct Fired(pub BTreeMap<&'static str, u64>);
impl Fired {
    pub fn hit(&mut self, k: &'static str) {
        *self.0.entry(k).or_default() += 1;
    }
}

pub struct Dev {
    pub cfg: DevCfg,
    pub mem: Vec<u8>,
    /// memory below this is not kept (streams of many gigabytes)
    pub win_base: usize,
    pub keep: bool,
    pub base: usize,
    pub pos: usize,
    pub synced: usize,
    pub calls: u64,
    pub flushes: u64,
    pub op_calls: u64,
    pub op_bound: u64,
    pub op_soft: u64,
    pub op_interrupts: u64,
    pub fatal: Option<Fatal>,
    pub after_fatal: u32,
    pub dead: bool,
    pub clock: u64,
    pub outage: Option<(u64, ErrForm)>,
    pub gen: Option<FaultGen>,
    pub script: BTreeMap<u64, Fault>,
    pub fired: Vec<(u64, Fault)>,
    pub counts: Fired,
    pub log: Digest,
    /// which bytes of the stream are components (to place faults in phases)
    pub mask: Vec<bool>,
}

impl Dev {
    pub fn new(cfg: DevCfg) -> Self {
        Dev {
            cfg,
            mem: Vec::new(),
            win_base: 0,
            keep: true,
            base: 0,
            pos: 0,
            synced: 0,
            calls: 0,
            flushes: 0,
            op_calls: 0,
            op_bound: u64::MAX,
            op_soft: 0,
            op_interrupts: 0,
            fatal: None,
            after_fatal: 0,
            dead: false,
            clock: 0,
            outage: None,
            gen: None,
            script: BTreeMap::new(),
            fired: Vec::new(),
            counts: Fired::default(),
            log: Digest::new(),
            mask: Vec::new(),
        }
    }

    pub fn garbage(&self, i: usize) -> u8 {
        match self.cfg.garbage {
            0 => 0,
            1 => 0xFF,
            s => ((mix(s ^ (i as u64 / 8)) >> (8 * (i % 8))) as u8) | 1,
        }
    }

    /// Makes memory up to `end` exist, holding whatever was there before.
    pub fn materialise(&mut self, end: usize) {
        let have = self.win_base + self.mem.len();
        for i in have..end {
            let g = self.garbage(i);
            self.mem.push(g);
        }
    }

    pub fn at(&self, i: usize) -> u8 {
        self.mem[i - self.win_base]
    }

    pub fn slice(&self, a: usize, b: usize) -> &[u8] {
        &self.mem[a - self.win_base..b - self.win_base]
    }

    pub fn begin_op(&mut self, bound: u64) {
        self.op_calls = 0;
        self.op_bound = bound;
        self.op_soft = 0;
        self.op_interrupts = 0;
        self.fatal = None;
        self.after_fatal = 0;
    }

    /// Bytes accepted from the current writer.
    pub fn accepted(&self) -> usize {
        self.pos - self.base
    }

    fn phase(&self, kind: &'static str) -> &'static str {
        let p = self.pos - self.win_base;
        let in_value = self.mask.get(p).copied().unwrap_or(false);
        let mid = p > 0 && in_value && self.mask.get(p - 1).copied().unwrap_or(false);
        macro_rules! table {
            ($($k:literal)*) => { match kind { $(
                $k => if mid { concat!($k, "/inside value") }
                      else if in_value { concat!($k, "/at value start") }
                      else { concat!($k, "/in padding or end") },
            )* _ => kind } };
        }
        table!("short accept" "interrupt" "error" "accept zero" "sink panic" "power cut" "stall" "outage" "full")
    }

    /// One transport call. `Err(Nested)` asks the caller to run a nested
    /// program without holding the device.
    fn transport(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        self.op_calls += 1;
        self.clock += 1;
        if self.fatal.is_some() || self.dead {
            self.after_fatal += 1;
        }
        if self.op_calls > self.op_bound + self.op_interrupts + self.op_soft {
            self.counts.hit("runaway");
            std::panic::panic_any(Runaway);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let room = match self.cfg.cap {
            Some(c) => c.saturating_sub(self.accepted()),
            None => usize::MAX,
        };
        if let Some((until, form)) = self.outage.clone() {
            if self.clock < until {
                let e = form.make();
                self.fatal = Some(Fatal::Err(ErrId::of(&e)));
                let ph = self.phase("outage");
                self.counts.hit(ph);
                return Err(e);
            }
            self.outage = None;
        }
        let fault = match &mut self.gen {
            Some(g) => g.decide(buf.len()),
            None => self.script.get(&k).cloned(),
        };
        if room == 0 {
            let ph = self.phase("full");
            self.counts.hit(ph);
            if self.cfg.full_as_zero {
                self.fatal = Some(Fatal::Zero);
                return Ok(0);
            }
            let e = ErrForm::Os(28).make();
            self.fatal = Some(Fatal::Err(ErrId::of(&e)));
            return Err(e);
        }
        let mut n = buf.len().min(room);
        if let Some(m) = self.cfg.max_accept {
            if m < n {
                n = m;
                self.counts.hit("slow sink (byte limit per call)");
            }
        }
        if n < buf.len() {
            self.op_soft += 1;
        }
        if let Some(f) = fault {
            let mut effective = true;
            let name = match &f {
                Fault::Short(m) => {
                    let m = (*m).max(1);
                    if m < n {
                        n = m;
                        self.op_soft += 1;
                    } else {
                        effective = false;
                    }
                    "short accept"
                }
                Fault::Eintr(_) => "interrupt",
                Fault::Err(..) => "error",
                Fault::Zero => "accept zero",
                Fault::Panic(_) => "sink panic",
                Fault::PowerCut(_) => "power cut",
                Fault::Stall(t) => {
                    self.clock += t;
                    "stall"
                }
                Fault::Nested(_) => "nested program in sink",
            };
            if effective {
                let ph = self.phase(name);
                self.counts.hit(ph);
                self.fired.push((k, f.clone()));
            }
            match f {
                Fault::Eintr(form) => {
                    self.op_interrupts += 1;
                    return Err(match form {
                        0 => ErrorKind::Interrupted.into(),
                        1 => io::Error::from_raw_os_error(4),
                        _ => io::Error::new(ErrorKind::Interrupted, Token(k)),
                    });
                }
                Fault::Err(form, outage) => {
                    let e = form.make();
                    self.fatal = Some(Fatal::Err(ErrId::of(&e)));
                    if outage > 0 {
                        self.outage = Some((self.clock + outage, form));
                    }
                    return Err(e);
                }
                Fault::Zero => {
                    self.fatal = Some(Fatal::Zero);
                    return Ok(0);
                }
                Fault::Panic(id) => {
                    self.fatal = Some(Fatal::Panic(id));
                    return Err(io::Error::new(ErrorKind::Other, Injected0(id)));
                }
                Fault::PowerCut(seed) => {
                    // Unsynced bytes: each 16-byte sector survives, is lost or
                    // is torn.
                    let mut r = Rng::new(seed);
                    let mut i = self.synced;
                    while i < self.pos {
                        let end = (i + 16).min(self.pos);
                        let keep_to = match r.below(3) {
                            0 => end,
                            1 => i,
                            _ => i + r.below((end - i) as u64 + 1) as usize,
                        };
                        for b in keep_to..end {
                            let v = r.next() as u8 | 1;
                            self.mem[b - self.win_base] = v;
                        }
                        i = end;
                    }
                    self.dead = true;
                    self.fatal = Some(Fatal::Power);
                    return Err(io::Error::new(ErrorKind::Other, Injected0(u32::MAX)));
                }
                _ => {}
            }
        }
        if self.keep {
            let end = self.pos + n;
            self.materialise(end);
            let w = self.win_base;
            self.mem[self.pos - w..end - w].copy_from_slice(&buf[..n]);
        }
        self.pos += n;
        Ok(n)
    }
}

/// Internal marker: turned into a panic once the device lock is released.
#[derive(Debug)]
struct Injected0(u32);
impl std::fmt::Display for Injected0 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Injected0 {}

#[derive(Clone)]
pub struct Sink(pub Arc<Mutex<Dev>>);

pub fn lock(d: &Arc<Mutex<Dev>>) -> std::sync::MutexGuard<'_, Dev> {
    d.lock().unwrap_or_else(|e| e.into_inner())
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _off = crate::edges::switch(false);
        hooks::yield_point();
        // A nested program runs before the call takes effect.
        let nested = {
            let d = lock(&self.0);
            match d.script.get(&d.calls) {
                Some(Fault::Nested(j)) if d.gen.is_none() && !buf.is_empty() => Some(*j),
                _ => None,
            }
        };
        if let Some(j) = nested {
            hooks::run_nested(j);
        }
        let r = {
            let mut d = lock(&self.0);
            let r = d.transport(buf);
            let code = match &r {
                Ok(n) => *n as u64,
                Err(e) => (1 << 40) | e.kind() as u64,
            };
            d.log.add(buf.len() as u64);
            d.log.add(code);
            r
        };
        if let Err(e) = &r {
            if let Some(i) = e.get_ref().and_then(|r| r.downcast_ref::<Injected0>()) {
                if i.0 == u32::MAX {
                    std::panic::panic_any(PowerLoss);
                }
                std::panic::panic_any(Injected(i.0));
            }
        }
        r
    }

    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let vectored = lock(&self.0).cfg.vectored;
        if vectored {
            let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
            return self.write(&all);
        }
        self.write(bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b))
    }

    fn flush(&mut self) -> io::Result<()> {
        let _off = crate::edges::switch(false);
        hooks::yield_point();
        let mut d = lock(&self.0);
        d.log.add(1 << 41);
        match d.cfg.flush {
            0 => {
                d.counts.hit("flush");
                Ok(())
            }
            1 => {
                d.counts.hit("flush refused");
                Err(ErrForm::Os(5).make())
            }
            _ => {
                d.counts.hit("flush interrupted");
                d.flushes += 1;
                if d.flushes > 100_000 {
                    drop(d);
                    std::panic::panic_any(Runaway);
                }
                Err(ErrorKind::Interrupted.into())
            }
        }
    }
}
