//! Everything that decides an execution. A trace plus the code is the run.

use crate::model::Layout;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ErrForm {
    /// `io::Error::from(kind)`; index into `dev::KINDS`.
    Kind(usize),
    /// `io::Error::new(kind, Token(n))`.
    Custom(usize, u64),
    /// `io::Error::from_raw_os_error(n)`.
    Os(i32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    /// Accept at most this many bytes of the call.
    Short(usize),
    /// Interrupted before anything was accepted; the form of the error varies.
    Eintr(u8),
    /// Fail, and keep failing the same way for this many ticks.
    Err(ErrForm, u64),
    /// Accept nothing: `Ok(0)`.
    Zero,
    /// The sink panics.
    Panic(u32),
    /// Power is lost: the process dies, unsynced bytes are lost or torn.
    PowerCut(u64),
    /// The sink takes this many ticks for the call.
    Stall(u64),
    /// Another program runs to completion inside this sink call.
    Nested(usize),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CbFault {
    Panic(u32),
    Nested(usize),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Call {
    /// `writer.write(&value)`
    Write,
    /// `writer.write(slice)`
    Slice,
    /// `writer.write_iter(iterator)`
    Iter,
    /// `writer.write_iter(iterator)` with an iterator that never ends: it begins
    /// again with the first value. Needs a sink that fails at some point.
    Endless,
    /// `writer.write_std140(&value.as_std140())` and the std430 twin
    Output,
    /// the deprecated `writer.write_slice(slice)` (std140 only)
    SliceOld,
    /// the trait method on the value: `value.write_std140(&mut writer)`
    Trait,
    /// the trait method on a slice
    TraitSlice,
    /// not a write: size the values with a fresh size calculator
    Size,
    /// not a write: decode a dirty device image of the value
    Decode,
    /// not a write: the GLSL description of the type
    Describe,
}

impl Call {
    pub fn is_write(self) -> bool {
        !matches!(self, Call::Size | Call::Decode | Call::Describe)
    }
    pub fn takes_many(self) -> bool {
        matches!(
            self,
            Call::Slice | Call::Iter | Call::Endless | Call::SliceOld | Call::TraitSlice | Call::Size
        )
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Op {
    pub call: Call,
    pub ty: String,
    /// Component bit patterns of each value.
    pub vals: Vec<Vec<u64>>,
    /// What the iterator of an `Iter` call offers when it is polled after its end.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub late: Vec<Vec<u64>>,
    /// Name of values shared between programs (same name: same memory).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub shared: Option<usize>,
    /// Points inside crevice (counted from the beginning of this op) at which
    /// the program is preempted when it runs together with others.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub preempt: Vec<u64>,
    /// Which of the shared threads carries out this op (Mode::Alternate).
    #[serde(default, skip_serializing_if = "is_home")]
    pub home: u8,
    /// The device's image of the first value, if it has been made already.
    #[serde(skip)]
    pub image: Vec<u8>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Recovery {
    /// Stop at the first failure.
    Stop,
    /// Rewind the sink to `len()` and write the rest again.
    Resume,
    /// Drop the writer and write the segment again with a new one.
    Restart,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DevCfg {
    /// 0: clean memory; 1: all ones; otherwise seed of non-zero garbage.
    pub garbage: u64,
    /// Bytes available to the writer.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cap: Option<usize>,
    /// A full sink answers Ok(0) instead of an error.
    #[serde(default)]
    pub full_as_zero: bool,
    /// The sink never takes more than this per call.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub max_accept: Option<usize>,
    /// The sink takes several buffers in one call.
    #[serde(default)]
    pub vectored: bool,
    /// What the sink answers to being flushed. 0: Ok; 1: an error; 2: that it
    /// was interrupted, for ever.
    #[serde(default, skip_serializing_if = "is_home")]
    pub flush: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Prog {
    pub layout: Layout,
    pub ops: Vec<Op>,
    /// Indices of ops that start a new segment (Recovery::Restart).
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub segments: Vec<usize>,
    /// Bytes sent before the first op (a multiple of 256).
    #[serde(default, skip_serializing_if = "is_zero")]
    pub prelude: u64,
    pub recovery: Recovery,
    pub dev: DevCfg,
    /// Sink call number -> what the sink does.
    pub faults: Vec<(u64, Fault)>,
    /// User callback number -> what the callback does.
    pub callbacks: Vec<(u64, CbFault)>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Upload,
    Sized,
    Device,
    Arrays,
    Readback,
    Threads,
    Nested,
    /// The programs in `schedule`, one after another on one thread.
    Sequence,
    /// The calls of all programs take turns on a few shared threads.
    Alternate,
    /// Layout types handled as plain bytes, under an interpreter that knows
    /// what is undefined.
    Pod,
}

/// One device-side step of a readback run.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DevStep {
    /// Component number (over all values) -> new bits.
    pub set: Vec<(usize, u64)>,
    /// Seed of the bytes put into gaps (0: leave gaps alone).
    pub gaps: u64,
    /// Seed choosing the word stored for true (0: 1).
    pub bools: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Trace {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub schema_seed: u64,
    pub mode: Mode,
    pub progs: Vec<Prog>,
    /// Which program moves at each scheduling point.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub schedule: Vec<u8>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub device: Vec<DevStep>,
    /// Mode-specific number (bytes short of capacity, megabytes before, ...).
    #[serde(default)]
    pub arg: u64,
}

fn is_home(n: &u8) -> bool {
    *n == 0
}

fn is_zero(n: &u64) -> bool {
    *n == 0
}
