//! Scenarios: everything one simulated execution is made of, in explicit form. A scenario can be
//! written to a file, shrunk, and replayed; running it draws no random number of its own.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Env {
    /// contents of memory handed out: zero, random, stale, byte:N, text:N
    pub fill: String,
    pub poison: bool,
    /// never, lifo, fifo
    pub reuse: String,
    pub base: usize,
    pub gaps: bool,
    pub fence: bool,
    pub seed: u64,
    /// the n-th allocation fails (0: none)
    pub fail_at: u64,
    pub clock: u64,
    pub clock_jumps: bool,
    pub env_mode: u8,
    pub stack_garbage: u64,
    /// what lies right behind the source text, in the same allocation: 0 nothing, 1 NUL and text,
    /// 2 text, 3 NULs
    #[serde(default)]
    pub tail: u8,
    /// operations are called up to this many bytes deeper in the stack than otherwise
    #[serde(default)]
    pub stack_shift: u32,
    /// so many bytes precede the source in the caller's buffer
    #[serde(default)]
    pub lead: u8,
    /// a caller's thread ends, with its thread-local variables, when the caller has finished
    #[serde(default)]
    pub ends: bool,
    /// the bytes in front of and behind every block on the heap
    #[serde(default = "canary")]
    pub edge: u8,
}

fn canary() -> u8 {
    crate::heap::CANARY
}

impl Env {
    pub fn canonical() -> Env {
        Env {
            fill: "zero".into(),
            poison: true,
            reuse: "never".into(),
            base: 0,
            gaps: false,
            fence: false,
            seed: 1,
            fail_at: 0,
            clock: 1_700_000_000,
            clock_jumps: false,
            env_mode: 0,
            stack_garbage: 0,
            tail: 0,
            stack_shift: 0,
            lead: 0,
            ends: false,
            edge: canary(),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum What {
    /// ratel_codegen::codegen
    Code { minify: bool },
    /// a caller-supplied generator
    Gen,
    Json { pretty: bool },
    /// a caller-supplied serializer
    Events,
    Debug { alt: bool, body: bool },
    Visit,
    Analyze,
    /// Debug of the i-th error
    ErrDebug { i: u32 },
    /// the rendered i-th error
    ErrShow { i: u32 },
    /// positions of the statements
    Ranges,
    /// nodes and names handed out, kept and read again later
    Nodes,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Buf {
    /// the caller keeps the source buffer
    Keep,
    /// the source buffer is released right after parsing
    Free,
    /// the source buffer is overwritten right after parsing, then released
    Scribble,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the sink call number `at` fails, later ones succeed
    ErrOnce { at: u32, kind: u8 },
    /// the sink call number `at` and all later ones fail
    ErrForever { at: u32, kind: u8 },
    /// the sink takes `bytes` bytes and is then full
    Full { bytes: u32 },
    /// every call takes only part of what is offered
    Short { seed: u64 },
    /// calls are interrupted (EINTR) now and then, and take only part of the data
    Eintr { seed: u64 },
    /// the sink call number `at` unwinds
    Cancel { at: u32 },
    /// other operations run inside sink call number `at`
    Nested { at: u32, ops: Vec<Op> },
    /// the caller stops inside sink call number `at` until all other callers are through
    Stall { at: u32 },
    /// no fault: every call is a point where other callers may overtake
    None,
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::ErrOnce { .. } => "sink_error_once",
            Fault::ErrForever { .. } => "sink_error_permanent",
            Fault::Full { .. } => "sink_full",
            Fault::Short { .. } => "sink_short_writes",
            Fault::Eintr { .. } => "sink_interrupted",
            Fault::Cancel { .. } => "cancel_by_unwinding",
            Fault::Nested { .. } => "reentrant_use",
            Fault::Stall { .. } => "caller_stalled",
            Fault::None => "none",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Parse { src: usize, slot: usize, buf: Buf },
    /// a complete read; its result must be the reference result
    Read { slot: usize, what: What },
    /// a read into a faulty sink
    Sink { slot: usize, what: What, fault: Fault },
    /// move the module to another place in memory
    Move { slot: usize },
    Drop { slot: usize },
    Transform { slot: usize },
    /// string entry point: 0 transform, 1 dump, 2 estree
    Wasm { src: usize, which: u8, minify: bool },
    /// hand the errors of a rejected source over to whoever takes them (modules are not `Send`)
    Give { slot: usize, to: usize },
    /// take them, if they are there; `wait`: after the others have gone as far as they can
    Take { slot: usize, from: usize, wait: bool },
    /// scopes, nodes and names handed out earlier must still read the same
    Recheck { slot: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Src {
    pub text: String,
    /// how the text came about
    pub origin: String,
    /// Some(reason): parsing must report an error
    #[serde(default)]
    pub must_fail: Option<String>,
    /// number of statements, if the text is a complete program and that is certain
    #[serde(default)]
    pub count: Option<u32>,
    /// names that occur in the text and must occur in a complete dump of it
    #[serde(default)]
    pub marks: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub family: String,
    pub seed: u64,
    pub epoch: u64,
    pub run: u64,
    pub env: Env,
    pub srcs: Vec<Src>,
    pub threads: Vec<Vec<Op>>,
    pub slices: Vec<(u8, u64)>,
    /// preemptions at places: (edge, occurrence, caller that goes on, for how many steps)
    #[serde(default)]
    pub sites: Vec<(u32, u32, u8, u64)>,
    /// run each thread's operations this many times (growth of memory is then measured)
    pub repeat: u32,
    /// check the cost of every operation against its input and output
    pub metered: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
    pub thread: usize,
    pub op: usize,
}
