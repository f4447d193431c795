//! Runs one scenario inside a freshly forked process and judges what the code under test does.
#![allow(static_mut_refs)]

use crate::heap::{self, Fill, HeapCfg, Reuse};
use crate::scen::*;
use crate::sim;
use ratel_sut as sut;
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::io;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

// ------------------------------------------------------------------ observations

#[derive(Clone, Debug, Default)]
pub struct Obs {
    /// 0 result, 1 panic
    pub state: u8,
    pub text: Vec<u8>,
    pub calls: u32,
    pub steps: u64,
    pub alloc: u64,
    pub stack: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Ref {
    pub parse: Option<Obs>,
    pub ok: bool,
    pub n_err: u32,
    pub reads: BTreeMap<(bool, What), Obs>,
    pub wasm: BTreeMap<(u8, bool), Obs>,
    /// reference executions that crashed or ran out of budget
    pub unclean: Vec<String>,
}

// ------------------------------------------------------------------ context of a run

pub struct Ctx {
    pub sc: *const Scenario,
    pub refs: Vec<Arc<Ref>>,
    pub have_refs: bool,
    pub want_obs: bool,
    pub per_op_budget: bool,
}

pub static mut CTX: Option<Ctx> = None;
static mut VIOLS: Vec<Viol> = Vec::new();
static mut OBS: Vec<Obs> = Vec::new();
pub static mut FIRED: BTreeMap<&'static str, u64> = BTreeMap::new();
static mut OPS_DONE: u64 = 0;
static mut OPS_SKIPPED: u64 = 0;
static mut COSTS: Vec<Cost> = Vec::new();
static mut LIVE_AFTER: Vec<(u64, u64)> = Vec::new();

#[derive(Clone, Debug)]
struct Cost {
    src: usize,
    what: String,
    input: u64,
    output: u64,
    steps: u64,
    alloc: u64,
    stack: u64,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

struct CancelToken;

fn ctx() -> &'static Ctx {
    unsafe { CTX.as_ref().unwrap() }
}
fn sc() -> &'static Scenario {
    unsafe { &*ctx().sc }
}
fn prop() -> &'static str {
    &sc().prop
}

fn fired(name: &'static str) {
    unsafe {
        *FIRED.entry(name).or_insert(0) += 1;
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| unsafe {
        let was = sim::IN_OP;
        sim::IN_OP = false;
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        sim::IN_OP = was;
    }));
}

// ------------------------------------------------------------------ a caller

enum State {
    Empty,
    Module { m: *mut sut::Mod, src: usize, transformed: bool, scopes: Vec<Held> },
    Errors { list: Vec<sut::Error>, src: usize },
}

/// Something a module handed out, and how it read then.
enum Held {
    Scope(sut::ScopeRef, String),
    Nodes(Box<sut::visit::Kept>, String),
}

struct Caller {
    tid: usize,
    slots: Vec<State>,
    /// indices of the operation being executed, outermost first
    at: usize,
    nested: usize,
    /// slots being read by the operations around the running one
    busy: Vec<usize>,
}

enum Out<R> {
    Done(R),
    Cancelled,
    Panicked(String),
}

struct Meter {
    steps: u64,
    alloc: u64,
    stack: u64,
}

fn call<R>(meter: &mut Meter, input: u64, f: impl FnOnce() -> R) -> Out<R> {
    let most = sc().env.stack_shift as usize;
    // what an operation does must not depend on where in the stack it is called
    let turn = unsafe { OPS_DONE }.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ sc().env.seed;
    if most == 0 || (turn >> 40) & 1 == 0 {
        return call_here(meter, input, f);
    }
    let mut f = Some(f);
    let mut out = None;
    deeper(most, &mut || out = Some(call_here(meter, input, f.take().unwrap())));
    out.unwrap()
}

#[inline(never)]
fn deeper(left: usize, f: &mut dyn FnMut()) {
    let mut pad = std::mem::MaybeUninit::<[u8; 3900]>::uninit();
    std::hint::black_box(&mut pad);
    if left < 4096 {
        f()
    } else {
        deeper(left - 4096, f)
    }
    std::hint::black_box(&mut pad);
}

fn call_here<R>(meter: &mut Meter, input: u64, f: impl FnOnce() -> R) -> Out<R> {
    unsafe {
        let here: usize;
        std::arch::asm!("mov {}, rsp", out(reg) here, options(nomem, nostack));
        let s0 = sim::my_steps();
        let a0 = heap::ALLOC_BYTES;
        let saved_min = sim::MIN_SP;
        sim::MIN_SP = here;
        if ctx().per_op_budget {
            sim::BUDGET_AT = sim::STEP + 3_000_000 + 3000 * input;
            sim::set_trip();
        }
        sim::IN_OP = true;
        let r = catch_unwind(AssertUnwindSafe(f));
        sim::IN_OP = false;
        meter.steps = sim::my_steps() - s0;
        meter.alloc = heap::ALLOC_BYTES - a0;
        meter.stack = (here - sim::MIN_SP.min(here)) as u64;
        sim::MIN_SP = sim::MIN_SP.min(saved_min);
        heap::check_all();
        match r {
            Ok(v) => Out::Done(v),
            Err(p) => {
                if p.is::<CancelToken>() {
                    drop(p);
                    Out::Cancelled
                } else {
                    drop(p);
                    Out::Panicked(PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
                }
            }
        }
    }
}

fn io_kind(k: u8) -> io::ErrorKind {
    match k % 6 {
        0 => io::ErrorKind::BrokenPipe,
        1 => io::ErrorKind::Other,
        2 => io::ErrorKind::WouldBlock,
        3 => io::ErrorKind::TimedOut,
        4 => io::ErrorKind::PermissionDenied,
        _ => io::ErrorKind::ConnectionReset,
    }
}

/// Everything a sink does, whatever its interface.
struct Sink<'c> {
    caller: &'c mut Caller,
    fault: &'c Fault,
    what: What,
    before: Vec<u8>,
    after: usize,
    calls: u32,
    hit: bool,
    rng: u64,
    // balance of indentation / parents / scopes
    depth: [i64; 2],
    unbalanced: Option<String>,
}

enum Act {
    Take(usize),
    Fail(u8),
    Refuse,
    Interrupt,
}

impl<'c> Sink<'c> {
    fn new(caller: &'c mut Caller, fault: &'c Fault, what: What) -> Sink<'c> {
        let rng = match fault {
            Fault::Short { seed } | Fault::Eintr { seed } => *seed,
            _ => 1,
        };
        Sink { caller, fault, what, before: Vec::new(), after: 0, calls: 0, hit: false, rng, depth: [0, 0], unbalanced: None }
    }

    /// `IN_OP` is off while this runs.
    fn on_call(&mut self, chunk: &[u8], partial: bool) -> Act {
        let n = self.calls;
        self.calls += 1;
        unsafe {
            // the budget of an operation grows with what it delivers
            if ctx().per_op_budget && self.before.len() < 16 << 20 {
                sim::BUDGET_AT = sim::BUDGET_AT.saturating_add(3000 * chunk.len() as u64);
                sim::set_trip();
            }
            sim::yield_point()
        };
        let act = match self.fault {
            Fault::None => Act::Take(chunk.len()),
            Fault::ErrOnce { at, kind } => {
                if n == *at {
                    self.hit = true;
                    fired("sink_error_once");
                    return Act::Fail(*kind);
                }
                Act::Take(chunk.len())
            }
            Fault::ErrForever { at, kind } => {
                if n >= *at {
                    if !self.hit {
                        fired("sink_error_permanent");
                    }
                    self.hit = true;
                    return Act::Fail(*kind);
                }
                Act::Take(chunk.len())
            }
            Fault::Full { bytes } => {
                let room = (*bytes as usize).saturating_sub(self.before.len());
                if chunk.len() <= room {
                    Act::Take(chunk.len())
                } else {
                    if !self.hit {
                        fired("sink_full");
                    }
                    if partial && room > 0 {
                        Act::Take(room)
                    } else {
                        self.hit = true;
                        return Act::Refuse;
                    }
                }
            }
            Fault::Short { .. } => {
                if partial && chunk.len() > 1 {
                    fired("sink_short_writes");
                    self.hit = true;
                    let k = 1 + (sim::splitmix(&mut self.rng) as usize) % chunk.len();
                    Act::Take(k)
                } else {
                    Act::Take(chunk.len())
                }
            }
            Fault::Eintr { .. } => {
                let r = sim::splitmix(&mut self.rng);
                if partial && r % 3 == 0 {
                    fired("sink_interrupted");
                    self.hit = true;
                    return Act::Interrupt;
                }
                if partial && chunk.len() > 1 && r % 3 == 1 {
                    Act::Take(1 + (r >> 8) as usize % chunk.len())
                } else {
                    Act::Take(chunk.len())
                }
            }
            Fault::Cancel { at } => {
                if n == *at {
                    self.hit = true;
                    fired("cancel_by_unwinding");
                    resume_unwind(Box::new(CancelToken) as Box<dyn Any + Send>);
                }
                Act::Take(chunk.len())
            }
            Fault::Nested { at, ops } => {
                if n == *at && self.caller.nested < 3 {
                    self.hit = true;
                    fired("reentrant_use");
                    self.caller.nested += 1;
                    for op in ops {
                        self.caller.run_op(op);
                    }
                    self.caller.nested -= 1;
                }
                Act::Take(chunk.len())
            }
            Fault::Stall { at } => {
                if n == *at {
                    self.hit = true;
                    fired("caller_stalled");
                    unsafe { sim::stall() };
                }
                Act::Take(chunk.len())
            }
        };
        if let Act::Take(k) = act {
            if self.hit && matches!(self.fault, Fault::ErrOnce { .. } | Fault::ErrForever { .. } | Fault::Full { .. }) {
                self.after += k;
            } else {
                self.before.extend_from_slice(&chunk[..k]);
            }
        }
        act
    }

    fn balance(&mut self, which: usize, d: i64, name: &str) {
        self.depth[which] += d;
        if self.depth[which] < 0 && self.unbalanced.is_none() {
            self.unbalanced = Some(format!("{} closed more often than opened after {} events", name, self.calls));
        }
    }
}

struct Outside(bool);
impl Outside {
    fn new() -> Outside {
        unsafe {
            let w = sim::IN_OP;
            sim::IN_OP = false;
            Outside(w)
        }
    }
}
impl Drop for Outside {
    fn drop(&mut self) {
        unsafe { sim::IN_OP = self.0 }
    }
}

impl<'c> io::Write for Sink<'c> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _o = Outside::new();
        if buf.is_empty() {
            return Ok(0);
        }
        match self.on_call(buf, true) {
            Act::Take(n) => Ok(n),
            Act::Fail(k) => Err(io::Error::from(io_kind(k))),
            Act::Refuse => Ok(0),
            Act::Interrupt => Err(io::Error::from(io::ErrorKind::Interrupted)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl<'c> fmt::Write for Sink<'c> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _o = Outside::new();
        match self.on_call(s.as_bytes(), false) {
            Act::Take(_) => Ok(()),
            _ => Err(fmt::Error),
        }
    }
}

impl<'c> sut::events::EvSink for Sink<'c> {
    fn ev(&mut self, kind: &'static str, text: &str) -> bool {
        let _o = Outside::new();
        let line = format!("{} {}\n", kind, text);
        matches!(self.on_call(line.as_bytes(), false), Act::Take(_))
    }
}

impl<'c> Sink<'c> {
    fn gen(&mut self, k: u8, b: &[u8]) {
        let _o = Outside::new();
        let mut v = vec![k];
        v.extend_from_slice(b);
        match k {
            b'>' => self.balance(0, 1, "indentation"),
            b'<' => self.balance(0, -1, "indentation"),
            _ => {}
        }
        self.on_call(&v, false);
    }
}

impl<'c> sut::GenSink for Sink<'c> {
    fn byte(&mut self, b: u8) {
        self.gen(b'b', &[b])
    }
    fn bytes(&mut self, b: &[u8]) {
        self.gen(b's', b)
    }
    fn pretty(&mut self, b: u8) {
        self.gen(b'p', &[b])
    }
    fn new_line(&mut self) {
        self.gen(b'n', b"\n")
    }
    fn indent(&mut self) {
        self.gen(b'>', b"")
    }
    fn dedent(&mut self) {
        self.gen(b'<', b"")
    }
}

impl<'c> sut::visit::VisSink for Sink<'c> {
    fn ev(&mut self, kind: &'static str, a: u32, b: u32, s: &str) {
        let _o = Outside::new();
        match kind {
            "push" => self.balance(0, 1, "parents"),
            "pop" => self.balance(0, -1, "parents"),
            "enter" => self.balance(1, 1, "scopes"),
            "leave" => self.balance(1, -1, "scopes"),
            _ => {}
        }
        let line = format!("{} {} {} {}\n", kind, a, b, s);
        self.on_call(line.as_bytes(), false);
    }
}

/// What precedes the source in the caller's buffer.
fn ahead() -> &'static str {
    &"'`/*{(\n9a.é\"b+"[..match sc().env.lead as usize {
        11 => 12,
        n => n.min(15),
    }]
}

/// The caller's buffer lives in simulated memory too, exactly as long as the text unless the
/// scenario puts something behind it.
fn source_buffer(text: &str) -> String {
    let mut input: Option<String> = None;
    {
        let ip = &mut input;
        let ahead = ahead();
        let behind: &[u8] = match sc().env.tail {
            0 => b"",
            1 => b"\0a;`/*'\"({[",
            2 => b"0a.b`*/;}])/x/",
            _ => b"\0\0\0\0\0\0\0\0\0\0\0\0",
        };
        call(&mut Meter { steps: 0, alloc: 0, stack: 0 }, text.len() as u64, || {
            let mut s = String::with_capacity(ahead.len() + text.len() + behind.len());
            s.push_str(ahead);
            s.push_str(text);
            unsafe {
                let p = s.as_mut_ptr().add(s.len());
                std::ptr::copy_nonoverlapping(behind.as_ptr(), p, behind.len());
            }
            *ip = Some(s);
        });
    }
    // out of memory: the caller's own affair
    input.unwrap_or_default()
}

fn clip(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut t: String = s.chars().take(160).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let lo = n.saturating_sub(20);
    format!("first difference at byte {}: expected ..{:?}, got ..{:?}", n, clip(&a[lo..a.len().min(n + 60)]), clip(&b[lo..b.len().min(n + 60)]))
}

pub fn parse_text(r: &Result<Vec<(u32, u32)>, &Vec<sut::Error>>) -> Vec<u8> {
    let mut s = String::new();
    use fmt::Write;
    match r {
        Ok(ranges) => {
            let _ = write!(s, "ok {:?}", ranges);
        }
        Err(list) => {
            for e in list.iter() {
                let _ = write!(s, "err {:?} {:?} {} {}\n", e.token, e.raw, e.start, e.end);
            }
        }
    }
    s.into_bytes()
}

impl Caller {
    fn viol(&self, class: &str, detail: String) {
        unsafe {
            if class == "panic" && (*sim::SLOT).alloc_failed != 0 {
                // out of memory: unwinding is one of the accepted ways to stop
                return;
            }
            if VIOLS.len() < 16 {
                VIOLS.push(Viol { class: class.into(), detail, thread: self.tid, op: self.at });
            }
        }
    }

    fn reference(&self, src: usize) -> Option<&'static Ref> {
        let c = ctx();
        if c.have_refs {
            c.refs.get(src).map(|a| unsafe { &*Arc::as_ptr(a) })
        } else {
            None
        }
    }

    fn slot(&mut self, i: usize) -> &mut State {
        while self.slots.len() <= i {
            self.slots.push(State::Empty);
        }
        &mut self.slots[i]
    }

    fn clear(&mut self, i: usize) {
        let old = std::mem::replace(self.slot(i), State::Empty);
        let mut mt = Meter { steps: 0, alloc: 0, stack: 0 };
        let r = match old {
            State::Empty => return,
            State::Module { m, scopes, .. } => {
                drop(scopes);
                call(&mut mt, 0, || unsafe { drop(Box::from_raw(m)) })
            }
            State::Errors { list, .. } => call(&mut mt, 0, || drop(list)),
        };
        if let Out::Panicked(p) = r {
            self.viol("panic", format!("dropping: {}", p));
        }
    }

    fn record(&self, o: Obs) {
        unsafe {
            if ctx().want_obs && self.nested == 0 {
                OBS.push(o);
            }
        }
    }

    fn cost(&self, src: usize, what: String, output: u64, m: &Meter) {
        if !sc().metered || self.nested > 0 {
            return;
        }
        let input = sc().srcs[src].text.len() as u64;
        unsafe { COSTS.push(Cost { src, what: what.clone(), input, output, steps: m.steps, alloc: m.alloc, stack: m.stack }) };
        if prop() == "C03" {
            let size = input + output;
            let max_steps = STEP_CONST + STEP_FACTOR * size;
            let max_alloc = ALLOC_CONST + ALLOC_FACTOR * size;
            if m.steps > max_steps {
                self.viol("too-many-steps", format!("{} took {} steps for {} bytes in and {} bytes out (bound {})", what, m.steps, input, output, max_steps));
            }
            if m.alloc > max_alloc {
                self.viol("too-much-memory", format!("{} allocated {} bytes for {} bytes in and {} bytes out (bound {})", what, m.alloc, input, output, max_alloc));
            }
        }
    }

    fn run_op(&mut self, op: &Op) {
        unsafe { OPS_DONE += 1 };
        if let Op::Parse { slot, .. } | Op::Drop { slot } | Op::Move { slot } | Op::Transform { slot } | Op::Give { slot, .. } | Op::Take { slot, .. } = op {
            if self.busy.contains(slot) {
                // the borrow checker would not allow this either
                unsafe { OPS_SKIPPED += 1 };
                return;
            }
        }
        match op {
            Op::Parse { src, slot, buf } => self.parse(*src, *slot, *buf),
            Op::Read { slot, what } => self.read(*slot, *what, &Fault::None, false),
            Op::Sink { slot, what, fault } => {
                let f = fault.clone();
                self.read(*slot, *what, &f, true)
            }
            Op::Drop { slot } => self.clear(*slot),
            Op::Move { slot } => {
                if let State::Module { m, scopes, .. } = self.slot(*slot) {
                    scopes.clear();
                    let mp: *mut *mut sut::Mod = m;
                    let mut mt = Meter { steps: 0, alloc: 0, stack: 0 };
                    call(&mut mt, 0, || unsafe {
                        let old = Box::from_raw(*mp);
                        *mp = Box::into_raw(Box::new(*old));
                    });
                    fired("module_moved");
                }
            }
            Op::Give { slot, to } => {
                let b = unsafe { &mut *(&raw mut BOXES[*to % BOXES_LEN]) };
                // errors may go to other threads, modules may not
                if matches!(b, State::Empty) && matches!(self.slot(*slot), State::Errors { .. }) {
                    *b = std::mem::replace(self.slot(*slot), State::Empty);
                    fired("errors_handed_over");
                }
            }
            Op::Take { slot, from, wait } => {
                self.clear(*slot);
                let b = unsafe { &mut *(&raw mut BOXES[*from % BOXES_LEN]) };
                if matches!(b, State::Empty) && *wait {
                    unsafe { sim::stall() };
                }
                *self.slot(*slot) = std::mem::replace(b, State::Empty);
                if !matches!(self.slot(*slot), State::Empty) {
                    fired("errors_taken_over");
                }
            }
            Op::Transform { slot } => {
                if let State::Module { m, transformed, scopes, src } = self.slot(*slot) {
                    if *transformed {
                        return;
                    }
                    scopes.clear();
                    *transformed = true;
                    let (mp, src) = (*m, *src);
                    let mut mt = Meter { steps: 0, alloc: 0, stack: 0 };
                    let r = call(&mut mt, sc().srcs[src].text.len() as u64, || unsafe { sut::transform(&mut *mp) });
                    match r {
                        Out::Panicked(p) => self.viol("panic", format!("transform: {}", p)),
                        _ => self.cost(src, "transform".into(), 0, &mt),
                    }
                    if ctx().want_obs {
                        self.record(Obs::default());
                    }
                }
            }
            Op::Wasm { src, which, minify } => self.wasm(*src, *which, *minify),
            Op::Recheck { slot } => {
                let mut bad = None;
                if let State::Module { scopes, .. } = self.slot(*slot) {
                    for held in scopes.iter() {
                        let mut now = String::new();
                        let text = match held {
                            Held::Scope(s, text) => {
                                sut::scope_text(*s, &mut now);
                                text
                            }
                            Held::Nodes(k, text) => {
                                k.text(&mut now);
                                text
                            }
                        };
                        if &now != text {
                            bad = Some(first_difference(text.as_bytes(), now.as_bytes()));
                        }
                    }
                }
                if let Some(b) = bad {
                    self.viol("earlier-result-changed", b);
                }
            }
        }
    }

    fn parse(&mut self, src: usize, slot: usize, buf: Buf) {
        self.clear(slot);
        let s = &sc().srcs[src];
        let mut mt = Meter { steps: 0, alloc: 0, stack: 0 };
        let text: &str = &s.text;
        let mut input = source_buffer(text);
        let r = call(&mut mt, text.len() as u64, || sut::parse(input.get(ahead().len()..).unwrap_or("")));
        match buf {
            Buf::Keep => {}
            Buf::Free => fired("source_buffer_released"),
            Buf::Scribble => {
                fired("source_buffer_overwritten");
                for b in unsafe { input.as_bytes_mut() } {
                    *b = b'#';
                }
            }
        }
        let keep = if buf == Buf::Keep { Some(input) } else {
            drop(input);
            None
        };
        match r {
            Out::Done(Ok(m)) => {
                let mut p: *mut sut::Mod = std::ptr::null_mut();
                {
                    let pp = &mut p;
                    call(&mut Meter { steps: 0, alloc: 0, stack: 0 }, 0, move || *pp = Box::into_raw(Box::new(m)));
                }
                let ranges = unsafe { sut::body_ranges(&*p) };
                let text = parse_text(&Ok(ranges));
                *self.slot(slot) = State::Module { m: p, src, transformed: false, scopes: Vec::new() };
                self.after_parse(src, slot, text, None, &mt);
            }
            Out::Done(Err(list)) => {
                let text = parse_text(&Err(&list));
                let lp = &list as *const Vec<sut::Error>;
                self.after_parse(src, slot, text, Some(unsafe { &*lp }), &mt);
                *self.slot(slot) = State::Errors { list, src };
            }
            Out::Cancelled => self.viol("panic", "parse: unexpected unwinding".into()),
            Out::Panicked(p) => {
                if self.reference(src).map_or(true, |r| r.parse.is_some()) {
                    self.viol("panic", format!("parse: {}", p));
                }
                self.record(Obs { state: 1, text: p.into_bytes(), ..Default::default() });
            }
        }
        drop(keep);
    }

    fn after_parse(&mut self, src: usize, slot: usize, text: Vec<u8>, errs: Option<&Vec<sut::Error>>, mt: &Meter) {
        let s = &sc().srcs[src];
        if let Some(Some(r)) = self.reference(src).map(|r| r.parse.as_ref()) {
            if r.text != text {
                self.viol("different-result", format!("parse of source {}: {}", src, first_difference(&r.text, &text)));
            }
        }
        self.cost(src, "parse".into(), errs.map_or(0, |l| l.iter().map(|e| e.raw.len() as u64 + 32).sum()), mt);
        self.record(Obs { state: 0, text, calls: 0, steps: mt.steps, alloc: mt.alloc, stack: mt.stack });
        if prop() == "C05" && errs.is_none() {
            if let Some(why) = &s.must_fail {
                self.viol("accepted", format!("accepted without an error although {}", why));
            }
        }
        if prop() == "C05" && errs.is_none() {
            if let (Some(n), State::Module { m, .. }) = (s.count, self.slot(slot)) {
                let got = unsafe { sut::body_ranges(&**m) }.len();
                // an empty statement more is no loss
                if got < n as usize {
                    self.viol("dropped", format!("a program of {} statements became a module of {}", n, got));
                }
            }
        }
        if prop() == "C04" {
            if let Some(list) = errs {
                if list.is_empty() {
                    self.viol("no-errors", "rejected with an empty list of errors".into());
                }
                for (i, e) in list.iter().enumerate() {
                    let n = s.text.len();
                    if e.start > e.end || e.end > n {
                        self.viol("bad-position", format!("error {} at {}..{} of a source of {} bytes", i, e.start, e.end, n));
                    } else if !s.text.is_char_boundary(e.start) || !s.text.is_char_boundary(e.end) {
                        self.viol("bad-position", format!("error {} at {}..{} is not on character boundaries", i, e.start, e.end));
                    } else if std::str::from_utf8(e.raw.as_bytes()).is_err() || s.text[e.start..e.end] != *e.raw {
                        self.viol("bad-quote", format!("error {} at {}..{} quotes {:?} where the source has {:?}", i, e.start, e.end, clip(e.raw.as_bytes()), &s.text[e.start..e.end]));
                    } else {
                        continue;
                    }
                    break;
                }
            }
        }
    }

    fn wasm(&mut self, src: usize, which: u8, minify: bool) {
        let expect = match self.reference(src) {
            Some(r) => match r.wasm.get(&(which, minify)) {
                Some(o) => Some(o),
                None => {
                    unsafe { OPS_SKIPPED += 1 };
                    return;
                }
            },
            None => None,
        };
        let text: &str = &sc().srcs[src].text;
        let mut mt = Meter { steps: 0, alloc: 0, stack: 0 };
        let input = source_buffer(text);
        // a rejected source is searched from its start for each of the errors, of which there may be
        // several for each of its tokens
        let n = text.len() as u64;
        match call(&mut mt, n + n * n.min(20_000) / 25, || sut::wasm(which, input.get(ahead().len()..).unwrap_or(""), minify)) {
            Out::Done(s) => {
                if let Some(o) = expect {
                    if o.text != s.as_bytes() {
                        self.viol("different-result", format!("string entry point {}: {}", which, first_difference(&o.text, s.as_bytes())));
                    }
                }
                if prop() == "C04" && std::str::from_utf8(s.as_bytes()).is_err() {
                    self.viol("bad-text", "string entry point returned text that is not UTF-8".into());
                }
                if !s.starts_with("Error: ") {
                    self.cost(src, format!("wasm{}{}", which, minify), s.len() as u64, &mt);
                }
                self.record(Obs { state: 0, text: s.as_bytes().to_vec(), calls: 0, steps: mt.steps, alloc: mt.alloc, stack: mt.stack });
            }
            Out::Cancelled => {}
            Out::Panicked(p) => {
                self.viol("panic", format!("string entry point {}: {}", which, p));
                self.record(Obs { state: 1, text: p.into_bytes(), ..Default::default() });
            }
        }
    }

    /// A read of any kind; with a fault the sink misbehaves as told.
    fn read(&mut self, slot: usize, what: What, fault: &Fault, _faulty: bool) {
        enum Target {
            M(*mut sut::Mod),
            E(*const sut::Error, usize),
        }
        let (target, src, transformed) = match self.slot(slot) {
            State::Module { m, src, transformed, .. } => match what {
                What::ErrDebug { .. } | What::ErrShow { .. } => return,
                _ => (Target::M(*m), *src, *transformed),
            },
            State::Errors { list, src } => match what {
                What::ErrDebug { i } | What::ErrShow { i } => {
                    if list.is_empty() {
                        return;
                    }
                    let i = i as usize;
                    if i >= list.len() {
                        return;
                    }
                    (Target::E(&list[i], i), *src, false)
                }
                _ => return,
            },
            State::Empty => return,
        };
        let expect = match self.reference(src) {
            Some(r) => match r.reads.get(&(transformed, what)) {
                Some(o) => Some(o),
                None => {
                    unsafe { OPS_SKIPPED += 1 };
                    return;
                }
            },
            None => None,
        };
        let source: &'static str = &sc().srcs[src].text;
        let mut mt = Meter { steps: 0, alloc: 0, stack: 0 };
        let in_len = source.len() as u64 + expect.map_or(0, |o| o.text.len() as u64);
        let at = self.at;
        self.busy.push(slot);
        // results that need no sink
        let mut text: Vec<u8> = Vec::new();
        let mut new_scope: Option<Held> = None;
        let name = format!("{:?}", what);
        let outcome: Out<Result<(), String>>;
        let mut calls = 0;
        let mut hit = false;
        let mut unbalanced = None;
        let mut finished_depth = [0i64; 2];
        match (what, &target) {
            (What::Code { minify }, Target::M(m)) => {
                let m = unsafe { &**m };
                outcome = match call(&mut mt, in_len, || sut::codegen(m, minify)) {
                    Out::Done(s) => {
                        text = s.as_bytes().to_vec();
                        Out::Done(Ok(()))
                    }
                    Out::Cancelled => Out::Cancelled,
                    Out::Panicked(p) => Out::Panicked(p),
                };
            }
            (What::Ranges, Target::M(m)) => {
                text = format!("{:?}", unsafe { sut::body_ranges(&**m) }).into_bytes();
                outcome = Out::Done(Ok(()));
            }
            (What::Analyze, Target::M(m)) => {
                let m: &'static sut::Mod = unsafe { &**m };
                outcome = match call(&mut mt, in_len, || sut::analyze(m)) {
                    Out::Done(s) => {
                        let mut t = String::new();
                        sut::scope_text(s, &mut t);
                        text = t.as_bytes().to_vec();
                        new_scope = Some(Held::Scope(s, t));
                        Out::Done(Ok(()))
                    }
                    Out::Cancelled => Out::Cancelled,
                    Out::Panicked(p) => Out::Panicked(p),
                };
            }
            (What::Nodes, Target::M(m)) => {
                let m: &'static sut::Mod = unsafe { &**m };
                let mut kept = Box::new(sut::visit::Kept::new());
                let kp: *mut sut::visit::Kept = &mut *kept;
                outcome = match call(&mut mt, in_len, || unsafe { sut::visit::keep(m, &mut *kp) }) {
                    Out::Done(()) => {
                        let mut t = String::new();
                        kept.text(&mut t);
                        text = t.as_bytes().to_vec();
                        new_scope = Some(Held::Nodes(kept, t));
                        Out::Done(Ok(()))
                    }
                    Out::Cancelled => Out::Cancelled,
                    Out::Panicked(p) => Out::Panicked(p),
                };
            }
            _ => {
                let mut sink = Sink::new(self, fault, what);
                let sp: *mut Sink = &mut sink;
                let r = match (what, &target) {
                    (What::Gen, Target::M(m)) => {
                        let m = unsafe { &**m };
                        match call(&mut mt, in_len, || unsafe { sut::generate(m, &mut *sp) }) {
                            Out::Done(()) => Out::Done(Ok(())),
                            Out::Cancelled => Out::Cancelled,
                            Out::Panicked(p) => Out::Panicked(p),
                        }
                    }
                    (What::Visit, Target::M(m)) => {
                        let m: &'static sut::Mod = unsafe { &**m };
                        match call(&mut mt, in_len, || unsafe { sut::visit::visit(m, &mut *sp) }) {
                            Out::Done(()) => Out::Done(Ok(())),
                            Out::Cancelled => Out::Cancelled,
                            Out::Panicked(p) => Out::Panicked(p),
                        }
                    }
                    (What::Json { pretty }, Target::M(m)) => {
                        let m = unsafe { &**m };
                        match call(&mut mt, in_len, || unsafe { sut::json_write(m, &mut *sp, pretty) }) {
                            Out::Done(Ok(())) => Out::Done(Ok(())),
                            Out::Done(Err(e)) => Out::Done(Err(format!("{:?}", e.io_error_kind()))),
                            Out::Cancelled => Out::Cancelled,
                            Out::Panicked(p) => Out::Panicked(p),
                        }
                    }
                    (What::Events, Target::M(m)) => {
                        let m = unsafe { &**m };
                        match call(&mut mt, in_len, || unsafe { sut::events::serialize_events(m, &mut *sp) }) {
                            Out::Done(Ok(())) => Out::Done(Ok(())),
                            Out::Done(Err(e)) => Out::Done(Err(format!("{:?}", e))),
                            Out::Cancelled => Out::Cancelled,
                            Out::Panicked(p) => Out::Panicked(p),
                        }
                    }
                    (What::Debug { alt, body }, Target::M(m)) => {
                        let m = unsafe { &**m };
                        match call(&mut mt, in_len, || unsafe { sut::debug(m, &mut *sp, alt, body) }) {
                            Out::Done(Ok(())) => Out::Done(Ok(())),
                            Out::Done(Err(_)) => Out::Done(Err("fmt::Error".into())),
                            Out::Cancelled => Out::Cancelled,
                            Out::Panicked(p) => Out::Panicked(p),
                        }
                    }
                    (What::ErrDebug { .. }, Target::E(e, _)) => {
                        let e = unsafe { &**e };
                        match call(&mut mt, in_len, || unsafe { sut::debug_error(e, &mut *sp) }) {
                            Out::Done(Ok(())) => Out::Done(Ok(())),
                            Out::Done(Err(_)) => Out::Done(Err("fmt::Error".into())),
                            Out::Cancelled => Out::Cancelled,
                            Out::Panicked(p) => Out::Panicked(p),
                        }
                    }
                    (What::ErrShow { .. }, Target::E(e, _)) => {
                        let e = unsafe { &**e };
                        match call(&mut mt, in_len, || unsafe { sut::display_error(e, source, &mut *sp) }) {
                            Out::Done(Ok(())) => Out::Done(Ok(())),
                            Out::Done(Err(_)) => Out::Done(Err("fmt::Error".into())),
                            Out::Cancelled => Out::Cancelled,
                            Out::Panicked(p) => Out::Panicked(p),
                        }
                    }
                    _ => unreachable!(),
                };
                calls = sink.calls;
                hit = sink.hit;
                unbalanced = sink.unbalanced.take();
                finished_depth = sink.depth;
                text = std::mem::take(&mut sink.before);
                outcome = r;
            }
        }
        self.at = at;
        self.busy.pop();

        // ---------------------------------------------------------------- judgement
        let balance_prop = match what {
            What::Visit => prop() == "C09",
            What::Gen => prop() == "C08",
            _ => false,
        };
        if balance_prop {
            if let Some(u) = unbalanced {
                self.viol("unbalanced", u);
            } else if matches!(outcome, Out::Done(_)) && finished_depth != [0, 0] {
                self.viol("unbalanced", format!("{}: {:?} left open at the end", name, finished_depth));
            }
        }
        let complete = |t: &Vec<u8>| expect.map_or(true, |o| &o.text == t);
        match &outcome {
            Out::Panicked(p) => {
                self.viol("panic", format!("{} ({}): {}", name, fault.name(), p));
            }
            Out::Cancelled => {
                if let Some(o) = expect {
                    if !o.text.starts_with(&text) {
                        self.viol("not-a-prefix", format!("{} cut off at sink call {}: {}", name, calls, first_difference(&o.text, &text)));
                    }
                }
            }
            Out::Done(Ok(())) => match fault {
                Fault::ErrOnce { .. } | Fault::ErrForever { .. } if hit => {
                    self.viol("failure-swallowed", format!("{}: sink call failed ({}), yet the operation reported success", name, fault.name()));
                }
                Fault::Full { .. } if hit => {
                    self.viol("failure-swallowed", format!("{}: sink was full, yet the operation reported success", name));
                }
                Fault::Cancel { .. } if hit => {
                    self.viol("failure-swallowed", format!("{}: unwinding out of the sink was swallowed", name));
                }
                _ => {
                    if !complete(&text) {
                        self.viol("different-result", format!("{} ({}): {}", name, fault.name(), first_difference(&expect.unwrap().text, &text)));
                    }
                }
            },
            Out::Done(Err(e)) => match fault {
                Fault::ErrOnce { kind, .. } | Fault::ErrForever { kind, .. } if hit => {
                    if let Some(o) = expect {
                        if !o.text.starts_with(&text) {
                            self.viol("not-a-prefix", format!("{}: {}", name, first_difference(&o.text, &text)));
                        }
                    }
                    if let What::Json { .. } = what {
                        let want = format!("{:?}", Some(io_kind(*kind)));
                        if e != &want {
                            self.viol("wrong-error", format!("{}: sink failed with {} but {} was reported", name, want, e));
                        }
                    }
                }
                Fault::Full { .. } if hit => {
                    if let Some(o) = expect {
                        if !o.text.starts_with(&text) {
                            self.viol("not-a-prefix", format!("{}: {}", name, first_difference(&o.text, &text)));
                        }
                    }
                }
                _ => {
                    self.viol("spurious-error", format!("{} failed with {} although the sink did not ({})", name, e, fault.name()));
                }
            },
        }
        if prop() == "C05" && matches!(outcome, Out::Done(Ok(()))) && matches!(what, What::Debug { alt: false, body: true }) {
            let dump = String::from_utf8_lossy(&text).into_owned();
            let s = &sc().srcs[src];
            let there = if s.marks.len() > 40 { names(&dump) } else { Default::default() };
            if let Some(lost) = s.marks.iter().find(|m| there.binary_search(&m.as_str()).is_err() && !dump.contains(m.as_str())) {
                self.viol("dropped", format!("the program was accepted, but {:?} is missing from the module", lost));
            }
        }
        if let Some(s) = new_scope {
            if let State::Module { scopes, .. } = self.slot(slot) {
                if scopes.len() < 8 {
                    scopes.push(s);
                }
            }
        }
        if matches!(outcome, Out::Done(Ok(()))) && matches!(fault, Fault::None) {
            self.cost(src, format!("{}{}", if transformed { "transformed " } else { "" }, name), text.len() as u64, &mt);
            if let What::Json { pretty: false } = what {
                unsafe { DEPTH.insert(src, depth(&text) + brackets(sc().srcs[src].text.as_bytes())) };
            }
        }
        let state = if let Out::Panicked(_) = outcome { 1 } else { 0 };
        self.record(Obs { state, text, calls, steps: mt.steps, alloc: mt.alloc, stack: mt.stack });
    }
}

/// The unique names (`mk12q`) in a text.
fn names(t: &str) -> Vec<&str> {
    let b = t.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'm' && b[i + 1] == b'k' {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j < b.len() && b[j] == b'q' {
                v.push(&t[i..=j]);
                i = j;
            }
        }
        i += 1;
    }
    v.sort();
    v.dedup();
    v
}

pub const COST_CLASSES: [&str; 4] = ["too-many-steps", "too-much-memory", "super-linear", "deep-stack"];
pub const STEP_CONST: u64 = 20_000;
pub const STEP_FACTOR: u64 = 120;
pub const ALLOC_CONST: u64 = 400_000;
pub const ALLOC_FACTOR: u64 = 400;

fn note_live() {
    unsafe { LIVE_AFTER.push((heap::LIVE_BLOCKS, heap::LIVE_BYTES)) };
}

const BOXES_LEN: usize = 4;
/// Errors on their way from one caller to another.
static mut BOXES: [State; BOXES_LEN] = [State::Empty, State::Empty, State::Empty, State::Empty];

fn run_caller(tid: usize) {
    let s = sc();
    let mut c = Caller { tid, slots: Vec::new(), at: 0, nested: 0, busy: Vec::new() };
    for pass in 0..s.repeat.max(1) {
        if s.metered && pass > 0 {
            // what is set up once per process is no cost of these operations
            unsafe {
                COSTS.clear();
                VIOLS.retain(|v| !COST_CLASSES.contains(&v.class.as_str()));
            }
        }
        for (i, op) in s.threads[tid].iter().enumerate() {
            c.at = i;
            unsafe { (*sim::SLOT).cur_op[tid] = i as u32 };
            c.run_op(op);
        }
        for i in 0..c.slots.len() {
            c.clear(i);
        }
        if sim::last() {
            // nobody will take them any more
            for i in 0..BOXES_LEN {
                unsafe { std::mem::swap(c.slot(i), &mut *(&raw mut BOXES[i])) };
                c.clear(i);
            }
        }
        unsafe {
            heap::check_all();
            if !(s.env.ends && s.threads.len() > 1) {
                note_live();
            }
        }
    }
}

/// How deep the objects and lists of a JSON text are inside one another.
fn depth(json: &[u8]) -> u64 {
    let (mut d, mut max, mut i) = (0u64, 0u64, 0);
    while i < json.len() {
        match json[i] {
            b'{' | b'[' => {
                d += 1;
                max = max.max(d);
            }
            b'}' | b']' => d = d.saturating_sub(1),
            b'"' => {
                i += 1;
                while i < json.len() && json[i] != b'"' {
                    i += 1 + (json[i] == b'\\') as usize;
                }
            }
            _ => {}
        }
        i += 1;
    }
    max
}

/// How many brackets are open at most, wherever they stand: parentheses leave no trace in the tree.
fn brackets(text: &[u8]) -> u64 {
    let (mut d, mut max) = (0i64, 0);
    for b in text {
        match b {
            b'(' | b'[' | b'{' => d += 1,
            b')' | b']' | b'}' => d -= 1,
            _ => {}
        }
        max = max.max(d);
    }
    max as u64
}

/// Depth of the tree and of the brackets of each source, where its serialisation was complete.
static mut DEPTH: BTreeMap<usize, u64> = BTreeMap::new();
/// Stack an operation may use per level of the tree, and regardless of it.
pub const STACK_PER_LEVEL: u64 = 6000;
pub const STACK_SLACK: u64 = 6000;

/// Callers have finite stacks: what is used of them may grow with the depth of a program, not with
/// its length.
fn judge_stack(what: &str, a: &Cost, c: &Cost) {
    unsafe {
        let (Some(&da), Some(&dc)) = (DEPTH.get(&a.src), DEPTH.get(&c.src)) else { return };
        let more = c.stack.saturating_sub(a.stack);
        if std::env::var_os("DST_STACK").is_some() && more > 1000 {
            println!("stack {} {} {} {} per level {} {:.60}", what, more, da, dc, more / dc.saturating_sub(da).max(1), sc().srcs[a.src].text);
        }
        if more > STACK_PER_LEVEL * dc.saturating_sub(da) + STACK_SLACK {
            VIOLS.push(Viol {
                class: "deep-stack".into(),
                detail: format!(
                    "{} used {} bytes of stack for {} bytes, but {} for {}, while the depth went from {} to {}",
                    what, a.stack, a.input, c.stack, c.input, da, dc
                ),
                thread: 0,
                op: 0,
            });
        }
    }
}

/// The same construct n, 3n and 9n times: the cost of a further byte must not grow with the number
/// of bytes before it. Steps and memory are compared as slopes, so fixed costs do not matter.
fn judge_growth() {
    unsafe {
        if sc().family != "growth" {
            return;
        }
        let mut by: BTreeMap<(&str, usize), [Option<&Cost>; 3]> = BTreeMap::new();
        let mut seen: BTreeMap<(usize, &str), usize> = BTreeMap::new();
        for c in COSTS.iter().filter(|c| c.src < 3) {
            let k = seen.entry((c.src, &c.what)).or_insert(0);
            by.entry((&c.what, *k)).or_default()[c.src] = Some(c);
            *k += 1;
        }
        for ((what, _), v) in by {
            let [Some(a), Some(b), Some(c)] = v else { continue };
            judge_stack(what, a, c);
            let size = |x: &Cost| x.input as i64 + x.output as i64;
            let (d1, d2) = (size(b) - size(a), size(c) - size(b));
            if d1 <= 0 || d2 <= 0 {
                continue;
            }
            for (name, ya, yb, yc, least, slack) in
                [("steps", a.steps, b.steps, c.steps, 1.0, 3000.0), ("bytes of memory", a.alloc, b.alloc, c.alloc, 4.0, 300_000.0)]
            {
                let s1 = ((yb as f64 - ya as f64) / d1 as f64).max(least);
                let more = yc as f64 - yb as f64;
                if more > s1 * d2 as f64 * GROWTH + slack {
                    VIOLS.push(Viol {
                        class: "super-linear".into(),
                        detail: format!(
                            "{}: {} -> {} -> {} {} while input and output together grew {} -> {} -> {} bytes",
                            what, ya, yb, yc, name, size(a), size(b), size(c)
                        ),
                        thread: 0,
                        op: 0,
                    });
                }
                if name == "steps" {
                    let r = more / (s1 * d2 as f64);
                    if r > WORST_GROWTH.0 {
                        WORST_GROWTH = (r, what.to_string());
                    }
                }
            }
        }
    }
}

/// Quadratic work has three times the slope between 3n and 9n that it has between n and 3n.
pub const GROWTH: f64 = 1.4;
pub static mut WORST_GROWTH: (f64, String) = (0.0, String::new());

fn judge_leaks() {
    unsafe {
        let s = sc();
        // a history repeated by one thread, or by threads that come and go
        let together = s.threads.len() > 1 && s.env.ends && s.family == "leak-threads";
        if s.prop != "C10" || !(s.repeat >= 4 && s.threads.len() == 1 || together) {
            return;
        }
        let l = &LIVE_AFTER;
        let n = l.len();
        if n < 4 {
            return;
        }
        // growth in the first half and in the second half of the repetitions, warm-up aside
        let more = |a: (u64, u64), b: (u64, u64)| b.0 > a.0 || b.1 > a.1;
        let mid = 1 + (n - 1) / 2;
        let grows = more(l[1], l[mid]) && more(l[mid], l[n - 1]);
        if grows {
            VIOLS.push(Viol {
                class: "leak".into(),
                detail: format!("live memory after each repetition of the same history: {:?} (blocks, bytes)", l),
                thread: 0,
                op: 0,
            });
        }
    }
}

fn heap_cfg(e: &Env) -> HeapCfg {
    let fill = match e.fill.split(':').next().unwrap() {
        "zero" => Fill::Zero,
        "random" => Fill::Random,
        "stale" => Fill::Stale,
        "byte" => Fill::Byte(e.fill[5..].parse().unwrap_or(0)),
        "text" => Fill::Text(e.fill[5..].parse().unwrap_or(0)),
        _ => Fill::Zero,
    };
    let reuse = match e.reuse.as_str() {
        "lifo" => Reuse::Lifo,
        "fifo" => Reuse::Fifo,
        _ => Reuse::Never,
    };
    HeapCfg {
        fill,
        poison: e.poison,
        reuse,
        base: e.base,
        gaps: e.gaps,
        fence: e.fence,
        seed: e.seed,
        fail_at: if e.fail_at == 0 { u64::MAX } else { e.fail_at },
        edge: e.edge,
    }
}

#[derive(serde::Serialize, serde::Deserialize, Default, Clone, Debug)]
pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub sites: Vec<u32>,
    pub fired: BTreeMap<String, u64>,
    pub ops: u64,
    pub skipped: u64,
    pub allocs: u64,
    pub os_calls: [u64; 6],
    pub digest: u64,
    pub max_steps_per_byte: f64,
    pub max_alloc_per_byte: f64,
    pub stack: u64,
}

/// The whole life of the child process.
pub unsafe fn child_main(sc: &Scenario, refs: Vec<Arc<Ref>>, have_refs: bool, want_obs: bool) -> ! {
    // whatever the process that forked this one has done
    sim::STEP = 0;
    let e = &sc.env;
    heap::configure(heap_cfg(e));
    sim::CLOCK_BASE = e.clock.wrapping_mul(1_000_000_000);
    sim::CLOCK_JUMPS = e.clock_jumps;
    sim::ENV_MODE = e.env_mode;
    sim::RNG_SEED = e.seed;
    sim::SLICES = sc.slices.clone();
    sim::END_THREADS = e.ends;
    if e.ends && sc.threads.len() > 1 {
        sim::ENDED = Some(note_live);
    }
    sim::mark_sites(&sc.sites);
    sim::PREEMPT_SITES = Vec::with_capacity(4096);
    VIOLS = Vec::with_capacity(32);
    LIVE_AFTER = Vec::with_capacity(64);
    let multi = sc.threads.len() > 1;
    // an upper bound for everything together; single callers get one per operation
    let mut total: u64 = 20_000_000;
    if have_refs {
        for r in &refs {
            let per: u64 = r.reads.values().map(|o| o.steps).sum::<u64>() + r.wasm.values().map(|o| o.steps).sum::<u64>() + r.parse.as_ref().map_or(0, |o| o.steps);
            total += per * 40;
        }
    }
    CTX = Some(Ctx { sc, refs, have_refs, want_obs, per_op_budget: !multi });
    sim::BUDGET_AT = total;
    sim::run_threads(sc.threads.len(), run_caller, e.stack_garbage);
    heap::check_all();
    judge_growth();
    judge_leaks();

    let mut st = RunStats {
        steps: sim::STEP,
        switches: sim::SWITCHES,
        sched_hash: sim::SCHED_HASH,
        ops: OPS_DONE,
        skipped: OPS_SKIPPED,
        allocs: heap::ALLOCS,
        os_calls: sim::OS_CALLS,
        ..Default::default()
    };
    st.sites = sim::PREEMPT_SITES.clone();
    st.sites.sort();
    st.sites.dedup();
    st.fired = FIRED.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    if std::env::var_os("DST_GROWTH").is_some() {
        eprintln!("growth {:?} {:?}", WORST_GROWTH, sc.srcs.first().map(|s| &s.origin));
    }
    for c in COSTS.iter() {
        let sz = (c.input + c.output).max(1) as f64;
        if c.steps > 5000 {
            st.max_steps_per_byte = st.max_steps_per_byte.max(c.steps as f64 / sz);
        }
        if c.alloc > 400_000 {
            st.max_alloc_per_byte = st.max_alloc_per_byte.max(c.alloc as f64 / sz);
        }
        st.stack = st.stack.max(c.stack);
    }
    let mut h: u64 = 0xcbf29ce484222325;
    for v in VIOLS.iter() {
        for b in v.class.bytes().chain(v.detail.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    for x in [sim::STEP, sim::SWITCHES, sim::SCHED_HASH, heap::ALLOCS, heap::ALLOC_BYTES, heap::LIVE_BYTES, OPS_DONE] {
        h = (h ^ x).wrapping_mul(0x100000001b3);
    }
    st.digest = h;

    let head = serde_json::to_vec(&(&VIOLS, &st)).unwrap();
    let mut out: Vec<u8> = Vec::new();
    out.extend_from_slice(&(head.len() as u64).to_le_bytes());
    out.extend_from_slice(&head);
    for o in OBS.iter() {
        out.push(o.state);
        out.extend_from_slice(&o.calls.to_le_bytes());
        out.extend_from_slice(&o.steps.to_le_bytes());
        out.extend_from_slice(&o.alloc.to_le_bytes());
        out.extend_from_slice(&o.stack.to_le_bytes());
        out.extend_from_slice(&(o.text.len() as u64).to_le_bytes());
        out.extend_from_slice(&o.text);
    }
    if out.len() > sim::OUT_CAP {
        sim::die(sim::V_HARNESS, "output area too small");
    }
    std::ptr::copy_nonoverlapping(out.as_ptr(), sim::OUT, out.len());
    (*sim::SLOT).out_len = out.len() as u64;
    (*sim::SLOT).steps = sim::STEP;
    (*sim::SLOT).verdict = sim::V_DONE;
    libc::_exit(0)
}
