//! Executes scenarios, each in a freshly forked process, and keeps the books.
#![allow(static_mut_refs)]

use crate::exec::{self, Obs, Ref, RunStats};
use crate::scen::*;
use crate::sim;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub stats: RunStats,
    pub obs: Vec<Obs>,
    pub died: bool,
    pub alloc_failed: bool,
    pub harness: Option<String>,
}

impl Outcome {
    pub fn digest(&self) -> u64 {
        let mut h = self.stats.digest;
        for v in &self.viols {
            h = fnv(h, v.class.as_bytes());
            h = fnv(h, v.detail.as_bytes());
        }
        fnv(h, &[self.died as u8, self.alloc_failed as u8])
    }
}

pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub unsafe fn shared(len: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        eprintln!("dst: cannot map shared memory");
        std::process::exit(2);
    }
    p as *mut u8
}

const OUT_CAP: usize = 256 << 20;

#[derive(Default, Clone, serde::Serialize, serde::Deserialize)]
pub struct Book {
    pub runs: u64,
    pub ref_runs: u64,
    pub epochs: u64,
    pub steps: u64,
    pub ops: u64,
    pub skipped: u64,
    pub allocs: u64,
    pub switches: u64,
    pub families: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub os_calls: [u64; 6],
    pub distinct: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub sites: BTreeSet<u32>,
    pub sources: HashSet<u64>,
    pub accepted: u64,
    pub rejected: u64,
    pub unclean: BTreeMap<String, u64>,
    pub max_steps_per_byte: f64,
    pub max_alloc_per_byte: f64,
    pub max_stack: u64,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub edges: BTreeSet<u32>,
    pub digest: u64,
    pub found: Vec<Found>,
    pub harness: Vec<String>,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Found {
    pub sc: Scenario,
    pub viol: Viol,
}

impl Book {
    pub fn merge(&mut self, o: Book) {
        self.runs += o.runs;
        self.ref_runs += o.ref_runs;
        self.epochs += o.epochs;
        self.steps += o.steps;
        self.ops += o.ops;
        self.skipped += o.skipped;
        self.allocs += o.allocs;
        self.switches += o.switches;
        for (k, v) in o.families {
            *self.families.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.fired {
            *self.fired.entry(k).or_insert(0) += v;
        }
        for i in 0..6 {
            self.os_calls[i] += o.os_calls[i];
        }
        self.distinct.extend(o.distinct);
        self.schedules.extend(o.schedules);
        self.sites.extend(o.sites);
        self.sources.extend(o.sources);
        self.accepted += o.accepted;
        self.rejected += o.rejected;
        for (k, v) in o.unclean {
            *self.unclean.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.max_steps_per_byte = self.max_steps_per_byte.max(o.max_steps_per_byte);
        self.max_alloc_per_byte = self.max_alloc_per_byte.max(o.max_alloc_per_byte);
        self.max_stack = self.max_stack.max(o.max_stack);
        self.samples.extend(o.samples);
        self.edges.extend(o.edges);
        self.digest ^= o.digest;
        self.found.extend(o.found);
        self.harness.extend(o.harness);
    }
}

pub struct Worker {
    pub prop: String,
    pub book: Book,
    cache: HashMap<String, Ref>,
    /// set while minimising or replaying: nothing is counted
    pub quiet: bool,
    /// lowest epoch in which some worker found a violation
    pub stop: *const std::sync::atomic::AtomicU32,
    pub epoch: u64,
}

/// Properties judged against the result the same operation has alone in a fresh process.
pub fn uses_refs(prop: &str) -> bool {
    !matches!(prop, "C03" | "C04" | "C05")
}

fn with_refs(sc: &Scenario) -> bool {
    uses_refs(&sc.prop) && sc.family != "alone"
}

/// What breaks a property even when an operation is run alone in a fresh process.
fn breaks_alone(prop: &str, v: &Viol) -> bool {
    match prop {
        "C10" => v.class == "heap" || (v.class == "crash" && (v.detail.starts_with("SIGSEGV") || v.detail.starts_with("SIGBUS"))),
        "C06" | "C07" => v.class == "spurious-error",
        _ => false,
    }
}

/// Which ways of failing break which property.
fn counts(prop: &str, class: &str) -> bool {
    match prop {
        "C03" => matches!(class, "hang" | "too-many-steps" | "too-much-memory" | "super-linear" | "deep-stack" | "memory-exhausted"),
        "C04" => !matches!(class, "too-many-steps" | "too-much-memory" | "super-linear" | "deep-stack"),
        "C05" => matches!(class, "accepted" | "dropped"),
        _ => true,
    }
}

impl Worker {
    pub fn new(prop: &str) -> Worker {
        unsafe {
            sim::SLOT = shared(std::mem::size_of::<sim::Slot>()) as *mut sim::Slot;
            sim::OUT = shared(OUT_CAP);
            sim::OUT_CAP = OUT_CAP;
            let cov = shared(sim::MAX_EDGES);
            sim::COV = cov;
        }
        Worker { prop: prop.into(), book: Book::default(), cache: HashMap::new(), quiet: false, stop: std::ptr::null(), epoch: 0 }
    }

    pub fn stopped(&self) -> bool {
        unsafe { !self.stop.is_null() && ((*self.stop).load(std::sync::atomic::Ordering::Relaxed) as u64) < self.epoch }
    }

    /// One process, one execution.
    pub fn exec(&mut self, sc: &Scenario, refs: &[Arc<Ref>], have_refs: bool, want_obs: bool) -> Outcome {
        let t0 = std::time::Instant::now();
        let o = self.exec_(sc, refs, have_refs, want_obs);
        if std::env::var_os("DST_SLOW").is_some() && t0.elapsed().as_millis() > 200 {
            println!("slow {:?} {} epoch {} run {} repeat {} steps {} {:?}", t0.elapsed(), sc.family, sc.epoch, sc.run, sc.repeat, o.stats.steps, sc.threads[0].iter().take(4).collect::<Vec<_>>());
            println!("     {:?}", sc.srcs.iter().map(|s| (s.text.len(), &s.origin)).collect::<Vec<_>>());
        }
        o
    }

    fn exec_(&mut self, sc: &Scenario, refs: &[Arc<Ref>], have_refs: bool, want_obs: bool) -> Outcome {
        unsafe {
            *sim::SLOT = std::mem::zeroed();
            let pid = libc::fork();
            if pid == 0 {
                sim::watch_progress();
                exec::child_main(sc, refs.to_vec(), have_refs, want_obs);
            }
            if pid < 0 {
                return broken("fork failed");
            }
            let mut st = 0;
            let mut used: libc::rusage = std::mem::zeroed();
            while libc::wait4(pid, &mut st, 0, &mut used) < 0 {}
            let cpu = used.ru_utime.tv_sec + used.ru_stime.tv_sec;
            let s = &*sim::SLOT;
            let mut o = Outcome { viols: vec![], stats: RunStats::default(), obs: vec![], died: true, alloc_failed: s.alloc_failed != 0, harness: None };
            o.stats.steps = s.steps;
            let msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned();
            let th = s.cur_thread as usize;
            let op = s.cur_op.get(th).copied().unwrap_or(0) as usize;
            let mut v = |class: &str, detail: String| o.viols.push(Viol { class: class.into(), detail, thread: th, op });
            match s.verdict {
                sim::V_DONE => {
                    let out = std::slice::from_raw_parts(sim::OUT, s.out_len as usize);
                    let n = u64::from_le_bytes(out[..8].try_into().unwrap()) as usize;
                    match serde_json::from_slice::<(Vec<Viol>, RunStats)>(&out[8..8 + n]) {
                        Ok((viols, stats)) => {
                            o.viols = viols;
                            o.stats = stats;
                        }
                        Err(e) => return broken(&format!("unreadable result: {}", e)),
                    }
                    o.obs = read_obs(&out[8 + n..]);
                    o.died = false;
                }
                sim::V_HANG => v("hang", "the operation did not end within its step budget".into()),
                sim::V_SIGNAL => {
                    let name = match s.sig as i32 {
                        libc::SIGSEGV => "SIGSEGV",
                        libc::SIGBUS => "SIGBUS",
                        libc::SIGABRT => "SIGABRT",
                        libc::SIGILL => "SIGILL",
                        libc::SIGFPE => "SIGFPE",
                        _ => "signal",
                    };
                    if s.sig as i32 == libc::SIGABRT && s.alloc_failed != 0 {
                        // stopping is what the language does when memory runs out
                    } else {
                        let addr = if s.sig as i32 == libc::SIGABRT { String::new() } else { format!(" at address {:#x}", s.fault_addr) };
                        v("crash", format!("{}{}", name, addr))
                    }
                }
                sim::V_STACK => v("stack-overflow", "the caller's stack was used up".into()),
                sim::V_DEADLOCK => v("deadlock", msg),
                sim::V_MEMORY => v("memory-exhausted", msg),
                sim::V_HEAP => v("heap", msg),
                sim::V_HARNESS => return broken(&msg),
                _ => {
                    if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM && cpu >= 5 {
                        return broken("a simulated process got too little processor time");
                    } else if libc::WIFSIGNALED(st) && [libc::SIGALRM, libc::SIGPROF].contains(&libc::WTERMSIG(st)) {
                        v("hang", "the operation did not end (no control-flow edge of the code under test was executed any more)".into())
                    } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL {
                        return broken("a simulated process was killed from outside");
                    } else {
                        v("crash", format!("the process ended on its own (status {:#x})", st))
                    }
                }
            }
            if o.died {
                o.stats.digest = fnv(s.steps, &[s.verdict as u8, s.sig as u8]);
            }
            o
        }
    }

    fn single(&mut self, src: &Src, ops: Vec<Op>) -> (Scenario, Outcome) {
        let sc = Scenario {
            prop: "REF".into(),
            family: "reference".into(),
            seed: 0,
            epoch: 0,
            run: 0,
            env: Env::canonical(),
            srcs: vec![Src { text: src.text.clone(), origin: String::new(), must_fail: None, count: None, marks: vec![] }],
            threads: vec![ops],
            slices: vec![],
            sites: vec![],
            repeat: 1,
            metered: false,
        };
        if !self.quiet {
            self.book.ref_runs += 1;
        }
        let o = self.exec(&sc, &[], false, true);
        (sc, o)
    }

    fn unclean(&mut self, r: &mut Ref, what: String, mut sc: Scenario, o: &Outcome) {
        let why = o.viols.first().map(|v| format!("{}: {}", v.class, v.detail)).unwrap_or_else(|| "no result".into());
        if !self.quiet {
            let key: String = why.chars().take(120).collect();
            *self.book.unclean.entry(key).or_insert(0) += 1;
        }
        r.unclean.push(format!("{}: {}", what, why));
        // some failures break the property at hand even without company or faults
        let Some(v) = o.viols.iter().find(|v| breaks_alone(&self.prop, v)) else { return };
        if !self.quiet {
            sc.prop = self.prop.clone();
            sc.family = "alone".into();
            sc.epoch = self.epoch;
            if crate::known::matching(&sc, v).is_none() {
                self.book.found.push(Found { sc, viol: v.clone() });
            }
        }
    }

    /// The results each operation has alone in a fresh process.
    fn reference(&mut self, src: &Src, whats: &BTreeSet<(bool, What)>, wasm: &BTreeSet<(u8, bool)>) -> Arc<Ref> {
        let mut r = self.cache.remove(&src.text).unwrap_or_default();
        let parse = Op::Parse { src: 0, slot: 0, buf: Buf::Keep };
        if r.parse.is_none() && r.unclean.is_empty() {
            let (sc, o) = self.single(src, vec![parse.clone()]);
            if !self.quiet {
                self.book.sources.insert(fnv(0xcbf29ce484222325, src.text.as_bytes()));
            }
            if !o.died && o.viols.is_empty() && o.obs.len() == 1 && o.obs[0].state == 0 {
                let ob = o.obs[0].clone();
                r.ok = ob.text.starts_with(b"ok");
                r.n_err = if r.ok { 0 } else { ob.text.split(|b| *b == b'\n').filter(|l| l.starts_with(b"err ")).count() as u32 };
                r.parse = Some(ob);
                if !self.quiet {
                    if r.ok {
                        self.book.accepted += 1
                    } else {
                        self.book.rejected += 1
                    }
                }
            } else {
                self.unclean(&mut r, "parse".into(), sc, &o);
            }
        }
        if r.parse.is_some() {
            for (tr, w) in whats {
                let is_err = matches!(w, What::ErrDebug { .. } | What::ErrShow { .. });
                if r.ok == is_err || r.reads.contains_key(&(*tr, *w)) || (is_err && *tr) {
                    continue;
                }
                if let What::ErrDebug { i } | What::ErrShow { i } = w {
                    if *i >= r.n_err {
                        continue;
                    }
                }
                let tag = format!("{:?}{}", w, tr);
                if let What::Debug { alt: true, body } = w {
                    // the standard library passes every line of this form through one adapter for
                    // each level of nesting: left out where that alone would take long
                    r = self.with_plain(src, r, *tr, *body);
                    if is_heavy(&r, *tr, *body) {
                        continue;
                    }
                }
                if r.unclean.iter().any(|u| u.starts_with(&tag)) {
                    continue;
                }
                let mut ops = vec![parse.clone()];
                if *tr {
                    ops.push(Op::Transform { slot: 0 });
                }
                ops.push(Op::Read { slot: 0, what: *w });
                let n = ops.len();
                let (sc, o) = self.single(src, ops);
                if !o.died && o.viols.is_empty() && o.obs.len() == n && o.obs[n - 1].state == 0 {
                    r.reads.insert((*tr, *w), o.obs[n - 1].clone());
                } else {
                    self.unclean(&mut r, tag, sc, &o);
                }
            }
        }
        for (which, minify) in wasm {
            if r.wasm.contains_key(&(*which, *minify)) {
                continue;
            }
            if *which == 1 {
                // the same form
                r = self.with_plain(src, r, false, true);
                if is_heavy(&r, false, true) {
                    continue;
                }
            }
            let tag = format!("string entry point {} {}", which, minify);
            if r.unclean.iter().any(|u| u.starts_with(&tag)) {
                continue;
            }
            let (sc, o) = self.single(src, vec![Op::Wasm { src: 0, which: *which, minify: *minify }]);
            if !o.died && o.viols.is_empty() && o.obs.len() == 1 && o.obs[0].state == 0 {
                r.wasm.insert((*which, *minify), o.obs[0].clone());
            } else {
                self.unclean(&mut r, tag, sc, &o);
            }
        }
        self.cache.insert(src.text.clone(), r.clone());
        Arc::new(r)
    }

    /// Makes sure the plain dump is among the reference results.
    fn with_plain(&mut self, src: &Src, r: Ref, transformed: bool, body: bool) -> Ref {
        let set: BTreeSet<(bool, What)> = [(transformed, What::Debug { alt: false, body })].into();
        self.cache.insert(src.text.clone(), r);
        self.reference(src, &set, &BTreeSet::new());
        self.cache.remove(&src.text).unwrap_or_default()
    }

    /// The reference results of one source for the given reads.
    pub fn look(&mut self, src: &Src, whats: &[What], transformed: bool) -> Arc<Ref> {
        if self.cache.len() > 400 {
            self.cache.clear();
        }
        let mut set = BTreeSet::new();
        for w in whats {
            set.insert((transformed, *w));
        }
        self.reference(src, &set, &BTreeSet::new())
    }

    pub fn refs_for(&mut self, sc: &Scenario) -> Vec<Arc<Ref>> {
        if !with_refs(sc) {
            return vec![];
        }
        let mut need = Needs::default();
        for t in &sc.threads {
            collect(t, &mut need);
        }
        let tr: Vec<bool> = if need.transform { vec![false, true] } else { vec![false] };
        let mut v = Vec::new();
        for (i, s) in sc.srcs.iter().enumerate() {
            let mut whats = BTreeSet::new();
            if need.parsed.contains(&i) {
                for w in &need.whats {
                    for t in &tr {
                        whats.insert((*t, *w));
                    }
                }
            }
            let wasm = need.wasm.iter().filter(|(k, _, _)| *k == i).map(|(_, a, b)| (*a, *b)).collect();
            v.push(self.reference(s, &whats, &wasm));
        }
        v
    }

    /// Runs a scenario and judges it; the first violation that matters is returned.
    pub fn judge(&mut self, sc: &Scenario) -> (Outcome, Option<Viol>) {
        let refs = self.refs_for(sc);
        let o = self.exec(sc, &refs, with_refs(sc), false);
        let mut v = o.viols.iter().find(|v| counts(&sc.prop, &v.class)).cloned();
        if sc.metered && sc.repeat == 1 && v.as_ref().map_or(false, |v| exec::COST_CLASSES.contains(&v.class.as_str())) {
            // tables that are filled when they are first needed do not count: it must happen again
            let mut again = sc.clone();
            again.repeat = 2;
            let o2 = self.exec(&again, &refs, with_refs(sc), false);
            if let Some(h) = o2.harness {
                return (Outcome { harness: Some(h), ..o }, v);
            }
            if !o2.viols.iter().any(|w| counts(&sc.prop, &w.class)) {
                v = None;
            }
        }
        (o, v)
    }

    pub fn run(&mut self, sc: Scenario) -> bool {
        if self.stopped() {
            return false;
        }
        let (o, v) = self.judge(&sc);
        if let Some(h) = &o.harness {
            self.book.harness.push(h.clone());
            return false;
        }
        let b = &mut self.book;
        b.runs += 1;
        b.steps += o.stats.steps;
        b.ops += o.stats.ops;
        b.skipped += o.stats.skipped;
        b.allocs += o.stats.allocs;
        b.switches += o.stats.switches;
        *b.families.entry(sc.family.clone()).or_insert(0) += 1;
        for (k, n) in &o.stats.fired {
            *b.fired.entry(k.clone()).or_insert(0) += n;
        }
        if o.alloc_failed {
            *b.fired.entry("allocation_failed".into()).or_insert(0) += 1;
        }
        env_faults(&sc.env, &mut b.fired);
        if o.stats.switches > 0 {
            *b.fired.entry("preemption".into()).or_insert(0) += o.stats.switches;
        }
        for i in 0..6 {
            b.os_calls[i] += o.stats.os_calls[i];
        }
        for s in &sc.srcs {
            b.sources.insert(fnv(0xcbf29ce484222325, s.text.as_bytes()));
        }
        b.max_steps_per_byte = b.max_steps_per_byte.max(o.stats.max_steps_per_byte);
        b.max_alloc_per_byte = b.max_alloc_per_byte.max(o.stats.max_alloc_per_byte);
        b.max_stack = b.max_stack.max(o.stats.stack);
        if sc.threads.len() > 1 && o.stats.switches > 0 {
            let mut h = o.stats.sched_hash;
            for s in &sc.srcs {
                h = fnv(h, s.text.as_bytes());
            }
            b.schedules.insert(h);
            b.sites.extend(o.stats.sites.iter().copied());
        }
        let did = o.stats.ops.saturating_sub(o.stats.skipped);
        if nontrivial(&sc, &o, did) {
            let mut c = sc.clone();
            c.run = 0;
            c.epoch = 0;
            let h = fnv(0xcbf29ce484222325, &serde_json::to_vec(&c).unwrap());
            b.distinct.insert(h);
            if b.samples.len() < 2 && (b.runs % 7 == 3) {
                let mut c = sc.clone();
                for s in &mut c.srcs {
                    if s.text.len() > 300 {
                        s.text = s.text.chars().take(300).collect::<String>() + "...";
                    }
                    s.marks.clear();
                }
                c.slices.truncate(12);
                for t in &mut c.threads {
                    t.truncate(10);
                }
                b.samples.push(serde_json::to_string(&c).unwrap());
            }
        }
        if std::env::var_os("DST_TRACE").is_some() {
            if std::env::var("DST_TRACE").unwrap() == "short" { println!("run {} {} {:016x} {}", sc.epoch, sc.run, o.digest(), o.stats.steps) } else
            {println!("run {} {} {:016x} {}", sc.epoch, sc.run, o.digest(), serde_json::to_string(&sc).unwrap());}
        }
        b.digest ^= fnv(fnv(0x9e3779b97f4a7c15, &sc.epoch.to_le_bytes()) ^ sc.run, &o.digest().to_le_bytes());
        if let Some(v) = v {
            if let Some(k) = crate::known::matching(&sc, &v) {
                *b.known.entry(k).or_insert(0) += 1;
            } else {
                b.found.push(Found { sc, viol: v });
                return false;
            }
        }
        true
    }
}

fn is_heavy(r: &Ref, transformed: bool, body: bool) -> bool {
    r.reads.get(&(transformed, What::Debug { alt: false, body })).map_or(false, |o| heavy(&o.text))
}

fn heavy(dump: &[u8]) -> bool {
    let (mut depth, mut most) = (0usize, 0usize);
    for b in dump {
        match b {
            b'(' | b'[' | b'{' => {
                depth += 1;
                most = most.max(depth);
            }
            b')' | b']' | b'}' => depth = depth.saturating_sub(1),
            _ => {}
        }
    }
    most > 150 || most * most * dump.len() > 40_000_000
}

fn nontrivial(sc: &Scenario, o: &Outcome, did: u64) -> bool {
    let faults: u64 = o.stats.fired.values().sum();
    let noisy = sc.env != Env::canonical();
    match sc.prop.as_str() {
        "C01" => o.stats.switches >= 2 && did >= 2,
        "C02" => did >= 1 && (noisy || did >= 3),
        "C03" | "C04" => did >= 1 && sc.srcs.iter().any(|s| !s.text.is_empty()),
        "C05" => did >= 1,
        "C06" | "C07" | "C08" | "C09" => faults >= 1 && did >= 2,
        "C10" => o.alloc_failed || (did >= 2 && (noisy || faults > 0)),
        _ => did >= 3,
    }
}

fn env_faults(e: &Env, f: &mut BTreeMap<String, u64>) {
    let mut add = |k: &str| *f.entry(k.to_string()).or_insert(0) += 1;
    if e.fill != "zero" {
        add("memory_contents");
    }
    if e.reuse != "never" {
        add("memory_reuse");
    }
    if e.base != 0 || e.gaps {
        add("memory_placement");
    }
    if e.fence {
        add("guard_pages");
    }
    if e.clock_jumps {
        add("clock_jumps");
    }
    if e.env_mode != 0 {
        add("environment_variables");
    }
    if e.tail != 0 {
        add("memory_behind_source");
    }
    if e.edge != crate::heap::CANARY {
        add("memory_around_blocks");
    }
    if e.ends {
        add("threads_end_early");
    }
    if e.lead != 0 {
        add("source_position");
    }
    if e.stack_garbage != 0 {
        add("stack_contents");
    }
    if e.stack_shift != 0 {
        add("stack_position");
    }
}

fn broken(msg: &str) -> Outcome {
    Outcome { viols: vec![], stats: RunStats::default(), obs: vec![], died: true, alloc_failed: false, harness: Some(msg.into()) }
}

#[derive(Default)]
struct Needs {
    whats: BTreeSet<What>,
    parsed: BTreeSet<usize>,
    wasm: BTreeSet<(usize, u8, bool)>,
    transform: bool,
}

fn collect(ops: &[Op], n: &mut Needs) {
    for op in ops {
        match op {
            Op::Parse { src, .. } => {
                n.parsed.insert(*src);
            }
            Op::Read { what, .. } => {
                n.whats.insert(*what);
            }
            Op::Sink { what, fault, .. } => {
                n.whats.insert(*what);
                if let Fault::Nested { ops, .. } = fault {
                    collect(ops, n);
                }
            }
            Op::Transform { .. } => n.transform = true,
            Op::Wasm { src, which, minify } => {
                n.wasm.insert((*src, *which, *minify));
            }
            _ => {}
        }
    }
}

fn read_obs(mut b: &[u8]) -> Vec<Obs> {
    let mut v = Vec::new();
    while !b.is_empty() {
        let state = b[0];
        let calls = u32::from_le_bytes(b[1..5].try_into().unwrap());
        let steps = u64::from_le_bytes(b[5..13].try_into().unwrap());
        let alloc = u64::from_le_bytes(b[13..21].try_into().unwrap());
        let stack = u64::from_le_bytes(b[21..29].try_into().unwrap());
        let n = u64::from_le_bytes(b[29..37].try_into().unwrap()) as usize;
        v.push(Obs { state, text: b[37..37 + n].to_vec(), calls, steps, alloc, stack });
        b = &b[37 + n..];
    }
    v
}
