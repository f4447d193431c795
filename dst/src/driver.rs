//! Searches, reports, replays.
use crate::known;
use crate::minimize;
use crate::props;
use crate::scen::*;
use crate::sim;
use crate::worker::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    detail: String,
    /// execution that found it
    seed: u64,
    epoch: u64,
    run: u64,
    /// fingerprint of the execution: same build, same fingerprint
    digest: u64,
    /// what happens, in words
    trace: Vec<String>,
    scenario: Scenario,
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// Epochs per tier: what a run covers is fixed, the time limit is only a safety net.
fn epochs_of(prop: &str, thorough: bool) -> u64 {
    let (q, t) = match prop {
        "C01" => (2400, 40_000),
        "C02" => (1600, 26_000),
        "C03" => (640, 9_600),
        "C04" => (1400, 22_000),
        "C05" => (4000, 80_000),
        "C06" => (2400, 24_000),
        "C07" => (2400, 24_000),
        "C08" => (3000, 40_000),
        "C09" => (3000, 40_000),
        "C10" => (3000, 30_000),
        "C11" => (2400, 40_000),
        "C12" => (2800, 45_000),
        _ => (0, 0),
    };
    if thorough {
        t
    } else {
        q
    }
}

fn worker_main(prop: &str, seed: u64, deep: bool, w: u64, epochs: u64, end: Instant, flag: *const AtomicU32, out: *mut u8, cap: usize) -> ! {
    let mut wk = Worker::new(prop);
    wk.stop = flag;
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have) == 0 {
            let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &have)).collect();
            if !cpus.is_empty() {
                libc::CPU_SET(cpus[w as usize % cpus.len()], &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
        }
        // what the code under test prints while it dies is of no interest
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if null >= 0 && std::env::var_os("DST_VERBOSE").is_none() {
            libc::dup2(null, 2);
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    // epochs are handed out in order: every one below the last is done or under way
    let next = unsafe { &*(flag.add(16) as *const AtomicU32) };
    loop {
        let e = next.fetch_add(1, Ordering::SeqCst) as u64;
        if e >= epochs || Instant::now() >= end {
            break;
        }
        wk.epoch = e;
        if wk.stopped() {
            break;
        }
        let t = Instant::now();
        props::epoch(&mut wk, prop, seed, e, deep);
        if std::env::var_os("DST_SLOW").is_some() && t.elapsed().as_millis() > 1000 {
            println!("epoch {} took {:?}", e, t.elapsed());
        }
        wk.book.epochs += 1;
        if !wk.book.found.is_empty() {
            unsafe { (*flag).fetch_min(e as u32, Ordering::SeqCst) };
            break;
        }
        if !wk.book.harness.is_empty() {
            unsafe { (*flag).store(0, Ordering::SeqCst) };
            break;
        }
    }
    unsafe {
        wk.book.edges = (0..sim::MAX_EDGES).filter(|i| *sim::COV.add(*i) != 0).map(|i| i as u32).collect();
        let v = serde_json::to_vec(&wk.book).unwrap();
        if v.len() + 8 > cap {
            libc::_exit(4);
        }
        std::ptr::copy_nonoverlapping(v.as_ptr(), out.add(8), v.len());
        *(out as *mut u64) = v.len() as u64;
        libc::_exit(0)
    }
}

pub fn check(args: &[String]) -> i32 {
    let Some(prop) = args.first().cloned() else { return 2 };
    let tier = arg(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = arg(args, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let jobs: u64 = arg(args, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(cpus.min(16));
    let epochs: u64 = arg(args, "--epochs").and_then(|s| s.parse().ok()).unwrap_or(epochs_of(&prop, thorough));
    let limit: u64 = arg(args, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 240 });
    if epochs == 0 {
        eprintln!("dst: no check for {}", prop);
        return 2;
    }
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs(limit);
    let cap: usize = 512 << 20;
    let book = unsafe {
        let flag = shared(4096) as *const AtomicU32;
        (*flag).store(u32::MAX, Ordering::SeqCst);
        // for a closer look: start later
        (*(flag.add(16) as *const AtomicU32)).store(arg(args, "--first").and_then(|s| s.parse().ok()).unwrap_or(0), Ordering::SeqCst);
        let mut kids = Vec::new();
        for w in 0..jobs {
            let out = shared(cap);
            let pid = libc::fork();
            if pid == 0 {
                worker_main(&prop, seed, thorough, w, epochs, end, flag, out, cap);
            }
            if pid < 0 {
                eprintln!("dst: cannot start a worker");
                return 2;
            }
            kids.push((pid, out));
        }
        let mut book = Book::default();
        let mut bad = false;
        for (pid, out) in kids {
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let n = *(out as *const u64) as usize;
            if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 || n == 0 {
                eprintln!("dst: a worker ended badly (status {:#x})", st);
                bad = true;
                continue;
            }
            match serde_json::from_slice::<Book>(std::slice::from_raw_parts(out.add(8), n)) {
                Ok(b) => book.merge(b),
                Err(e) => {
                    eprintln!("dst: unreadable worker result: {}", e);
                    bad = true;
                }
            }
            libc::munmap(out as *mut _, cap);
        }
        if bad {
            return 2;
        }
        book
    };
    let searched = t0.elapsed().as_secs_f64();
    if let Some(h) = book.harness.first() {
        eprintln!("dst: {}", h);
        return 2;
    }
    let mut w = Worker::new(&prop);
    w.quiet = true;

    // recorded findings of this property
    for k in known::list().iter().filter(|k| k.property == prop) {
        println!("KNOWN-FINDING: property={} {}", prop, k.what);
    }

    let mut code = 0;
    let mut reported = 0;
    if let Some(f) = book.found.iter().min_by_key(|f| (f.sc.epoch, f.sc.run)) {
        let (o1, v1) = w.judge(&f.sc);
        match v1 {
            Some(v) if v.class == f.viol.class => {
                let small = minimize::minimise(&mut w, &f.sc, &v.class);
                let (o2, v2) = w.judge(&small);
                let (o3, v3) = w.judge(&small);
                let (v, sc, o) = match (v2, v3) {
                    (Some(a), Some(b)) if a == b && o2.digest() == o3.digest() => (a, small, o2),
                    _ => (v, f.sc.clone(), o1),
                };
                let dir = crate::root().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-{}-{}-{}.json", prop, seed, f.sc.epoch, f.sc.run));
                let r = Replay {
                    property: prop.clone(),
                    class: v.class.clone(),
                    detail: v.detail.clone(),
                    seed,
                    epoch: f.sc.epoch,
                    run: f.sc.run,
                    digest: o.digest(),
                    trace: describe(&sc),
                    scenario: sc,
                };
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n");
                println!("{}: {}", v.class, v.detail);
                for l in r.trace.iter().take(40) {
                    println!("  {}", l);
                }
                println!("VIOLATION property={} replay={}", prop, path.display());
                reported = 1;
                code = 1;
            }
            other => {
                eprintln!("dst: a violation did not repeat: {:?} then {:?}", f.viol, other);
                let _ = std::fs::write(crate::root().join("target/unrepeatable.json"), serde_json::to_string_pretty(&f).unwrap());
                return 2;
            }
        }
    }
    evidence(&prop, &tier, seed, epochs, jobs, &book, searched, t0.elapsed().as_secs_f64(), reported);
    println!(
        "{} {}: {} runs in {} epochs, {} steps, {:.1}s, digest {:016x}{}",
        prop,
        tier,
        book.runs,
        book.epochs,
        book.steps,
        t0.elapsed().as_secs_f64(),
        book.digest,
        if code == 0 { ", no violation" } else { "" }
    );
    code
}

fn describe(sc: &Scenario) -> Vec<String> {
    let mut v = Vec::new();
    v.push(format!("seed {} epoch {} run {} ({})", sc.seed, sc.epoch, sc.run, sc.family));
    for (i, s) in sc.srcs.iter().enumerate() {
        let t: String = s.text.chars().take(400).collect();
        v.push(format!("source {}: {:?}{}", i, t, if t.len() < s.text.len() { format!("... ({} bytes)", s.text.len()) } else { String::new() }));
        if let Some(m) = &s.must_fail {
            v.push(format!("  must be rejected: {}", m));
        }
    }
    if sc.env != Env::canonical() {
        v.push(format!("environment: {:?}", sc.env));
    }
    for (i, t) in sc.threads.iter().enumerate() {
        for op in t {
            v.push(format!("caller {}: {:?}", i, op));
        }
    }
    if !sc.slices.is_empty() {
        let s: Vec<String> = sc.slices.iter().take(60).map(|(t, n)| format!("{}x{}", t, n)).collect();
        v.push(format!("schedule (caller x steps): {}{}", s.join(" "), if sc.slices.len() > 60 { " ..." } else { "" }));
    }
    for (e, k, t, n) in sc.sites.iter().take(20) {
        v.push(format!("preemption at edge {}, occurrence {}: caller {} goes on for {} steps", e, k, t, n));
    }
    v
}

const FAULTS: &[(&str, &[&str])] = &[
    ("C01", &["preemption", "caller_stalled", "cancel_by_unwinding", "sink_error_once", "sink_error_permanent"]),
    ("C06", &["sink_error_once", "sink_error_permanent", "sink_full", "sink_short_writes", "sink_interrupted", "cancel_by_unwinding"]),
    ("C07", &["sink_error_once", "sink_error_permanent", "sink_full", "cancel_by_unwinding"]),
];

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, epochs: u64, jobs: u64, b: &Book, searched: f64, wall: f64, violations: u64) {
    let mut fired = b.fired.clone();
    for (p, l) in FAULTS {
        if *p == prop {
            for k in *l {
                fired.entry(k.to_string()).or_insert(0);
            }
        }
    }
    let total_edges = unsafe { sim::N_EDGES };
    let per_hour = |n: u64| if searched > 0.0 { (n as f64 * 3600.0 / searched) as u64 } else { 0 };
    let samples: Vec<serde_json::Value> = b.samples.iter().take(6).map(|s| serde_json::from_str(s).unwrap_or_default()).collect();
    let rule = "A case is one simulated execution: sources drawn from a corpus, a grammar-based generator and damage applied to their output; callers with operation histories; an explicit schedule; an environment (memory contents, placement and reuse, allocation failures, clock, randomness, environment variables) and faults in the sinks and visitors handed to the code. Two cases are the same if all of that is equal. ";
    let rule = match prop {
        "C01" => format!("{}Non-trivial: at least two switches between callers in the middle of their work and two operations completed.", rule),
        "C02" => format!("{}Non-trivial: an operation was compared with its result in a fresh process after a history of at least two others or in an environment that differs from the canonical one.", rule),
        "C03" | "C04" => format!("{}Non-trivial: the source is not empty and at least one operation was executed.", rule),
        "C05" => format!("{}Non-trivial: the source was parsed and an expectation about it (must be rejected, or statement count and names that must survive) was checked.", rule),
        "C10" => format!("{}Non-trivial: an allocation failed, or two operations ran in a perturbed heap or with an injected fault.", rule),
        "C06" | "C07" | "C08" | "C09" => format!("{}Non-trivial: at least one injected fault took effect and two operations were executed.", rule),
        _ => format!("{}Non-trivial: at least three operations were executed and compared.", rule),
    };
    let v = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
        "assumptions": [
            "Callers are interleaved at control-flow edges of ratel, ratel-codegen, ratel-visitor, ratel-transformer, ratel-wasm and toolshed, including generic code instantiated in them, one at a time (sequential consistency); other library code runs without preemption, blocking calls aside.",
            "The code under test is built without optimisation, with arithmetic overflow checks on and debug assertions off, as /repo's own test build is (toolshed 0.4.0 hands out misaligned pointers, which debug assertions would turn into aborts).",
            "wasm-bindgen is replaced by a stub that leaves exported functions as ordinary functions.",
        ],
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": b.distinct.len(),
            "rule": rule,
            "samples": samples,
            "seeds": { "base_seed": seed, "epochs_run": b.epochs, "epochs_planned": epochs, "meaning": "every epoch draws all its choices from a generator seeded with (base seed, property, epoch)" },
            "simulated_runs_per_hour": per_hour(b.runs),
            "seeds_per_hour": per_hour(b.epochs),
            "workers": jobs,
            "reference_executions": b.ref_runs,
            "operations": b.ops,
            "operations_skipped": b.skipped,
            "simulated_steps": b.steps,
            "simulated_time": { "unit": "steps (executed control-flow edges of the instrumented crates)", "steps": b.steps, "simulated_clock_s": b.steps as f64 * 1e-7 },
            "faults_injected": fired,
            "families": b.families,
            "interleavings": { "distinct": b.schedules.len(), "measure": "hash of (source texts, sequence of (edge at which a caller was stopped, its own progress, caller that went on))", "preemption_points_used": b.sites.len(), "switches": b.switches },
            "edges_covered": b.edges.len(),
            "edges_total": total_edges,
            "distinct_sources": b.sources.len(),
            "sources_accepted": b.accepted,
            "sources_rejected": b.rejected,
            "references_unavailable": b.unclean,
            "simulated_allocations": b.allocs,
            "operating_system_calls_intercepted": { "futex_wait": b.os_calls[0], "futex_wake": b.os_calls[1], "clock": b.os_calls[2], "randomness": b.os_calls[3], "environment": b.os_calls[4], "output": b.os_calls[5] },
            "largest_costs": { "steps_per_byte": (b.max_steps_per_byte * 10.0).round() / 10.0, "allocated_bytes_per_byte": (b.max_alloc_per_byte * 10.0).round() / 10.0, "stack_bytes": b.max_stack },
            "known_findings_met": b.known,
            "digest": format!("{:016x}", b.digest),
            "real_components": ["ratel (lexer, parser, AST, error rendering, ESTree serialisation)", "ratel-codegen", "ratel-visitor", "ratel-transformer", "ratel-wasm (string entry points)", "toolshed", "serde", "serde_json", "Rust standard library"],
            "stubs": ["wasm-bindgen (attribute only)", "thread scheduler", "heap", "futex, clock, randomness, environment variables, terminal output", "output sinks, serializers, generators and visitors of the callers"],
        }
    });
    let dir = crate::root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut f = std::fs::File::create(dir.join(format!("{}.json", prop))).expect("evidence file");
    let _ = f.write_all((serde_json::to_string_pretty(&v).unwrap() + "\n").as_bytes());
}

pub fn replay(args: &[String]) -> i32 {
    let Some(path) = args.first() else { return 2 };
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("dst: cannot read {}", path);
        return 2;
    };
    let Ok(r) = serde_json::from_str::<Replay>(&text) else {
        eprintln!("dst: {} is not a replay file", path);
        return 2;
    };
    let mut w = Worker::new(&r.property);
    w.quiet = true;
    let (o, v) = w.judge(&r.scenario);
    if let Some(h) = o.harness {
        eprintln!("dst: {}", h);
        return 2;
    }
    for l in describe(&r.scenario) {
        println!("  {}", l);
    }
    match v {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("execution {:016x}, recorded {:016x}: {}", o.digest(), r.digest, if o.digest() == r.digest { "identical" } else { "different build" });
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
        None => {
            println!("the recorded violation does not occur ({}: {})", r.class, r.detail);
            0
        }
    }
}

/// Runs a scenario file and prints everything.
pub fn show(args: &[String]) -> i32 {
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let sc: Scenario = serde_json::from_str(&text).unwrap();
    let mut w = Worker::new(&sc.prop);
    let (o, v) = w.judge(&sc);
    println!("{:#?}\n{:?}", o, v);
    for src in &sc.srcs {
        for what in [What::Debug { alt: false, body: true }, What::Code { minify: true }] {
            if let Some(o) = w.look(src, &[what], false).reads.get(&(false, what)) {
                println!("{:?}: {}", what, String::from_utf8_lossy(&o.text));
            }
        }
    }
    0
}

/// Runs everything there is on one source: `probe FILE`, or every line of a file with `--lines`.
pub fn probe(args: &[String]) -> i32 {
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let mut list = vec![text.clone()];
    if args.iter().any(|a| a == "--lines") {
        list = text.lines().map(|l| l.replace("\\n", "\n").replace("\\0", "\0")).collect();
    }
    let prop = arg(args, "--prop").unwrap_or("C04".into());
    let mut w = Worker::new(&prop);
    for t in list {
        let src = Src { text: t.clone(), origin: "probe".into(), must_fail: None, count: None, marks: vec![] };
        let mut sc = props::probe_scenario(src.clone(), &prop);
        sc.env.fence = args.iter().any(|a| a == "--fence");
        let (o, v) = w.judge(&sc);
        let r = w.look(&src, &[What::Code { minify: true }], false);
        let shown: String = t.chars().take(60).collect();
        let res = match &r.parse {
            Some(p) if r.ok => format!(
                "ok {}",
                r.reads.values().next().map(|o| String::from_utf8_lossy(&o.text).into_owned()).unwrap_or_default().chars().take(80).collect::<String>()
            ),
            Some(p) => String::from_utf8_lossy(&p.text).lines().take(3).collect::<Vec<_>>().join(" | "),
            None => format!("{:?}", r.unclean),
        };
        println!("{:?} -> {} [{} steps]{}", shown, res, o.stats.steps, v.map(|v| format!("  !! {}: {}", v.class, v.detail)).unwrap_or_default());
        if let Some(h) = o.harness {
            println!("  harness: {}", h);
        }
    }
    0
}

/// How often the sources of each generator are accepted.
pub fn stats(args: &[String]) -> i32 {
    let n: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(400);
    let mut w = Worker::new("C02");
    w.quiet = true;
    type G = fn(&mut crate::gen::Rng) -> Src;
    let gens: [(&str, G); 5] = [
        ("generated", |r| crate::gen::good(r, 40)),
        ("composed", crate::gen::composed),
        ("composed, names unique", crate::gen::composed_marked),
        ("boundary", |r| crate::gen::boundary(r, 7)),
        ("sibling", |r| {
            let s = crate::gen::good(r, 40);
            crate::gen::sibling(r, &s)
        }),
    ];
    for (name, g) in gens {
        let mut ok = 0;
        let mut bad = Vec::new();
        for k in 0..n {
            let mut r = crate::gen::Rng::of(&[k, 77]);
            let s = g(&mut r);
            let o = w.look(&s, &[], false);
            if o.ok {
                ok += 1
            } else if s.text.len() < 200 {
                bad.push(s.text)
            }
        }
        println!("{}: {} of {} accepted", name, ok, n);
        for b in bad.iter().take(args.get(1).and_then(|s| s.parse().ok()).unwrap_or(0)) {
            println!("    {:?}", b);
        }
    }
    0
}
