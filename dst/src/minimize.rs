//! Makes a failing scenario small: fewer callers, operations, preemptions, environment faults and
//! less source text, as long as the same kind of violation remains.
use crate::scen::*;
use crate::worker::Worker;

pub struct Min<'w> {
    pub w: &'w mut Worker,
    pub class: String,
    pub left: u32,
    until: std::time::Instant,
}

impl<'w> Min<'w> {
    fn fails(&mut self, sc: &Scenario) -> bool {
        if self.left == 0 || std::time::Instant::now() > self.until {
            return false;
        }
        self.left -= 1;
        let (o, v) = self.w.judge(sc);
        o.harness.is_none() && v.map_or(false, |v| v.class == self.class && crate::known::matching(sc, &v).is_none())
    }
}

pub fn minimise(w: &mut Worker, sc: &Scenario, class: &str) -> Scenario {
    let mut m = Min { w, class: class.into(), left: 1500, until: std::time::Instant::now() + std::time::Duration::from_secs(60) };
    let mut best = sc.clone();
    for _ in 0..3 {
        let before = best.clone();
        env(&mut m, &mut best);
        schedule(&mut m, &mut best);
        threads(&mut m, &mut best);
        ops(&mut m, &mut best);
        schedule(&mut m, &mut best);
        repeat(&mut m, &mut best);
        if best.family != "growth" {
            sources(&mut m, &mut best);
        }
        unused_sources(&mut m, &mut best);
        if best == before {
            break;
        }
    }
    best
}

fn env(m: &mut Min, best: &mut Scenario) {
    let c = Env::canonical();
    let mut t = best.clone();
    t.env = c.clone();
    if t.env != best.env && m.fails(&t) {
        *best = t;
        return;
    }
    let edits: Vec<fn(&mut Env, &Env)> = vec![
        |e, c| e.clock_jumps = c.clock_jumps,
        |e, c| e.clock = c.clock,
        |e, c| e.env_mode = c.env_mode,
        |e, c| e.stack_garbage = c.stack_garbage,
        |e, c| e.stack_shift = c.stack_shift,
        |e, c| e.lead = c.lead,
        |e, c| e.ends = c.ends,
        |e, c| e.edge = c.edge,
        |e, c| e.tail = c.tail,
        |e, c| e.fence = c.fence,
        |e, c| e.gaps = c.gaps,
        |e, c| e.base = c.base,
        |e, c| e.reuse = c.reuse.clone(),
        |e, c| e.fill = c.fill.clone(),
        |e, _| e.fill = "byte:97".into(),
        |e, c| e.poison = c.poison,
        |e, c| e.fail_at = c.fail_at,
        |e, c| e.seed = c.seed,
    ];
    for f in edits {
        let mut t = best.clone();
        if t.env.fill == "zero" && best.env.fill == "zero" {
            let mut probe = t.env.clone();
            f(&mut probe, &c);
            if probe.fill == "byte:97" {
                continue;
            }
        }
        f(&mut t.env, &c);
        if t.env != best.env && m.fails(&t) {
            *best = t;
        }
    }
}

fn sites(m: &mut Min, best: &mut Scenario) {
    let mut size = best.sites.len();
    while size > 0 {
        let mut i = 0;
        while i < best.sites.len() {
            let mut t = best.clone();
            t.sites.drain(i..(i + size).min(t.sites.len()));
            if m.fails(&t) {
                *best = t;
            } else {
                i += size;
            }
            if m.left == 0 {
                return;
            }
        }
        size /= 2;
    }
}

fn schedule(m: &mut Min, best: &mut Scenario) {
    sites(m, best);
    if best.slices.is_empty() {
        return;
    }
    let mut t = best.clone();
    t.slices.clear();
    if m.fails(&t) {
        *best = t;
        return;
    }
    // cut the tail
    let mut n = best.slices.len();
    while n > 0 {
        let keep = best.slices.len().saturating_sub(n);
        if keep < best.slices.len() {
            let mut t = best.clone();
            t.slices.truncate(keep);
            if m.fails(&t) {
                *best = t;
                n = n.min(best.slices.len());
                continue;
            }
        }
        n /= 2;
    }
    // drop pieces
    let mut size = (best.slices.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < best.slices.len() {
            let mut t = best.clone();
            t.slices.drain(i..(i + size).min(t.slices.len()));
            if m.fails(&t) {
                *best = t;
            } else {
                i += size;
            }
            if m.left == 0 {
                return;
            }
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    // merge neighbours of the same caller
    let mut i = 0;
    while i + 1 < best.slices.len() {
        if best.slices[i].0 == best.slices[i + 1].0 {
            let mut t = best.clone();
            t.slices[i].1 = t.slices[i].1.saturating_add(t.slices[i + 1].1);
            t.slices.remove(i + 1);
            if m.fails(&t) {
                *best = t;
                continue;
            }
        }
        i += 1;
    }
}

fn threads(m: &mut Min, best: &mut Scenario) {
    let mut i = 0;
    while best.threads.len() > 1 && i < best.threads.len() {
        let mut t = best.clone();
        t.threads.remove(i);
        t.slices.retain(|s| s.0 as usize != i);
        t.sites.retain(|s| s.2 as usize != i);
        for s in &mut t.sites {
            if s.2 as usize > i {
                s.2 -= 1;
            }
        }
        for s in &mut t.slices {
            if s.0 as usize > i {
                s.0 -= 1;
            }
        }
        if m.fails(&t) {
            *best = t;
            continue;
        }
        // or keep the caller but let it do nothing
        if !best.threads[i].is_empty() {
            let mut t = best.clone();
            t.threads[i].clear();
            if m.fails(&t) {
                *best = t;
            }
        }
        i += 1;
    }
}

fn ops(m: &mut Min, best: &mut Scenario) {
    for th in 0..best.threads.len() {
        let mut size = (best.threads[th].len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.threads[th].len() {
                let mut t = best.clone();
                t.threads[th].drain(i..(i + size).min(best.threads[th].len()));
                if m.fails(&t) {
                    *best = t;
                } else {
                    i += size;
                }
                if m.left == 0 {
                    return;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.threads[th].len() {
            // simpler forms of an operation
            let mut alts: Vec<Op> = Vec::new();
            match &best.threads[th][i] {
                Op::Sink { slot, what, fault } => {
                    alts.push(Op::Read { slot: *slot, what: *what });
                    if let Fault::Nested { at, ops } = fault {
                        for k in 0..ops.len() {
                            let mut o = ops.clone();
                            o.remove(k);
                            alts.push(Op::Sink { slot: *slot, what: *what, fault: Fault::Nested { at: *at, ops: o } });
                        }
                        alts.push(Op::Sink { slot: *slot, what: *what, fault: Fault::Nested { at: 0, ops: ops.clone() } });
                    }
                    if let Fault::ErrForever { at, .. } = fault {
                        alts.push(Op::Sink { slot: *slot, what: *what, fault: Fault::ErrOnce { at: *at, kind: 0 } });
                    }
                    if let Fault::Cancel { .. } = fault {
                        alts.push(Op::Sink { slot: *slot, what: *what, fault: Fault::Cancel { at: 0 } });
                    }
                }
                Op::Parse { src, slot, buf } if *buf != Buf::Keep => alts.push(Op::Parse { src: *src, slot: *slot, buf: Buf::Keep }),
                _ => {}
            }
            for a in alts {
                let mut t = best.clone();
                t.threads[th][i] = a;
                if m.fails(&t) {
                    *best = t;
                }
            }
        }
    }
}

fn repeat(m: &mut Min, best: &mut Scenario) {
    let r = best.repeat;
    for n in [1, 4, 6, r / 16, r / 8, r / 4, r / 2, r - r / 4, r - r / 8] {
        if n > 0 && n < best.repeat {
            let mut t = best.clone();
            t.repeat = n;
            if m.fails(&t) {
                *best = t;
                return;
            }
        }
    }
}

fn sources(m: &mut Min, best: &mut Scenario) {
    if best.family == "growth" {
        // its sources are one construct, repeated
        return;
    }
    for k in 0..best.srcs.len() {
        if best.srcs[k].must_fail.is_some() || best.srcs[k].count.is_some() || !best.srcs[k].marks.is_empty() {
            continue;
        }
        let n = best.srcs[k].text.chars().count();
        let mut size = (n / 2).max(1);
        loop {
            let mut i = 0;
            loop {
                let c: Vec<char> = best.srcs[k].text.chars().collect();
                if i >= c.len() {
                    break;
                }
                let mut t = best.clone();
                t.srcs[k].text = c[..i].iter().chain(&c[(i + size).min(c.len())..]).collect();
                if m.fails(&t) {
                    *best = t;
                } else {
                    i += size;
                }
                if m.left == 0 {
                    return;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
    }
}

fn map_src(ops: &mut [Op], f: &dyn Fn(usize) -> usize) {
    for op in ops {
        match op {
            Op::Parse { src, .. } | Op::Wasm { src, .. } => *src = f(*src),
            Op::Sink { fault: Fault::Nested { ops, .. }, .. } => map_src(ops, f),
            _ => {}
        }
    }
}

fn uses(ops: &[Op], k: usize) -> bool {
    ops.iter().any(|op| match op {
        Op::Parse { src, .. } | Op::Wasm { src, .. } => *src == k,
        Op::Sink { fault: Fault::Nested { ops, .. }, .. } => uses(ops, k),
        _ => false,
    })
}

fn unused_sources(m: &mut Min, best: &mut Scenario) {
    let mut k = 0;
    while best.srcs.len() > 1 && k < best.srcs.len() && best.family != "growth" {
        if !best.threads.iter().any(|t| uses(t, k)) {
            let mut t = best.clone();
            t.srcs.remove(k);
            for th in &mut t.threads {
                map_src(th, &|s| if s > k { s - 1 } else { s });
            }
            if m.fails(&t) {
                *best = t;
                continue;
            }
        }
        k += 1;
    }
}
