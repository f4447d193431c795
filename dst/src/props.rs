//! Which scenarios decide which property. One epoch is one unit of search: everything in it is
//! drawn from a generator seeded with (seed, property, epoch).
use crate::gen::{self, Rng};
use crate::scen::*;
use crate::worker::Worker;

pub struct H<'w> {
    pub w: &'w mut Worker,
    pub r: Rng,
    prop: String,
    seed: u64,
    epoch: u64,
    run: u64,
    pub deep: bool,
}

const CODE: [What; 3] = [What::Code { minify: false }, What::Code { minify: true }, What::Gen];
const JSON: [What; 3] = [What::Json { pretty: false }, What::Json { pretty: true }, What::Events];
const DUMP: [What; 4] =
    [What::Debug { alt: false, body: false }, What::Debug { alt: true, body: false }, What::Debug { alt: false, body: true }, What::Debug { alt: true, body: true }];
const WALK: [What; 4] = [What::Visit, What::Analyze, What::Ranges, What::Nodes];
const ERRS: [What; 6] = [
    What::ErrDebug { i: 0 },
    What::ErrShow { i: 0 },
    What::ErrDebug { i: 1 },
    What::ErrShow { i: 1 },
    What::ErrDebug { i: 2 },
    What::ErrShow { i: 5 },
];

fn all_reads() -> Vec<What> {
    let mut v = Vec::new();
    v.extend(CODE);
    v.extend(JSON);
    v.extend(DUMP);
    v.extend(WALK);
    v
}
fn sinks() -> Vec<What> {
    let mut v = vec![What::Gen, What::Visit];
    v.extend(JSON);
    v.extend(DUMP);
    v
}
fn faultable(w: What) -> bool {
    matches!(w, What::Json { .. } | What::Events | What::Debug { .. } | What::ErrDebug { .. } | What::ErrShow { .. })
}
pub fn epoch(w: &mut Worker, prop: &str, seed: u64, epoch: u64, deep: bool) {
    let pn: u64 = prop[1..].parse().unwrap_or(0);
    let mut h = H { r: Rng::of(&[seed, pn, epoch, 0x5eed]), w, prop: prop.into(), seed, epoch, run: 0, deep };
    match prop {
        "C01" => c01(&mut h),
        "C02" => c02(&mut h),
        "C03" => c03(&mut h),
        "C04" => c04(&mut h),
        "C05" => c05(&mut h),
        "C06" => sweep(&mut h, &JSON, true),
        "C07" => c07(&mut h),
        "C08" => c08(&mut h),
        "C09" => c09(&mut h),
        "C10" => c10(&mut h),
        "C11" => c11(&mut h),
        "C12" => c12(&mut h),
        _ => {}
    }
}

impl<'w> H<'w> {
    fn sc(&self, family: &str, srcs: Vec<Src>, threads: Vec<Vec<Op>>) -> Scenario {
        Scenario {
            prop: self.prop.clone(),
            family: family.into(),
            seed: self.seed,
            epoch: self.epoch,
            run: self.run,
            env: Env::canonical(),
            srcs,
            threads,
            slices: vec![],
            sites: vec![],
            repeat: 1,
            metered: false,
        }
    }
    fn go(&mut self, mut sc: Scenario) -> bool {
        sc.run = self.run;
        self.run += 1;
        self.w.run(sc)
    }

    /// A source of any kind; `size` is about the number of tokens.
    fn source(&mut self, size: usize) -> Src {
        let s = self.plain_source(size);
        self.varied(s, 16)
    }
    /// Perhaps with other tokens, or with something in it twice.
    fn varied(&mut self, s: Src, percent: usize) -> Src {
        if s.text.len() > 3000 || !self.r.chance(percent) {
            return s;
        }
        match self.r.below(6) {
            0 | 1 => gen::respell(&mut self.r, &s),
            2 | 3 => gen::doubled(&mut self.r, &s),
            4 => {
                let max = *self.r.pick(&[300, 300, 300, 300, 300, 300, 300, 300, 300, 5000]);
                gen::stretched(&mut self.r, &s, max)
            }
            _ => {
                let s = gen::doubled(&mut self.r, &s);
                gen::respell(&mut self.r, &s)
            }
        }
    }
    /// Nested deeply enough for a budget, yet cheap enough for many runs.
    fn deep_source(&mut self) -> Src {
        let whole = gen::NEST.len() - 10;
        if self.r.chance(60) {
            let n = self.r.range(8, 48);
            gen::nested(self.r.below(whole), n)
        } else {
            let w: Vec<usize> = (0..self.r.range(2, 3)).map(|_| self.r.below(whole)).collect();
            let n = self.r.range(6, 20);
            gen::nested_in(&w, n)
        }
    }
    fn plain_source(&mut self, size: usize) -> Src {
        match self.r.below(100) {
            0..=19 => gen::corpus_src(self.r.below(gen::CORPUS.len())),
            20..=35 => gen::composed(&mut self.r),
            36..=38 => {
                let max = if self.r.chance(4) { 12 } else { 8 };
                gen::boundary(&mut self.r, max)
            }
            39..=74 => {
                let n = 8 + self.r.geometric(size);
                gen::good(&mut self.r, n)
            }
            75..=80 => gen::broken_src(self.r.below(gen::BROKEN.len())),
            81..=86 => gen::broken_in(&mut self.r, size),
            87..=92 => gen::damaged(&mut self.r, size),
            93..=95 => {
                let n = self.r.range(2, 40);
                gen::repeated(self.r.clone().below(gen::REPEAT.len()), n)
            }
            96..=97 => {
                let n = self.r.range(2, 12);
                gen::nested(self.r.clone().below(gen::NEST.len()), n)
            }
            _ => self.plain_good_source(size),
        }
    }
    /// A source that is (most likely) accepted.
    fn good_source(&mut self, size: usize) -> Src {
        let s = self.plain_good_source(size);
        self.varied(s, 12)
    }
    fn plain_good_source(&mut self, size: usize) -> Src {
        if self.r.chance(30) {
            gen::corpus_src(self.r.below(gen::CORPUS.len()))
        } else if self.r.chance(30) {
            gen::composed(&mut self.r)
        } else if self.r.chance(4) {
            let max = if self.r.chance(5) { 11 } else { 7 };
            gen::boundary(&mut self.r, max)
        } else if self.r.chance(3) {
            let max = if self.r.chance(5) { 1200 } else { 300 };
            let n = gen::odd_length(&mut self.r, max);
            gen::long_list(&mut self.r, n)
        } else {
            let n = 8 + self.r.geometric(size);
            gen::good(&mut self.r, n)
        }
    }
    /// An accepted program of exactly so many bytes.
    fn sized(&mut self, bytes: usize) -> Src {
        let mut parts = Vec::new();
        for _ in 0..40 {
            let s = if self.r.chance(40) { gen::composed(&mut self.r) } else { gen::good(&mut self.r, 60) };
            if parts.len() < 10 && self.w.look(&s, &[], false).ok {
                parts.push(s.text);
            }
        }
        let mut t = String::new();
        let mut misses = 0;
        while t.len() < bytes && misses < 8 && !parts.is_empty() {
            let s = self.r.pick(&parts);
            if t.len() + s.len() + 3 > bytes {
                misses += 1;
                continue;
            }
            t.push_str(s);
            t.push_str("\n;\n");
        }
        let pad = bytes.saturating_sub(t.len());
        t.push_str(&(if self.r.chance(50) { "x" } else { " " }).repeat(pad));
        Src { text: t, origin: format!("generated, {} bytes", bytes), must_fail: None, count: None, marks: vec![] }
    }
    fn big_source(&mut self, bytes: usize) -> Src {
        let mut s = self.sized(bytes);
        // now and then not a program after all
        if self.r.chance(30) {
            let mut k = self.r.below(s.text.len());
            while !s.text.is_char_boundary(k) {
                k -= 1;
            }
            s.text.insert_str(k, *self.r.pick(&["@", "\n@\n", ")", "}", "a b", "é→"]));
        }
        s
    }
    /// A size at which something might change.
    fn odd_size(&mut self, large: bool) -> usize {
        let base = if large { *self.r.pick(&[32_768usize, 65_536, 65_536, 131_072]) } else { *self.r.pick(&[256usize, 512, 1024, 2048, 4096, 4096, 8192, 16_384]) };
        base - 4 + self.r.below(9)
    }

    fn noise(&mut self) -> Env {
        let r = &mut self.r;
        let mut e = Env::canonical();
        e.seed = r.next();
        e.fill = match r.below(10) {
            0 | 1 => "random".into(),
            2 | 3 => "stale".into(),
            4 => format!("byte:{}", r.pick(&[0xffu8, 0x01, b';', b'/', b'`', b' ', b'a', b'}', b'\\', b'\n', b'0', 0x80, b'*'])),
            5..=7 => format!("text:{}", r.below(8)),
            _ => "zero".into(),
        };
        e.poison = r.chance(60);
        e.reuse = r.pick(&["never", "lifo", "lifo", "fifo"]).to_string();
        e.base = r.below(1 << 20) & !15;
        e.gaps = r.chance(50);
        e.clock = r.next() % 4_000_000_000;
        e.clock_jumps = r.chance(30);
        e.env_mode = r.below(4) as u8;
        e.ends = r.chance(50);
        if r.chance(50) {
            e.edge = *r.pick(&[0, b'\n', b' ', b'a', b'0', b';', b'*', b'/', b'`', b'\\', b'$', b'.', b'=', b'{', 0x80, 0xff]);
        }
        e.stack_garbage = if r.chance(50) { r.next() | 1 } else { 0 };
        if r.chance(40) {
            e.tail = r.range(1, 3) as u8;
        }
        if r.chance(30) {
            e.lead = r.range(1, 15) as u8;
        }
        if r.chance(15) {
            e.stack_shift = *r.pick(&[20_000, 300_000, 1_100_000, 4_000_000]);
        }
        if r.chance(12) {
            e.fence = true;
            e.reuse = "never".into();
            e.gaps = false;
        }
        e
    }

    fn what(&mut self) -> What {
        if self.r.chance(12) {
            return *self.r.pick(&ERRS);
        }
        let v = all_reads();
        *self.r.pick(&v)
    }

    fn fault(&mut self, what: What, calls: u32) -> Fault {
        let r = &mut self.r;
        let n = calls.max(1) as usize;
        let at = if r.chance(70) { r.below(n) } else { r.below(n + 3) } as u32;
        if !faultable(what) {
            return if r.chance(80) { Fault::Cancel { at } } else { Fault::None };
        }
        let kind = r.below(6) as u8;
        match r.below(12) {
            0..=2 => Fault::ErrOnce { at, kind },
            3..=5 => Fault::ErrForever { at, kind },
            6 => Fault::Full { bytes: r.below(n * 6 + 2) as u32 },
            7 if matches!(what, What::Json { .. }) => Fault::Short { seed: r.next() },
            8 if matches!(what, What::Json { .. }) => Fault::Eintr { seed: r.next() },
            _ => Fault::Cancel { at },
        }
    }

    /// What a caller does inside a sink call, on module `slot` being read and on others.
    fn inner(&mut self, slot: usize, other: usize, srcs: usize) -> Vec<Op> {
        let mut v = Vec::new();
        for _ in 0..self.r.range(1, 4) {
            let what = self.what();
            match self.r.below(10) {
                0..=4 => v.push(Op::Read { slot, what }),
                5 => {
                    let f = self.fault(what, 12);
                    if what != What::Analyze && !matches!(what, What::Code { .. } | What::Ranges | What::Nodes) {
                        v.push(Op::Sink { slot, what, fault: f });
                    }
                }
                6 | 7 => {
                    v.push(Op::Parse { src: self.r.below(srcs), slot: other, buf: Buf::Free });
                    let what = self.what();
                    v.push(Op::Read { slot: other, what });
                }
                8 => v.push(Op::Transform { slot: other }),
                _ => v.push(Op::Wasm { src: self.r.below(srcs), which: self.r.below(3) as u8, minify: self.r.chance(50) }),
            }
        }
        v
    }

    /// A caller's day: parse, read, fail, abandon, transform, drop.
    fn caller(&mut self, srcs: &[usize], len: usize, transforms: bool) -> Vec<Op> {
        let mut v = Vec::new();
        let buf = *self.r.pick(&[Buf::Keep, Buf::Free, Buf::Scribble]);
        v.push(Op::Parse { src: *self.r.pick(srcs), slot: 0, buf });
        while v.len() < len {
            let slot = self.r.below(2);
            match self.r.below(21) {
                20 => v.push(if self.r.chance(50) { Op::Give { slot, to: self.r.below(2) } } else { Op::Take { slot, from: self.r.below(2), wait: self.r.chance(50) } }),
                0..=2 => {
                    let buf = *self.r.pick(&[Buf::Keep, Buf::Free, Buf::Scribble]);
                    v.push(Op::Parse { src: *self.r.pick(srcs), slot, buf })
                }
                3..=11 => {
                    let what = self.what();
                    v.push(Op::Read { slot: if self.r.chance(75) { 0 } else { slot }, what })
                }
                12..=14 => {
                    let s = sinks();
                    let what = if self.r.chance(15) { *self.r.pick(&ERRS) } else { *self.r.pick(&s) };
                    let fault = self.fault(what, 14);
                    v.push(Op::Sink { slot, what, fault });
                }
                15 if transforms => v.push(Op::Transform { slot }),
                16 => v.push(Op::Move { slot }),
                17 => v.push(Op::Drop { slot }),
                18 => v.push(Op::Wasm { src: *self.r.pick(srcs), which: self.r.below(3) as u8, minify: self.r.chance(50) }),
                _ => v.push(Op::Recheck { slot }),
            }
        }
        v
    }

    /// Steps of every caller's operations, as far as their references tell. Only what the scenario
    /// itself needs is counted: references are kept between epochs, and one epoch must not depend
    /// on another.
    fn steps_of(&mut self, sc: &Scenario) -> u64 {
        let refs = self.w.refs_for(sc);
        let mut n = 0;
        for t in &sc.threads {
            let mut at = [usize::MAX; 8];
            for op in t {
                match op {
                    Op::Parse { src, slot, .. } => {
                        at[*slot] = *src;
                        n += refs.get(*src).and_then(|r| r.parse.as_ref()).map_or(0, |o| o.steps);
                    }
                    Op::Read { slot, what } | Op::Sink { slot, what, .. } => {
                        n += refs.get(at[*slot]).and_then(|r| r.reads.get(&(false, *what))).map_or(0, |o| o.steps)
                    }
                    Op::Wasm { src, which, minify } => n += refs.get(*src).and_then(|r| r.wasm.get(&(*which, *minify))).map_or(0, |o| o.steps),
                    _ => {}
                }
            }
        }
        (n / sc.threads.len().max(1) as u64).max(50)
    }
}

// ------------------------------------------------------------------ C01

fn c01(h: &mut H) {
    if h.epoch % 16 == 5 && !handover(h, true) {
        return;
    }
    let style = h.r.below(14);
    match style {
        // short operations, over and over, overtaking one another all the time
        12 | 13 => {
            for _ in 0..8 {
                let n = h.r.range(3, 5);
                let srcs: Vec<Src> = (0..n)
                    .map(|i| match h.r.below(3) {
                        0 => gen::good(&mut h.r, 3),
                        k => src_text(format!("{}{};", ["a", "x", "fu", "q"][i % 4], i).repeat(1 + (i + k) % 3)),
                    })
                    .collect();
                let whats: Vec<What> = (0..h.r.range(1, 2)).map(|_| if h.r.chance(50) { What::Code { minify: h.r.chance(60) } } else { plain(h.what()) }).collect();
                let fresh = h.r.chance(40);
                let times = *h.r.pick(&[6, 12, 25, 50]);
                let threads: Vec<Vec<Op>> = (0..n)
                    .map(|src| {
                        let mut v = vec![Op::Parse { src, slot: 0, buf: Buf::Free }];
                        for k in 0..times {
                            if fresh && k > 0 {
                                v.push(Op::Parse { src, slot: 0, buf: Buf::Free });
                            }
                            v.push(Op::Read { slot: 0, what: whats[k % whats.len()] });
                        }
                        v
                    })
                    .collect();
                let base = h.sc("hammer", srcs, threads);
                let total = h.steps_of(&base);
                let each = (total / (n * times) as u64).max(8);
                for _ in 0..3 {
                    let mut sc = base.clone();
                    let mut left = total as i64;
                    while left > 0 && sc.slices.len() < 3000 {
                        let k = 1 + h.r.next() % *h.r.pick(&[each / 8 + 1, each, each, each * 3, each / 2 + 1]);
                        sc.slices.push((h.r.below(n) as u8, k));
                        left -= k as i64;
                    }
                    if !h.go(sc) {
                        return;
                    }
                }
            }
        }
        // all of them deep inside something at the same time
        10 | 11 => {
            let srcs: Vec<Src> = (0..2).map(|_| h.deep_source()).collect();
            // what there is one of for each of a few callers runs out
            let n = if h.r.chance(35) { h.r.range(8, 10) } else { h.r.range(2, 5) };
            let same = if h.r.chance(50) { Some(if h.r.chance(40) { What::Code { minify: false } } else { plain(h.what()) }) } else { None };
            for i in 0..10 {
                let threads: Vec<Vec<Op>> = (0..n)
                    .map(|_| {
                        let src = h.r.below(2);
                        let mut v = vec![Op::Parse { src, slot: 0, buf: Buf::Free }];
                        for _ in 0..h.r.range(1, 3) {
                            let what = same.unwrap_or_else(|| plain(h.what()));
                            v.push(Op::Read { slot: 0, what });
                        }
                        if h.r.chance(30) {
                            v.push(Op::Transform { slot: 0 });
                            v.push(Op::Read { slot: 0, what: What::Gen });
                        }
                        v
                    })
                    .collect();
                let mut sc = h.sc("deep", srcs.clone(), threads);
                let total = h.steps_of(&sc) * n as u64;
                if i % 2 == 0 {
                    // side by side
                    let k = *h.r.pick(&[5u64, 20, 100, 500]);
                    let m = (total / k).min(4000) as usize;
                    sc.slices = (0..m).map(|i| ((i % n) as u8, k)).collect();
                } else {
                    sc.slices = schedule(&mut h.r, n, total * 2);
                }
                if !h.go(sc) {
                    return;
                }
            }
        }
        // callers doing the same with different sources, stopped at places instead of times
        9 => {
            let n = h.r.range(2, 3);
            let small = h.r.chance(50);
            let srcs: Vec<Src> = (0..n).map(|_| if small { h.good_source(10) } else { h.source(30) }).collect();
            let idx = h.r.below(n);
            let ops = h.caller(&[idx], 5, true);
            let threads: Vec<Vec<Op>> = (0..n)
                .map(|i| {
                    let mut v = ops.clone();
                    for o in &mut v {
                        if let Op::Parse { src, .. } | Op::Wasm { src, .. } = o {
                            *src = i;
                        }
                    }
                    v
                })
                .collect();
            let base = h.sc("sites", srcs, threads);
            let total = h.steps_of(&base);
            for _ in 0..24 {
                let mut sc = base.clone();
                sc.sites = sites(&mut h.r, n, total);
                if h.r.chance(30) {
                    sc.slices = schedule(&mut h.r, n, total);
                }
                if !h.go(sc) {
                    return;
                }
            }
        }
        // one preemption, everywhere
        0 | 1 => single_preemption(h),
        // all callers do the same thing in lockstep
        2 => {
            let src = h.source(25);
            let n = h.r.range(2, 4);
            let ops = h.caller(&[0], 6, true);
            for k in [1u64, 2, 3, 5, 8, 13, 40, 200] {
                let mut sc = h.sc("lockstep", vec![src.clone()], vec![ops.clone(); n]);
                let total = h.steps_of(&sc) * n as u64;
                let m = (total / k).min(6000) as usize;
                sc.slices = (0..m).map(|i| ((i % n) as u8, k)).collect();
                if !h.go(sc) {
                    return;
                }
            }
        }
        // a caller stalls inside an operation while the others run to the end
        3 => {
            let srcs: Vec<Src> = (0..3).map(|_| h.good_source(25)).collect();
            for _ in 0..14 {
                let s = sinks();
                let what = *h.r.pick(&s);
                let calls = h.w.look(&srcs[0], &[what], false).reads.get(&(false, what)).map_or(4, |o| o.calls);
                let at = h.r.below(calls.max(1) as usize) as u32;
                let mut a = vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }, Op::Sink { slot: 0, what, fault: Fault::Stall { at } }];
                let what2 = h.what();
                a.push(Op::Read { slot: 0, what: what2 });
                let b = h.caller(&[1, 2], 7, true);
                let c = h.caller(&[0, 1], 7, true);
                let mut sc = h.sc("stall", srcs.clone(), vec![a, b, c]);
                if h.r.chance(40) {
                    sc.env = h.noise();
                    sc.env.fence = false;
                }
                if !h.go(sc) {
                    return;
                }
            }
        }
        // random interleavings of different granularity
        _ => {
            let k = h.r.range(1, 3);
            let srcs: Vec<Src> = (0..k).map(|_| h.source(30)).collect();
            let idx: Vec<usize> = (0..k).collect();
            let n = h.r.range(2, 4);
            let len = h.r.range(3, 9);
            let threads: Vec<Vec<Op>> = (0..n).map(|_| h.caller(&idx, len, true)).collect();
            let base = h.sc("random", srcs, threads);
            let total = h.steps_of(&base) * 2;
            for _ in 0..16 {
                let mut sc = base.clone();
                sc.slices = schedule(&mut h.r, n, total);
                if h.r.chance(30) {
                    sc.env = h.noise();
                    sc.env.fence = false;
                }
                if !h.go(sc) {
                    return;
                }
            }
        }
    }
}

fn src_text(text: String) -> Src {
    Src { text, origin: "short".into(), must_fail: None, count: None, marks: vec![] }
}

/// Without the form that takes long, in the standard library.
fn plain(w: What) -> What {
    match w {
        What::Debug { alt: true, body } => What::Debug { alt: false, body },
        w => w,
    }
}

fn schedule(r: &mut Rng, n: usize, total: u64) -> Vec<(u8, u64)> {
    let mut v = Vec::new();
    match r.below(4) {
        // few preemptions at random depths
        0 => {
            for _ in 0..r.range(1, 5) {
                v.push((r.below(n) as u8, 1 + r.next() % total));
            }
        }
        // mixed: long stretches with bursts of quick changes
        1 => {
            for _ in 0..r.range(1, 6) {
                v.push((r.below(n) as u8, 1 + r.next() % (total / 2 + 1)));
                for _ in 0..r.range(1, 60) {
                    v.push((r.below(n) as u8, 1 + r.below(6) as u64));
                }
            }
        }
        _ => {
            let mean = *r.pick(&[2usize, 5, 20, 80, 300, 1500]);
            let m = ((total as usize * n) / mean).clamp(4, 4000);
            for _ in 0..m {
                v.push((r.below(n) as u8, 1 + r.geometric(mean) as u64));
            }
        }
    }
    v
}

/// Every edge is as likely as any other, however often it is executed.
fn sites(r: &mut Rng, n: usize, total: u64) -> Vec<(u32, u32, u8, u64)> {
    let edges = unsafe { crate::sim::N_EDGES } as usize;
    let mut v: Vec<(u32, u32, u8, u64)> = Vec::new();
    for _ in 0..*r.pick(&[40usize, 200, 600]) {
        let e = 1 + r.below(edges) as u32;
        let k = if r.chance(60) { 1 } else { 1 + r.geometric(4) as u32 };
        let steps = match r.below(4) {
            0 => u64::MAX / 4,
            1 => 1 + r.next() % 100,
            _ => 1 + r.next() % total,
        };
        v.push((e, k, r.below(n) as u8, steps));
    }
    v.sort();
    v.dedup_by_key(|x| x.0);
    v
}

fn single_preemption(h: &mut H) {
    let a = if h.r.chance(75) { gen::corpus_src(h.r.below(gen::CORPUS.len())) } else { h.source(10) };
    let b = if h.r.chance(50) { a.clone() } else { gen::corpus_src(h.r.below(gen::CORPUS.len())) };
    let w1 = h.what();
    let w2 = if h.r.chance(60) { w1 } else { h.what() };
    let prog = |src: usize, w: What, tr: bool, wasm: bool| {
        let mut v = vec![Op::Parse { src, slot: 0, buf: Buf::Free }];
        if tr {
            v.push(Op::Transform { slot: 0 });
        }
        v.push(Op::Read { slot: 0, what: w });
        if wasm {
            v.push(Op::Wasm { src, which: 0, minify: false });
        }
        v
    };
    let (tr, wasm) = (h.r.chance(30), h.r.chance(15));
    let base = h.sc("single-preemption", vec![a, b], vec![prog(0, w1, tr, wasm), prog(1, w2, tr, wasm)]);
    // steps of the first caller alone
    let total = h.steps_of(&base);
    let cap = if h.deep { 400 } else { 120 };
    let stride = (total / cap).max(1);
    let mut at = 1 + h.r.next() % stride;
    while at < total {
        let mut sc = base.clone();
        sc.slices = vec![(0, at), (1, u64::MAX / 4)];
        if !h.go(sc) {
            return;
        }
        at += stride;
    }
}

// ------------------------------------------------------------------ C02

fn c02(h: &mut H) {
    if h.epoch % 32 == 5 && !handover(h, true) {
        return;
    }
    let n = h.r.range(1, 3);
    let mut srcs: Vec<Src> = (0..n).map(|_| h.source(40)).collect();
    let target = if h.r.chance(3) {
        let b = if h.r.chance(50) { h.odd_size(true) } else { h.r.range(20_000, 160_000) };
        h.big_source(b)
    } else if h.r.chance(4) {
        let b = h.odd_size(false);
        h.big_source(b)
    } else if h.r.chance(20) {
        gen::damaged(&mut h.r, 30)
    } else {
        h.source(40)
    };
    // sources that could be taken for the target
    if target.text.len() < 20_000 {
        for _ in 0..h.r.range(0, 2) {
            let s = if h.r.chance(75) { gen::sibling(&mut h.r, &target) } else { gen::cousin(&mut h.r, &target) };
            srcs.push(s);
        }
    }
    srcs.push(target);
    let t = srcs.len() - 1;
    let others: Vec<usize> = (0..t).collect();
    if h.r.chance(25) && !long_history(h, &srcs[..t.min(2)], &srcs[t]) {
        return;
    }
    if h.r.chance(12) && !wrap_around(h, &srcs[t]) {
        return;
    }
    let runs = if srcs[t].text.len() > 10_000 { 6 } else { 24 };
    for i in 0..runs {
        let mut ops = Vec::new();
        let family = if i % 3 == 0 { "environment" } else { "history" };
        let mut same = None;
        if family == "history" {
            let len = h.r.range(1, 10);
            // histories may involve the very same source
            let pool: Vec<usize> = if h.r.chance(40) { (0..=t).collect() } else { others.clone() };
            ops = h.caller(&pool, len, true);
            // the same things with another source, just before
            if h.r.chance(60) {
                let src = *h.r.pick(&others);
                ops.push(Op::Parse { src, slot: 2, buf: *h.r.pick(&[Buf::Keep, Buf::Free]) });
                for what in [ERRS[1], ERRS[0]] {
                    ops.push(Op::Read { slot: 2, what });
                }
                let what = h.what();
                ops.push(Op::Read { slot: 2, what });
                if h.r.chance(60) {
                    same = Some(what);
                }
                match h.r.below(4) {
                    0 => ops.push(Op::Drop { slot: 2 }),
                    1 => ops.push(Op::Transform { slot: 2 }),
                    _ => {}
                }
            }
        }
        ops.push(Op::Parse { src: t, slot: 2, buf: *h.r.pick(&[Buf::Keep, Buf::Free]) });
        if same.is_some() && h.r.chance(50) {
            ops.push(Op::Read { slot: 2, what: ERRS[1] });
        }
        for k in 0..3 {
            let what = match same {
                Some(w) if k == 0 => w,
                _ => h.what(),
            };
            ops.push(Op::Read { slot: 2, what });
        }
        for e in 0..2 {
            ops.push(Op::Read { slot: 2, what: ERRS[e] });
        }
        if h.r.chance(30) {
            ops.push(Op::Transform { slot: 2 });
            let what = h.what();
            ops.push(Op::Read { slot: 2, what });
        }
        if h.r.chance(30) {
            ops.push(Op::Wasm { src: t, which: h.r.below(3) as u8, minify: h.r.chance(50) });
        }
        let mut sc = h.sc(family, srcs.clone(), vec![ops]);
        if family == "environment" || h.r.chance(60) {
            sc.env = h.noise();
        }
        if !h.go(sc) {
            return;
        }
    }
}

/// Many operations of every kind, then the target: what adds up over a long life.
fn long_history(h: &mut H, others: &[Src], target: &Src) -> bool {
    let tiny = h.r.chance(3);
    let mut srcs: Vec<Src> = if tiny { vec![gen::corpus_src(h.r.below(12))] } else { others.to_vec() };
    if srcs.iter().chain([target]).any(|s| s.text.len() > 3000) {
        return true;
    }
    let t = srcs.len();
    srcs.push(if tiny { gen::corpus_src(h.r.below(gen::CORPUS.len())) } else { target.clone() });
    let mut ops = Vec::new();
    if tiny {
        // more than 65536 of everything
        ops.push(Op::Parse { src: 0, slot: 0, buf: Buf::Free });
        let what = h.what();
        ops.push(Op::Read { slot: 0, what });
    } else {
        let idx: Vec<usize> = (0..=t).collect();
        let len = h.r.range(3, 9);
        ops = h.caller(&idx, len, true);
        ops.push(Op::Parse { src: t, slot: 2, buf: Buf::Free });
        for _ in 0..2 {
            let what = h.what();
            ops.push(Op::Read { slot: 2, what });
        }
        ops.push(Op::Read { slot: 2, what: ERRS[1] });
    }
    let mut sc = h.sc("long-history", srcs, vec![ops]);
    sc.repeat = if tiny { 33_000 } else { *h.r.pick(&[40, 70, 70, 130, 130, 270]) };
    sc.env.reuse = "lifo".into();
    sc.env.poison = false;
    h.go(sc)
}

/// The target again after as many other sources as a small counter has values, or nearly so.
fn wrap_around(h: &mut H, target: &Src) -> bool {
    let n = *h.r.pick(&[64usize, 128, 256, 256, 256, 256, 512]);
    let target = match h.r.below(3) {
        0 => error_source(h),
        1 => gen::broken_src(h.r.below(gen::BROKEN.len())),
        _ => target.clone(),
    };
    if target.text.len() > 2000 {
        return true;
    }
    let first = match h.r.below(4) {
        0 => gen::sibling(&mut h.r, &target),
        1 => gen::cousin(&mut h.r, &target),
        _ => target.clone(),
    };
    // mostly something that passes unnoticed
    let filler = match h.r.below(4) {
        0 => gen::corpus_src(h.r.below(gen::CORPUS.len())),
        1 => h.source(6),
        _ => gen::good(&mut h.r, 3),
    };
    let what = h.what();
    let read = h.r.chance(30);
    let visit = |src: usize, ops: &mut Vec<Op>| {
        ops.push(Op::Parse { src, slot: 0, buf: Buf::Free });
        ops.push(Op::Read { slot: 0, what });
        ops.push(Op::Read { slot: 0, what: ERRS[1] });
    };
    let mut ops = Vec::new();
    for len in [n, n - 1, n - 2] {
        visit(1, &mut ops);
        for _ in 0..len {
            ops.push(Op::Parse { src: 2, slot: 1, buf: Buf::Free });
            if read {
                ops.push(Op::Read { slot: 1, what });
            }
        }
        visit(0, &mut ops);
    }
    let mut sc = h.sc("wrap-around", vec![target, first, filler], vec![ops]);
    sc.env.reuse = "lifo".into();
    sc.env.poison = false;
    h.go(sc)
}

/// Hundreds of failures and abandoned operations in a row, complete reads in between: what a
/// failure leaves behind may add up.
fn storm(h: &mut H, whats: &[What], module: bool) -> bool {
    let src = if !module {
        error_source(h)
    } else if h.r.chance(30) {
        let n = h.r.range(3, 14);
        gen::nested(h.r.below(gen::NEST.len() - 10), n)
    } else {
        h.good_source(16)
    };
    let mut what = *h.r.pick(whats);
    if let What::Debug { alt: true, body } = what {
        // mostly time spent in the standard library
        what = What::Debug { alt: h.r.chance(30), body };
    }
    let r = h.w.look(&src, &[what], false);
    let Some(o) = r.reads.get(&(false, what)) else { return true };
    let (calls, mut steps) = (o.calls, o.steps + 100 * o.calls as u64);
    if let What::Debug { alt: true, .. } = what {
        steps *= 6;
    }
    if calls == 0 {
        return true;
    }
    let mut ops = vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }];
    let n = h.r.range(8, 16);
    let mut unwinds = 0;
    for _ in 0..n {
        let at = h.r.below(calls as usize) as u32;
        let kind = h.r.below(6) as u8;
        let fault = if !faultable(what) {
            Fault::Cancel { at }
        } else {
            match h.r.below(8) {
                0..=2 => Fault::ErrOnce { at, kind },
                3..=5 => Fault::ErrForever { at, kind },
                _ => Fault::Cancel { at },
            }
        };
        if let Fault::Cancel { .. } = fault {
            unwinds += 1;
        }
        ops.push(Op::Sink { slot: 0, what, fault });
    }
    ops.push(Op::Read { slot: 0, what });
    let other = h.what();
    ops.push(Op::Read { slot: 0, what: other });
    let src_len = src.text.len() as u64;
    let mut sc = h.sc("storm", vec![src], vec![ops]);
    // about thirty million steps; unwinding through a deep stack takes its time, too
    let each = steps / 2 * n as u64 + unwinds * (20_000 + 40 * src_len) + 4000;
    let most = if h.r.chance(4) { 5000 } else { 200 };
    sc.repeat = (30_000_000 / each).clamp(20, most) as u32;
    sc.env.reuse = "lifo".into();
    sc.env.poison = false;
    h.go(sc)
}

/// Errors that change hands: reported to one caller, read and dropped by another, while the first
/// goes on or its thread is gone.
fn handover(h: &mut H, transforms: bool) -> bool {
    let n = h.r.range(2, 4);
    let srcs: Vec<Src> = (0..3).map(|i| if i < 2 { error_source(h) } else { h.source(22) }).collect();
    for _ in 0..6 {
        let mut threads = Vec::new();
        for i in 0..n {
            let mut v = Vec::new();
            let buf = *h.r.pick(&[Buf::Keep, Buf::Free, Buf::Scribble]);
            v.push(Op::Parse { src: h.r.below(3), slot: 0, buf });
            for _ in 0..h.r.below(3) {
                let what = if h.r.chance(60) { *h.r.pick(&ERRS) } else { plain(h.what()) };
                v.push(Op::Read { slot: 0, what });
            }
            if transforms && h.r.chance(20) {
                v.push(Op::Transform { slot: 0 });
            }
            v.push(Op::Give { slot: 0, to: i });
            if h.r.chance(60) {
                let len = h.r.range(1, 5);
                v.extend(h.caller(&[0, 1, 2], len, transforms));
            }
            for k in 1..h.r.range(2, 3) {
                v.push(Op::Take { slot: 1, from: (i + k) % n, wait: h.r.chance(70) });
                for _ in 0..h.r.range(1, 3) {
                    let what = if h.r.chance(80) { *h.r.pick(&ERRS) } else { h.what() };
                    v.push(Op::Read { slot: 1, what });
                }
                match h.r.below(5) {
                    0 if transforms => {
                        v.push(Op::Transform { slot: 1 });
                        let what = h.what();
                        v.push(Op::Read { slot: 1, what });
                    }
                    1 => v.push(Op::Move { slot: 1 }),
                    2 => v.push(Op::Give { slot: 1, to: h.r.below(4) }),
                    3 => v.push(Op::Drop { slot: 1 }),
                    _ => v.push(Op::Recheck { slot: 1 }),
                }
            }
            threads.push(v);
        }
        let mut sc = h.sc("handover", srcs.clone(), threads);
        let total = h.steps_of(&sc);
        if h.r.chance(75) {
            sc.env = h.noise();
            sc.env.poison = true;
        }
        sc.env.ends = h.r.chance(70);
        // one after the other, or not
        if h.r.chance(70) {
            sc.slices = schedule(&mut h.r, n, total);
        }
        if !h.go(sc) {
            return false;
        }
    }
    true
}

// ------------------------------------------------------------------ C03

/// The expanded dump (`{:#?}`) is left out where cost matters: its indentation is produced by the
/// standard library, which passes every line through one adapter per level of nesting.
fn full_day(src: usize, n_err: u32, alt: bool) -> Vec<Op> {
    let mut ops = vec![Op::Parse { src, slot: 0, buf: Buf::Free }];
    let mut reads = all_reads();
    reads.retain(|w| alt || !matches!(w, What::Debug { alt: true, .. }));
    // the simulator's own, and its output is cut short
    reads.retain(|w| *w != What::Nodes);
    for &what in &reads {
        ops.push(Op::Read { slot: 0, what });
    }
    for i in 0..n_err {
        ops.push(Op::Read { slot: 0, what: What::ErrDebug { i } });
        ops.push(Op::Read { slot: 0, what: What::ErrShow { i } });
    }
    ops.push(Op::Transform { slot: 0 });
    for &what in &reads {
        ops.push(Op::Read { slot: 0, what });
    }
    ops
}

fn c03(h: &mut H) {
    // construct number `epoch` repeated, then nested, then sources of every other kind
    let nr = gen::REPEAT.len() as u64;
    let nn = gen::NEST.len() as u64;
    let slot = h.epoch % (nr + nn + 60);
    let round = h.epoch / (nr + nn + 60);
    if slot < nr {
        let n = [40usize, 150, 600, 25][(round % 4) as usize];
        growth(h, [1, 3, 9].map(|k| gen::repeated(slot as usize, n * k)));
        growth(h, [1, 3, 9].map(|k| gen::repeated_distinct(slot as usize, n * k)));
    } else if slot < nr + nn {
        let k = (slot - nr) as usize;
        let n = [12usize, 20, 6][(round % 3) as usize];
        growth(h, [1, 3, 9].map(|m| gen::nested(k, n * m)));
        growth(h, [1, 3, 9].map(|m| gen::nested_distinct(k, n * m)));
    } else {
        // constructs inside one another, and fragments nobody thought of
        for i in 0..4 {
            let m = h.r.range(3, 14);
            let srcs = if i % 2 == 0 {
                let (x, y, z) = (h.r.below(gen::NEST.len()), h.r.below(gen::NEST.len()), h.r.below(gen::NEST.len()));
                [1, 3, 9].map(|k| gen::nested_in(&[x, y, z], m * k))
            } else {
                let mut parts = [String::new(), String::new(), String::new()];
                for p in &mut parts {
                    for _ in 0..h.r.range(0, 3) {
                        p.push_str(h.r.pick(SOUP));
                        if h.r.chance(50) {
                            p.push(' ');
                        }
                    }
                }
                if parts[1].is_empty() {
                    parts[1].push_str(h.r.pick(SOUP));
                }
                [1, 3, 9].map(|k| Src {
                    text: format!("{}{}{}", parts[0], parts[1].repeat(4 * m * k), parts[2]),
                    origin: format!("{:?} + {} times {:?} + {:?}", parts[0], 4 * m * k, parts[1], parts[2]),
                    must_fail: None,
                    count: None,
                    marks: vec![],
                })
            };
            if !growth(h, srcs) {
                return;
            }
        }
        for i in 0..12 {
            let size = *h.r.pick(&[10, 30, 100]);
            let src = match i % 6 {
                0 => h.good_source(size),
                1 => gen::broken_in(&mut h.r, size),
                2 | 3 => gen::damaged(&mut h.r, size),
                4 => {
                    // a program cut at a random point
                    let mut s = gen::good(&mut h.r, size);
                    let mut k = h.r.below(s.text.len() + 1);
                    while !s.text.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.text.truncate(k);
                    s.origin = "cut".into();
                    s
                }
                _ => h.source(size),
            };
            // a whole generated program, repeated
            if i % 6 == 0 {
                let unit = format!("{}\n;", src.text);
                let apart = h.r.chance(50);
                let rep = |n: usize| Src {
                    text: if apart { gen::distinct(&unit, n) } else { unit.repeat(n) },
                    origin: format!("{} times a generated program", n),
                    must_fail: None,
                    count: None,
                    marks: vec![],
                };
                if !growth(h, [3, 9, 27].map(rep)) {
                    return;
                }
            }
            let mut sc = h.sc("linear", vec![src], vec![full_day(0, 2, false)]);
            sc.metered = true;
            if h.r.chance(40) {
                sc.env = h.noise();
                sc.env.fence = false;
            }
            if !h.go(sc) {
                return;
            }
        }
        for _ in 0..8 {
            let i = h.r.below(gen::BROKEN.len());
            let mut sc = h.sc("linear", vec![gen::broken_src(i)], vec![full_day(0, 2, false)]);
            sc.metered = true;
            sc.env = h.noise();
            sc.env.fence = false;
            if !h.go(sc) {
                return;
            }
        }
    }
}

fn growth(h: &mut H, srcs: [Src; 3]) -> bool {
    let ops = (0..3).flat_map(|i| full_day(i, 2, false)).collect();
    let mut sc = h.sc("growth", srcs.to_vec(), vec![ops]);
    sc.metered = true;
    h.go(sc)
}

// ------------------------------------------------------------------ C04

fn c04_ops(src: usize, alt: bool, deep: bool) -> Vec<Op> {
    let mut ops = full_day(src, 8, alt);
    for which in 0..3 {
        if which == 1 && deep {
            continue;
        }
        ops.push(Op::Wasm { src, which, minify: which != 1 });
    }
    ops
}

fn c04(h: &mut H) {
    let nc = (gen::CORPUS.len() + gen::BROKEN.len()) as u64;
    let (nr, nn) = (gen::REPEAT.len() as u64, gen::NEST.len() as u64);
    let mut list: Vec<(Src, &'static str)> = Vec::new();
    let e = h.epoch;
    if e % 2 == 0 {
        // every small program and fragment, a few per epoch
        for k in 0..8 {
            let i = ((e / 2) * 8 + k) % (nc + nr + nn);
            if i < gen::CORPUS.len() as u64 {
                list.push((gen::corpus_src(i as usize), "corpus"));
            } else if i < nc {
                list.push((gen::broken_src(i as usize - gen::CORPUS.len()), "fragments"));
            } else if i < nc + nr {
                let n = h.r.range(1, 60);
                list.push((gen::repeated((i - nc) as usize, n), "repeated"));
            } else {
                let n = h.r.range(1, 40);
                list.push((gen::nested((i - nc - nr) as usize, n), "nested"));
            }
        }
        // every cut of one program
        let p = if h.r.chance(50) { gen::corpus_src(h.r.below(gen::CORPUS.len())) } else { gen::good(&mut h.r, 20) };
        let stride = (p.text.len() / 60).max(1);
        let mut at = h.r.below(stride);
        while at < p.text.len() {
            if p.text.is_char_boundary(at) {
                let mut s = p.clone();
                s.text.truncate(at);
                s.origin = "cut".into();
                list.push((s, "cut"));
            }
            at += stride;
        }
    } else {
        for i in 0..33 {
            let size = *h.r.pick(&[6, 15, 40, 120]);
            match i % 11 {
                0 => list.push((gen::good(&mut h.r, size), "programs")),
                7 => {
                    let s = h.plain_good_source(size);
                    list.push((gen::respell(&mut h.r, &s), "respelled"))
                }
                8 => {
                    let s = h.source(size);
                    // hundreds of errors, each shown with the whole of a long line, fill the heap
                    if s.text.len() > 1200 {
                        continue;
                    }
                    let s = gen::doubled(&mut h.r, &s);
                    list.push((gen::respell(&mut h.r, &s), "respelled"))
                }
                1 | 2 | 3 => list.push((gen::damaged(&mut h.r, size), "damaged")),
                9 => {
                    let s = match h.r.below(3) {
                        0 => error_source(h),
                        1 => h.source(size.min(40)),
                        _ => gen::corpus_src(h.r.below(gen::CORPUS.len())),
                    };
                    // see above
                    if s.text.len() < 400 {
                        let max = if h.r.chance(20) { 140_000 } else { 9_000 };
                        list.push((gen::stretched(&mut h.r, &s, max), "stretched"));
                    }
                }
                10 => {
                    let s = plain_error_source(h);
                    if s.text.len() < 400 {
                        list.push((gen::far_down(&mut h.r, &s), "far down"));
                    }
                }
                4 => list.push((gen::broken_in(&mut h.r, size), "fragments")),
                5 => {
                    // two fragments
                    let a = gen::broken_src(h.r.below(gen::BROKEN.len()));
                    let b = gen::broken_src(h.r.below(gen::BROKEN.len()));
                    let sep = *h.r.pick(&["", " ", "\n", ";", "(", "{"]);
                    list.push((Src { text: format!("{}{}{}", a.text, sep, b.text), origin: "two fragments".into(), ..a }, "fragments"));
                }
                _ => {
                    // token soup
                    let n = h.r.range(1, 14);
                    let mut t = String::new();
                    for _ in 0..n {
                        let p = *h.r.pick(SOUP);
                        t.push_str(p);
                        if h.r.chance(50) {
                            t.push_str(*h.r.pick(&[" ", "\n", " "]));
                        }
                    }
                    list.push((Src { text: t, origin: "token soup".into(), must_fail: None, count: None, marks: vec![] }, "soup"));
                }
            }
        }
        if h.r.chance(3) {
            let s = h.big_source(80_000);
            list.push((s, "large"));
        }
    }
    for (src, family) in list {
        // see `full_day`
        let deep = nesting(&src.text) > 40;
        let alt = src.text.len() < 600 && family != "nested" && !deep;
        let mut sc = h.sc(family, vec![src], vec![c04_ops(0, alt, deep)]);
        match h.r.below(3) {
            0 => {}
            1 => {
                sc.env.fence = true;
                sc.env.fill = "random".into();
            }
            _ => {
                sc.env = h.noise();
                sc.env.fence = false;
            }
        }
        if !h.go(sc) {
            return;
        }
    }
}

/// At most so many constructs are inside one another.
fn nesting(t: &str) -> usize {
    let (mut depth, mut most) = (0usize, 0);
    for b in t.bytes() {
        match b {
            b'(' | b'[' | b'{' => {
                depth += 1;
                most = most.max(depth);
            }
            b')' | b']' | b'}' => depth = depth.saturating_sub(1),
            _ => {}
        }
    }
    most
}

const SOUP: &[&str] = &[
    "a", "b", "é", "日本", "1", "0", "0x", "1.5", ".5", "'s'", "\"", "'", "`", "`t`", "${", "/", "/r/", "/*", "*/", "//", "(", ")", "[", "]", "{", "}", ";", ",", ":", "?", ".", ".a", "...", "=>", "=", "==", "===", "!", "!=", "!==", "+", "++", "-", "--", "*", "**", "%", "<", "<<", "<<=", ">", ">>", ">>>", ">>>=", "&", "&&", "|", "||",
    "^", "~", "+=", "**=", "/=", "var", "let", "const", "function", "class", "extends", "static", "get", "set", "new", "new.target", "this", "super", "null", "true", "undefined", "if", "else", "for", "while", "do", "switch", "case", "default", "break", "continue", "return", "throw", "try", "catch", "finally", "import", "from", "as", "of", "in", "instanceof",
    "typeof", "void", "delete", "debugger", "yield", "with", "enum", "export", "@", "#", "\\", "→", "😀", "\u{2028}", "\u{0}", "\n", "\t", "*", "_", "$",
];

// ------------------------------------------------------------------ C05

fn c05(h: &mut H) {
    // every decidable cut of one program
    for _ in 0..60 {
        let size = *h.r.pick(&[8, 15, 30, 60, 150]);
        let Some(mut s) = gen::must_fail(&mut h.r, size) else { continue };
        match h.r.below(20) {
            0 => s = gen::far_down(&mut h.r, &s),
            1 => gen::lengthen(&mut h.r, &mut s),
            _ => {}
        }
        let mut sc = h.sc("damaged", vec![s], vec![vec![Op::Parse { src: 0, slot: 0, buf: Buf::Keep }]]);
        if h.r.chance(70) {
            sc.env = h.noise();
        }
        if !h.go(sc) {
            return;
        }
    }
    for _ in 0..30 {
        let Some(s) = gen::composed_broken(&mut h.r) else { continue };
        let mut sc = h.sc("composed, damaged", vec![s], vec![vec![Op::Parse { src: 0, slot: 0, buf: Buf::Keep }]]);
        if h.r.chance(70) {
            sc.env = h.noise();
        }
        if !h.go(sc) {
            return;
        }
    }
    for i in 0..36 {
        let size = *h.r.pick(&[8, 20, 60, 200]);
        let s = if i >= 32 {
            let max = if i == 32 && h.r.chance(10) { 140_000 } else { 10_000 };
            let n = gen::odd_length(&mut h.r, max);
            gen::long_list(&mut h.r, n)
        } else if i % 3 == 0 { gen::marked(&mut h.r, size) } else { gen::composed_marked(&mut h.r) };
        let mut sc = h.sc("complete", vec![s], vec![vec![Op::Parse { src: 0, slot: 0, buf: Buf::Keep }, Op::Read { slot: 0, what: What::Debug { alt: false, body: true } }]]);
        if h.r.chance(70) {
            sc.env = h.noise();
        }
        if !h.go(sc) {
            return;
        }
    }
}

// ------------------------------------------------------------------ C06, C07

/// Every sink call of every read fails once and for good, and the complete read follows.
fn sweep(h: &mut H, whats: &[What], module: bool) {
    if h.epoch % 4 == 1 && !storm(h, whats, module) {
        return;
    }
    let src = if module { h.good_source(22) } else { error_source(h) };
    let extra = h.what();
    // a module that was transformed must serialise just as well
    let transformed = module && h.r.chance(25);
    for &what in whats {
        let r = h.w.look(&src, &[what], transformed);
        let Some(o) = r.reads.get(&(transformed, what)) else { continue };
        let (calls, bytes) = (o.calls, o.text.len() as u32);
        if calls == 0 {
            continue;
        }
        let mut faults: Vec<Fault> = Vec::new();
        let cap = if h.deep { 400 } else { 120 };
        let stride = (calls / cap).max(1);
        let mut at = h.r.below(stride as usize) as u32;
        while at < calls {
            let kind = h.r.below(6) as u8;
            faults.push(if h.r.chance(50) { Fault::ErrOnce { at, kind } } else { Fault::ErrForever { at, kind } });
            at += stride;
        }
        // both kinds at both ends
        for at in [0, 1, calls.saturating_sub(2), calls - 1] {
            faults.push(Fault::ErrOnce { at, kind: 0 });
            faults.push(Fault::ErrForever { at, kind: 1 });
        }
        for _ in 0..10 {
            faults.push(Fault::Full { bytes: h.r.below(bytes as usize) as u32 });
            faults.push(Fault::Cancel { at: h.r.below(calls as usize) as u32 });
        }
        faults.push(Fault::Full { bytes: 0 });
        faults.push(Fault::Full { bytes: bytes - 1 });
        if matches!(what, What::Json { .. }) {
            for _ in 0..3 {
                faults.push(Fault::Short { seed: h.r.next() });
                faults.push(Fault::Eintr { seed: h.r.next() });
            }
        }
        h.r.shuffle(&mut faults);
        for chunk in faults.chunks(12) {
            let mut ops = vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }];
            if transformed {
                ops.push(Op::Transform { slot: 0 });
            }
            for (k, f) in chunk.iter().enumerate() {
                ops.push(Op::Sink { slot: 0, what, fault: f.clone() });
                if k % 3 == 0 || h.r.chance(20) {
                    ops.push(Op::Read { slot: 0, what });
                }
            }
            ops.push(Op::Read { slot: 0, what });
            ops.push(Op::Read { slot: 0, what: extra });
            let mut sc = h.sc(if transformed { "sweep-transformed" } else { "sweep" }, vec![src.clone()], vec![ops]);
            if h.r.chance(30) {
                sc.env = h.noise();
                sc.env.fence = false;
            }
            if !h.go(sc) {
                return;
            }
        }
    }
}

fn error_source(h: &mut H) -> Src {
    let s = plain_error_source(h);
    if s.text.len() > 400 {
        return s;
    }
    match h.r.below(12) {
        0 | 1 => gen::far_down(&mut h.r, &s),
        2 => gen::stretched(&mut h.r, &s, 5000),
        _ => s,
    }
}

fn plain_error_source(h: &mut H) -> Src {
    match h.r.below(4) {
        0 => gen::broken_src(h.r.below(gen::BROKEN.len())),
        1 => gen::broken_in(&mut h.r, 25),
        2 => gen::damaged(&mut h.r, 25),
        _ => {
            let mut s = gen::good(&mut h.r, 25);
            let k = s.text.char_indices().map(|c| c.0).nth(h.r.below(s.text.chars().count() + 1)).unwrap_or(s.text.len());
            s.text.insert_str(k, *h.r.pick(&["@", ")", "}", "→", "\n@\n", "#", "a b"]));
            s.origin = "foreign token".into();
            s
        }
    }
}

fn c07(h: &mut H) {
    if h.epoch % 3 == 2 {
        let mut e = ERRS.to_vec();
        e.truncate(4);
        sweep(h, &e, false);
        sweep(h, &e, false);
    } else {
        sweep(h, &DUMP, true);
    }
}

// ------------------------------------------------------------------ C08, C09

fn interrupted(h: &mut H, what: What) {
    if h.epoch % 6 == 1 && !storm(h, &[what], true) {
        return;
    }
    let src = h.good_source(26);
    let other = h.source(15);
    let transformed = h.r.chance(25);
    let r = h.w.look(&src, &[what], transformed);
    let Some(o) = r.reads.get(&(transformed, what)) else { return };
    let calls = o.calls;
    let mut faults: Vec<Fault> = Vec::new();
    let cap = if h.deep { 400 } else { 150 };
    let stride = (calls / cap).max(1);
    let mut at = h.r.below(stride as usize) as u32;
    while at < calls {
        faults.push(Fault::Cancel { at });
        at += stride;
    }
    for _ in 0..(calls / 2).clamp(6, 40) {
        let ops = h.inner(0, 3, 2);
        faults.push(Fault::Nested { at: h.r.below(calls.max(1) as usize) as u32, ops });
    }
    // the same kind of read inside itself, twice over
    for _ in 0..6 {
        let a = h.r.below(calls.max(1) as usize) as u32;
        let b = h.r.below(calls.max(1) as usize) as u32;
        faults.push(Fault::Nested { at: a, ops: vec![Op::Sink { slot: 0, what, fault: Fault::Nested { at: b, ops: vec![Op::Read { slot: 0, what }] } }, Op::Sink { slot: 0, what, fault: Fault::Cancel { at: b } }] });
    }
    h.r.shuffle(&mut faults);
    for chunk in faults.chunks(10) {
        let mut ops = vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }];
        if transformed {
            ops.push(Op::Transform { slot: 0 });
        }
        for (k, f) in chunk.iter().enumerate() {
            ops.push(Op::Sink { slot: 0, what, fault: f.clone() });
            if k % 3 == 0 || h.r.chance(25) {
                ops.push(Op::Read { slot: 0, what });
            }
            if h.r.chance(20) {
                let w = h.what();
                ops.push(Op::Read { slot: 0, what: w });
            }
        }
        ops.push(Op::Read { slot: 0, what });
        let w = *h.r.pick(&CODE);
        ops.push(Op::Read { slot: 0, what: w });
        let mut sc = h.sc(if transformed { "interrupt-transformed" } else { "interrupt" }, vec![src.clone(), other.clone()], vec![ops]);
        if h.r.chance(30) {
            sc.env = h.noise();
            sc.env.fence = false;
        }
        if !h.go(sc) {
            return;
        }
    }
}

/// Complete reads of many programs: brackets must balance everywhere.
fn balanced(h: &mut H, what: What) {
    for i in 0..30 {
        let size = *h.r.pick(&[10, 30, 100]);
        let src = if i < 6 {
            gen::corpus_src((h.epoch as usize * 6 + i) % gen::CORPUS.len())
        } else if i < 10 {
            let n = h.r.range(1, 20);
            gen::nested(h.r.below(gen::NEST.len()), n)
        } else {
            gen::good(&mut h.r, size)
        };
        let mut ops = vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }, Op::Read { slot: 0, what }];
        ops.push(Op::Sink { slot: 0, what, fault: Fault::Cancel { at: h.r.below(30) as u32 } });
        if h.r.chance(50) {
            ops.push(Op::Transform { slot: 0 });
        }
        ops.push(Op::Read { slot: 0, what });
        let sc = h.sc("balance", vec![src], vec![ops]);
        if !h.go(sc) {
            return;
        }
    }
}

fn c08(h: &mut H) {
    if h.epoch % 3 == 0 {
        balanced(h, What::Gen)
    } else {
        interrupted(h, What::Gen)
    }
}

fn c09(h: &mut H) {
    if h.epoch % 3 == 0 {
        balanced(h, What::Visit)
    } else {
        interrupted(h, What::Visit)
    }
}

// ------------------------------------------------------------------ C10

fn c10(h: &mut H) {
    if h.epoch % 16 == 6 {
        handover(h, true);
        return;
    }
    match h.epoch % 4 {
        0 => leak(h),
        1 => oom(h),
        2 => life(h, true),
        _ => life(h, false),
    }
}

fn life(h: &mut H, fence: bool) {
    let big = h.r.chance(10);
    let srcs: Vec<Src> = (0..3)
        .map(|i| {
            if i == 0 && big {
                let large = h.r.chance(40);
                let n = if h.r.chance(30) { h.r.range(5_000, 90_000) } else { h.odd_size(large) };
                h.big_source(n)
            } else if h.r.chance(5) {
                gen::boundary(&mut h.r, 9)
            } else {
                h.source(30)
            }
        })
        .collect();
    for _ in 0..if big { 6 } else { 14 } {
        let mut ops = Vec::new();
        let len = h.r.range(5, 18);
        while ops.len() < len {
            let slot = h.r.below(4);
            match h.r.below(16) {
                0..=3 => ops.push(Op::Parse { src: h.r.below(3), slot, buf: *h.r.pick(&[Buf::Free, Buf::Scribble, Buf::Scribble]) }),
                4..=8 => {
                    let what = h.what();
                    ops.push(Op::Read { slot, what })
                }
                9 | 10 => ops.push(Op::Move { slot }),
                11 | 12 => ops.push(Op::Drop { slot }),
                13 => {
                    let s = sinks();
                    let what = *h.r.pick(&s);
                    let fault = h.fault(what, 14);
                    ops.push(Op::Sink { slot, what, fault })
                }
                14 => ops.push(Op::Transform { slot }),
                _ => ops.push(Op::Recheck { slot }),
            }
        }
        for slot in 0..4 {
            let what = h.what();
            ops.push(Op::Read { slot, what });
            ops.push(Op::Recheck { slot });
        }
        let mut sc = h.sc(if fence { "life-fenced" } else { "life" }, srcs.clone(), vec![ops]);
        sc.env = h.noise();
        if fence {
            sc.env.fence = true;
            sc.env.reuse = "never".into();
            sc.env.gaps = false;
        } else {
            sc.env.fence = false;
            sc.env.poison = true;
        }
        if !h.go(sc) {
            return;
        }
    }
}

fn leak(h: &mut H) {
    for _ in 0..14 {
        let srcs: Vec<Src> = (0..2).map(|_| h.source(20)).collect();
        let len = h.r.range(1, 9);
        let ops = match h.r.below(4) {
            0 => vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }],
            1 => {
                let mut v = vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }];
                for _ in 0..len {
                    let what = h.what();
                    v.push(Op::Read { slot: 0, what });
                }
                v
            }
            _ => h.caller(&[0, 1], len, true),
        };
        let threads = h.r.chance(25);
        let mut sc = h.sc("leak", srcs, vec![ops]);
        if h.r.chance(50) {
            sc.env = h.noise();
            sc.env.fence = false;
        }
        if threads {
            // every repetition in a thread of its own
            sc.family = "leak-threads".into();
            sc.threads = vec![sc.threads[0].clone(); 8];
            sc.env.ends = true;
        } else {
            sc.repeat = *h.r.pick(&[6, 8, 12]);
        }
        if !h.go(sc) {
            return;
        }
    }
}

/// Every allocation of a history fails, one execution each.
fn oom(h: &mut H) {
    let src = h.source(14);
    let len = h.r.range(1, 4);
    let mut ops = vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }];
    for _ in 0..len {
        let what = h.what();
        ops.push(Op::Read { slot: 0, what });
    }
    if h.r.chance(40) {
        ops.push(Op::Transform { slot: 0 });
        let what = h.what();
        ops.push(Op::Read { slot: 0, what });
    }
    if h.r.chance(20) {
        ops.push(Op::Wasm { src: 0, which: h.r.below(3) as u8, minify: false });
    }
    let base = h.sc("out-of-memory", vec![src], vec![ops]);
    let (o, _) = h.w.judge(&base);
    let n = o.stats.allocs;
    let cap = if h.deep { 300 } else { 90 };
    let stride = (n / cap).max(1);
    let mut k = 1 + h.r.next() % stride;
    while k <= n {
        let mut sc = base.clone();
        sc.env.fail_at = k;
        sc.env.fill = if h.r.chance(50) { "random".into() } else { "zero".into() };
        if !h.go(sc) {
            return;
        }
        k += stride;
    }
}

// ------------------------------------------------------------------ C11

fn c11(h: &mut H) {
    if h.epoch % 16 == 5 && !handover(h, true) {
        return;
    }
    let s = sinks();
    if h.epoch % 8 == 3 && !storm(h, &s, true) {
        return;
    }
    let src = if h.r.chance(90) { h.good_source(35) } else { error_source(h) };
    let other = h.source(15);
    let transformed = h.r.chance(25);
    for _ in 0..20 {
        let mut ops = vec![Op::Parse { src: 0, slot: 0, buf: *h.r.pick(&[Buf::Free, Buf::Scribble, Buf::Keep]) }];
        if transformed {
            ops.push(Op::Transform { slot: 0 });
        }
        let len = h.r.range(3, 20);
        while ops.len() < len {
            match h.r.below(12) {
                0..=5 => {
                    let what = h.what();
                    ops.push(Op::Read { slot: 0, what })
                }
                6 | 7 => {
                    let s = sinks();
                    let what = if h.r.chance(15) { *h.r.pick(&ERRS) } else { *h.r.pick(&s) };
                    let calls = h.w.look(&src, &[what], transformed).reads.get(&(transformed, what)).map_or(8, |o| o.calls);
                    let fault = h.fault(what, calls);
                    ops.push(Op::Sink { slot: 0, what, fault })
                }
                8 | 9 => {
                    let s = sinks();
                    let what = *h.r.pick(&s);
                    let calls = h.w.look(&src, &[what], transformed).reads.get(&(transformed, what)).map_or(8, |o| o.calls);
                    let inner = h.inner(0, 1, 2);
                    ops.push(Op::Sink { slot: 0, what, fault: Fault::Nested { at: h.r.below(calls.max(1) as usize) as u32, ops: inner } })
                }
                10 => ops.push(Op::Read { slot: 0, what: What::Analyze }),
                _ => ops.push(Op::Recheck { slot: 0 }),
            }
        }
        for what in [What::Code { minify: false }, What::Json { pretty: false }, What::Debug { alt: false, body: true }] {
            ops.push(Op::Read { slot: 0, what });
        }
        let what = h.what();
        ops.push(Op::Read { slot: 0, what });
        ops.push(Op::Recheck { slot: 0 });
        let mut sc = h.sc(if transformed { "reads-transformed" } else { "reads" }, vec![src.clone(), other.clone()], vec![ops]);
        if h.r.chance(50) {
            sc.env = h.noise();
            sc.env.fence = false;
        }
        if !h.go(sc) {
            return;
        }
    }
}

// ------------------------------------------------------------------ C12

fn c12(h: &mut H) {
    if h.epoch % 16 == 5 && !handover(h, true) {
        return;
    }
    let src = if h.r.chance(60) { gen::corpus_src(h.r.below(gen::CORPUS.len())) } else { h.good_source(35) };
    let by = h.good_source(20);
    let third = h.source(20);
    for i in 0..20 {
        let mut ops = vec![Op::Parse { src: 0, slot: 0, buf: Buf::Free }, Op::Parse { src: if i % 2 == 0 { 1 } else { 0 }, slot: 1, buf: Buf::Scribble }];
        // before
        if h.r.chance(50) {
            ops.push(Op::Read { slot: 1, what: What::Analyze });
        }
        for _ in 0..h.r.below(6) {
            let s = sinks();
            match h.r.below(6) {
                0 | 1 => {
                    let what = h.what();
                    ops.push(Op::Read { slot: 0, what })
                }
                2 | 3 => {
                    let what = *h.r.pick(&s);
                    let fault = h.fault(what, 14);
                    ops.push(Op::Sink { slot: 0, what, fault })
                }
                4 => {
                    ops.push(Op::Parse { src: 2, slot: 2, buf: Buf::Free });
                    ops.push(Op::Transform { slot: 2 });
                    if h.r.chance(50) {
                        ops.push(Op::Drop { slot: 2 });
                    }
                }
                _ => ops.push(Op::Move { slot: 0 }),
            }
        }
        if i % 5 == 4 {
            // transformed while another module is being read
            let s = sinks();
            let what = *h.r.pick(&s);
            ops.push(Op::Sink { slot: 1, what, fault: Fault::Nested { at: h.r.below(8) as u32, ops: vec![Op::Transform { slot: 0 }, Op::Read { slot: 0, what: What::Code { minify: false } }] } });
        } else {
            ops.push(Op::Transform { slot: 0 });
        }
        // after
        for _ in 0..h.r.range(1, 4) {
            let what = h.what();
            ops.push(Op::Read { slot: 0, what });
        }
        for what in [What::Code { minify: false }, What::Json { pretty: false }, What::Debug { alt: false, body: true }, What::Visit] {
            ops.push(Op::Read { slot: 0, what });
        }
        // bystanders
        ops.push(Op::Recheck { slot: 1 });
        let what = h.what();
        ops.push(Op::Read { slot: 1, what });
        ops.push(Op::Read { slot: 1, what: What::Debug { alt: false, body: true } });
        ops.push(Op::Read { slot: 2, what: What::Code { minify: true } });
        let mut sc = h.sc("transform", vec![src.clone(), by.clone(), third.clone()], vec![ops]);
        if h.r.chance(50) {
            sc.env = h.noise();
            sc.env.fence = false;
        }
        if !h.go(sc) {
            return;
        }
    }
}


/// Everything on one source.
pub fn probe_scenario(src: Src, prop: &str) -> Scenario {
    Scenario {
        prop: prop.into(),
        family: "probe".into(),
        seed: 0,
        epoch: 0,
        run: 0,
        env: Env::canonical(),
        srcs: vec![src],
        threads: vec![c04_ops(0, prop != "C03", prop == "C03")],
        slices: vec![],
        sites: vec![],
        repeat: 1,
        metered: prop == "C03",
    }
}
