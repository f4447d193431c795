//! The simulated machine: one clock (executed control-flow edges of the code under test), a
//! scheduler that decides at which edge one caller thread stops and another goes on, and stand-ins
//! for the operating system services the code could reach (futex, clock, randomness, environment).
//!
//! Exactly one simulated thread runs at any time. Real threads are used only so that each caller
//! has real thread-local storage and a real stack; which of them runs is decided by the schedule
//! of the scenario alone.
#![allow(static_mut_refs)]

use libc::{c_char, c_int, c_long, c_void};
use std::arch::asm;
use std::ptr::{addr_of, addr_of_mut, null_mut};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX_THREADS: usize = 10;
pub const MAX_EDGES: usize = 1 << 15;
pub const STACK_SIZE: usize = 72 << 20;
const STACK_BASE: usize = 0x5a00_0000_0000;
pub const HEAP_BASE: usize = 0x5b00_0000_0000;
pub const HEAP_SIZE: usize = 3 << 30;

// ------------------------------------------------------------------ the slot shared with the parent

#[repr(C)]
pub struct Slot {
    pub verdict: u32,
    pub sig: u32,
    pub code: u32,
    pub alloc_failed: u32,
    pub fault_addr: u64,
    pub fault_sp: u64,
    pub steps: u64,
    pub msg_len: u32,
    pub msg: [u8; 2000],
    /// (thread, index of the running top-level op) at the time of death
    pub cur_thread: u32,
    pub cur_op: [u32; MAX_THREADS],
    pub out_len: u64,
}

pub const V_RUNNING: u32 = 0;
pub const V_DONE: u32 = 1;
pub const V_HANG: u32 = 2;
pub const V_SIGNAL: u32 = 3;
pub const V_STACK: u32 = 4;
pub const V_DEADLOCK: u32 = 5;
pub const V_MEMORY: u32 = 6;
pub const V_HEAP: u32 = 7;
pub const V_HARNESS: u32 = 8;

pub static mut SLOT: *mut Slot = null_mut();
pub static mut OUT: *mut u8 = null_mut();
pub static mut OUT_CAP: usize = 0;

/// Ends the child at once; used from places where nothing may be unwound or allocated.
pub unsafe fn die(verdict: u32, msg: &str) -> ! {
    let s = &mut *SLOT;
    s.verdict = verdict;
    s.steps = STEP;
    s.cur_thread = CUR as u32;
    let n = msg.len().min(s.msg.len());
    std::ptr::copy_nonoverlapping(msg.as_ptr(), addr_of_mut!(s.msg) as *mut u8, n);
    s.msg_len = n as u32;
    libc::_exit(3)
}

// ------------------------------------------------------------------ clock and edges

pub static mut STEP: u64 = 0;
pub static mut TRIP: u64 = u64::MAX;
pub static mut BUDGET_AT: u64 = u64::MAX;
pub static mut NEXT_SW: u64 = u64::MAX;
pub static mut MIN_SP: usize = usize::MAX;
pub static mut COV: *mut u8 = addr_of!(COV0) as *mut u8;
static mut COV0: [u8; MAX_EDGES] = [0; MAX_EDGES];
pub static mut N_EDGES: u32 = 0;
pub static mut LAST_EDGE: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        if (N_EDGES as usize) < MAX_EDGES - 1 {
            N_EDGES += 1;
        }
        *p = N_EDGES;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let i = *guard;
    let c = COV.add(i as usize);
    if *c == MARKED {
        *c = 1;
        STEP += 1;
        site(i);
        return;
    }
    *c = 1;
    let sp: usize;
    asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
    if sp < MIN_SP {
        MIN_SP = sp;
    }
    STEP += 1;
    if STEP >= TRIP {
        LAST_EDGE = i;
        trip();
    }
}

/// Value in the coverage map of an edge at which the schedule asks for a preemption.
const MARKED: u8 = 2;
/// Preemptions tied to places instead of times: (edge, occurrence, caller that goes on, for how long).
pub static mut SITES: Vec<(u32, u32, u8, u64)> = Vec::new();
static mut SITE_OF: [u16; MAX_EDGES] = [0; MAX_EDGES];
/// callers preempted at such a place, and what was left of their time
static mut PENDING: Vec<(u8, u64)> = Vec::new();

pub unsafe fn mark_sites(v: &[(u32, u32, u8, u64)]) {
    if v.is_empty() {
        return;
    }
    // a map of its own: marks must not outlive this process
    std::ptr::copy_nonoverlapping(COV as *const u8, addr_of_mut!(COV0) as *mut u8, MAX_EDGES);
    COV = addr_of_mut!(COV0) as *mut u8;
    SITES = v.to_vec();
    PENDING = Vec::with_capacity(SITES.len() + 1);
    for (k, s) in v.iter().enumerate() {
        if (s.0 as usize) < MAX_EDGES {
            *COV.add(s.0 as usize) = MARKED;
            SITE_OF[s.0 as usize] = k as u16;
        }
    }
}

#[cold]
#[inline(never)]
unsafe fn site(i: u32) {
    LAST_EDGE = i;
    if STEP >= BUDGET_AT {
        die(V_HANG, "step budget used up");
    }
    let s = &mut SITES[SITE_OF[i as usize] as usize];
    if !ACTIVE {
        *COV.add(i as usize) = MARKED;
        return;
    }
    if s.1 > 1 {
        s.1 -= 1;
        *COV.add(i as usize) = MARKED;
        return;
    }
    let (t, n) = (s.2 as usize, s.3);
    if t != CUR && runnable(t) && !TH[t].stalled {
        PENDING.push((CUR as u8, NEXT_SW.saturating_sub(STEP)));
        NEXT_SW = STEP.saturating_add(n.max(1));
        note_switch(t, true);
        switch_to(t);
        set_trip();
    }
}

#[cold]
#[inline(never)]
unsafe fn trip() {
    if STEP >= BUDGET_AT {
        die(V_HANG, "step budget used up");
    }
    if STEP >= NEXT_SW && ACTIVE {
        reschedule(true);
    }
    set_trip();
}

pub unsafe fn set_trip() {
    TRIP = if NEXT_SW < BUDGET_AT { NEXT_SW } else { BUDGET_AT };
}

// ------------------------------------------------------------------ threads

pub struct Thread {
    sem: AtomicU32,
    pub done: bool,
    pub parked: AtomicU32,
    blocked: usize,
    timed: bool,
    timed_out: bool,
    in_op: bool,
    min_sp: usize,
    steps_mark: u64,
    /// steps executed by this thread itself
    pub own_steps: u64,
    gate: AtomicU32,
    /// do not run again until all the others are finished or blocked
    stalled: bool,
}

const T0: Thread = Thread {
    sem: AtomicU32::new(0),
    done: false,
    parked: AtomicU32::new(0),
    blocked: 0,
    timed: false,
    timed_out: false,
    in_op: false,
    min_sp: usize::MAX,
    steps_mark: 0,
    own_steps: 0,
    gate: AtomicU32::new(0),
    stalled: false,
};
pub static mut TH: [Thread; MAX_THREADS] = [T0; MAX_THREADS];
pub static mut NTH: usize = 0;
pub static mut CUR: usize = 0;
pub static mut ACTIVE: bool = false;
pub static mut IN_OP: bool = false;
static MAIN_SEM: AtomicU32 = AtomicU32::new(0);

pub static mut SLICES: Vec<(u8, u64)> = Vec::new();
static mut SLICE_IX: usize = 0;
pub static mut SWITCHES: u64 = 0;
pub static mut SCHED_HASH: u64 = 0xcbf29ce484222325;
/// where callers were preempted: (edge, thread that went on)
pub static mut PREEMPT_SITES: Vec<u32> = Vec::new();

pub unsafe fn raw_futex(addr: *const AtomicU32, op: c_long, val: u32) -> c_long {
    raw_syscall(libc::SYS_futex, addr as c_long, op, val as c_long, 0, 0, 0)
}

#[inline(always)]
pub unsafe fn raw_syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let ret: c_long;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

unsafe fn sem_wait(s: &AtomicU32) {
    loop {
        if s.compare_exchange(1, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            return;
        }
        raw_futex(s, 128, 0);
    }
}

unsafe fn sem_post(s: &AtomicU32) {
    s.store(1, Ordering::SeqCst);
    raw_futex(s, 129, 1);
}

unsafe fn runnable(t: usize) -> bool {
    t < NTH && !TH[t].done && TH[t].blocked == 0
}

/// Decides who runs next; `None` when every thread is done.
unsafe fn choose() -> Option<usize> {
    while let Some((t, n)) = PENDING.pop() {
        let t = t as usize;
        if runnable(t) && !TH[t].stalled {
            NEXT_SW = STEP.saturating_add(n.max(1));
            return Some(t);
        }
    }
    loop {
        if SLICE_IX >= SLICES.len() {
            break;
        }
        let (t, n) = SLICES[SLICE_IX];
        SLICE_IX += 1;
        let t = t as usize;
        if runnable(t) && !TH[t].stalled {
            NEXT_SW = STEP.saturating_add(n.max(1));
            return Some(t);
        }
    }
    NEXT_SW = u64::MAX;
    if runnable(CUR) && !TH[CUR].stalled {
        return Some(CUR);
    }
    for t in 0..NTH {
        if runnable(t) && !TH[t].stalled {
            return Some(t);
        }
    }
    for t in 0..NTH {
        if runnable(t) {
            TH[t].stalled = false;
            return Some(t);
        }
    }
    // nobody can run: let a timed wait expire
    for t in 0..NTH {
        if !TH[t].done && TH[t].blocked != 0 && TH[t].timed {
            TH[t].blocked = 0;
            TH[t].timed_out = true;
            CLOCK_EXTRA += 1_000_000_000;
            return Some(t);
        }
    }
    if (0..NTH).all(|t| TH[t].done) {
        return None;
    }
    die(V_DEADLOCK, "every caller is blocked");
}

unsafe fn reschedule(preempt: bool) {
    let me = CUR;
    match choose() {
        Some(t) => {
            if t != me {
                note_switch(t, preempt);
                switch_to(t);
            }
            set_trip();
        }
        None => sem_post(&MAIN_SEM),
    }
}

unsafe fn note_switch(t: usize, preempt: bool) {
    SWITCHES += 1;
    let e = if preempt { LAST_EDGE } else { 0 };
    SCHED_HASH = (SCHED_HASH ^ ((e as u64) << 8 | t as u64)).wrapping_mul(0x100000001b3);
    SCHED_HASH = (SCHED_HASH ^ TH[CUR].own_steps.wrapping_add(STEP - TH[CUR].steps_mark)).wrapping_mul(0x100000001b3);
    if preempt && PREEMPT_SITES.len() < PREEMPT_SITES.capacity() {
        PREEMPT_SITES.push(e);
    }
}

unsafe fn leave_cpu(me: usize) {
    TH[me].in_op = IN_OP;
    TH[me].min_sp = MIN_SP;
    TH[me].own_steps += STEP - TH[me].steps_mark;
}

unsafe fn enter_cpu(t: usize) {
    CUR = t;
    IN_OP = TH[t].in_op;
    MIN_SP = TH[t].min_sp;
    TH[t].steps_mark = STEP;
}

unsafe fn switch_to(t: usize) {
    let me = CUR;
    leave_cpu(me);
    enter_cpu(t);
    set_trip();
    sem_post(&TH[t].sem);
    sem_wait(&TH[me].sem);
    // whoever woke us has already restored our state
}

/// Steps executed by the running thread so far.
pub unsafe fn my_steps() -> u64 {
    TH[CUR].own_steps + (STEP - TH[CUR].steps_mark)
}

/// A point at which a sink, callback or caller may be overtaken by other callers.
pub unsafe fn yield_point() {
    if ACTIVE {
        STEP += 1;
        if STEP >= TRIP {
            LAST_EDGE = 0;
            trip();
        }
    }
}

/// Whether all the others have finished.
pub fn last() -> bool {
    unsafe { !ACTIVE || (0..NTH).all(|i| i == CUR || TH[i].done) }
}

/// The running caller stops here until all the others have finished (or are blocked).
pub unsafe fn stall() {
    if !ACTIVE || NTH < 2 {
        return;
    }
    TH[CUR].stalled = true;
    reschedule(true);
    TH[CUR].stalled = false;
}

pub struct Body {
    pub tid: usize,
    pub run: fn(usize),
}

extern "C" fn thread_main(arg: *mut c_void) -> *mut c_void {
    unsafe {
        let tid = arg as usize;
        install_altstack(tid);
        let t = &TH[tid];
        t.parked.store(1, Ordering::SeqCst);
        raw_futex(&t.parked, 129, 1);
        sem_wait(&t.sem);
        MIN_SP = usize::MAX;
        (RUN.unwrap())(tid);
        if END_THREADS {
            // thread-local destructors run now, without preemption; `ended` hands over
            IN_OP = false;
            NEXT_SW = u64::MAX;
            set_trip();
            EXIT_ROUND[tid] = 0;
            libc::pthread_setspecific(EXIT_KEY, (tid + 1) as *mut c_void);
            return null_mut();
        }
        // done: hand over, then wait to be let out
        hand_over(tid);
        sem_wait(&TH[tid].gate);
    }
    null_mut()
}

unsafe fn hand_over(tid: usize) {
    let own = STEP - TH[tid].steps_mark;
    TH[tid].own_steps += own;
    TH[tid].done = true;
    match choose() {
        Some(n) => {
            note_switch(n, false);
            enter_cpu(n);
            set_trip();
            sem_post(&TH[n].sem);
        }
        None => {
            sem_post(&MAIN_SEM);
        }
    }
}

/// Threads end as soon as their caller has finished, not all at the end.
pub static mut END_THREADS: bool = false;
/// Called when a thread and its variables are gone.
pub static mut ENDED: Option<fn()> = None;
static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut EXIT_ROUND: [u8; MAX_THREADS] = [0; MAX_THREADS];

/// Runs after the destructors of the thread's own variables. The standard library might use a key
/// like this one for them, so only the last round counts.
unsafe extern "C" fn ended(arg: *mut c_void) {
    let tid = arg as usize - 1;
    EXIT_ROUND[tid] += 1;
    if EXIT_ROUND[tid] < 4 {
        libc::pthread_setspecific(EXIT_KEY, arg);
        return;
    }
    if let Some(f) = ENDED {
        f();
    }
    hand_over(tid);
}

pub static mut RUN: Option<fn(usize)> = None;

/// Runs `n` simulated threads under the schedule in `SLICES`, to completion.
pub unsafe fn run_threads(n: usize, run: fn(usize), stack_garbage: u64) {
    assert!(n >= 1 && n <= MAX_THREADS);
    NTH = n;
    RUN = Some(run);
    if END_THREADS && libc::pthread_key_create(&raw mut EXIT_KEY, Some(ended)) != 0 {
        die(V_HARNESS, "cannot create a key");
    }
    SLICE_IX = 0;
    let mut handles: [libc::pthread_t; MAX_THREADS] = [0; MAX_THREADS];
    for i in 0..n {
        let base = STACK_BASE + i * (STACK_SIZE + (1 << 20));
        let p = libc::mmap(
            base as *mut c_void,
            STACK_SIZE + (1 << 16),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
            -1,
            0,
        );
        if p as usize != base {
            die(V_HARNESS, "cannot map a stack");
        }
        libc::mprotect(p, 1 << 16, libc::PROT_NONE);
        if stack_garbage != 0 {
            let mut x = stack_garbage.wrapping_add(i as u64) | 1;
            let top = (base + (1 << 16) + STACK_SIZE) as *mut u64;
            for k in 1..4096 {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                *top.sub(k) = x;
            }
        }
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstack(&mut attr, (base + (1 << 16)) as *mut c_void, STACK_SIZE);
        let r = libc::pthread_create(&mut handles[i], &attr, thread_main, i as *mut c_void);
        if r != 0 {
            die(V_HARNESS, "cannot create a thread");
        }
    }
    for i in 0..n {
        while TH[i].parked.load(Ordering::SeqCst) == 0 {
            raw_futex(&TH[i].parked, 128, 0);
        }
    }
    ACTIVE = true;
    CUR = 0;
    let first = choose().unwrap();
    enter_cpu(first);
    set_trip();
    sem_post(&TH[first].sem);
    sem_wait(&MAIN_SEM);
    // thread-local destructors run here, one thread after the other
    IN_OP = false;
    NEXT_SW = u64::MAX;
    ACTIVE = false;
    set_trip();
    for i in 0..n {
        CUR = i;
        sem_post(&TH[i].gate);
        libc::pthread_join(handles[i], null_mut());
    }
}

// ------------------------------------------------------------------ signals

static mut SEEN_STEP: [u64; 2] = [u64::MAX; 2];

/// No step since the last time: ends the process. Slow machines only take longer.
unsafe extern "C" fn on_timer(sig: c_int) {
    let i = (sig == libc::SIGALRM) as usize;
    if SEEN_STEP[i] == STEP {
        libc::signal(sig, libc::SIG_DFL);
        libc::kill(libc::getpid(), sig);
        return;
    }
    SEEN_STEP[i] = STEP;
}

/// Loops and waits without a control-flow edge of the code under test; both periods are far away.
pub unsafe fn watch_progress() {
    let mut a: libc::sigaction = std::mem::zeroed();
    a.sa_sigaction = on_timer as *const () as usize;
    a.sa_flags = libc::SA_RESTART | libc::SA_ONSTACK;
    libc::sigaction(libc::SIGPROF, &a, null_mut());
    libc::sigaction(libc::SIGALRM, &a, null_mut());
    let every = |n| libc::itimerval { it_interval: libc::timeval { tv_sec: n, tv_usec: 0 }, it_value: libc::timeval { tv_sec: n, tv_usec: 0 } };
    libc::setitimer(libc::ITIMER_PROF, &every(20), null_mut());
    libc::setitimer(libc::ITIMER_REAL, &every(75), null_mut());
}

static mut ALT: [[u8; 16384]; MAX_THREADS + 1] = [[0; 16384]; MAX_THREADS + 1];

unsafe fn install_altstack(i: usize) {
    let ss = libc::stack_t { ss_sp: addr_of_mut!(ALT[i]) as *mut c_void, ss_flags: 0, ss_size: 16384 };
    libc::sigaltstack(&ss, null_mut());
}

unsafe extern "C" fn on_signal(sig: c_int, info: *mut libc::siginfo_t, ctx: *mut c_void) {
    let s = &mut *SLOT;
    s.sig = sig as u32;
    s.code = (*info).si_code as u32;
    let mut verdict = V_SIGNAL;
    if sig == libc::SIGSEGV || sig == libc::SIGBUS {
        s.fault_addr = (*info).si_addr() as u64;
        let uc = ctx as *mut libc::ucontext_t;
        s.fault_sp = (*uc).uc_mcontext.gregs[libc::REG_RSP as usize] as u64;
        let base = (STACK_BASE + CUR * (STACK_SIZE + (1 << 20))) as u64;
        if s.fault_addr >= base && s.fault_addr < base + (1 << 16) {
            verdict = V_STACK;
        }
    }
    die(verdict, "");
}

pub unsafe fn install_signals() {
    install_altstack(MAX_THREADS);
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP] {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(sig, &sa, null_mut());
    }
}

// ------------------------------------------------------------------ operating system stand-ins

pub static mut RNG_SEED: u64 = 1;
pub static mut CLOCK_BASE: u64 = 1_700_000_000_000_000_000;
pub static mut CLOCK_EXTRA: u64 = 0;
pub static mut CLOCK_JUMPS: bool = false;
pub static mut ENV_MODE: u8 = 0;
/// how often the code under test asked for: futex wait, futex wake, clock, randomness, environment, output
pub static mut OS_CALLS: [u64; 6] = [0; 6];

unsafe fn simulated() -> bool {
    ACTIVE && IN_OP
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if ACTIVE && n == libc::SYS_futex {
        let op = b & 0x7f;
        match op {
            0 | 9 => {
                OS_CALLS[0] += 1;
                if *(a as *const u32) != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                let me = CUR;
                TH[me].blocked = a as usize;
                TH[me].timed = d != 0;
                TH[me].timed_out = false;
                reschedule(false);
                if TH[me].timed_out {
                    set_errno(libc::ETIMEDOUT);
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                OS_CALLS[1] += 1;
                let mut left = c as i32;
                let mut woken = 0;
                for t in 0..NTH {
                    if left <= 0 {
                        break;
                    }
                    if !TH[t].done && TH[t].blocked == a as usize {
                        TH[t].blocked = 0;
                        woken += 1;
                        left -= 1;
                    }
                }
                return woken;
            }
            _ => {}
        }
    }
    if simulated() && n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if simulated() {
        OS_CALLS[3] += 1;
        for i in 0..len {
            *(buf as *mut u8).add(i) = splitmix(&mut *addr_of_mut!(RNG_SEED)) as u8;
        }
        return len as isize;
    }
    let r = raw_syscall(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if simulated() {
        OS_CALLS[2] += 1;
        STEP += 1;
        if CLOCK_JUMPS {
            CLOCK_EXTRA += splitmix(&mut *addr_of_mut!(RNG_SEED)) % 3_600_000_000_000;
        }
        let mut ns = CLOCK_BASE + CLOCK_EXTRA + STEP * 100;
        if CLOCK_JUMPS && clk == libc::CLOCK_REALTIME {
            // the wall clock may also step backwards
            ns -= splitmix(&mut *addr_of_mut!(RNG_SEED)) % 86_400_000_000_000;
        }
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    0
}

unsafe fn sim_sleep(req: *const libc::timespec) -> c_int {
    CLOCK_EXTRA += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    LAST_EDGE = 0;
    NEXT_SW = STEP;
    yield_point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simulated() {
        return sim_sleep(req);
    }
    raw_syscall(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simulated() {
        return sim_sleep(req);
    }
    -raw_syscall(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated() {
        NEXT_SW = STEP;
        yield_point();
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

extern "C" {
    static environ: *const *const c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if simulated() {
        OS_CALLS[4] += 1;
        return match ENV_MODE {
            0 => null_mut(),
            1 => c"1".as_ptr() as *mut c_char,
            2 => c"".as_ptr() as *mut c_char,
            _ => c"/tmp:true:debug,min".as_ptr() as *mut c_char,
        };
    }
    let len = libc::strlen(name);
    let mut e = environ;
    if e.is_null() {
        return null_mut();
    }
    while !(*e).is_null() {
        if libc::strncmp(*e, name, len) == 0 && *(*e).add(len) == b'=' as c_char {
            return (*e).add(len + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if simulated() {
        OS_CALLS[5] += 1;
        return n as isize;
    }
    let r = raw_syscall(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r as isize
}
