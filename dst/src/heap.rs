//! The simulated memory allocator: everything the code under test allocates comes from here.
//!
//! Placement, contents of fresh memory, reuse of freed memory, red zones, guard pages and failures
//! are decided by the scenario. Memory of the simulator itself comes from the system allocator.
#![allow(static_mut_refs)]

use crate::sim::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::{addr_of_mut, null_mut};

pub struct SimAlloc;

#[derive(Clone, Copy, PartialEq)]
pub enum Fill {
    Zero,
    Random,
    Byte(u8),
    /// one of several texts that look like source code
    Text(u8),
    /// leave whatever an earlier owner left there
    Stale,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Reuse {
    Never,
    /// the block freed last comes back first
    Lifo,
    /// the block freed first comes back first
    Fifo,
}

#[derive(Clone, Copy)]
pub struct HeapCfg {
    pub fill: Fill,
    pub poison: bool,
    pub reuse: Reuse,
    pub base: usize,
    pub gaps: bool,
    pub fence: bool,
    pub seed: u64,
    pub fail_at: u64,
    /// the bytes in front of and behind every block
    pub edge: u8,
}

pub const HEAP0: HeapCfg =
    HeapCfg { fill: Fill::Zero, poison: true, reuse: Reuse::Never, base: 0, gaps: false, fence: false, seed: 1, fail_at: u64::MAX, edge: CANARY };

pub static mut CFG: HeapCfg = HEAP0;
static mut TOP: usize = 0;
static mut RNG: u64 = 1;
pub static mut LIVE_BLOCKS: u64 = 0;
pub static mut LIVE_BYTES: u64 = 0;
pub static mut PEAK_BYTES: u64 = 0;
pub static mut ALLOCS: u64 = 0;
pub static mut FREES: u64 = 0;
pub static mut ALLOC_BYTES: u64 = 0;
pub static mut FAIL_FIRED: u64 = 0;
static mut FENCED: u64 = 0;
static mut FENCE_END: usize = 0;
static mut HEAD: *mut Hdr = null_mut();

const MAGIC_LIVE: u64 = 0x11fe_b10c_0000_a110;
const MAGIC_FREE: u64 = 0xdead_b10c_0000_f4ee;
pub const CANARY: u8 = 0xC9;
const RED: usize = 32;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    cap: usize,
    user: *mut u8,
    prev: *mut Hdr,
    next: *mut Hdr,
    fence: u64,
    id: u64,
}
const HDR: usize = 64;

static mut BINS: [[*mut Hdr; 64]; 40] = [[null_mut(); 64]; 40];
static mut BIN_N: [usize; 40] = [0; 40];

pub fn in_region(p: *const u8) -> bool {
    (HEAP_BASE..HEAP_BASE + HEAP_SIZE).contains(&(p as usize))
}

/// Called once in the parent; children inherit the (untouched) mapping.
pub unsafe fn reserve() -> bool {
    let p = libc::mmap(
        HEAP_BASE as *mut _,
        HEAP_SIZE,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
        -1,
        0,
    );
    p as usize == HEAP_BASE
}

pub unsafe fn configure(cfg: HeapCfg) {
    CFG = cfg;
    TOP = HEAP_BASE + 4096 + (cfg.base & !15);
    RNG = cfg.seed;
}

unsafe fn class_of(size: usize) -> usize {
    (usize::BITS - size.max(16).leading_zeros()) as usize
}

static TEXTS: [&[u8]; 8] = [
    b"`;/\n*/}])\"';",
    b"a;a;a;a;a;a;a;a;",
    b"/x/g;y=`z`;",
    b"})]}`\n'\"",
    b"\\\\\\\\",
    b"(((([[[[{{{{",
    b"\n\n\n\n//",
    b"identifier0continues1here",
];

unsafe fn fill_fresh(p: *mut u8, n: usize, fresh: bool) {
    match CFG.fill {
        Fill::Stale => {
            if fresh {
                // never owned before: pseudo-random leftovers of an unknown program
                fill_random(p, n);
            }
        }
        Fill::Zero => {
            if !fresh {
                std::ptr::write_bytes(p, 0, n);
            }
        }
        Fill::Byte(b) => std::ptr::write_bytes(p, b, n),
        Fill::Text(k) => {
            let t = TEXTS[k as usize % TEXTS.len()];
            let off = (splitmix(&mut *addr_of_mut!(RNG)) as usize) % t.len();
            let m = t.len();
            let first = n.min(m);
            for i in 0..first {
                *p.add(i) = t[(i + off) % m];
            }
            // double up what is there
            let mut done = first;
            while done < n {
                let c = done.min(n - done);
                std::ptr::copy_nonoverlapping(p, p.add(done), c);
                done += c - c % m;
                if c < m {
                    break;
                }
            }
        }
        Fill::Random => fill_random(p, n),
    }
}

unsafe fn fill_random(p: *mut u8, n: usize) {
    let mut x = splitmix(&mut *addr_of_mut!(RNG)) | 1;
    let words = n / 8;
    for i in 0..words {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (p as *mut u64).add(i).write_unaligned(x);
    }
    for i in words * 8..n {
        *p.add(i) = x as u8;
    }
}

unsafe fn carve(size: usize, align: usize) -> *mut Hdr {
    if CFG.fence && FENCED < 12000 {
        FENCED += 1;
        // [header page][data pages][guard page], data ends at the guard
        let start = (TOP + 4095) & !4095;
        let data = (size + 4095) & !4095;
        let data = data.max(4096);
        let end = start + 4096 + data;
        TOP = end + 4096;
        FENCE_END = TOP;
        if TOP > HEAP_BASE + HEAP_SIZE {
            die(V_MEMORY, "simulated heap used up");
        }
        libc::mprotect(end as *mut _, 4096, libc::PROT_NONE);
        let user = ((end - size) & !(align - 1)) as *mut u8;
        let h = start as *mut Hdr;
        (*h).cap = end - user as usize;
        (*h).user = user;
        (*h).fence = data as u64;
        return h;
    }
    let mut t = TOP;
    if CFG.gaps {
        t += (splitmix(&mut *addr_of_mut!(RNG)) as usize % 64) * 16;
    }
    let align = align.max(16);
    // the allocator of a real system promises 16 bytes; give exactly that, never more by luck
    let mut user = (t + HDR + RED + align - 1) & !(align - 1);
    if user % 32 == 0 && align == 16 {
        user += 16;
    }
    let end = user + size + RED;
    TOP = (end + 15) & !15;
    if TOP > HEAP_BASE + HEAP_SIZE {
        die(V_MEMORY, "simulated heap used up");
    }
    let h = (user - RED - HDR) as *mut Hdr;
    (*h).cap = size;
    (*h).user = user as *mut u8;
    (*h).fence = 0;
    h
}

unsafe fn hdr_of(p: *mut u8) -> *mut Hdr {
    if (p as usize) < FENCE_END {
        // the header page lies right before the first data page
        return (((p as usize) & !4095) - 4096) as *mut Hdr;
    }
    (p as usize - RED - HDR) as *mut Hdr
}

unsafe fn set_red(h: *mut Hdr) {
    if (*h).fence == 0 {
        let u = (*h).user;
        std::ptr::write_bytes(u.sub(RED), CFG.edge, RED);
        std::ptr::write_bytes(u.add((*h).size), CFG.edge, RED + (*h).cap - (*h).size);
    }
}

unsafe fn check_red(h: *mut Hdr) -> bool {
    if (*h).magic != MAGIC_LIVE {
        return false;
    }
    if (*h).fence != 0 {
        return true;
    }
    let u = (*h).user;
    let lo = std::slice::from_raw_parts(u.sub(RED), RED);
    let hi = std::slice::from_raw_parts(u.add((*h).size), RED + (*h).cap - (*h).size);
    let edge = CFG.edge;
    lo.iter().all(|&b| b == edge) && hi.iter().all(|&b| b == edge)
}

/// Every live block's red zones; called after each operation.
pub unsafe fn check_all() {
    let mut h = HEAD;
    while !h.is_null() {
        if !check_red(h) {
            die(V_HEAP, "a write outside an allocation damaged a red zone");
        }
        h = (*h).next;
    }
}

unsafe fn sim_alloc(layout: Layout) -> *mut u8 {
    let size = layout.size();
    ALLOCS += 1;
    if ALLOCS >= CFG.fail_at {
        // memory stays exhausted for the allocation that asked
        CFG.fail_at = u64::MAX;
        FAIL_FIRED += 1;
        (*SLOT).alloc_failed = 1;
        return null_mut();
    }
    ALLOC_BYTES += size as u64;
    let mut h: *mut Hdr = null_mut();
    let mut fresh = true;
    if CFG.reuse != Reuse::Never && !CFG.fence && layout.align() <= 16 {
        let c = class_of(size);
        for c in [c, c + 1] {
            if c < 40 && BIN_N[c] > 0 {
                let n = BIN_N[c];
                let order: [usize; 2] = if CFG.reuse == Reuse::Lifo { [n - 1, 0] } else { [0, n - 1] };
                for k in order {
                    if (*BINS[c][k]).cap >= size {
                        h = BINS[c][k];
                        for j in k..n - 1 {
                            BINS[c][j] = BINS[c][j + 1];
                        }
                        BIN_N[c] -= 1;
                        fresh = false;
                        break;
                    }
                }
            }
            if !h.is_null() {
                break;
            }
        }
    }
    if h.is_null() {
        h = carve(size, layout.align());
    }
    (*h).magic = MAGIC_LIVE;
    (*h).size = size;
    (*h).id = ALLOCS;
    (*h).prev = null_mut();
    (*h).next = HEAD;
    if !HEAD.is_null() {
        (*HEAD).prev = h;
    }
    HEAD = h;
    LIVE_BLOCKS += 1;
    LIVE_BYTES += size as u64;
    if LIVE_BYTES > PEAK_BYTES {
        PEAK_BYTES = LIVE_BYTES;
    }
    set_red(h);
    fill_fresh((*h).user, size, fresh);
    (*h).user
}

unsafe fn sim_free(p: *mut u8, layout: Layout) {
    let h = hdr_of(p);
    if (*h).magic == MAGIC_FREE {
        die(V_HEAP, "memory released twice");
    }
    if (*h).magic != MAGIC_LIVE || (*h).user != p {
        die(V_HEAP, "release of memory that was never allocated, or its header was overwritten");
    }
    if (*h).size != layout.size() {
        die(V_HEAP, "memory released with a different size than allocated");
    }
    if !check_red(h) {
        die(V_HEAP, "a write outside an allocation damaged a red zone");
    }
    FREES += 1;
    LIVE_BLOCKS -= 1;
    LIVE_BYTES -= (*h).size as u64;
    if (*h).prev.is_null() {
        HEAD = (*h).next;
    } else {
        (*(*h).prev).next = (*h).next;
    }
    if !(*h).next.is_null() {
        (*(*h).next).prev = (*h).prev;
    }
    (*h).magic = MAGIC_FREE;
    if (*h).fence != 0 {
        libc::mprotect((h as usize + 4096) as *mut _, (*h).fence as usize, libc::PROT_NONE);
        return;
    }
    if CFG.poison {
        std::ptr::write_bytes((*h).user, 0xDF, (*h).size);
    }
    if CFG.reuse != Reuse::Never {
        let c = class_of((*h).cap);
        if c < 40 && BIN_N[c] < 64 {
            BINS[c][BIN_N[c]] = h;
            BIN_N[c] += 1;
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if ACTIVE && IN_OP {
            return sim_alloc(layout);
        }
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if in_region(p) {
            return sim_free(p, layout);
        }
        System.dealloc(p, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if ACTIVE && IN_OP {
            let p = sim_alloc(layout);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, layout.size());
            }
            return p;
        }
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if in_region(p) || (ACTIVE && IN_OP) {
            // always moves: nothing may rely on growing in place
            let nl = Layout::from_size_align_unchecked(new_size, layout.align());
            let q = if in_region(p) { sim_alloc(nl) } else { self.alloc(nl) };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, layout.size().min(new_size));
                self.dealloc(p, layout);
            }
            return q;
        }
        System.realloc(p, layout, new_size)
    }
}
