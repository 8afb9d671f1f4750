//! The simulated heap.  While a thread executes library code every allocation is served here,
//! under a per-run personality (contents of fresh and freed memory, reuse, placement, alignment,
//! guard pages), and entered in a ledger that notices double frees, wrong layouts, overruns,
//! writes after free and leaks.  Harness allocations go to the system allocator; a release is
//! routed by address.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::{addr_of, addr_of_mut};
use std::sync::atomic::{AtomicU32, Ordering};

pub const ARENA: usize = 0x2000_0000_0000;
pub const ARENA_LEN: usize = 1 << 30;
pub const FENCE: usize = 0x2100_0000_0000;
pub const FENCE_LEN: usize = 4 << 30;
const TAB: usize = 0x2200_0000_0000;
const MAXB: usize = 1 << 20;
const PAGETAB: usize = 0x2300_0000_0000; // u32 per fence page
const CANARY: u8 = 0xC9;
const POISON: u8 = 0xDD;
const PAGE: usize = 4096;
const HDR: usize = 32;
const TAIL: usize = 32;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct HeapCfg {
    /// 0 packed, 1 quarantine, 2 fence right, 3 fence left
    pub place: u8,
    /// 0 zero, 1 ones, 2 0xA5, 3 random, 4 stale/0x7f, 5 plausible values
    pub fill: u8,
    /// 0 over-aligned, 1 minimally aligned
    pub align: u8,
    /// 0 in place when possible, 1 always moves
    pub realloc: u8,
    pub seed: u32,
}

impl HeapCfg {
    pub fn plain() -> HeapCfg {
        HeapCfg { place: 0, fill: 2, align: 0, realloc: 0, seed: 1 }
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Blk {
    addr: usize,
    size: usize,
    align: usize,
    cap: usize,  // bytes available at addr (>= size)
    live: u32,   // 1 live, 2 freed
    step: u32,
    prev: u32,
    next: u32,   // live list / free list
}

struct Heap {
    on: bool,
    cfg: HeapCfg,
    rnd: u64,
    bump: usize,
    fbump: usize,
    n: u32,
    live_head: u32,
    live_cnt: u64,
    live_bytes: u64,
    free: [u32; 1024],
    step: u32,
    err: bool,
    err_kind: &'static str,
    err_a: usize,
    err_b: usize,
    err_c: usize,
    allocs: u64,
    reuses: u64,
    moves: u64,
    fences: u64,
    fail_in: u64,
    refused: bool,
}

#[link_section = "simdata"]
static mut H: Heap = Heap {
    on: false,
    cfg: HeapCfg { place: 0, fill: 0, align: 0, realloc: 0, seed: 0 },
    rnd: 1,
    bump: 0,
    fbump: 0,
    n: 1,
    live_head: 0,
    live_cnt: 0,
    live_bytes: 0,
    free: [0; 1024],
    step: 0,
    err: false,
    err_kind: "",
    err_a: 0,
    err_b: 0,
    err_c: 0,
    allocs: 0,
    reuses: 0,
    moves: 0,
    fences: 0,
    fail_in: 0,
    refused: false,
};

thread_local! {
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
}
/// non-zero while simulator code that must not be preempted is running
#[link_section = "simdata"]
pub static NO_PREEMPT: AtomicU32 = AtomicU32::new(0);

/// called (outside the heap's critical section) at every library allocation: thread switch point
static mut ALLOC_HOOK: Option<fn()> = None;
/// called before the simulated heap is entered, while client threads are scheduled
static mut TURN_HOOK: Option<fn()> = None;
pub fn set_turn_hook(f: Option<fn()>) {
    unsafe { TURN_HOOK = f }
}
#[inline]
fn turn() {
    unsafe { if let Some(f) = TURN_HOOK { f() } }
}
pub fn set_alloc_hook(f: Option<fn()>) {
    unsafe { ALLOC_HOOK = f }
}

pub struct SimAlloc;

fn h() -> &'static mut Heap {
    unsafe { &mut *addr_of_mut!(H) }
}
fn blk(i: u32) -> &'static mut Blk {
    unsafe { &mut *((TAB as *mut Blk).add(i as usize)) }
}
fn page_slot(addr: usize) -> &'static mut u32 {
    unsafe { &mut *((PAGETAB as *mut u32).add((addr - FENCE) / PAGE)) }
}

fn err(kind: &'static str, a: usize, b: usize, c: usize) {
    let h = h();
    if !h.err {
        h.err = true;
        h.err_kind = kind;
        h.err_a = a;
        h.err_b = b;
        h.err_c = c;
    }
}

fn fill_fresh(p: usize, n: usize, reused: bool) {
    let h = h();
    unsafe {
        match h.cfg.fill {
            0 => std::ptr::write_bytes(p as *mut u8, 0, n),
            1 => std::ptr::write_bytes(p as *mut u8, 0xFF, n),
            2 => std::ptr::write_bytes(p as *mut u8, 0xA5, n),
            3 => {
                for i in 0..n {
                    h.rnd = h.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    *(p as *mut u8).add(i) = (h.rnd >> 33) as u8;
                }
            }
            4 => {
                if !reused {
                    std::ptr::write_bytes(p as *mut u8, 0x7F, n)
                }
            }
            _ => {
                // plausible small float / integer content
                let pat = [0u8, 0, 0x80, 0x3f, 0, 0, 0, 0x40];
                for i in 0..n {
                    *(p as *mut u8).add(i) = pat[i & 7];
                }
            }
        }
    }
}

fn class(size: usize, align: usize) -> usize {
    (size.wrapping_mul(31) ^ align.wrapping_mul(7)) & 1023
}

fn link_live(i: u32) {
    let h = h();
    let b = blk(i);
    b.live = 1;
    b.step = h.step;
    b.prev = 0;
    b.next = h.live_head;
    if h.live_head != 0 {
        blk(h.live_head).prev = i;
    }
    h.live_head = i;
    h.live_cnt += 1;
    h.live_bytes += b.size as u64;
}

fn unlink_live(i: u32) {
    let h = h();
    let b = blk(i);
    if b.prev != 0 {
        blk(b.prev).next = b.next
    } else {
        h.live_head = b.next
    }
    if b.next != 0 {
        blk(b.next).prev = b.prev
    }
    h.live_cnt -= 1;
    h.live_bytes -= b.size as u64;
}

unsafe fn write_canaries(b: &Blk, idx: u32) {
    let p = b.addr as *mut u8;
    std::ptr::write_bytes(p.sub(HDR), CANARY, HDR);
    std::ptr::write_unaligned(p.sub(16) as *mut u64, 0x5A5A_7E57_0000_0000u64 | idx as u64);
    std::ptr::write_bytes(p.add(b.size), CANARY, b.cap - b.size + TAIL);
}

unsafe fn canaries_ok(b: &Blk, idx: u32) -> Option<(&'static str, usize)> {
    let p = b.addr as *const u8;
    if std::ptr::read_unaligned(p.sub(16) as *const u64) != 0x5A5A_7E57_0000_0000u64 | idx as u64 {
        return Some(("underrun", 16));
    }
    for k in (0..16).chain(24..32) {
        if *p.sub(HDR).add(k) != CANARY {
            return Some(("underrun", HDR - k));
        }
    }
    for k in b.size..b.cap + TAIL {
        if *p.add(k) != CANARY {
            return Some(("overrun", k - b.size));
        }
    }
    None
}

unsafe fn sim_alloc(layout: Layout) -> *mut u8 {
    let h = h();
    let size = layout.size();
    let align = layout.align();
    h.allocs += 1;
    if h.fail_in > 0 {
        h.fail_in -= 1;
        if h.fail_in == 0 {
            h.refused = true;
            crate::core::refused(size);
            return std::ptr::null_mut();
        }
    }
    if h.cfg.place >= 2 {
        // one block per run of pages, fenced by inaccessible pages
        let pages = (size + PAGE - 1) / PAGE;
        let start = h.fbump + PAGE; // leading guard page
        h.fbump = start + pages * PAGE;
        if h.fbump + PAGE > FENCE + FENCE_LEN || h.n as usize >= MAXB {
            return std::ptr::null_mut();
        }
        libc::mprotect(start as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
        h.fences += 1;
        let addr = if h.cfg.place == 2 { (start + pages * PAGE - size) & !(align - 1) } else { start };
        let i = h.n;
        h.n += 1;
        *blk(i) = Blk { addr, size, align, cap: size, live: 0, step: 0, prev: 0, next: 0 };
        for pg in 0..pages {
            *page_slot(start + pg * PAGE) = i;
        }
        // slack inside the pages carries canaries too
        std::ptr::write_bytes(start as *mut u8, CANARY, pages * PAGE);
        fill_fresh(addr, size, false);
        link_live(i);
        return addr as *mut u8;
    }
    if h.cfg.place == 0 {
        let c = class(size, align);
        let mut p = h.free[c];
        let mut before = 0u32;
        let mut tries = 0;
        while p != 0 && tries < 8 {
            let b = blk(p);
            if b.size == size && b.align == align {
                if before != 0 { blk(before).next = b.next } else { h.free[c] = b.next }
                h.reuses += 1;
                fill_fresh(b.addr, size, true);
                write_canaries(b, p);
                link_live(p);
                return b.addr as *mut u8;
            }
            before = p;
            p = b.next;
            tries += 1;
        }
    }
    let mut addr = h.bump + HDR;
    if h.cfg.align == 1 {
        // aligned to `align` and not to 2*align
        addr = (addr + align - 1) & !(align - 1);
        if addr & align == 0 {
            addr += align;
        }
    } else {
        let a = align.max(64);
        addr = (addr + a - 1) & !(a - 1);
    }
    h.bump = addr + size + TAIL;
    if h.bump > ARENA + ARENA_LEN || h.n as usize >= MAXB {
        return std::ptr::null_mut();
    }
    let i = h.n;
    h.n += 1;
    *blk(i) = Blk { addr, size, align, cap: size, live: 0, step: 0, prev: 0, next: 0 };
    fill_fresh(addr, size, false);
    write_canaries(blk(i), i);
    link_live(i);
    addr as *mut u8
}

unsafe fn find(p: usize) -> Option<u32> {
    if p >= FENCE && p < FENCE + FENCE_LEN {
        let i = *page_slot(p);
        if i != 0 && blk(i).addr == p { return Some(i); }
        // zero-length tail case: block starts exactly at page end
        return None;
    }
    if p < ARENA + HDR || p >= h().bump {
        return None;
    }
    let w = std::ptr::read_unaligned((p - 16) as *const u64);
    if w >> 32 != 0x5A5A_7E57 {
        return None;
    }
    let i = w as u32;
    if i == 0 || i >= h().n || blk(i).addr != p { None } else { Some(i) }
}

unsafe fn sim_free(p: usize, layout: Layout) {
    let h = h();
    let i = match find(p) {
        Some(i) => i,
        None => {
            err("release of an address that is not the start of a block (or whose header was overwritten)", p, layout.size(), 0);
            return;
        }
    };
    let b = blk(i);
    if b.live != 1 {
        err("double release", b.size, b.step as usize, 0);
        return;
    }
    if b.size != layout.size() || b.align != layout.align() {
        err("release with a layout different from the allocation (allocated size, released size, align)", b.size, layout.size(), layout.align());
    }
    if h.cfg.place >= 2 {
        check_fence_slack(i);
        unlink_live(i);
        b.live = 2;
        let start = b.addr & !(PAGE - 1);
        let end = (b.addr + b.size + PAGE - 1) & !(PAGE - 1);
        libc::mprotect(start as *mut _, end - start, libc::PROT_NONE);
        return;
    }
    if let Some((w, off)) = canaries_ok(b, i) {
        err(if w == "overrun" { "write past the end of a buffer (size, offset past end)" } else { "write before the start of a buffer (size, offset)" }, b.size, off, b.step as usize);
        write_canaries(b, i);
    }
    unlink_live(i);
    b.live = 2;
    b.step = h.step;
    if h.cfg.place == 1 || h.cfg.fill != 4 {
        std::ptr::write_bytes(p as *mut u8, POISON, b.size);
    }
    if h.cfg.place == 0 {
        let c = class(b.size, b.align);
        b.next = h.free[c];
        h.free[c] = i;
    }
}

unsafe fn check_fence_slack(i: u32) {
    let b = blk(i);
    let start = b.addr & !(PAGE - 1);
    let end = (b.addr + b.size + PAGE - 1) & !(PAGE - 1);
    // the neighbourhood of the block; anything further away hits a guard page
    let end = end.min(b.addr + b.size + 128);
    let mut q = start.max(b.addr.saturating_sub(128));
    while q < end {
        if q == b.addr {
            q = b.addr + b.size;
            continue;
        }
        if *(q as *const u8) != CANARY {
            if q < b.addr {
                err("write before the start of a buffer (size, offset)", b.size, b.addr - q, b.step as usize);
            } else {
                err("write past the end of a buffer (size, offset past end)", b.size, q - b.addr - b.size, b.step as usize);
            }
            *(q as *mut u8) = CANARY;
            return;
        }
        q += 1;
    }
}

#[inline]
fn ours(p: usize) -> bool {
    (p >= ARENA && p < ARENA + ARENA_LEN) || (p >= FENCE && p < FENCE + FENCE_LEN)
}

#[inline]
fn in_lib() -> bool {
    IN_LIB.try_with(|c| c.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_lib() && (*addr_of!(H)).on {
            turn();
            NO_PREEMPT.fetch_add(1, Ordering::Relaxed);
            let p = sim_alloc(l);
            NO_PREEMPT.fetch_sub(1, Ordering::Relaxed);
            if let Some(f) = ALLOC_HOOK { f() }
            p
        } else {
            NO_PREEMPT.fetch_add(1, Ordering::Relaxed);
            let p = System.alloc(l);
            NO_PREEMPT.fetch_sub(1, Ordering::Relaxed);
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if in_lib() && (*addr_of!(H)).on {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            NO_PREEMPT.fetch_add(1, Ordering::Relaxed);
            let p = System.alloc_zeroed(l);
            NO_PREEMPT.fetch_sub(1, Ordering::Relaxed);
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ours(p as usize) { turn(); }
        NO_PREEMPT.fetch_add(1, Ordering::Relaxed);
        if ours(p as usize) { sim_free(p as usize, l) } else { System.dealloc(p, l) }
        NO_PREEMPT.fetch_sub(1, Ordering::Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !ours(p as usize) {
            NO_PREEMPT.fetch_add(1, Ordering::Relaxed);
            let q = System.realloc(p, l, new);
            NO_PREEMPT.fetch_sub(1, Ordering::Relaxed);
            return q;
        }
        turn();
        NO_PREEMPT.fetch_add(1, Ordering::Relaxed);
        let hh = h();
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = sim_alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            hh.moves += 1;
            sim_free(p as usize, l);
        }
        NO_PREEMPT.fetch_sub(1, Ordering::Relaxed);
        q
    }
}

// ---------------------------------------------------------------------------------------------

/// Reserves the address ranges; called once per worker process before any fork.
pub fn reserve() {
    unsafe {
        let map = |addr: usize, len: usize, prot: i32| {
            let p = libc::mmap(addr as *mut _, len, prot,
                               libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
            if p as usize != addr {
                eprintln!("sim: cannot reserve address range {addr:#x}");
                libc::_exit(3);
            }
        };
        let rw = libc::PROT_READ | libc::PROT_WRITE;
        map(ARENA, ARENA_LEN, rw);
        map(FENCE, FENCE_LEN, libc::PROT_NONE);
        map(TAB, MAXB * std::mem::size_of::<Blk>(), rw);
        map(PAGETAB, FENCE_LEN / PAGE * 4, rw);
    }
}

/// Turns the heap on with a personality (in the forked child, once).
pub fn start(cfg: HeapCfg) {
    let h = h();
    h.cfg = cfg;
    h.rnd = crate::rng::mix(cfg.seed as u64);
    h.bump = ARENA + (cfg.seed as usize % 7) * 64;
    h.fbump = FENCE;
    h.n = 1;
    h.on = true;
}

/// switches the personality of allocations made from now on (blocks keep their bookkeeping)
pub fn reseed(seed: u32, fill: u8) {
    let h = h();
    h.rnd = crate::rng::mix(seed as u64);
    h.cfg.fill = fill;
}

/// the n-th allocation from now on is refused
pub fn fail_in(n: u64) {
    h().fail_in = n;
}
pub fn refused() -> bool {
    h().refused
}

pub fn set_step(s: u32) {
    h().step = s;
}

pub fn live() -> (u64, u64) {
    (h().live_cnt, h().live_bytes)
}

/// Is [addr, addr+len) inside one live block?
pub fn is_live(addr: usize, len: usize) -> bool {
    let h = h();
    let mut i = h.live_head;
    while i != 0 {
        let b = blk(i);
        if addr >= b.addr && addr + len <= b.addr + b.size {
            return true;
        }
        i = b.next;
    }
    false
}

/// Checks the canaries of every live block; records the first damage.
pub fn check_all() {
    let h = h();
    let mut i = h.live_head;
    unsafe {
        while i != 0 {
            let b = blk(i);
            if h.cfg.place < 2 {
                if let Some((w, off)) = canaries_ok(b, i) {
                    err(if w == "overrun" { "write past the end of a buffer (size, offset past end)" } else { "write before the start of a buffer (size, offset)" }, b.size, off, b.step as usize);
                    write_canaries(b, i);
                    return;
                }
            } else {
                check_fence_slack(i);
            }
            i = b.next;
        }
    }
}

/// In quarantine mode: nobody wrote to released memory.
pub fn check_poison() {
    let h = h();
    if h.cfg.place != 1 { return; }
    for i in 1..h.n {
        let b = blk(i);
        if b.live == 2 {
            const PAT: u64 = u64::from_ne_bytes([POISON; 8]);
            let mut clean = true;
            let w = b.size / 8;
            for k in 0..w {
                if unsafe { std::ptr::read_unaligned((b.addr + 8 * k) as *const u64) } != PAT { clean = false; break; }
            }
            for k in if clean { w * 8..b.size } else { 0..b.size } {
                if unsafe { *((b.addr + k) as *const u8) } != POISON {
                    err("write to a released buffer (size, offset)", b.size, k, b.step as usize);
                    return;
                }
            }
        }
    }
}

pub fn take_err() -> Option<String> {
    let h = h();
    if h.err {
        h.err = false;
        Some(format!("{}: {} {} {}", h.err_kind, h.err_a, h.err_b, h.err_c))
    } else {
        None
    }
}

pub fn live_summary() -> String {
    let mut v: Vec<(u32, usize)> = vec![];
    let mut i = h().live_head;
    while i != 0 && v.len() < 6 {
        v.push((blk(i).step, blk(i).size));
        i = blk(i).next;
    }
    format!("(step,size) {:?}", v)
}

/// blocks that are live and were allocated after mark `n`
pub fn mark() -> u32 {
    h().n
}

pub fn counters() -> [u64; 4] {
    let h = h();
    [h.allocs, h.reuses, h.moves, h.fences]
}
