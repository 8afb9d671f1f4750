//! World D: clients on real threads that share nothing.  One thread runs at a time; the schedule
//! (which client's step comes next, and where inside a step it is preempted) is the step list.
use crate::core::*;
use crate::ent;
use crate::heap;
use crate::rng::hash2;
use crate::world_a::{self, WA};
use crate::world_b::{self, WB};
use crate::world_c;
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

pub const PREEMPT: u8 = 250;
pub const END: u8 = 251;
pub const MAXC: usize = 4;

const PARKED: u32 = 0;
const RUNNING: u32 = 1;
const PREEMPTED: u32 = 2;
const DONE: u32 = 3;
const EXITED: u32 = 4;
/// waits for something another client holds
const WAITING: u32 = 5;

struct Slot {
    go: AtomicU32,
    state: AtomicU32,
    tid: AtomicI32,
    /// lost its turn while it was waiting for a lock: parks at the next switch point
    stray: AtomicU32,
    /// nobody else can run: waiting is left to the kernel
    alone: AtomicU32,
    cmd: AtomicU64, // step index + 1, or u64::MAX: finish
    // armed preemption: kind 0 none, 1 allocation, 2 random draw, 3 instruction, 4 record the
    // positions a call passes through, 5 one of the recorded positions
    kind: AtomicU32,
    left: AtomicU64,
    call: AtomicU32,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT: Slot = Slot {
    go: AtomicU32::new(0), state: AtomicU32::new(PARKED), tid: AtomicI32::new(0), stray: AtomicU32::new(0), alone: AtomicU32::new(0), cmd: AtomicU64::new(0),
    kind: AtomicU32::new(0), left: AtomicU64::new(0), call: AtomicU32::new(0),
};
#[link_section = "simdata"]
static SLOTS: [Slot; MAXC] = [SLOT; MAXC];
#[link_section = "simdata"]
static BELL: AtomicU32 = AtomicU32::new(0);

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
fn me() -> Option<&'static Slot> {
    let i = ME.with(|c| c.get());
    if i == usize::MAX { None } else { Some(&SLOTS[i]) }
}

pub fn who() -> usize { ME.with(|c| c.get()) }

fn futex_wait(w: &AtomicU32, v: u32, ms: Option<i64>) {
    unsafe {
        let e = *libc::__errno_location();
        let ts = libc::timespec { tv_sec: 0, tv_nsec: ms.unwrap_or(0) * 1_000_000 };
        crate::os::raw(libc::SYS_futex, [w as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, if ms.is_some() { &ts as *const _ as usize } else { 0 }, 0, 0]);
        *libc::__errno_location() = e;
    }
}
fn futex_wake(w: &AtomicU32) {
    unsafe {
        let e = *libc::__errno_location();
        crate::os::raw(libc::SYS_futex, [w as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 8, 0, 0, 0]);
        *libc::__errno_location() = e;
    }
}

/// gives the turn back to the scheduler and waits for the next one
fn hand_over(s: &Slot, st: u32) {
    s.state.store(st, SeqCst);
    BELL.fetch_add(1, SeqCst);
    futex_wake(&BELL);
    if st == EXITED { return; }
    while s.go.swap(0, SeqCst) == 0 { futex_wait(&s.go, 0, None); }
    s.state.store(RUNNING, SeqCst);
}

fn may_switch() -> bool {
    heap::NO_PREEMPT.load(SeqCst) == 0 && !std::thread::panicking()
}

fn switch(s: &Slot, c: Ct) {
    s.kind.store(0, SeqCst);
    ct(c);
    hand_over(s, PREEMPTED);
}

/// called where library code would wait for another thread; false: nobody to give way to
pub fn give_way() -> bool {
    let Some(s) = me() else { return false };
    if heap::NO_PREEMPT.load(SeqCst) != 0 || s.alone.load(SeqCst) != 0 { return false; }
    ct(Ct::LockWaits);
    let (fl, k) = (unsafe { single_step(false) }, s.kind.swap(0, SeqCst));
    hand_over(s, WAITING);
    s.kind.store(k, SeqCst);
    unsafe { single_step(fl); }
    true
}
/// sets the trap flag; returns what it was
unsafe fn single_step(on: bool) -> bool {
    let f: u64;
    std::arch::asm!("pushfq", "pop {}", out(reg) f);
    if on { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") } else { std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") }
    f & 0x100 != 0
}

fn turn_hook() {
    if let Some(s) = me() {
        if s.stray.swap(0, SeqCst) == 1 { hand_over(s, PREEMPTED); }
    }
}
fn event(kind: u32, c: Ct) {
    turn_hook();
    let Some(s) = me() else { return };
    if s.kind.load(SeqCst) != kind { return; }
    let l = s.left.load(SeqCst);
    if l > 1 { s.left.store(l - 1, SeqCst); return; }
    if may_switch() { switch(s, c); }
}
fn alloc_hook() { event(1, Ct::SwitchAlloc) }
fn draw_hook() { event(2, Ct::SwitchEnt) }

fn enter_hook() {
    let Some(s) = me() else { return };
    let k = s.kind.load(SeqCst);
    unsafe { if FOOT { snapshot(); guard(true); return; } }
    if k < 3 { return; }
    let c = s.call.load(SeqCst);
    if k == 6 {
        unsafe { if WATCH.1 > 0 { guard(true); } }
        return;
    }
    if c > 0 { s.call.store(c - 1, SeqCst); return; }
    if k == 5 {
        unsafe {
            let n = s.left.load(SeqCst);
            if NPCS == 0 { s.kind.store(0, SeqCst); return; }
            let pc = PCS[(n & 0xffff) as usize % NPCS];
            let hi = (n >> 16) & 0xffff;
            s.left.store((hi & 0xfff) >> (hi >> 12), SeqCst);
            BP = (pc, *(pc as *const u8));
            poke(pc, 0xcc);
        }
        return;
    }
    if k == 4 { unsafe { NPCS = 0; record(true); } return; }
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}
fn leave_hook() {
    let Some(s) = me() else { return };
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") };
    unsafe { guard(false); disarm(); if RECORDING { record(false); } if FOOT { footprint(); return; } }
    let k = s.kind.load(SeqCst);
    if k >= 3 && k != 6 && s.call.load(SeqCst) == 0 {
        s.kind.store(0, SeqCst);
    }
    turn_hook();
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let pc = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        if BP.0 != 0 && pc == BP.0 + 1 {
            let at = BP.0;
            disarm();
            uc.uc_mcontext.gregs[libc::REG_RIP as usize] = at as i64;
            let Some(s) = me() else { return };
            if s.kind.load(SeqCst) == 5 {
                let d = s.left.load(SeqCst);
                if d > 0 {
                    // that many instructions into the function
                    s.left.store(d, SeqCst);
                    s.kind.store(3, SeqCst);
                    uc.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
                } else if may_switch() {
                    reached(hash2(0x1257, at - &raw const __executable_start as u64));
                    switch(s, Ct::SwitchInstr);
                }
            }
            return;
        }
        if RECORDING && unpatch(pc - 1) {
            uc.uc_mcontext.gregs[libc::REG_RIP as usize] = pc as i64 - 1;
            if NPCS < PCS.len() { PCS[NPCS] = pc - 1; NPCS += 1; }
            return;
        }
        let fl = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
        let Some(s) = me() else { *fl &= !0x100; return };
        let k = s.kind.load(SeqCst);
        if REGUARD != 0 {
            // the write went through: watch on
            let page = std::mem::take(&mut REGUARD);
            if GUARDED { libc::mprotect(page as *mut _, 4096, libc::PROT_READ); }
            if k != 3 { *fl &= !0x100; return; }
        }
        if k != 3 { *fl &= !0x100; return; }
        let l = s.left.load(SeqCst);
        if l > 1 { s.left.store(l - 1, SeqCst); return; }
        if may_switch() {
            *fl &= !0x100;
            // position relative to this binary: the load address is randomised
            let pc = pc.wrapping_sub(on_trap as *const () as u64) as i64;
            reached(hash2(0x1257, if pc.abs() < 1 << 28 { pc as u64 } else { 1 }));
            switch(s, Ct::SwitchInstr);
        }
    }
}

// Breakpoints: the positions a counted call passed through, and the one armed now.  Only the thread
// whose turn it is touches these.
/// (address, original byte) of the library's functions, in the order of addresses
#[link_section = "simdata"]
static mut FUNCS: Vec<(u64, u8)> = Vec::new();
#[link_section = "simdata"]
static mut RECORDING: bool = false;
#[link_section = "simdata"]
static mut PCS: [u64; 4096] = [0; 4096];
#[link_section = "simdata"]
static mut NPCS: usize = 0;
#[link_section = "simdata"]
static mut BP: (u64, u8) = (0, 0);

// the simulator's static memory on pages of its own
#[repr(align(4096))]
struct Page(#[allow(dead_code)] [u8; 4096]);
#[used]
#[link_section = "simdata"]
static PAGE: Page = Page([0; 4096]);
#[used]
static BSS: Page2 = Page2(std::cell::UnsafeCell::new([0; 4096]));
#[repr(align(4096))]
struct Page2(#[allow(dead_code)] std::cell::UnsafeCell<[u8; 4096]>);
unsafe impl Sync for Page2 {}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static __data_start: u8;
    static _end: u8;
    static __start_simdata: u8;
    static __stop_simdata: u8;
}

// Footprints: which words of the program's static memory (the simulator's own set apart) a call
// changes.  They do not decide anything; they tell where a preemption is worth most.
#[link_section = "simdata"]
static mut FOOT: bool = false;
#[link_section = "simdata"]
static mut SNAP: *mut u8 = std::ptr::null_mut();
#[link_section = "simdata"]
static mut WATCH: ([u32; 64], usize) = ([0; 64], 0);
#[link_section = "simdata"]
static mut GUARDED: bool = false;
/// page to be made read-only again after the instruction that is being let through
#[link_section = "simdata"]
static mut REGUARD: usize = 0;
/// the library's static variables
#[link_section = "simdata"]
static mut OBJS: Vec<(u64, u64)> = Vec::new();
#[link_section = "simdata"]
static mut WSTEPS: u64 = 0;

fn data() -> (usize, usize) {
    let lo = (&raw const __data_start as usize) & !7;
    let hi = (&raw const _end as usize) & !7;
    (lo, hi.min(lo + (4 << 20)))
}
unsafe fn snapshot() {
    let (lo, hi) = data();
    if SNAP.is_null() {
        SNAP = libc::mmap(std::ptr::null_mut(), hi - lo, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
    }
    std::ptr::copy_nonoverlapping(lo as *const u8, SNAP, hi - lo);
}
unsafe fn footprint() {
    let (lo, hi) = data();
    let (s0, s1) = ((&raw const __start_simdata as usize) & !7, (&raw const __stop_simdata as usize + 7) & !7);
    for (a, b) in [(lo, s0.clamp(lo, hi)), (s1.clamp(lo, hi), hi)] {
        if a >= b || libc::memcmp(a as *const _, SNAP.add(a - lo) as *const _, b - a) == 0 { continue; }
        for w in (a..b).step_by(8) {
            if *(w as *const u64) != *(SNAP.add(w - lo) as *const u64) { foot(((w - lo) / 8) as u32); }
        }
    }
}
/// the words to watch in the runs forked from here
pub fn watch(words: &[u32]) {
    unsafe {
        let n = words.len().min(64);
        WATCH.0[..n].copy_from_slice(&words[..n]);
        WATCH.1 = n;
        WSTEPS = 0;
    }
}
/// Static memory (the simulator's own set apart) read-only, so that the handler below sees every
/// write before it happens; or back to normal.
unsafe fn guard(on: bool) {
    if GUARDED == on { return; }
    std::hint::black_box(&BSS);
    GUARDED = on;
    REGUARD = 0;
    let (lo, hi) = data();
    let (s0, s1) = (&raw const __start_simdata as usize, &raw const __stop_simdata as usize);
    for (a, b) in [((lo + 4095) & !4095, s0.clamp(lo, hi) & !4095), ((s1.clamp(lo, hi) + 4095) & !4095, (hi + 4095) & !4095)] {
        if a < b { libc::mprotect(a as *mut _, b - a, if on { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE }); }
    }
}
extern "C" fn on_write(_: i32, si: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let at = (*si).si_addr() as usize;
        let (lo, hi) = data();
        if !GUARDED || at < lo & !4095 || at >= (hi + 4095) & !4095 {
            // not ours: die of it
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = libc::SIG_DFL;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
            return;
        }
        let Some(s) = me() else { guard(false); return };
        let k = s.kind.load(SeqCst);
        if !FOOT && k != 6 { guard(false); return; }
        WSTEPS += 1;
        let fl = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
        if WSTEPS > 20_000 { guard(false); return; }
        let w = ((at & !7).saturating_sub(lo) / 8) as u32;
        if FOOT {
            if OBJS.iter().any(|o| o.0 <= at as u64 && (at as u64) < o.1) { foot(w); }
        } else if WATCH.0[..WATCH.1].contains(&w) {
            ct(Ct::StaticWrite);
            let l = s.left.load(SeqCst);
            if l > 1 { s.left.store(l - 1, SeqCst); }
            else {
                guard(false);
                let d = s.call.swap(0, SeqCst) as u64;
                if d == 0 {
                    // just before the write
                    if may_switch() {
                        reached(hash2(0x1258, (uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64).wrapping_sub(on_trap as *const () as u64)));
                        switch(s, Ct::SwitchInstr);
                    }
                } else {
                    // from here on like a countdown of instructions
                    s.left.store(d, SeqCst);
                    s.kind.store(3, SeqCst);
                    *fl |= 0x100;
                }
                return;
            }
        }
        REGUARD = at & !4095;
        libc::mprotect(REGUARD as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE);
        *fl |= 0x100;
    }
}
unsafe fn foot(w: u32) {
    let h = shm();
    let x = (h.step, w);
    if (h.nfoot as usize) < h.foot.len() && !h.foot[..h.nfoot as usize].contains(&x) {
        h.foot[h.nfoot as usize] = x;
        h.nfoot += 1;
    }
}

/// finds the library's functions in this executable's symbol table
pub fn functions() {
    unsafe {
        if !FUNCS.is_empty() { return; }
        let Ok(b) = std::fs::read("/proc/self/exe") else { return };
        let u = |o: usize, n: usize| -> u64 { b.get(o..o + n).map_or(0, |x| x.iter().rev().fold(0, |a, &v| a << 8 | v as u64)) };
        let base = &raw const __executable_start as u64;
        let (shoff, shentsize, shnum) = (u(0x28, 8) as usize, u(0x3a, 2) as usize, u(0x3c, 2) as usize);
        // position-independent executables are linked at 0
        let link = { let (ph, pn) = (u(0x20, 8) as usize, u(0x38, 2) as usize); (0..pn).map(|i| ph + i * 56).filter(|&p| u(p, 4) == 1).map(|p| u(p + 16, 8)).min().unwrap_or(0) };
        let mut v = vec![];
        for i in 0..shnum {
            let h = shoff + i * shentsize;
            if u(h + 4, 4) != 2 { continue; }
            let (off, size, lnk) = (u(h + 0x18, 8) as usize, u(h + 0x20, 8) as usize, u(h + 0x28, 4) as usize);
            let str0 = u(shoff + lnk * shentsize + 0x18, 8) as usize;
            for o in (off..off + size).step_by(24) {
                if !matches!(u(o + 4, 1) & 15, 1 | 2) || u(o + 6, 2) == 0 || u(o + 16, 8) == 0 { continue; }
                let nm = &b[str0 + u(o, 4) as usize..];
                let nm = &nm[..nm.iter().position(|&c| c == 0).unwrap_or(0)];
                if nm.windows(11).any(|w| w == b"redstone_ml") && !nm.starts_with(b"_ZN3sim") {
                    let at = base + u(o + 8, 8) - link;
                    if u(o + 4, 1) & 15 == 2 { v.push(at); } else if at >= data().0 as u64 { OBJS.push((at, at + u(o + 16, 8))); }
                }
            }
        }
        v.sort();
        v.dedup();
        FUNCS = v.into_iter().map(|a| (a, *(a as *const u8))).collect();
    }
}
/// breakpoints on the entries of all functions, or back to normal
unsafe fn record(on: bool) {
    RECORDING = on;
    let (lo, hi) = (&raw const __executable_start as usize & !4095, (&raw const etext as usize + 4095) & !4095);
    libc::mprotect(lo as *mut _, hi - lo, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC);
    for &(a, b) in FUNCS.iter() { *(a as *mut u8) = if on { 0xcc } else { b }; }
    if !on { libc::mprotect(lo as *mut _, hi - lo, libc::PROT_READ | libc::PROT_EXEC); }
}
unsafe fn unpatch(pc: u64) -> bool {
    match FUNCS.binary_search_by_key(&pc, |x| x.0) { Ok(i) => { *(pc as *mut u8) = FUNCS[i].1; true } Err(_) => false }
}
unsafe fn poke(pc: u64, b: u8) {
    let page = pc & !4095;
    libc::mprotect(page as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC);
    *(pc as *mut u8) = b;
    libc::mprotect(page as *mut _, 4096, libc::PROT_READ | libc::PROT_EXEC);
}
unsafe fn disarm() {
    if BP.0 != 0 { poke(BP.0, BP.1); BP.0 = 0; }
}

enum Cl { A(Box<WA>), F(Box<WB<f32>>), D(Box<WB<f64>>), R }

fn make(kind: u32, spec: &Spec) -> Cl {
    let maxh = spec.c(1).max(3) as usize;
    let b = || world_b::Cfg { maxh, keep: false, mem: false, stderr: false, big: spec.c(3) == 2 };
    match kind {
        0 => Cl::A(Box::new(WA::new(world_a::Cfg { exact: true, maxh, dts: if spec.c(2) == 0 { 1 << 13 } else { spec.c(2) }, big: spec.c(3), mem: false, stderr: false }))),
        1 => Cl::F(Box::new(WB::new(b()))),
        2 => Cl::D(Box::new(WB::new(b()))),
        _ => Cl::R,
    }
}

fn do_step(cl: &mut Cl, i: u32, s: &Step) -> R {
    match cl {
        Cl::A(w) => w.step(i, s),
        Cl::F(w) => w.step(i, s),
        Cl::D(w) => w.step(i, s),
        Cl::R => {
            // which numbers are drawn is nobody's promise; that the call behaves is
            let keep = TRACE.with(|t| t.borrow_mut().replace(vec![]));
            let r = world_c::step_range(i, s);
            TRACE.with(|t| *t.borrow_mut() = keep);
            digest(r.is_ok() as u64);
            r
        }
    }
}

fn finish(cl: &mut Cl) -> R {
    match cl { Cl::A(w) => w.teardown(), Cl::F(w) => w.teardown(), Cl::D(w) => w.teardown(), Cl::R => Ok(()) }
}

fn client(c: usize, spec: Spec) -> (Vec<u64>, Option<Vio>) {
    ME.with(|m| m.set(c));
    let s = &SLOTS[c];
    s.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
    hand_over(s, DONE);
    ent::set(0, hash2(spec.seed, c as u64));
    crate::os::start(hash2(spec.seed, c as u64));
    crate::rng::SALT.with(|s| s.set(c as u64 + 1));
    TRACE.with(|t| *t.borrow_mut() = Some(Vec::with_capacity(4096)));
    let mut cl = make(spec.c(8 + c), &spec);
    let mut out = None;
    loop {
        let cmd = s.cmd.load(SeqCst);
        if out.is_none() {
            let r = if cmd == u64::MAX { finish(&mut cl) } else { let i = cmd as usize - 1; do_step(&mut cl, i as u32, &spec.steps[i]) };
            if let Err(v) = r {
                // objects in an unknown state are never touched again
                out = Some(v);
            }
        }
        s.kind.store(0, SeqCst);
        if cmd == u64::MAX { break; }
        hand_over(s, DONE);
    }
    if out.is_some() { std::mem::forget(cl); } else { drop(cl); }
    let t = TRACE.with(|t| t.borrow_mut().take()).unwrap();
    ME.with(|m| m.set(usize::MAX));
    hand_over(s, EXITED);
    (t, out)
}

fn asleep(tid: i32) -> bool {
    let mut path = [0u8; 64];
    let mut buf = [0u8; 256];
    use std::io::Write;
    let _ = write!(&mut path[..], "/proc/self/task/{tid}/stat\0");
    unsafe {
        let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY);
        if fd < 0 { return false; }
        let n = libc::read(fd, buf.as_mut_ptr() as *mut _, 255);
        libc::close(fd);
        if n <= 0 { return false; }
        let b = &buf[..n as usize];
        match b.iter().rposition(|&x| x == b')') { Some(p) => b.get(p + 2) == Some(&b'S'), None => false }
    }
}

struct Sched<'a> {
    spec: &'a Spec,
    th: [Option<std::thread::JoinHandle<(Vec<u64>, Option<Vio>)>>; MAXC],
    /// waiting for a lock another thread holds
    blocked: [bool; MAXC],
    suspended: [bool; MAXC],
    until: [usize; MAXC],
    out: Vec<(Vec<u64>, Option<Vio>)>,
}

impl Sched<'_> {
    fn others(&self, c: usize) -> bool { (0..MAXC).any(|d| d != c && self.suspended[d] && !self.blocked[d]) }
    /// lets client `c` run until it parks; false if it is stuck in the kernel or in a loop on
    /// something another client holds (only then does real time matter)
    fn wait(&mut self, c: usize) -> bool {
        let s = &SLOTS[c];
        let (mut quiet, mut busy) = (0, 0);
        let limit = if self.others(c) { (3, 75) } else { (400, 5000) };
        loop {
            let b = BELL.load(SeqCst);
            if s.state.load(SeqCst) != RUNNING && s.go.load(SeqCst) == 0 { self.blocked[c] = false; return true; }
            futex_wait(&BELL, b, Some(20));
            if BELL.load(SeqCst) == b {
                if asleep(s.tid.load(SeqCst)) { quiet += 1 } else { quiet = 0; busy += 1 }
                if quiet >= limit.0 || busy >= limit.1 { self.blocked[c] = true; s.stray.store(1, SeqCst); return false; }
            }
        }
    }
    fn resume(&mut self, c: usize) -> bool {
        let s = &SLOTS[c];
        s.alone.store(!self.others(c) as u32, SeqCst);
        s.state.store(RUNNING, SeqCst);
        s.go.store(1, SeqCst);
        futex_wake(&s.go);
        self.wait(c)
    }
    /// runs client `c` until its step is complete; other suspended clients get the turn when it
    /// waits for something they hold
    fn complete(&mut self, c: usize) -> R {
        for _ in 0..64 {
            let st = SLOTS[c].state.load(SeqCst);
            if self.blocked[c] || st == WAITING {
                let mut moved = false;
                for d in 0..MAXC {
                    if d != c && self.suspended[d] && !self.blocked[d] { moved = true; self.resume(d); self.note(d); }
                }
                let ok = if self.blocked[c] { self.wait(c) } else { self.resume(c) };
                if !ok && !moved { return vio("thread", format!("client {c} waits for ever at step {}", shm().step)); }
            } else if st == PREEMPTED {
                self.resume(c);
            }
            self.note(c);
            if !self.suspended[c] { return Ok(()); }
        }
        vio("thread", format!("client {c} makes no progress at step {}", shm().step))
    }
    fn note(&mut self, c: usize) {
        self.suspended[c] = self.blocked[c] || matches!(SLOTS[c].state.load(SeqCst), PREEMPTED | WAITING);
    }
    fn start(&mut self, c: usize) -> R {
        if self.th[c].is_some() { return Ok(()); }
        let sp = self.spec.clone();
        SLOTS[c].state.store(RUNNING, SeqCst);
        let Ok(h) = std::thread::Builder::new().stack_size(1 << 20).spawn(move || client(c, sp)) else { return vio("harness", "cannot start a thread".into()) };
        self.th[c] = Some(h);
        while SLOTS[c].state.load(SeqCst) == RUNNING { let b = BELL.load(SeqCst); if SLOTS[c].state.load(SeqCst) != RUNNING { break; } futex_wait(&BELL, b, Some(20)); }
        Ok(())
    }
    fn command(&mut self, c: usize, cmd: u64) -> R {
        SLOTS[c].stray.store(0, SeqCst);
        SLOTS[c].cmd.store(cmd, SeqCst);
        if !self.resume(c) && !(0..MAXC).any(|d| d != c && self.suspended[d]) {
            return vio("thread", format!("client {c} waits for ever at step {}", shm().step));
        }
        self.note(c);
        Ok(())
    }
    fn end(&mut self, c: usize) -> R {
        if self.th[c].is_none() { return Ok(()); }
        if self.suspended[c] { self.complete(c)?; }
        self.command(c, u64::MAX)?;
        if self.suspended[c] { self.complete(c)?; }
        let h = self.th[c].take().unwrap();
        match h.join() { Ok(o) => self.out[c] = o, Err(_) => return vio("harness", "client thread panicked".into()) }
        SLOTS[c].state.store(PARKED, SeqCst);
        Ok(())
    }
}

/// Runs the schedule; with `only`, that client's steps alone and undisturbed.
pub fn run(spec: &Spec, only: Option<usize>) -> R {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        sa.sa_sigaction = on_write as *const () as usize;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        ENTER_HOOK = Some(enter_hook);
        LEAVE_HOOK = Some(leave_hook);
    }
    unsafe { FOOT = only.is_some(); }
    heap::set_alloc_hook(Some(alloc_hook));
    heap::set_turn_hook(Some(turn_hook));
    ent::set_draw_hook(Some(draw_hook));
    let mut sc = Sched { spec, th: Default::default(), blocked: [false; MAXC], suspended: [false; MAXC], until: [0; MAXC], out: vec![(vec![], None); MAXC] };
    let mut pending: [Option<[u32; 4]>; MAXC] = [None; MAXC];
    let mut ended = [false; MAXC];
    let mut last = usize::MAX;
    for (i, s) in spec.steps.iter().enumerate() {
        let c = s.client as usize % MAXC;
        if only.is_some_and(|o| o != c) || ended[c] { continue; }
        let g = |k: usize| s.a.get(k).copied().unwrap_or(0);
        match s.op {
            PREEMPT => { if only.is_none() { pending[c] = Some([g(0), g(1), g(2), g(3)]); } }
            END => { sc.end(c)?; ended[c] = true; }
            _ => {
                sc.start(c)?;
                if sc.suspended[c] { sc.complete(c)?; }
                if last != c && last != usize::MAX { ct(Ct::Switch); }
                last = c;
                if let Some([kind, n, m, k]) = pending[c].take() {
                    SLOTS[c].call.store(k, SeqCst);
                    let (left, kind) = match kind % 6 {
                        3 => (1, 4),
                        // one of the positions the call counted last passed through
                        4 => (n as u64, 5),
                        // before the n-th write to a watched word, or k instructions later
                        5 => (n.max(1) as u64, 6),
                        k => (n.max(1) as u64, 1 + k),
                    };
                    SLOTS[c].left.store(left, SeqCst);
                    SLOTS[c].kind.store(kind, SeqCst);
                    sc.until[c] = i + 1 + m as usize;
                }
                sc.command(c, i as u64 + 1)?;
                if sc.suspended[c] && shm().cat != 0 {
                    let o = &shm().opname;
                    let n = o.iter().position(|&b| b == 0).unwrap_or(0).min(14);
                    reached(o[..n].iter().fold(s.op as u64, |a, &b| hash2(a, b as u64)));
                }
            }
        }
        for d in 0..MAXC {
            if sc.suspended[d] && d != c && i >= sc.until[d] { sc.complete(d)?; }
        }
    }
    for d in 0..MAXC { if sc.suspended[d] { sc.complete(d)?; } }
    for c in 0..MAXC { if sc.th[c].is_some() { sc.end(c)?; } }
    for c in 0..MAXC {
        let (t, o) = &sc.out[c];
        if only.is_some_and(|x| x != c) || !spec.steps.iter().any(|s| s.client as usize % MAXC == c) { continue; }
        let (mut h, mut k) = (0u64, 0);
        for &x in t { h = hash2(h, x); k += 1; if k <= 200 { digest(hash2(c as u64, h)); } }
        digest(hash2(hash2(c as u64, h), 0xE0D));
        if let Some(v) = o {
            if v.kind == "harness" { return Err(v.clone()); }
            digest(hash2(c as u64, v.kind.bytes().fold(7, |a, b| hash2(a, b as u64))));
            note(&format!("client {c}: {}: {}", v.kind, v.msg));
        }
        digest(u64::MAX);
    }
    Ok(())
}
