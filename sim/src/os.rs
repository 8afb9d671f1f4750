//! The operating-system seam: system calls the standard library makes on the library's behalf.
//! Waiting for a lock (futex), yielding, sleeping, reading a clock and asking the kernel for random
//! bytes are answered by the simulator while library code runs; everything else goes to the kernel.
use crate::heap::IN_LIB;
use crate::rng::hash2;
use std::arch::asm;
use std::cell::Cell;

pub unsafe fn raw(n: i64, a: [usize; 6]) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn errno(r: isize) -> isize {
    if (-4095..0).contains(&r) { *libc::__errno_location() = -r as i32; -1 } else { r }
}

thread_local! {
    /// (seed, reads so far, now in ns, behaviour)
    static CLOCK: Cell<(u64, u64, u64, u32)> = const { Cell::new((1, 0, 0, 0)) };
    static KERN: Cell<u64> = const { Cell::new(0) };
}

/// Starts the simulated clock of this thread.  Behaviours: steady ticks, coarse (repeats the same
/// reading many times), frozen, jumps forward, jumps back (wall clock only).
pub fn start(seed: u64) {
    let h = hash2(seed, 0xC10C);
    CLOCK.with(|c| c.set((h, 0, 1_700_000_000_000_000_000 + (h % (1 << 50)), (h >> 50) as u32 % 5)));
    KERN.with(|k| k.set(hash2(seed, 0x6E7)));
}

fn now(wall: bool) -> u64 {
    crate::core::ct(crate::core::Ct::ClockReads);
    CLOCK.with(|c| {
        let (s, n, t, b) = c.get();
        let h = hash2(s, n);
        let step = match b {
            0 => 40 + h % 1000,
            1 => if h % 64 == 0 { 4_000_000 } else { 0 },
            2 => 0,
            _ => if h % 8 == 0 { h % 3_600_000_000_000 } else { h % 500 },
        };
        c.set((s, n + 1, t + step, b));
        let t = t + step;
        if wall && b == 4 && h % 5 == 0 { t - (h >> 8) % 7_200_000_000_000 } else { t }
    })
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if !IN_LIB.with(|c| c.get()) { return errno(raw(libc::SYS_clock_gettime, [clk as usize, ts as usize, 0, 0, 0, 0])) as i32; }
    let t = now(clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE);
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> i32 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !tv.is_null() { (*tv).tv_sec = ts.tv_sec; (*tv).tv_usec = ts.tv_nsec / 1000; }
    0
}

unsafe fn sleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> isize {
    if !IN_LIB.with(|c| c.get()) { return raw(libc::SYS_clock_nanosleep, [clk as usize, flags as usize, req as usize, rem as usize, 0, 0]); }
    let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    CLOCK.with(|c| { let (s, n, t, b) = c.get(); c.set((s, n, if flags & 1 == 1 { t.max(d) } else { t + d }, b)) });
    crate::world_d::give_way();
    0
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    -sleep(clk, flags, req, rem) as i32
}
#[no_mangle]
unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    errno(sleep(libc::CLOCK_MONOTONIC, 0, req, rem)) as i32
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> i32 {
    if IN_LIB.with(|c| c.get()) && crate::world_d::give_way() { return 0; }
    raw(libc::SYS_sched_yield, [0; 6]) as i32
}

unsafe fn kernel_bytes(buf: *mut u8, len: usize) {
    KERN.with(|k| {
        for i in 0..len { let s = hash2(k.get(), 1); k.set(s); *buf.add(i) = (s >> 24) as u8; }
    });
}
#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if KERN.with(|k| k.get()) == 0 { return errno(raw(libc::SYS_getrandom, [buf as usize, len, flags as usize, 0, 0, 0])); }
    kernel_bytes(buf, len);
    len as isize
}
#[no_mangle]
unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    if getrandom(buf, len, 0) == len as isize { 0 } else { -1 }
}

#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex {
        let cmd = b as i32 & 0x7f;
        if (cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET) && IN_LIB.with(|c| c.get()) {
            // would it wait at all?
            if (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != c as u32 { *libc::__errno_location() = libc::EAGAIN; return -1; }
            if crate::world_d::give_way() {
                if d != 0 { *libc::__errno_location() = libc::ETIMEDOUT; return -1; }
                return 0; // a spurious wake-up: the caller looks again
            }
        }
    }
    if n == libc::SYS_getrandom { return getrandom(a as *mut u8, b, c as u32) as i64; }
    errno(raw(n, [a, b, c, d, e, f])) as i64
}
