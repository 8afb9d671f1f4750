//! The entropy seam: every random word the library consumes (the vendored `rand::thread_rng` and
//! `getrandom` forward here) is decided by the simulator.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    /// (mode, seed, counter)
    pub static ENT: Cell<(u32, u64, u64)> = const { Cell::new((0, 1, 0)) };
}
#[link_section = "simdata"]
pub static WORDS: AtomicU64 = AtomicU64::new(0);
#[link_section = "simdata"]
pub static EXTREME: AtomicU64 = AtomicU64::new(0);
static mut DRAW_HOOK: Option<fn()> = None;
pub fn set_draw_hook(f: Option<fn()>) { unsafe { DRAW_HOOK = f } }

/// mode 0: honest generator; otherwise the adversarial profile `mode`
pub fn set(mode: u32, seed: u64) {
    ENT.with(|c| c.set((mode, seed, 0)));
}
pub fn counts() -> (u64, u64) { (WORDS.load(Ordering::Relaxed), EXTREME.load(Ordering::Relaxed)) }
thread_local! { static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) }; }
/// A call that draws more words than this does not terminate.
pub fn limit(n: u64) { let d = drawn(); LIMIT.with(|c| c.set(d.saturating_add(n))) }
pub fn drawn() -> u64 {
    ENT.with(|c| c.get().2)
}

/// The word the source delivers at position `n`.
pub fn word(mode: u32, seed: u64, n: u64) -> (u64, bool) {
    let base = crate::rng::hash2(seed, n.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xE17);
    let pick = crate::rng::hash2(seed ^ 0x5151, n);
    match mode {
        0 => (base, false),
        1 => (0, true),
        2 => (u64::MAX, true),
        // stuck source
        3 => (crate::rng::mix(seed), true),
        // mostly honest with extreme words sprinkled in
        4 => match pick % 8 {
            0 => (0, true),
            1 => (u64::MAX, true),
            2 => (base & !0x1ff, true),
            3 => (base | 0xffff_fe00_0000_0000, true),
            _ => (base, false),
        },
        // extreme leading bits, random rest
        5 => (base | 0xffff_ff80_0000_0000, true),
        6 => (base & 0x0000_00ff_ffff_ffff, true),
        // halves: u32 draws take one half
        7 => (if pick & 1 == 0 { base | 0xffff_ffff } else { base | 0xffff_ffff_0000_0000 }, true),
        8 => (if pick & 1 == 0 { base & !0xffff_ffff } else { base & 0xffff_ffff }, true),
        // alternating extremes
        9 => (if n & 1 == 0 { 0 } else { u64::MAX }, true),
        // single bits
        10 => (1u64 << (pick % 64), true),
        11 => (!(1u64 << (pick % 64)), true),
        // just below / above the middle
        12 => (0x8000_0000_0000_0000u64.wrapping_add((pick % 5) << 40).wrapping_sub(2 << 40), true),
        // long run of one extreme, then honest
        13 => if n < seed % 40 { (u64::MAX, true) } else { (base, false) },
        14 => if n < seed % 40 { (0, true) } else { (base, false) },
        // low-entropy counter
        _ => (n.wrapping_mul(seed | 1), true),
    }
}
pub const NMODES: u32 = 16;

#[no_mangle]
fn __sim_random_word() -> u64 {
    unsafe { if let Some(h) = DRAW_HOOK { h() } }
    ENT.with(|c| {
        let (m, s, n) = c.get();
        c.set((m, s, n + 1));
        // no source stays stuck for ever: after a stretch of adversarial words half of them are honest
        let m = if n > 1500 && crate::rng::hash2(s ^ 0xFA1, n) & 1 == 1 { 0 } else { m };
        if n > LIMIT.with(|c| c.get()) { unsafe { libc::raise(libc::SIGXCPU); } }
        let (w, x) = word(m, s, n);
        WORDS.fetch_add(1, Ordering::Relaxed);
        if x { EXTREME.fetch_add(1, Ordering::Relaxed); }
        w
    })
}
