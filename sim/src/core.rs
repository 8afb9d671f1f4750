//! Run specifications, the forked execution of one run, the shared-memory report and the
//! boundary through which library code is called.
use crate::heap::{self, HeapCfg};
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub client: u8,
    pub op: u8,
    pub a: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub prop: String,
    pub world: char,
    pub seed: u64,
    pub heap: HeapCfg,
    pub cfg: Vec<u32>,
    pub steps: Vec<Step>,
}

impl Spec {
    pub fn to_text(&self) -> String {
        let mut s = String::from("redstone-sim replay v1\n");
        s += &format!("property {}\nworld {}\nseed {}\n", self.prop, self.world, self.seed);
        let h = self.heap;
        s += &format!("heap {} {} {} {} {}\n", h.place, h.fill, h.align, h.realloc, h.seed);
        s += &format!("cfg {}\n", self.cfg.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        for st in &self.steps {
            s += &format!("step {} {} {}\n", st.client, st.op, st.a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Spec> {
        let mut sp = Spec { prop: String::new(), world: 'A', seed: 0, heap: HeapCfg::plain(), cfg: vec![], steps: vec![] };
        let mut lines = t.lines();
        if lines.next()? != "redstone-sim replay v1" { return None; }
        for l in lines {
            if l.starts_with('#') || l.trim().is_empty() { continue; }
            let mut w = l.split_whitespace();
            match w.next()? {
                "property" => sp.prop = w.next()?.to_string(),
                "world" => sp.world = w.next()?.chars().next()?,
                "seed" => sp.seed = w.next()?.parse().ok()?,
                "heap" => {
                    let v: Vec<u32> = w.filter_map(|x| x.parse().ok()).collect();
                    if v.len() != 5 { return None; }
                    sp.heap = HeapCfg { place: v[0] as u8, fill: v[1] as u8, align: v[2] as u8, realloc: v[3] as u8, seed: v[4] };
                }
                "cfg" => sp.cfg = w.filter_map(|x| x.parse().ok()).collect(),
                "step" => {
                    let v: Vec<u32> = w.filter_map(|x| x.parse().ok()).collect();
                    if v.len() < 2 { return None; }
                    sp.steps.push(Step { client: v[0] as u8, op: v[1] as u8, a: v[2..].to_vec() });
                }
                _ => {}
            }
        }
        Some(sp)
    }
    pub fn c(&self, i: usize) -> u32 {
        self.cfg.get(i).copied().unwrap_or(0)
    }
}

// ---- shared report -----------------------------------------------------------------------

pub const NDIG: usize = 1024;
pub const BITMAP_BITS: usize = 1 << 23;

macro_rules! counters {
    ($($id:ident = $name:expr),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum Ct { $($id),*, COUNT }
        pub const CT_NAMES: &[&str] = &[$($name),*];
    };
}

counters! {
    Steps = "steps_executed", Skipped = "steps_not_applicable_in_state", Checks = "oracle_comparisons",
    Create = "op_create", View = "op_view_by_ref", Consume = "op_consume_by_value", Drop = "op_drop",
    WIndex = "op_write_index", WFill = "op_write_fill", WInplace = "op_write_inplace_array", WScalar = "op_write_inplace_scalar",
    RReduce = "op_reduce", RReduceAx = "op_reduce_along", RBin = "op_binary", RScalar = "op_binary_scalar", RUnary = "op_unary",
    RMat = "op_matrix_product", REinsum = "op_einsum", RIndex = "op_index_read", REq = "op_equality", RCopy = "op_copy", RTrace = "op_trace", RPrint = "op_print",
    CurOpen = "op_cursor_open", CurStep = "op_cursor_step", CurDone = "cursor_exhausted", CurWriteBetween = "fault_write_between_cursor_steps",
    AliasWriteSeen = "fault_write_through_alias_with_other_aliases_live", ROWrite = "fault_write_attempt_on_readonly_view",
    Invalid = "fault_invalid_call", InvalidPanicked = "fault_invalid_call_rejected", Trap = "fault_arithmetic_trap", UserPanic = "fault_caller_iterator_panic", TrapPartial = "inplace_trap_partial_update",
    Backward = "op_backward", BackSkip = "backward_skipped_by_budget", ZeroGrad = "op_zero_gradient", Toggle = "op_toggle_tracking", TOp = "op_tensor_arithmetic", TMat = "op_tensor_matrix_product", TView = "op_tensor_view",
    TConsume = "fault_tensor_handle_consumed", TDrop = "fault_tensor_handle_dropped", TDropBase = "fault_view_base_dropped_after_recording", TConvert = "fault_tensor_converted_to_array", ArrMut = "fault_converted_array_mutated",
    GradHold = "op_gradient_handle_held", GradWrite = "op_write_through_gradient_handle", Diamond = "backward_through_shared_subexpression", Reback = "backward_repeated_on_same_root", BackAfterDrop = "backward_after_operand_handles_gone", LongChain = "chain_of_12_or_more_operations", ManyPasses = "loop_of_12_or_more_backward_passes",
    HAlloc = "heap_allocations", HReuse = "fault_freed_memory_reused_at_once", HMove = "fault_realloc_moved", HFence = "fault_guard_page_placement", HVar = "fault_heap_personality_variants",
    EntWords = "entropy_words", EntExtreme = "fault_extreme_entropy_word", RandCalls = "op_random_constructor", RandElems = "random_elements_checked", RandLong = "samples_of_60_million_draws",
    Switch = "fault_thread_switch_at_step", SwitchAlloc = "fault_preempted_at_allocation", SwitchInstr = "fault_preempted_at_instruction", SwitchEnt = "fault_preempted_at_random_draw", StaticWrite = "probe_static_memory_written_in_watched_call", FollowUps = "schedules_aimed_at_static_writes", ThreadPanics = "fault_panic_in_thread",
    SinkFail = "fault_sink_failed", SinkFull = "op_print_complete", ErrClosed = "fault_stderr_closed", ErrFull = "fault_stderr_full", ErrPipe = "fault_stderr_broken_pipe", EinsumDiag = "op_einsum_with_diagnostic",
    PNonUnif = "probe_non_uniform_view_used", PBroadcast = "probe_zero_stride_operand", PBig = "probe_operand_over_64_elements", PScalar0d = "probe_zero_dim_operand", PDeepChain = "probe_view_chain_depth_ge_4", PPanicsValid = "probe_valid_call_rejected_as_unsupported",
    Refused = "fault_allocation_refused", RefAbort = "allocation_failure_reported_by_abort", RefPanic = "allocation_failure_reported_by_panic", RefSurvive = "allocation_failure_survived",
    LeakChecks = "leak_checks", ClockReads = "fault_simulated_clock_reads", LockWaits = "fault_waited_for_a_lock_held_by_a_preempted_client", Foreign = "runs_ended_by_another_propertys_oracle",
}

#[repr(C)]
pub struct Shm {
    pub done: u32,
    pub vio: u32,
    pub step: u32,
    pub cat: u32,
    pub kind: [u8; 32],
    pub msg: [u8; 1500],
    pub opname: [u8; 96],
    pub ndig: u32,
    pub dig: [u64; NDIG],
    pub ct: [u64; Ct::COUNT as usize],
    pub sched_hash: u64,
    pub refused: u32,
    pub want_sample: u32,
    pub sample: [u8; 1400],
    pub note: [u8; 500],
    /// words of static memory a step's calls changed: (step, word)
    pub nfoot: u32,
    pub foot: [(u32, u32); 256],
    pub bitmap: [u8; BITMAP_BITS / 8],
}

struct Glob(UnsafeCell<*mut Shm>);
unsafe impl Sync for Glob {}
static SHM: Glob = Glob(UnsafeCell::new(std::ptr::null_mut()));

pub fn shm() -> &'static mut Shm {
    unsafe { &mut **SHM.0.get() }
}

pub fn init_shm() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE,
                           libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        *SHM.0.get() = p as *mut Shm;
    }
}

pub fn set_shm(p: *mut Shm) {
    unsafe { *SHM.0.get() = p }
}

pub fn ct(c: Ct) {
    shm().ct[c as usize] += 1;
}
pub fn ctn(c: Ct, n: u64) {
    shm().ct[c as usize] += n;
}

fn put(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&b| b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

/// marks a state signature as reached (distinct-state measure)
pub fn reached(sig: u64) {
    let b = (crate::rng::mix(sig) as usize) & (BITMAP_BITS - 1);
    shm().bitmap[b >> 3] |= 1 << (b & 7);
}

thread_local! {
    /// a client thread keeps its own trace
    pub static TRACE: std::cell::RefCell<Option<Vec<u64>>> = const { std::cell::RefCell::new(None) };
}

/// appends one observation to the run's trace
pub fn digest(h: u64) {
    let own = TRACE.with(|t| match t.borrow_mut().as_mut() { Some(v) => { v.push(h); true } None => false });
    if own { return; }
    let s = shm();
    let n = s.ndig as usize;
    if n < NDIG {
        s.dig[n] = h;
        s.ndig += 1;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum Cat {
    Idle = 0, Create, View, Write, Read, Cursor, Reject, Drop, TensorOp, Backward, Track, Random, Sink, Check,
}
pub const CAT_NAMES: &[&str] = &["idle", "create", "view", "write", "read", "cursor", "reject", "drop", "tensorop", "backward", "track", "random", "sink", "check"];

pub fn set_cat(c: Cat, opname: &str) {
    let s = shm();
    s.cat = c as u32;
    put(&mut s.opname, opname);
    if s.want_sample != 0 && !opname.is_empty() {
        let n = s.sample.iter().position(|&b| b == 0).unwrap_or(0);
        let who = TRACE.with(|t| t.try_borrow().map_or(false, |t| t.is_some()));
        let t = if who { format!("[thread {}] {opname}; ", crate::world_d::who()) } else { format!("{opname}; ") };
        if n + t.len() + 1 < s.sample.len() { put(&mut s.sample[n..], &t); }
    }
}
pub fn refused(size: usize) {
    let s = shm();
    s.refused = 1 + size.min(1 << 20) as u32;
    ct(Ct::Refused);
    reached(crate::rng::hash2(0x00F, crate::rng::hash2(s.cat as u64, s.opname[..24].iter().fold(size as u64, |a, &b| crate::rng::hash2(a, b as u64)))));
}
pub fn note(t: &str) { put(&mut shm().note, t) }

/// What a world reports when an oracle fires.
#[derive(Clone, Debug)]
pub struct Vio {
    pub kind: String,
    pub msg: String,
}

pub type R = Result<(), Vio>;

pub fn vio<T>(kind: &str, msg: String) -> Result<T, Vio> {
    Err(Vio { kind: kind.to_string(), msg })
}

// ---- calling the library -----------------------------------------------------------------

thread_local! {
    static PANIC_MSG: UnsafeCell<[u8; 300]> = const { UnsafeCell::new([0; 300]) };
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|c| unsafe { get(&*c.get()) })
}

struct FixBuf { n: usize }
impl std::fmt::Write for FixBuf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        PANIC_MSG.with(|c| unsafe {
            let b = &mut *c.get();
            for &c in s.as_bytes() {
                if self.n < 299 { b[self.n] = c; self.n += 1; }
            }
            b[self.n] = 0;
        });
        Ok(())
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        use std::fmt::Write;
        let mut b = FixBuf { n: 0 };
        if let Some(s) = info.payload().downcast_ref::<&str>() {
            let _ = b.write_str(s);
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            let _ = b.write_str(s);
        }
        if let Some(l) = info.location() {
            let _ = write!(b, " @{}:{}", l.file(), l.line());
        }
    }));
}

/// hook for the thread world: called right before/after library code runs
pub static mut ENTER_HOOK: Option<fn()> = None;
pub static mut LEAVE_HOOK: Option<fn()> = None;

pub struct Panicked;

thread_local! {
    /// calls made to be rejected are left out and taken to have panicked
    pub static MUTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
static MUTE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn mute_faults() { MUTE.store(true, std::sync::atomic::Ordering::SeqCst); }
/// the steps between these are fault steps
pub fn fault_step<T>(on: bool, f: impl FnOnce() -> T) -> T {
    if !on || !MUTE.load(std::sync::atomic::Ordering::SeqCst) { return f(); }
    MUTED.with(|m| m.set(true));
    let r = f();
    MUTED.with(|m| m.set(false));
    r
}

/// Runs library code: simulated heap on, unwinding caught.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    if MUTED.with(|m| m.get()) && shm().cat == Cat::Reject as u32 { return Err(Panicked); }
    heap::IN_LIB.with(|c| c.set(true));
    unsafe { if let Some(h) = ENTER_HOOK { h() } }
    let r = catch_unwind(AssertUnwindSafe(f));
    unsafe { if let Some(h) = LEAVE_HOOK { h() } }
    heap::IN_LIB.with(|c| c.set(false));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            drop(p);
            Err(Panicked)
        }
    }
}

/// Runs harness code called back from inside library code.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = heap::IN_LIB.with(|c| c.replace(false));
    heap::NO_PREEMPT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    // `f` may unwind through this frame
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            heap::NO_PREEMPT.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
            heap::IN_LIB.with(|c| c.set(self.0));
        }
    }
    let _back = Back(was);
    f()
}

// ---- forked execution --------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct ChildOut {
    pub vio: Option<Vio>,
    pub crashed: bool,
    pub harness_error: Option<String>,
    pub step: u32,
    pub opname: String,
    pub dig: Vec<u64>,
    pub note: String,
    pub sig: i32,
    pub refused: bool,
    pub foot: Vec<(u32, u32)>,
}

impl Default for Vio {
    fn default() -> Self { Vio { kind: String::new(), msg: String::new() } }
}

/// when set, the child's standard error goes to this descriptor
pub static mut ERRFD: i32 = -1;
pub fn err_open() {
    unsafe { if ERRFD < 0 { ERRFD = libc::memfd_create(c"simerr".as_ptr(), 0); } }
}
pub fn err_text() -> String {
    let mut b = [0u8; 4096];
    let n = unsafe { if ERRFD < 0 { return String::new(); } libc::pread(ERRFD, b.as_mut_ptr() as *mut _, 4096, 0) };
    String::from_utf8_lossy(&b[..n.max(0) as usize]).into_owned()
}

pub static mut TIME_LIMIT_S: u32 = 20;

/// Forks, runs `f` in the child, and collects the report.
pub fn fork_run(f: impl FnOnce() -> R) -> ChildOut {
    let s = shm();
    s.done = 0;
    s.vio = 0;
    s.step = 0;
    s.cat = 0;
    s.ndig = 0;
    s.msg[0] = 0;
    s.kind[0] = 0;
    s.opname[0] = 0;
    s.note[0] = 0;
    s.nfoot = 0;
    s.refused = 0;
    s.sample[0] = 0;
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return ChildOut { harness_error: Some("fork failed".into()), ..Default::default() };
        }
        if pid == 0 {
            let lim = TIME_LIMIT_S;
            let rl = libc::rlimit { rlim_cur: lim as u64, rlim_max: lim as u64 + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let zero = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &zero);
            libc::alarm(lim * 6);
            let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if nul >= 0 { libc::dup2(nul, 2); libc::close(nul); }
            if ERRFD >= 0 { libc::ftruncate(ERRFD, 0); libc::lseek(ERRFD, 0, libc::SEEK_SET); libc::dup2(ERRFD, 2); }
            let r = catch_unwind(AssertUnwindSafe(f));
            let s = shm();
            match r {
                Ok(Ok(())) => {}
                Ok(Err(v)) => {
                    put(&mut s.kind, &v.kind);
                    put(&mut s.msg, &v.msg);
                    s.vio = 1;
                }
                Err(_) => {
                    put(&mut s.kind, "harness");
                    put(&mut s.msg, &format!("harness panic: {}", last_panic()));
                    s.vio = 2;
                }
            }
            let c = heap::counters();
            ctn(Ct::HAlloc, c[0]);
            ctn(Ct::HReuse, c[1]);
            ctn(Ct::HMove, c[2]);
            ctn(Ct::HFence, c[3]);
            #[cfg(simcov)]
            { extern "C" { fn __llvm_profile_write_file() -> i32; } __llvm_profile_write_file(); }
            s.done = 1;
            libc::_exit(0);
        }
        let mut st = 0i32;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid { break; }
            if r < 0 && *libc::__errno_location() != libc::EINTR { break; }
        }
        let mut out = ChildOut { step: s.step, opname: get(&s.opname), dig: s.dig[..s.ndig as usize].to_vec(), note: get(&s.note), refused: s.refused != 0, foot: s.foot[..s.nfoot as usize].to_vec(), ..Default::default() };
        if s.done == 1 {
            match s.vio {
                1 => out.vio = Some(Vio { kind: get(&s.kind), msg: get(&s.msg) }),
                2 => out.harness_error = Some(get(&s.msg)),
                _ => {}
            }
        } else {
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
            let cat = CAT_NAMES.get(s.cat as usize).copied().unwrap_or("idle");
            out.crashed = true;
            out.sig = sig;
            match sig {
                libc::SIGXCPU | libc::SIGALRM => {
                    out.vio = Some(Vio { kind: format!("hang:{cat}"), msg: format!("no progress: call did not return within the step budget (signal {sig}) at step {} ({})", s.step, out.opname) })
                }
                libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP => {
                    out.vio = Some(Vio { kind: format!("crash:{cat}"), msg: format!("process died with signal {sig} at step {} ({})", s.step, out.opname) })
                }
                _ => out.harness_error = Some(format!("child ended with status {st:#x} at step {} ({})", s.step, out.opname)),
            }
        }
        out
    }
}

pub fn take_sample() -> String {
    let r = get(&shm().sample);
    shm().sample[0] = 0;
    r
}
