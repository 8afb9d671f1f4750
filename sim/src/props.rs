//! Per property: how runs are generated, executed and attributed.
use crate::core::*;
use crate::heap::{self, HeapCfg};
use crate::rng::{hash2, Rng};
use crate::world_a::{self, op, WA};
use crate::world_b::{self, WB};
use crate::world_c;
use crate::world_d;

pub const CLAIMED: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C21"];

pub fn runs(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C01" | "C03" => 120_000,
        "C02" => 120_000,
        "C04" => 60_000,
        "C05" | "C06" | "C11" | "C13" => 120_000,
        "C07" => 36_000,
        "C08" => 6_000,
        "C09" => 100_000,
        "C10" => 5_000,
        "C12" => 100_000,
        "C21" => 100_000,
        _ => 1000,
    };
    if thorough { q * 20 } else { q }
}

/// development aid: attribute everything to the property at hand
pub static OWN_ALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Does a violation of this kind break the property under check?
pub fn owns(prop: &str, kind: &str) -> bool {
    if OWN_ALL.load(std::sync::atomic::Ordering::SeqCst) { return true; }
    if kind.contains('+') { return kind.split('+').any(|k| owns(prop, k)); }
    let (base, cat) = kind.split_once(':').unwrap_or((kind, ""));
    if base == "crash" || base == "hang" {
        return match prop {
            "C04" => base == "crash",
            "C05" => matches!(cat, "write" | "view" | "drop"),
            "C06" => matches!(cat, "read" | "create"),
            "C11" => cat == "cursor",
            "C13" => cat == "reject",
            "C01" => matches!(cat, "backward" | "tensorop"),
            "C03" => matches!(cat, "track" | "backward"),
            "C09" => cat == "random",
            "C12" => cat == "sink",
            "C08" => true,
            _ => false,
        };
    }
    match prop {
        "C01" => matches!(base, "grad" | "regrad"),
        "C02" => matches!(base, "keepalive" | "reconf"),
        "C03" => matches!(base, "track" | "regrad" | "reconf"),
        "C04" => base == "mem",
        "C05" => matches!(base, "write" | "view" | "alias" | "readonly" | "layout"),
        "C06" => matches!(base, "read" | "tvalue" | "view" | "cursor"),
        "C07" => base == "heapdep",
        "C08" => base == "thread",
        "C09" => base == "range",
        "C10" => matches!(base, "dist" | "range"),
        "C11" => base == "cursor",
        "C12" => base == "sink",
        "C13" => matches!(base, "reject" | "readonly"),
        "C21" => base == "oom",
        _ => false,
    }
}

#[derive(Default, Clone)]
pub struct Exec {
    pub vio: Option<Vio>,
    pub foreign: Option<Vio>,
    pub harness: Option<String>,
    pub step: u32,
    pub opname: String,
    pub trace: u64,
    pub children: u32,
    /// the schedule that failed, where it is not the one generated
    pub spec: Option<Box<Spec>>,
}

fn heap_cfg(r: &mut Rng, fences: bool) -> HeapCfg {
    HeapCfg {
        place: if fences { *r.pick(&[0, 0, 1, 1, 2, 2, 3]) } else { *r.pick(&[0, 0, 1]) },
        fill: r.below(6) as u8,
        align: r.below(2) as u8,
        realloc: r.below(2) as u8,
        seed: r.u32(),
    }
}

fn dts_mask(r: &mut Rng) -> u32 {
    // one to three element types per run keeps the chance of compatible operands high
    let mut m = 0;
    for _ in 0..1 + r.below(3) {
        m |= 1 << *r.pick(&[12usize, 13, 12, 13, 8, 9, 6, 2, 0, 14, 1, 3, 4, 5, 7, 10, 11]);
    }
    m
}

fn steps_a(r: &mut Rng, w: &[(u8, u32)], n: usize) -> Vec<Step> {
    let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
    (0..n).map(|i| {
        let o = if i == 0 { op::CREATE } else { w[r.weighted(&ws)].0 };
        Step { client: r.below(3) as u8, op: o, a: (0..6).map(|_| r.u32()).collect() }
    }).collect()
}

/// swarm: every weight is sometimes switched off or boosted
fn swarm(r: &mut Rng, w: &[(u8, u32)], keep: &[u8]) -> Vec<(u8, u32)> {
    w.iter().map(|&(o, x)| {
        let k = if keep.contains(&o) { 1 } else { *r.pick(&[0u32, 1, 1, 1, 3]) };
        (o, x * k)
    }).collect()
}

fn weights_a(prop: &str) -> Vec<(u8, u32)> {
    use op::*;
    let read = |k: u32| vec![(RED, 3 * k), (REDAX, 4 * k), (BIN, 5 * k), (BINS, 2 * k), (NEG, 2 * k), (MAT, 4 * k), (EINSUM, 4 * k), (RINDEX, 3 * k), (EQ, 2 * k), (COPY, 2 * k), (TRACE, 2 * k), (PRINT, k)];
    let mut w = vec![(CREATE, 8), (VIEW, 24), (CONSUME, 4), (DROP, 3)];
    match prop {
        "C05" => {
            w.extend([(WINDEX, 8), (FILL, 6), (IOP, 8), (IOPS, 6), (TRAP, 1)]);
            w.extend(read(1).into_iter().map(|(o, x)| (o, x / 3 + 1)));
            w.extend([(CUROPEN, 1), (CURSTEP, 1), (INVALID, 1)]);
        }
        "C06" => {
            w.extend([(WINDEX, 3), (FILL, 2), (IOP, 2), (IOPS, 2)]);
            w.extend(read(2));
            w.extend([(CUROPEN, 1), (CURSTEP, 1), (SWEEP, 5)]);
        }
        "C11" => {
            w.extend([(WINDEX, 4), (FILL, 3), (IOP, 3), (IOPS, 2)]);
            w.extend([(CUROPEN, 20), (CURSTEP, 70), (CURCLOSE, 2), (RED, 1), (BIN, 1), (COPY, 1)]);
        }
        "C13" => {
            w.extend([(WINDEX, 3), (FILL, 2), (IOP, 3), (IOPS, 2)]);
            w.extend(read(1).into_iter().map(|(o, x)| (o, x / 3 + 1)));
            w.extend([(CUROPEN, 2), (CURSTEP, 4), (INVALID, 30), (TRAP, 5), (USERPANIC, 4)]);
        }
        "C12" => {
            w.extend([(WINDEX, 3), (FILL, 2), (IOP, 2), (IOPS, 2), (EINSUM, 24), (SINK, 24), (STDERR, 14), (CUROPEN, 1), (CURSTEP, 2), (TRAP, 1)]);
            w.extend(read(1).into_iter().map(|(o, x)| (o, x / 3 + 1)));
        }
        _ => {
            w.extend([(WINDEX, 5), (FILL, 4), (IOP, 5), (IOPS, 4)]);
            w.extend(read(1));
            w.extend([(CUROPEN, 5), (CURSTEP, 12), (CURCLOSE, 2), (INVALID, 4), (TRAP, 2), (USERPANIC, 2), (SWEEP, 1)]);
        }
    }
    w
}

pub fn generate(prop: &str, seed: u64, idx: u64) -> Spec {
    let rs = hash2(hash2(seed, crate::rng::mix(prop.bytes().fold(0u64, |h, b| h * 257 + b as u64))), idx);
    let r = &mut Rng::new(rs);
    let b = match prop {
        "C01" | "C02" | "C03" => true,
        "C04" | "C07" => r.chance(1, 3),
        "C06" => r.chance(1, 5),
        "C13" | "C12" => r.chance(1, 3),
        "C21" => r.chance(1, 2),
        _ => false,
    };
    match prop {
        "C08" => return gen_d(prop, rs, r),
        "C09" => return gen_c(prop, 'C', rs, r),
        "C10" => return gen_c(prop, 'K', rs, r),
        _ => {}
    }
    let mut sp = if b { gen_b(prop, rs, r) } else { gen_a(prop, rs, r) };
    if prop == "C21" {
        // one refused allocation, somewhere inside a later step
        let k = 1 + r.below(sp.steps.len() - 1);
        let n = if r.chance(1, 2) { 1 + r.below(6) } else { let m = 1usize << r.below(7); m + r.below(m) };
        sp.steps.insert(k, Step { client: 0, op: REFUSE, a: vec![n as u32] });
    }
    sp
}

/// schedule entry: the n-th allocation from here on is refused
pub const REFUSE: u8 = 249;

fn weights_b(prop: &str) -> Vec<(u8, u32)> {
    use world_b::op::*;
    let mut w = vec![(LEAF, 8), (TOGGLE, 4), (BIN, 14), (BINS, 6), (NEG, 4), (MAT, 8), (VIEW, 10)];
    match prop {
        "C01" => w.extend([(CONSUME, 5), (DROP, 4), (BACK, 16), (BACKWITH, 8), (ZERO, 6), (GHOLD, 4), (GWRITE, 3), (GDROP, 1), (CONVERT, 2), (READ, 1), (DROPCHAIN, 2), (REBACK, 6), (CHAIN, 1), (MANY, 1)]),
        "C02" => w.extend([(CONSUME, 10), (DROP, 12), (BACK, 14), (BACKWITH, 6), (ZERO, 3), (GHOLD, 3), (GWRITE, 2), (GDROP, 2), (CONVERT, 7), (READ, 3), (ARRMUT, 5), (DROPCHAIN, 8), (DROPALL, 2), (REBACK, 5), (CHAIN, 2), (MANY, 1)]),
        "C03" => w.extend([(TOGGLE, 8), (CONSUME, 5), (DROP, 4), (BACK, 12), (BACKWITH, 6), (ZERO, 10), (GHOLD, 2), (GWRITE, 2), (GDROP, 1), (CONVERT, 2), (READ, 1), (INVALID, 1), (DROPCHAIN, 2), (REBACK, 8), (CHAIN, 1), (MANY, 1)]),
        "C13" => w.extend([(CONSUME, 3), (DROP, 3), (BACK, 8), (BACKWITH, 4), (ZERO, 2), (GHOLD, 2), (CONVERT, 2), (READ, 2), (INVALID, 30), (REBACK, 4)]),
        "C06" => w.extend([(CONSUME, 6), (DROP, 5), (BACK, 6), (BACKWITH, 2), (ZERO, 1), (CONVERT, 6), (READ, 14), (ARRMUT, 5), (DROPCHAIN, 2)]),
        "C12" => w.extend([(CONSUME, 3), (DROP, 3), (BACK, 8), (BACKWITH, 3), (CONVERT, 2), (READ, 2), (SINK, 20), (STDERR, 12), (REBACK, 2)]),
        _ => w.extend([(CONSUME, 8), (DROP, 8), (BACK, 12), (BACKWITH, 6), (ZERO, 3), (GHOLD, 4), (GWRITE, 3), (GDROP, 2), (CONVERT, 6), (READ, 4), (ARRMUT, 4), (INVALID, 4), (DROPCHAIN, 5), (DROPALL, 2), (REBACK, 4), (CHAIN, 1), (MANY, 1)]),
    }
    w
}

fn gen_b(prop: &str, rs: u64, r: &mut Rng) -> Spec {
    use world_b::op as o;
    let mut heap = heap_cfg(r, prop == "C04");
    // guard pages are slow with this world's many small buffers; quarantine finds the same in most cases
    if heap.place >= 2 && r.chance(5, 6) { heap.place = 1; }
    let w = weights_b(prop);
    let keep: &[u8] = match prop { "C13" => &[o::LEAF, o::BIN, o::INVALID], "C06" => &[o::LEAF, o::BIN, o::READ], _ => &[o::LEAF, o::BIN, o::BACK] };
    let w = if r.chance(3, 4) { swarm(r, &w, keep) } else { w };
    let n = *r.pick(&[12usize, 20, 30, 45, 70]);
    let cfg = vec![r.below(2) as u32, *r.pick(&[6u32, 10, 16, 24]), 0, 0, r.chance(1, 12) as u32];
    let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
    let steps = (0..n).map(|i| {
        let op = if i == 0 { o::LEAF } else { w[r.weighted(&ws)].0 };
        Step { client: r.below(3) as u8, op, a: (0..6).map(|_| r.u32()).collect() }
    }).collect();
    Spec { prop: prop.into(), world: 'B', seed: rs, heap, cfg, steps }
}

fn gen_c(prop: &str, world: char, rs: u64, r: &mut Rng) -> Spec {
    let mut heap = heap_cfg(r, false);
    heap.place = 0;
    let steps = (0..if world == 'C' { 8 } else { 1 }).map(|_| {
        let mut a: Vec<u32> = (0..5).map(|_| r.u32()).collect();
        if world == 'K' { a[2] = *r.pick(&[0u32, 1, 1, 1, 1, 2, 2, 2, 3]); }
        if r.chance(1, 3) { a[0] = r.below(4) as u32; }
        // long samples for the far ends of the distribution
        if world == 'K' && r.chance(1, 400) { a[0] = r.below(4) as u32; a[1] = if r.chance(3, 4) { 2 } else { 0 }; a[2] = 4; }
        Step { client: 0, op: 0, a }
    }).collect();
    Spec { prop: prop.into(), world, seed: rs, heap, cfg: vec![], steps }
}

fn run_c(spec: &Spec) -> R {
    for (i, s) in spec.steps.iter().enumerate() {
        if spec.world == 'C' { world_c::step_range(i as u32, s)? } else { world_c::step_dist(i as u32, s)? }
    }
    Ok(())
}

fn run_b<T: world_b::TF>(spec: &Spec, mem: bool, keep: bool) -> R {
    let mut w = WB::<T>::new(world_b::Cfg { maxh: spec.c(1).max(3) as usize, keep, mem, stderr: spec.c(3) == 0, big: spec.c(4) == 1 });
    for (i, s) in spec.steps.iter().enumerate() {
        if s.op == REFUSE { heap::fail_in(s.a.first().copied().unwrap_or(1).max(1) as u64); continue; }
        w.step(i as u32, s)?;
    }
    w.teardown()
}

/// The same history twice: once with handles really dropped, consumed and converted, once with
/// all of them kept alive.  Only a difference between the two is a violation of C02.
fn exec_c02(spec: &Spec) -> Exec {
    let c = child(spec, spec.heap, false, false);
    let Some(v) = c.vio.clone() else { return attribute("C02", c) };
    if v.kind == "harness" || c.harness_error.is_some() || owns("C02", &v.kind) { return attribute("C02", c); }
    let mut k = spec.clone();
    while k.cfg.len() < 3 { k.cfg.push(0); }
    k.cfg[2] = 1;
    let kc = child(&k, spec.heap, false, false);
    let mut e = attribute("C02", c);
    e.children = 2;
    if kc.harness_error.is_some() { e.harness = kc.harness_error; return e; }
    let same = kc.vio.as_ref().map(|x| (x.kind.clone(), kc.step)) == Some((v.kind.clone(), e.step));
    if !same {
        e.foreign = None;
        e.vio = Some(Vio { kind: "keepalive".into(), msg: format!("[{}] {} -- with every handle kept alive the same history gives {}", v.kind, v.msg, kc.vio.map_or("no violation".to_string(), |x| x.msg)) });
    }
    e
}

fn gen_a(prop: &str, rs: u64, r: &mut Rng) -> Spec {
    let heap = heap_cfg(r, prop == "C04");
    let mut dts = dts_mask(r);
    if prop == "C07" { dts &= !(1 << 14); if dts == 0 { dts = 1 << 12; } }
    let exact = prop != "C07";
    let keep: &[u8] = match prop {
        "C11" => &[op::CREATE, op::VIEW, op::CUROPEN, op::CURSTEP],
        "C13" => &[op::CREATE, op::VIEW, op::INVALID],
        "C12" => &[op::CREATE, op::VIEW, op::SINK, op::STDERR, op::EINSUM],
        _ => &[op::CREATE, op::VIEW],
    };
    let w = weights_a(prop);
    let w = if r.chance(3, 4) { swarm(r, &w, keep) } else { w };
    let mut n = *r.pick(&[12usize, 20, 30, 45, 70]);
    let mut maxh = *r.pick(&[6u32, 10, 16, 24]);
    let big = if r.chance(1, 150) { 3 } else if r.chance(1, 30) { 2 } else if r.chance(1, 6) { 1 } else { 0 };
    if big == 3 { n = *r.pick(&[6usize, 10, 16]); maxh = 6; }
    let cfg = vec![exact as u32, maxh, dts, big];
    Spec { prop: prop.into(), world: 'A', seed: rs, heap, cfg, steps: steps_a(r, &w, n) }
}

fn run_a(spec: &Spec, mem: bool) -> R {
    let exact = spec.c(0) == 1;
    crate::real::set_wild(!exact);
    let mut w = WA::new(world_a::Cfg { exact, maxh: spec.c(1).max(3) as usize, dts: if spec.c(2) == 0 { 1 << 13 } else { spec.c(2) }, big: spec.c(3), mem, stderr: spec.c(4) == 0 });
    for (i, s) in spec.steps.iter().enumerate() {
        if s.op == REFUSE { heap::fail_in(s.a.first().copied().unwrap_or(1).max(1) as u64); continue; }
        w.step(i as u32, s)?;
    }
    w.teardown()
}

fn world(spec: &Spec, mem: bool) -> R {
    match spec.world {
        'B' => if spec.c(0) == 0 { run_b::<f32>(spec, mem, spec.c(2) == 1) } else { run_b::<f64>(spec, mem, spec.c(2) == 1) },
        'C' | 'K' => run_c(spec),
        _ => run_a(spec, mem),
    }
}

fn child(spec: &Spec, heap: HeapCfg, mem: bool, twice: bool) -> ChildOut {
    fork_run(|| {
        if spec.world != 'K' { heap::start(heap); }
        crate::ent::set(0, spec.seed);
        crate::os::start(spec.seed);
        world(spec, mem)?;
        if twice {
            let a = heap::live();
            crate::ent::set(0, spec.seed);
            world(spec, mem)?;
            let b = heap::live();
            ct(Ct::LeakChecks);
            if b.0 > a.0 || b.1 > a.1 {
                return vio("mem", format!("leak: {} buffer(s), {} bytes still allocated after every handle was dropped; {}", b.0 - a.0, b.1 - a.1, heap::live_summary()));
            }
            heap::check_poison();
            if let Some(e) = heap::take_err() { return vio("mem", e); }
        }
        Ok(())
    })
}

fn attribute(prop: &str, c: ChildOut) -> Exec {
    let mut t = 0u64;
    for d in &c.dig { t = hash2(t, *d); }
    let mut e = Exec { step: c.step, opname: c.opname.clone(), trace: t, children: 1, ..Default::default() };
    if let Some(h) = c.harness_error { e.harness = Some(h); return e; }
    if let Some(v) = c.vio {
        if v.kind == "harness" { e.harness = Some(v.msg); }
        else if owns(prop, &v.kind) { e.vio = Some(v); }
        else { e.foreign = Some(v); }
    }
    e
}

pub fn execute(spec: &Spec) -> Exec {
    let prop = spec.prop.as_str();
    match prop {
        "C07" => exec_c07(spec),
        "C02" => exec_c02(spec),
        "C12" => exec_c12(spec),
        "C13" => exec_c13(spec),
        "C08" => exec_c08(spec),
        "C21" => exec_c21(spec),
        "C04" => exec_c04(spec),
        _ => attribute(prop, child(spec, spec.heap, false, false)),
    }
}

/// A history that ends with a wrong value may owe it to a stray access that this run's heap did
/// not show: it is repeated with guard pages behind, guard pages in front, and quarantine.
fn exec_c04(spec: &Spec) -> Exec {
    let mut e = attribute("C04", child(spec, spec.heap, true, true));
    if e.foreign.is_none() { return e; }
    for place in [2, 3, 1] {
        if place == spec.heap.place { continue; }
        let k = attribute("C04", child(spec, HeapCfg { place, ..spec.heap }, true, true));
        e.children += 1;
        if k.vio.is_some() || k.harness.is_some() { return Exec { children: e.children, ..k }; }
    }
    e
}

/// Anything that goes wrong only after a rejected or failing call is a violation of C13.
fn exec_c13(spec: &Spec) -> Exec {
    let c = child(spec, spec.heap, false, false);
    let Some(v) = c.vio.clone() else { return attribute("C13", c) };
    if v.kind == "harness" || c.harness_error.is_some() || owns("C13", &v.kind) { return attribute("C13", c); }
    let kc = fork_run(|| { mute_faults(); heap::start(spec.heap); crate::ent::set(0, spec.seed); crate::os::start(spec.seed); world(spec, false) });
    let mut e = attribute("C13", c);
    e.children = 2;
    if kc.harness_error.is_some() { e.harness = kc.harness_error; return e; }
    if kc.vio.as_ref().map(|x| (x.kind.clone(), kc.step)) != Some((v.kind.clone(), e.step)) {
        e.foreign = None;
        e.vio = Some(Vio { kind: "reject".into(), msg: format!("[{}] {} -- not if the rejected calls before it are left out", v.kind, v.msg) });
    }
    e
}

/// Anything that goes wrong only while standard error is failing is a violation of C12.
fn exec_c12(spec: &Spec) -> Exec {
    let c = child(spec, spec.heap, false, false);
    let Some(v) = c.vio.clone() else { return attribute("C12", c) };
    if v.kind == "harness" || c.harness_error.is_some() || owns("C12", &v.kind) { return attribute("C12", c); }
    let mut k = spec.clone();
    while k.cfg.len() < 5 { k.cfg.push(0); }
    k.cfg[if spec.world == 'B' { 3 } else { 4 }] = 1;
    let kc = child(&k, spec.heap, false, false);
    let mut e = attribute("C12", c);
    e.children = 2;
    if kc.harness_error.is_some() { e.harness = kc.harness_error; return e; }
    if kc.vio.as_ref().map(|x| (x.kind.clone(), kc.step)) != Some((v.kind.clone(), e.step)) {
        e.foreign = None;
        e.vio = Some(Vio { kind: "sink".into(), msg: format!("[{}] {} -- only while standard error is failing", v.kind, v.msg) });
    }
    e
}

/// After a refused allocation the process may end with the standard report, or the call may
/// panic, or it may manage without; nothing else.
fn exec_c21(spec: &Spec) -> Exec {
    err_open();
    let c = child(spec, spec.heap, false, false);
    let text = err_text();
    if c.harness_error.is_some() || !c.refused { return attribute("C21", c); }
    let (panicked, sig) = (c.vio.as_ref().is_some_and(|v| !c.crashed && v.msg.contains("panicked")), c.sig);
    let v = c.vio.clone();
    let mut e = attribute("none", c);
    let Some(v) = v else { if e.harness.is_none() { ct(Ct::RefSurvive); } return e };
    e.foreign = None;
    if e.harness.is_some() { return e; }
    if sig == libc::SIGABRT && text.contains("memory allocation of") { ct(Ct::RefAbort); return e; }
    if panicked { ct(Ct::RefPanic); return e; }
    e.vio = Some(Vio { kind: "oom".into(), msg: format!("after a refused allocation: [{}] {}", v.kind, v.msg) });
    e
}

/// Clients on threads of their own; the schedule decides whose step comes next and where inside a
/// step a client is interrupted.
fn gen_d(prop: &str, rs: u64, r: &mut Rng) -> Spec {
    let mut heap = heap_cfg(r, false);
    heap.place = *r.pick(&[0, 0, 1]);
    let nc = *r.pick(&[2usize, 2, 2, 3]);
    let mut cfg = vec![0, *r.pick(&[4u32, 6, 10]), dts_mask(r), r.chance(1, 8) as u32, 0, 0, 0, 0];
    let twins = r.chance(1, 3);
    let k0 = *r.pick(&[0u32, 0, 0, 1, 2, 3]);
    for c in 0..nc { cfg.push(if c == 0 || twins { k0 } else { *r.pick(&[0u32, 0, 0, 1, 2, 3]) }); }
    let n = *r.pick(&[6usize, 10, 16, 24]);
    let mut progs: Vec<Vec<Step>> = vec![];
    for c in 0..nc {
        let mut p: Vec<Step> = if c > 0 && twins {
            // the same calls, on the same or on other data
            progs[0].iter().map(|s| { let mut s = s.clone(); if r.chance(1, 3) { for x in s.a.iter_mut() { if r.chance(1, 2) { *x = r.u32(); } } } s }).collect()
        } else {
            match cfg[8 + c] {
                0 => { let w = weights_a("C08"); let w = swarm(r, &w, &[op::CREATE, op::VIEW]); steps_a(r, &w, n) }
                1 | 2 => {
                    use world_b::op as o;
                    let w = weights_b("C08");
                    let w = swarm(r, &w, &[o::LEAF, o::BIN, o::BACK]);
                    let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
                    (0..n).map(|i| Step { client: 0, op: if i == 0 { o::LEAF } else { w[r.weighted(&ws)].0 }, a: (0..6).map(|_| r.u32()).collect() }).collect()
                }
                _ => (0..n / 2).map(|_| Step { client: 0, op: 0, a: (0..5).map(|_| r.u32()).collect() }).collect(),
            }
        };
        for s in p.iter_mut() { s.client = c as u8; }
        progs.push(p);
    }
    if r.chance(1, 2) {
        // collisions: one kind of call again and again, each time preempted somewhere inside while
        // another client runs the same kind of call to its end
        let steps = collisions(&cfg, nc, &progs, r);
        return Spec { prop: prop.into(), world: 'D', seed: rs, heap, cfg, steps };
    }
    let pre = *r.pick(&[1usize, 2, 3, 6]);
    let kinds: &[u32] = r.pick::<&[u32]>(&[&[0], &[2], &[2], &[0, 1, 2], &[0, 1, 2]]);
    let burst = *r.pick(&[1usize, 2, 4]);
    let mut at = vec![0usize; nc];
    let mut steps = vec![];
    loop {
        let open: Vec<usize> = (0..nc).filter(|&c| at[c] < progs[c].len()).collect();
        if open.is_empty() { break; }
        let c = *r.pick(&open);
        for _ in 0..1 + r.below(burst) {
            if at[c] >= progs[c].len() { break; }
            if r.chance(pre, 8) {
                let kind = if cfg[8 + c] == 3 { *r.pick(&[1u32, 1, 0, 2]) } else { *r.pick(kinds) };
                let n = match kind { 0 => 1 + r.below(6), 1 => 1 + r.below(60), _ => { let m = 1usize << r.below(12); m + r.below(m) } };
                steps.push(Step { client: c as u8, op: world_d::PREEMPT, a: vec![kind, n as u32, 1 + r.below(5) as u32, if r.chance(3, 4) { 0 } else { r.below(4) as u32 }] });
            }
            steps.push(progs[c][at[c]].clone());
            at[c] += 1;
        }
        if at[c] >= progs[c].len() && r.chance(1, 2) { steps.push(Step { client: c as u8, op: world_d::END, a: vec![] }); }
    }
    Spec { prop: prop.into(), world: 'D', seed: rs, heap, cfg, steps }
}

/// Each client alone first; then all of them under the schedule.  Whatever a client observes
/// differently is a violation.
fn collisions(cfg: &[u32], nc: usize, progs: &[Vec<Step>], r: &mut Rng) -> Vec<Step> {
    let mut steps = vec![];
    for c in 0..nc { for s in progs[c].iter().take(3 + r.below(4)) { steps.push(s.clone()); } }
    for _ in 0..1 + r.below(2) {
        let a = r.below(nc);
        let b = (a + 1 + r.below(nc - 1)) % nc;
        let pick = |c: usize, r: &mut Rng| -> u8 {
            let w: Vec<u8> = match cfg[8 + c] {
                0 => weights_a("C08").into_iter().map(|x| x.0).filter(|&o| o != op::DROP && o != op::CURCLOSE).collect(),
                1 | 2 => { use world_b::op as o; vec![o::LEAF, o::BIN, o::BIN, o::BINS, o::NEG, o::MAT, o::MAT, o::VIEW, o::BACK, o::BACK, o::BACKWITH, o::REBACK, o::ZERO, o::READ, o::INVALID, o::CONSUME, o::TOGGLE] }
                _ => vec![0],
            };
            *r.pick(&w)
        };
        let oa = pick(a, r);
        let ob = if (cfg[8 + a] == 0) == (cfg[8 + b] == 0) && (cfg[8 + a] == 3) == (cfg[8 + b] == 3) { oa } else { pick(b, r) };
        let args = |r: &mut Rng| (0..8).map(|_| r.u32()).collect::<Vec<u32>>();
        let sa = Step { client: a as u8, op: oa, a: args(r) };
        let call = if r.chance(5, 6) { 0 } else { r.below(3) as u32 };
        steps.push(Step { client: a as u8, op: world_d::PREEMPT, a: vec![3, 1, 0, call] });
        steps.push(sa.clone());
        let other = Step { client: b as u8, op: ob, a: if r.chance(1, 2) { sa.a.clone() } else { args(r) } };
        let (va, vb) = (r.chance(1, 3), r.chance(1, 2));
        for _ in 0..6 + r.below(10) {
            steps.push(Step { client: a as u8, op: world_d::PREEMPT, a: vec![4, r.u32(), 1, call] });
            let mut s = sa.clone();
            if va { s.a = args(r); }
            steps.push(s);
            let mut s = other.clone();
            if vb { s.a = if r.chance(1, 2) { steps[steps.len() - 1].a.clone() } else { args(r) }; }
            steps.push(s);
        }
    }
    steps
}
fn exec_c08(spec: &Spec) -> Exec {
    world_d::functions();
    let mut nc: Vec<usize> = spec.steps.iter().map(|s| s.client as usize % world_d::MAXC).collect();
    nc.sort();
    nc.dedup();
    let mut alone: Vec<u64> = vec![];
    let mut foreign = None;
    let mut solo_steps = 0;
    let mut foot: Vec<(u8, u32, u32)> = vec![];
    for &c in &nc {
        let o = fork_run(|| { heap::start(spec.heap); world_d::run(spec, Some(c)) });
        solo_steps += 1;
        if o.vio.is_some() || o.harness_error.is_some() {
            // already wrong on its own: nothing to compare
            let mut e = attribute("none", o);
            if e.foreign.is_none() && e.harness.is_none() { e.foreign = e.vio.take(); }
            return e;
        }
        if !o.note.is_empty() && foreign.is_none() { foreign = Some(Vio { kind: "solo".into(), msg: o.note.clone() }); }
        alone.extend(&o.dig);
        foot.extend(o.foot.iter().map(|x| (c as u8, x.0, x.1)));
    }
    let words = |f: &[(u8, u32, u32)]| { let mut w: Vec<u32> = f.iter().map(|x| x.2).collect(); w.sort(); w.dedup(); w };
    world_d::watch(&words(&foot));
    let o = fork_run(|| { heap::start(spec.heap); world_d::run(spec, None) });
    if o.harness_error.is_some() || o.vio.as_ref().is_some_and(|v| v.kind == "harness") { return attribute("C08", o); }
    let mut t = 0u64;
    for d in &o.dig { t = hash2(t, *d); }
    let sched = spec.steps.iter().fold(spec.cfg.iter().fold(1, |a, &x| hash2(a, x as u64)), |a, s| hash2(a, s.a.iter().fold((s.client as u64) << 8 | s.op as u64, |b, &x| hash2(b, x as u64))));
    let mut e = Exec { step: o.step, opname: o.opname.clone(), trace: hash2(t, sched), children: solo_steps + 1, foreign, ..Default::default() };
    if let Some(v) = o.vio {
        e.foreign = None;
        e.vio = Some(Vio { kind: "thread".into(), msg: format!("[{}] {} -- each client alone finishes normally", v.kind, v.msg) });
    } else if o.dig != alone {
        let split = |d: &[u64]| d.split(|&x| x == u64::MAX).map(|x| x.to_vec()).collect::<Vec<_>>();
        let (a, b) = (split(&alone), split(&o.dig));
        let w = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(0);
        let k = a.get(w).zip(b.get(w)).and_then(|(x, y)| x.iter().zip(y).position(|(p, q)| p != q)).unwrap_or(0);
        e.foreign = None;
        e.vio = Some(Vio { kind: "thread".into(), msg: format!("client {} observes something else than alone from its observation {k} on{}", nc.get(w).copied().unwrap_or(0), if o.note.is_empty() { String::new() } else { format!(" ({})", o.note) }) });
    }
    if e.vio.is_none() && !foot.is_empty() && spec.c(4) == 0 {
        // calls that change static memory: schedules aimed at the moment they do
        let k = if hash2(spec.seed, 3) % 8 == 0 { 8 } else { 1 };
        for t in 0..k {
            let Some(f) = aimed(spec, &foot, t) else { break };
            ct(Ct::FollowUps);
            let x = exec_c08(&f);
            e.children += x.children;
            if x.harness.is_some() { e.harness = x.harness; break; }
            if x.vio.is_some() { let c = e.children; e = x; e.children = c; e.spec = Some(Box::new(f)); break; }
        }
    }
    e
}

/// Two clients whose calls change the same static memory: one is preempted right after a change
/// while the other runs its own such call.
fn aimed(spec: &Spec, foot: &[(u8, u32, u32)], t: u64) -> Option<Spec> {
    let r = &mut Rng::new(hash2(spec.seed, 0xA1 + t));
    let mut at: Vec<(u8, u32)> = foot.iter().map(|x| (x.0, x.1)).collect();
    at.sort();
    at.dedup();
    at.retain(|x| (x.1 as usize) < spec.steps.len() && spec.steps[x.1 as usize].client == x.0);
    if at.is_empty() { return None; }
    let (a, sa) = *r.pick(&at);
    let wa: Vec<u32> = foot.iter().filter(|x| (x.0, x.1) == (a, sa)).map(|x| x.2).collect();
    let own = |c: u8| -> Vec<Step> { spec.steps.iter().filter(|s| s.client == c && s.op < REFUSE).cloned().collect() };
    let index = |c: u8, s: u32| spec.steps[..s as usize].iter().filter(|x| x.client == c && x.op < REFUSE).count();
    let pa = own(a);
    let ia = index(a, sa);
    let others: Vec<(u8, u32)> = at.iter().copied().filter(|x| x.0 != a && foot.iter().any(|f| (f.0, f.1) == *x && wa.contains(&f.2))).collect();
    let mut cfg = spec.cfg.clone();
    cfg[4] = 1;
    let (b, pb, ib) = if !others.is_empty() && r.chance(2, 3) {
        let (b, sb) = *r.pick(&others);
        (b, own(b), index(b, sb))
    } else {
        // a second client with the same program
        let b = (0..4u8).find(|&b| b != a).unwrap();
        while cfg.len() <= 8 + b as usize { cfg.push(0); }
        cfg[8 + b as usize] = cfg[8 + a as usize];
        let vary = r.chance(1, 2);
        let p = pa.iter().enumerate().map(|(i, s)| {
            let mut s = s.clone();
            s.client = b;
            if vary && i != ia && r.chance(1, 4) { for x in s.a.iter_mut() { if r.chance(1, 2) { *x = r.u32(); } } }
            s
        }).collect();
        (b, p, ia)
    };
    let mut steps: Vec<Step> = vec![];
    let nb = (1 + r.below(3)).min(pb.len() - ib);
    if r.chance(1, 2) { steps.extend(pa[..ia].iter().cloned()); steps.extend(pb[..ib].iter().cloned()); } else { steps.extend(pb[..ib].iter().cloned()); steps.extend(pa[..ia].iter().cloned()); }
    let n = if r.chance(1, 2) { 1 + r.below(3) } else { 1 + r.below(20) };
    // 0: just before the write; d: d instructions from there
    let delay = |r: &mut Rng| match r.below(4) { 0 | 1 => 0, 2 => 2, _ => r.below(300) } as u32;
    // the other client may stop half-way too, and the first then finish before it
    let nested = r.chance(1, 2);
    steps.push(Step { client: a, op: world_d::PREEMPT, a: vec![5, n as u32, if nested { 1 } else { nb as u32 }, delay(r)] });
    steps.push(pa[ia].clone());
    if nested { steps.push(Step { client: b, op: world_d::PREEMPT, a: vec![5, 1 + r.below(4) as u32, r.below(3) as u32, delay(r)] }); }
    steps.extend(pb[ib..ib + nb].iter().cloned());
    steps.extend(pa[ia + 1..].iter().cloned());
    steps.extend(pb[ib + nb..].iter().cloned());
    Some(Spec { cfg, steps, ..spec.clone() })
}

fn exec_c07(spec: &Spec) -> Exec {
    let h = spec.heap;
    let variants = [
        HeapCfg { place: 0, fill: h.fill, ..h },
        HeapCfg { place: 1, fill: (h.fill + 1 + (h.seed % 5) as u8) % 6, align: 1 - h.align, realloc: 1 - h.realloc, seed: h.seed ^ 0x5555 },
        HeapCfg { place: 0, fill: (h.fill + 3) % 6, align: 1 - h.align, realloc: h.realloc, seed: h.seed.wrapping_mul(31) ^ 77 },
    ];
    let mut first: Option<ChildOut> = None;
    let mut out = Exec::default();
    for (k, v) in variants.iter().enumerate() {
        let c = child(spec, *v, false, false);
        if c.harness_error.is_some() { return attribute("C07", c); }
        out.children += 1;
        if k > 0 { ct(Ct::HVar); }
        match &first {
            None => first = Some(c),
            Some(f) => {
                let n = f.dig.len().max(c.dig.len());
                let diff = (0..n).find(|&i| f.dig.get(i) != c.dig.get(i));
                let ended = f.vio.as_ref().map(|v| v.kind.clone()) != c.vio.as_ref().map(|v| v.kind.clone());
                if diff.is_some() || ended {
                    let (fe, ce) = (f.vio.as_ref().map(|v| v.msg.clone()), c.vio.as_ref().map(|v| v.msg.clone()));
                    out.vio = Some(Vio { kind: "heapdep".into(), msg: format!("observation {:?} differs between heap personality {:?} and {:?} (last op: {}); endings {:?} / {:?}", diff, variants[0], v, c.opname, fe, ce) });
                    out.step = c.step;
                    out.opname = c.opname;
                    return out;
                }
            }
        }
    }
    let f = first.unwrap();
    let mut e = attribute("C07", f);
    e.children = out.children;
    e
}

/// (rule, real components, stubbed components, measure of distinct states)
pub fn describe(prop: &str) -> (&'static str, &'static str, &'static str, &'static str) {
    const REAL: &str = "all of redstone-ml compiled from /repo's working tree (arrays, tensors, views, iterators, kernels, autograd, random constructors, formatting), std, and the rand/rand_distr sampling code";
    let rule = match prop {
        "C01" | "C02" | "C03" => "One evaluation is one run: a seeded history of 12 to 70 steps by up to three clients sharing tensors (leaf, toggle, arithmetic, products, views, consuming calls, drops, conversions, backward with and without a gradient, resets, gradient handles). Values are small integers, so the reference tape computes every value and gradient exactly. A run is distinct and non-trivial when the sequence of observations it produced (every value, gradient and flag of every live handle after every step) is one no other run of this batch produced.",
        "C07" => "One evaluation is one history executed under three heap personalities (fill pattern, placement, reuse, alignment, moving realloc); full-range values, not only exact ones. Distinct and non-trivial: the history's observation trace differs from that of every other history of the batch.",
        "C08" => "One evaluation is two or three client programs on threads of their own, run once alone each and once under a seeded schedule that switches between steps and preempts inside steps (n-th allocation, n-th random draw, n-th machine instruction, n-th instruction after entering a chosen library function, n-th change of a chosen static word). Solo runs record which words of static memory a call changes; where there are any, follow-up schedules aim preemptions at them. Distinct and non-trivial: schedule and observations together differ from every other run of the batch.",
        "C09" => "One evaluation is a run of eight random-constructor calls (all constructors, element types, shapes and extreme bounds) fed by an adversarial entropy profile. Distinct and non-trivial: the produced elements differ from every other run of the batch.",
        "C10" => "One evaluation is one sample of 3,000 to 400,000 draws over one or several calls, tested for marginal distribution, tails, ends of the range, serial and mirrored correlation, repeated calls and independence of streams and threads, with a threshold of 8.5 standard deviations. Distinct and non-trivial: the sample differs from every other sample of the batch.",
        "C12" => "One evaluation is one history with failing formatter sinks (an error after n bytes or n writes) and a standard error that is closed, full, read-only or a broken pipe from some step on; a deviation is compared with the same history under a working standard error. Distinct and non-trivial: the observation trace differs from every other run of the batch.",
        "C21" => "One evaluation is one history in which the n-th allocation after a chosen step is refused. Distinct and non-trivial: the observation trace and the step and call at which the run ended differ from every other run of the batch.",
        _ => "One evaluation is one run: a seeded history of 12 to 70 steps by up to three clients sharing arrays of up to three element types (create, view, consume, drop, every kind of write and read, cursors, invalid calls, traps). The model is a flat storage per array plus the explicit list of positions each handle denotes; every live handle is compared with it after every step. Distinct and non-trivial: the sequence of observations is one no other run of this batch produced.",
    };
    let stub = match prop {
        "C09" | "C10" => "the entropy source behind rand::thread_rng and getrandom (patched crates) delivers the simulator's word stream; the allocator is the simulated heap (C09) or the system's (C10)",
        "C12" => "the allocator is the simulated heap; formatter sinks and file descriptor 2 are the simulator's",
        "C08" => "the allocator is the simulated heap, the entropy source is scripted per thread, the operating system's choice of which thread runs is replaced by the schedule (real threads, one released at a time), and clocks, sleeps, futex waits and kernel random bytes are answered by the simulator",
        _ => "the allocator is the simulated heap (ledger, canaries, poison, guard pages); the entropy source is scripted",
    };
    let measure = match prop {
        "C08" => "hash buckets (2^23) of: machine instruction at which a preemption fired, call and operation suspended, plus the operand-layout signatures below",
        "C09" | "C10" => "hash buckets (2^23) of (element type, constructor, shape, bounds)",
        _ => "hash buckets (2^23) of (operation, element type, shapes, strides and flags of the operands, alias structure) at the moment of each call",
    };
    (rule, REAL, stub, measure)
}
