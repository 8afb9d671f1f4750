//! Supervisor: fans the runs of one property out over forked workers, minimises the first
//! failure, writes the replay file and the evidence.
use crate::core::*;
use crate::props::{self, Exec};
use crate::rng::hash2;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

const TBITS: usize = 1 << 24;

#[repr(C)]
struct Wout {
    runs: u64,
    children: u64,
    fail_idx: u64,
    foreign: u64,
    harness: u32,
    harness_msg: [u8; 400],
    foreign_msg: [u8; 400],
    digest: u64,
    timed_out: u32,
    min_steps: u64,
    repeats: u64,
    differed: u64,
    samples: [[u8; 1600]; 3],
    traces: [u8; TBITS / 8],
}

fn map<T>() -> &'static mut T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut T)
    }
}
fn put(d: &mut [u8], s: &str) {
    let n = s.len().min(d.len() - 1);
    d[..n].copy_from_slice(&s.as_bytes()[..n]);
    d[n] = 0;
}
fn get(s: &[u8]) -> String {
    let n = s.iter().position(|&b| b == 0).unwrap_or(s.len());
    String::from_utf8_lossy(&s[..n]).into_owned()
}

struct Tot {
    runs: u64, children: u64, foreign: u64, foreign_msg: String, harness: Option<String>, digest: u64, timed_out: bool,
    traces: u64, states: u64, ct: Vec<u64>, samples: Vec<String>, fail: Option<u64>,
    repeats: u64, differed: u64,
}

fn explore(prop: &str, seed: u64, first: u64, n: u64, workers: u64, deadline_s: f64, stop_on_fail: bool) -> Tot {
    let stop: &'static mut AtomicU64 = map();
    stop.store(u64::MAX, Ordering::SeqCst);
    let t0 = Instant::now();
    let mut ws: Vec<(&'static mut Wout, &'static mut Shm, i32)> = vec![];
    for w in 0..workers {
        let o: &'static mut Wout = map();
        o.fail_idx = u64::MAX;
        let s: &'static mut Shm = map();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            set_shm(s as *mut Shm);
            worker(prop, seed, first, n, w, workers, deadline_s, t0, o, stop, stop_on_fail);
            unsafe { libc::_exit(0) };
        }
        ws.push((o, s, pid));
    }
    let mut t = Tot { runs: 0, children: 0, foreign: 0, foreign_msg: String::new(), harness: None, digest: 0, timed_out: false, traces: 0, states: 0,
                      ct: vec![0; Ct::COUNT as usize], samples: vec![], fail: None, repeats: 0, differed: 0 };
    for (_, _, pid) in &ws {
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(*pid, &mut st, 0) };
            if r == *pid || (r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR)) { break; }
        }
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) { t.harness = Some(format!("worker ended with status {st:#x}")); }
    }
    let mut tb = vec![0u8; TBITS / 8];
    let mut sb = vec![0u8; BITMAP_BITS / 8];
    for (o, s, _) in &ws {
        t.runs += o.runs;
        t.children += o.children;
        t.foreign += o.foreign;
        t.repeats += o.repeats;
        t.differed += o.differed;
        t.digest ^= o.digest;
        t.timed_out |= o.timed_out != 0;
        if o.harness != 0 && t.harness.is_none() { t.harness = Some(get(&o.harness_msg)); }
        if t.foreign_msg.is_empty() { t.foreign_msg = get(&o.foreign_msg); }
        if o.fail_idx != u64::MAX { t.fail = Some(t.fail.map_or(o.fail_idx, |f| f.min(o.fail_idx))); }
        for i in 0..tb.len() { tb[i] |= o.traces[i]; }
        for i in 0..sb.len() { sb[i] |= s.bitmap[i]; }
        for i in 0..t.ct.len() { t.ct[i] += s.ct[i]; }
        for x in &o.samples { let x = get(x); if !x.is_empty() { t.samples.push(x); } }
    }
    t.traces = tb.iter().map(|b| b.count_ones() as u64).sum();
    t.states = sb.iter().map(|b| b.count_ones() as u64).sum();
    t
}

#[allow(clippy::too_many_arguments)]
fn worker(prop: &str, seed: u64, first: u64, n: u64, w: u64, workers: u64, deadline_s: f64, t0: Instant, o: &mut Wout, stop: &AtomicU64, stop_on_fail: bool) {
    let mut idx = w;
    let mut ns = 0;
    while idx < n {
        if idx > stop.load(Ordering::SeqCst) { break; }
        if t0.elapsed().as_secs_f64() > deadline_s { o.timed_out = 1; break; }
        let spec = props::generate(prop, seed, first + idx);
        shm().want_sample = (w == 0 && ns < 3) as u32;
        let e = props::execute(&spec);
        o.runs += 1;
        o.children += e.children as u64;
        let th = hash2(e.trace, hash2(e.step as u64, e.vio.is_some() as u64));
        o.digest ^= hash2(th, idx);
        let b = (crate::rng::mix(e.trace) as usize) & (TBITS - 1);
        o.traces[b >> 3] |= 1 << (b & 7);
        if let Some(h) = e.harness {
            o.harness = 1;
            put(&mut o.harness_msg, &format!("run {}: {h}", first + idx));
            break;
        }
        if let Some(f) = e.foreign {
            o.foreign += 1;
            ct(Ct::Foreign);
            if o.foreign == 1 { put(&mut o.foreign_msg, &format!("run {}: {}: {}", first + idx, f.kind, f.msg)); }
        }
        if idx % 256 == 5 {
            // the same seed once more: every observation has to be the same
            shm().want_sample = 0;
            let f = props::execute(&spec);
            o.children += f.children as u64;
            o.repeats += 1;
            if (f.trace, f.step, f.vio.is_some()) != (e.trace, e.step, e.vio.is_some()) { o.differed += 1; }
        }
        if e.vio.is_some() {
            o.fail_idx = o.fail_idx.min(idx);
            if stop_on_fail {
                stop.fetch_min(idx, Ordering::SeqCst);
                break;
            }
        }
        if w == 0 && ns < 3 {
            let s = take_sample();
            if !s.is_empty() { put(&mut o.samples[ns], &format!("run {}: {s}", first + idx)); ns += 1; }
        }
        idx += workers;
    }
}

// ---- minimisation -------------------------------------------------------------------------

fn still(spec: &Spec, budget: &mut i64, t0: &Instant) -> Option<Exec> {
    if *budget <= 0 || t0.elapsed().as_secs_f64() > 60.0 { return None; }
    *budget -= 1;
    let e = props::execute(spec);
    if e.vio.is_some() { Some(e) } else { None }
}

fn minimise(spec: &Spec, e0: Exec) -> (Spec, Exec) {
    let t0 = Instant::now();
    let mut budget = 4000i64;
    let mut cur = spec.clone();
    let mut best = e0;
    // nothing after the failing step matters unless the failure came at the end
    if (best.step as usize) + 1 < cur.steps.len() {
        let mut c = cur.clone();
        c.steps.truncate(best.step as usize + 1);
        if let Some(e) = still(&c, &mut budget, &t0) { cur = c; best = e; }
    }
    loop {
        let before = cur.steps.len();
        let mut chunk = (cur.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.steps.len() {
                let mut c = cur.clone();
                let j = (i + chunk).min(c.steps.len());
                c.steps.drain(i..j);
                if let Some(e) = still(&c, &mut budget, &t0) { cur = c; best = e; } else { i += chunk; }
            }
            if chunk == 1 { break; }
            chunk /= 2;
        }
        if cur.steps.len() == before || budget <= 0 { break; }
    }
    // simplest heap
    let mut c = cur.clone();
    c.heap = crate::heap::HeapCfg::plain();
    if let Some(e) = still(&c, &mut budget, &t0) { cur = c; best = e; }
    // zero / shrink arguments
    for i in 0..cur.steps.len() {
        for k in 0..cur.steps[i].a.len() {
            for v in [0u32, 1, 2] {
                if cur.steps[i].a[k] <= v { break; }
                let mut c = cur.clone();
                c.steps[i].a[k] = v;
                if let Some(e) = still(&c, &mut budget, &t0) { cur = c; best = e; break; }
            }
        }
    }
    (cur, best)
}

// ---- evidence -----------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn evidence(path: &str, prop: &str, tier: &str, seed: u64, t: &Tot, wall: f64, violations: u64, finding: &str) {
    let mut faults = String::new();
    let mut probes = String::new();
    let mut ops = String::new();
    for (i, n) in CT_NAMES.iter().enumerate() {
        if t.ct[i] == 0 { continue; }
        let (d, name) = if let Some(x) = n.strip_prefix("fault_") { (&mut faults, x) } else if let Some(x) = n.strip_prefix("probe_") { (&mut probes, x) } else { (&mut ops, *n) };
        if !d.is_empty() { *d += ", "; }
        *d += &format!("{}: {}", js(name), t.ct[i]);
    }
    let (rule, real, stub, measure) = props::describe(prop);
    let samples: Vec<String> = t.samples.iter().map(|s| js(s)).collect();
    let rate = t.runs as f64 / wall * 3600.0;
    let j = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"executions_including_reruns\": {},\n  \"runs_executed_twice_from_the_same_seed\": {},\n  \"of_those_not_identical\": {},\n  \"simulated_runs_per_hour\": {:.0},\n  \"simulated_time\": {},\n  \"distinct_states_reached\": {},\n  \"distinct_states_measure\": {},\n  \"faults_injected\": {{{}}},\n  \"operations\": {{{}}},\n  \"probes\": {{{}}},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"runs_digest\": \"{:016x}\",\n  \"stopped_by_time_cap\": {},\n  \"runs_ended_early_by_another_propertys_oracle\": {},\n  \"first_such_run\": {},\n  \"exhaustive\": false\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}{}\n}}\n",
        js(prop), js(tier), seed, t.runs, t.traces, js(rule), samples.join(", "), t.children, t.repeats, t.differed, rate,
        js(&format!("the library has no clock; simulated time is the step counter: {} steps executed", t.ct[Ct::Steps as usize])),
        t.states, js(measure), faults, ops, probes, js(real), js(stub), t.digest, t.timed_out, t.foreign, js(&t.foreign_msg),
        ["x86-64 Linux, the portable back ends the default build selects, debug assertions on", "one seed is one execution; coverage is a sample of the run space, not an enumeration"].map(js).join(", "),
        wall, violations, if finding.is_empty() { String::new() } else { format!(",\n \"finding\": {}", js(finding)) });
    if let Some(d) = std::path::Path::new(path).parent() { let _ = std::fs::create_dir_all(d); }
    if let Err(e) = std::fs::write(path, j) { eprintln!("sim: cannot write {path}: {e}"); }
}

fn replay_text(spec: &Spec, e: &Exec) -> String {
    let v = e.vio.as_ref().unwrap();
    let mut s = spec.to_text();
    s += &format!("# violation kind: {}\n# {}\n# at step {} ({})\n", v.kind, v.msg.replace('\n', " "), e.step, e.opname);
    s
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    crate::heap::reserve();
    init_shm();
    install_panic_hook();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let seed = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(seed);
    let tier = arg(&a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let workers: u64 = arg(&a, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8).clamp(1, 16));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            if !props::CLAIMED.contains(&prop.as_str()) { eprintln!("unknown property {prop}"); return 2; }
            let n = arg(&a, "--runs").and_then(|s| s.parse().ok()).unwrap_or_else(|| props::runs(&prop, tier == "thorough"));
            let cap = arg(&a, "--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 5400.0 } else { 400.0 });
            let ev = arg(&a, "--evidence").unwrap_or(format!("evidence/{prop}.json"));
            let rd = arg(&a, "--replays").unwrap_or("replays".into());
            let t0 = Instant::now();
            let mut first: u64 = arg(&a, "--first").and_then(|s| s.parse().ok()).unwrap_or(0);
            let end = first + n;
            let mut lost = None;
            let (t, found) = loop {
                let mut t = explore(&prop, seed, first, end - first, workers, cap - t0.elapsed().as_secs_f64(), true);
                let Some(k) = t.fail else { break (t, None) };
                if t.harness.is_some() { break (t, None); }
                let f = first + k;
                let mut spec = props::generate(&prop, seed, f);
                let e = (0..4).map(|_| props::execute(&spec)).find(|e| e.vio.is_some());
                if let Some(mut e) = e {
                    if let Some(s) = e.spec.take() { spec = *s; }
                    break (t, Some((f, spec, e)));
                }
                // a failure that does not repeat proves nothing: go on behind it
                lost.get_or_insert(f);
                first = f + 1;
                if first >= end || t0.elapsed().as_secs_f64() > cap { t.fail = None; break (t, None); }
            };
            let mut t = t;
            if let (Some(f), None, None) = (lost, &found, &t.harness) { t.harness = Some(format!("run {f} failed in the worker and not when repeated")); }
            if let Some(h) = &t.harness {
                evidence(&ev, &prop, tier, seed, &t, t0.elapsed().as_secs_f64(), 0, h);
                println!("HARNESS-ERROR property={prop} {h}");
                return 3;
            }
            if let Some((f, spec, e0)) = found {
                let (ms, me) = minimise(&spec, e0);
                let _ = std::fs::create_dir_all(&rd);
                let path = format!("{rd}/{prop}-{seed}-{f}.replay");
                let _ = std::fs::write(&path, replay_text(&ms, &me));
                let v = me.vio.as_ref().unwrap();
                evidence(&ev, &prop, tier, seed, &t, t0.elapsed().as_secs_f64(), 1, &format!("{}: {}", v.kind, v.msg));
                println!("run {f} of seed {seed}: {}: {} (minimised to {} step(s))", v.kind, v.msg, ms.steps.len());
                println!("VIOLATION property={prop} replay={path}");
                return 1;
            }
            evidence(&ev, &prop, tier, seed, &t, t0.elapsed().as_secs_f64(), 0, "");
            println!("OK property={prop} runs={} distinct_traces={} states={} foreign={} digest={:016x} wall={:.1}s", t.runs, t.traces, t.states, t.foreign, t.digest, t0.elapsed().as_secs_f64());
            if !t.foreign_msg.is_empty() { println!("note: first run ended by another property's oracle: {}", t.foreign_msg); }
            0
        }
        Some("replay") => {
            let t = match std::fs::read_to_string(&a[2]) { Ok(t) => t, Err(e) => { eprintln!("{e}"); return 2; } };
            let spec = match Spec::from_text(&t) { Some(s) => s, None => { eprintln!("bad replay file"); return 2; } };
            let e = props::execute(&spec);
            if let Some(h) = e.harness { println!("HARNESS-ERROR {h}"); return 3; }
            match (e.vio, e.foreign) {
                (Some(v), _) => { println!("{}: {}\nat step {} ({})", v.kind, v.msg, e.step, e.opname); println!("VIOLATION property={} replay={}", spec.prop, a[2]); 1 }
                (None, Some(v)) => { println!("ended by another property's oracle: {}: {}", v.kind, v.msg); 0 }
                _ => { println!("no violation; trace {:016x}", e.trace); 0 }
            }
        }
        // survey: every distinct failure signature over n runs (development aid)
        Some("survey") => {
            let prop = a[2].clone();
            let n: u64 = a[3].parse().unwrap();
            let first: u64 = arg(&a, "--first").and_then(|s| s.parse().ok()).unwrap_or(0);
            let all = a.iter().any(|x| x == "--all");
            let mut seen: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            for i in first..first + n {
                let spec = props::generate(&prop, seed, i);
                let e = props::execute(&spec);
                if let Some(h) = e.harness { println!("run {i} HARNESS {h}"); continue; }
                let v = if all { e.vio.or(e.foreign) } else { e.vio };
                if let Some(v) = v {
                    let sig: String = format!("{} {}", v.kind, v.msg).chars().filter(|c| !c.is_ascii_digit()).take(56).collect();
                    let en = seen.entry(sig).or_insert((0, i, format!("{}: {}", v.kind, v.msg)));
                    en.0 += 1;
                }
            }
            let mut v: Vec<_> = seen.into_values().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.0));
            for (c, i, m) in v { println!("{c:6} run {i}: {}", m.chars().take(330).collect::<String>()); }
            0
        }
        // timing: mean run time by world and heap placement (development aid)
        Some("timing") => {
            let n: u64 = a[3].parse().unwrap();
            let mut m: std::collections::BTreeMap<(char, u8), (u64, f64, u64)> = Default::default();
            for i in 0..n {
                let spec = props::generate(&a[2], seed, i);
                let t0 = Instant::now();
                let a0 = shm().ct[Ct::HAlloc as usize];
                props::execute(&spec);
                let e = m.entry((spec.world, spec.heap.place)).or_insert((0, 0.0, 0));
                e.0 += 1;
                e.1 += t0.elapsed().as_secs_f64();
                e.2 += shm().ct[Ct::HAlloc as usize] - a0;
            }
            for (k, v) in m { println!("{k:?}: {} runs, {:.2} ms/run, {} allocs/run", v.0, v.1 / v.0 as f64 * 1e3, v.2 / v.0); }
            0
        }
        Some("min") => {
            let spec = props::generate(&a[2], seed, a[3].parse().unwrap());
            if a.iter().any(|x| x == "--all") { props::OWN_ALL.store(true, Ordering::SeqCst); }
            let e = props::execute(&spec);
            if e.vio.is_none() { println!("no violation"); return 0; }
            let (s, e) = minimise(&spec, e);
            println!("{}", replay_text(&s, &e));
            0
        }
        _ => {
            eprintln!("usage: sim check <property> [--tier quick|thorough] | replay <file>");
            2
        }
    }
}
