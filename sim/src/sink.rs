//! Simulated output channels: sinks that fail at a chosen point, and the process's standard
//! error in its failing states.
use crate::core::*;
use crate::rng::Rng;
use std::fmt;

#[derive(Clone, Copy, Debug)]
enum Plan {
    Never,
    /// accepts this many bytes (the last write may be torn), then fails for ever
    Bytes(usize),
    /// the n-th write call fails, and all later ones
    Calls(usize),
    /// only the n-th write call fails; later ones are accepted
    Once(usize),
    /// accepts this many bytes, rejects the write that exceeds them as a whole
    Whole(usize),
    /// the n-th write call panics
    Panics(usize),
}

struct Sink { plan: Plan, out: String, calls: usize, failed: bool, after: usize }

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        outside(|| {
            self.calls += 1;
            if self.failed {
                return match self.plan { Plan::Once(_) => { self.after += s.len(); Ok(()) } _ => Err(fmt::Error) };
            }
            let ok = match self.plan {
                Plan::Never => true,
                Plan::Bytes(n) => {
                    if self.out.len() + s.len() > n {
                        let mut k = n - self.out.len();
                        while !s.is_char_boundary(k) { k -= 1; }
                        self.out.push_str(&s[..k]);
                        self.failed = true;
                        return Err(fmt::Error);
                    }
                    true
                }
                Plan::Whole(n) => self.out.len() + s.len() <= n,
                Plan::Calls(n) | Plan::Once(n) => self.calls <= n,
                Plan::Panics(n) => { if self.calls > n { self.failed = true; panic!("the destination panics"); } true }
            };
            if ok { self.out.push_str(s); Ok(()) } else { self.failed = true; Err(fmt::Error) }
        })
    }
}

/// Prints completely, into a failing sink, and completely again.
pub fn probe(name: &str, r: &mut Rng, f: &dyn Fn(&mut dyn fmt::Write) -> Result<fmt::Result, Panicked>) -> R {
    let run = |plan: Plan| -> Result<(Sink, fmt::Result), Vio> {
        let mut s = Sink { plan, out: String::new(), calls: 0, failed: false, after: 0 };
        match f(&mut s) {
            Ok(x) => Ok((s, x)),
            Err(_) => vio("sink", format!("{name}: printing into a sink with plan {plan:?} panicked: {}", last_panic())),
        }
    };
    let (full, x) = run(Plan::Never)?;
    ct(Ct::SinkFull);
    if x.is_err() { return vio("sink", format!("{name}: printing into a working sink reports an error")); }
    let (n, c) = (full.out.len(), full.calls);
    for _ in 0..3 {
        let plan = match r.below(8) {
            0 => Plan::Calls(0),
            1 => Plan::Calls(r.below(c + 1)),
            2 => Plan::Once(r.below(c + 1)),
            3 => Plan::Once(c.saturating_sub(1 + r.below(3))),
            4 => Plan::Whole(r.below(n + 1)),
            5 => Plan::Bytes(n.saturating_sub(1 + r.below(3))),
            6 => Plan::Calls(c.saturating_sub(1 + r.below(3))),
            _ => Plan::Bytes(r.below(n + 1)),
        };
        if r.chance(1, 6) {
            let mut s = Sink { plan: Plan::Panics(r.below(c)), out: String::new(), calls: 0, failed: false, after: 0 };
            if f(&mut s).is_ok() { return vio("sink", format!("{name}: the destination panicked but the call returned")); }
            ct(Ct::SinkFail);
            if !full.out.starts_with(&s.out) { return vio("sink", format!("{name}: text written before the destination panicked is not a prefix: {:.120?} of {:.120?}", s.out, full.out)); }
            continue;
        }
        let (s, x) = run(plan)?;
        if s.failed { ct(Ct::SinkFail); }
        if !full.out.starts_with(&s.out) { return vio("sink", format!("{name}: text written before the failure is not a prefix: {:.120?} of {:.120?} ({plan:?})", s.out, full.out)); }
        if s.failed && x.is_ok() { return vio("sink", format!("{name}: the sink failed ({plan:?}) but the call reports success")); }
        if s.failed && s.after > 0 { return vio("sink", format!("{name}: {} bytes were written after the sink had reported an error ({plan:?})", s.after)); }
        if !s.failed && (x.is_err() || s.out != full.out) { return vio("sink", format!("{name}: the sink did not fail ({plan:?}) but the text is incomplete or an error is reported")); }
        digest(crate::rng::hash2(s.out.len() as u64, s.failed as u64));
    }
    let (again, x) = run(Plan::Never)?;
    if x.is_err() || again.out != full.out { return vio("sink", format!("{name}: after a failed print the text is {:.120?}, before it was {:.120?}", again.out, full.out)); }
    Ok(())
}

/// Formats one value in the ways callers do.
pub fn show<D: fmt::Debug>(k: u8, w: &mut dyn fmt::Write, d: &D) -> fmt::Result {
    match k % 7 {
        1 => write!(w, "{d:#?}"),
        2 => write!(w, "{d:.1?}"),
        3 => write!(w, "{:?}", Some(d)),
        4 => write!(w, "{:?}", (1u8, d, d)),
        5 => write!(w, "a = {d:9?};"),
        6 => write!(w, "{:?}", [d, d]),
        _ => write!(w, "{d:?}"),
    }
}

/// Puts the process's standard error and standard output into a state: 0 discards, 1 closed, 2 full device,
/// 3 broken pipe, 4 opened read-only, 5 full non-blocking pipe
pub fn stderr_state(k: u32) {
    unsafe {
        match k {
            1 => { libc::close(2); ct(Ct::ErrClosed); }
            2 | 4 | 0 => {
                let (p, fl) = match k { 2 => (c"/dev/full", libc::O_WRONLY), 4 => (c"/dev/null", libc::O_RDONLY), _ => (c"/dev/null", libc::O_WRONLY) };
                let fd = libc::open(p.as_ptr(), fl);
                if fd >= 0 && fd != 2 { libc::dup2(fd, 2); libc::close(fd); }
                match k { 2 => ct(Ct::ErrFull), 4 => ct(Ct::ErrClosed), _ => {} }
            }
            3 | 5 => {
                let mut p = [0i32; 2];
                // keep the new descriptors away from 2
                libc::fcntl(1, libc::F_DUPFD, 3);
                if libc::pipe(p.as_mut_ptr()) != 0 { return; }
                if k == 5 { libc::fcntl(p[1], libc::F_SETFL, libc::O_NONBLOCK); let b = [0u8; 4096]; while libc::write(p[1], b.as_ptr() as *const _, 4096) > 0 {} while libc::write(p[1], b.as_ptr() as *const _, 1) > 0 {} }
                let (rd, wr) = (libc::fcntl(p[0], libc::F_DUPFD, 10), libc::fcntl(p[1], libc::F_DUPFD, 10));
                libc::close(p[0]);
                libc::close(p[1]);
                libc::dup2(wr, 2);
                libc::close(wr);
                if k == 3 { libc::close(rd); }
                libc::signal(libc::SIGPIPE, libc::SIG_IGN);
                ct(Ct::ErrPipe);
            }
            _ => {}
        }
        if k == 1 { libc::close(1); } else { libc::dup2(2, 1); }
    }
}
