//! World C: random constructors under a simulated entropy source.
//! C09 drives them with adversarial sources (extreme, stuck, biased stretches) and checks every
//! element; C10 drives them with an unbiased source and tests freshness and distribution.
use crate::core::*;
use crate::ent;
use crate::rng::{hash2, Args, Rng};
use redstone_ml::*;

pub const NTYPES: usize = 16;
pub const TNAMES: [&str; NTYPES] = ["f32", "f64", "Tensor f32", "Tensor f64", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"];

pub trait RT: Copy + PartialOrd + std::fmt::Debug + Send + 'static {
    fn whole(self) -> bool;
    fn finite(self) -> bool;
    fn bits(self) -> u128;
    fn d(self) -> f64;
    fn minus(self, lo: Self) -> f64;
    fn ceil_(self) -> Self;
    /// bounds with low < high and at least one whole number in between
    fn bounds(r: &mut Rng) -> (Self, Self);
    /// (low, high) with k equally likely values, k small
    fn narrow(r: &mut Rng, k: usize) -> (Self, Self);
    fn randint(tensor: bool, shape: &[usize], lo: Self, hi: Self) -> (Vec<Self>, Vec<usize>);
    fn floats(tensor: bool, op: usize, shape: &[usize], lo: Self, hi: Self) -> (Vec<Self>, Vec<usize>);
    fn fbounds(r: &mut Rng) -> (Self, Self);
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl RT for $t {
            fn whole(self) -> bool { true }
            fn finite(self) -> bool { true }
            fn bits(self) -> u128 { self as u128 }
            fn d(self) -> f64 { self as f64 }
            fn minus(self, lo: Self) -> f64 { if self >= lo { self.abs_diff(lo) as f64 } else { -1.0 } }
            fn ceil_(self) -> Self { self }
            fn bounds(r: &mut Rng) -> (Self, Self) {
                let w = (r.next() as u128) << 64 | r.next() as u128;
                let any = |r: &mut Rng| { let w = (r.next() as u128) << 64 | r.next() as u128; (w >> r.below(128)) as $t };
                match r.below(12) {
                    0 => (<$t>::MIN, <$t>::MAX),
                    1 => (<$t>::MAX - 1, <$t>::MAX),
                    2 => (<$t>::MIN, <$t>::MIN + 1),
                    3 => (<$t>::MAX - 2 - (w % 20) as $t, <$t>::MAX - 1),
                    4 => (<$t>::MIN, <$t>::MIN + 2 + (w % 20) as $t),
                    5 => (0, 1 + (w % 4) as $t),
                    6 => (0, 1 + (w % 100) as $t),
                    // negative (for signed types) to positive
                    7 => { let l = (0 as $t).wrapping_sub((w % 50) as $t); if l < 60 { (l, 60 + (w % 7) as $t) } else { (0, 60) } }
                    // a short range far from zero
                    8 => { let l = <$t>::MAX / 2 + 1; (l, l + 1 + (w % 9) as $t) }
                    9 => { let l = <$t>::MAX / 4 * 3; (l, l + 1 + (w % 30) as $t) }
                    _ => { let (a, b) = (any(r), any(r)); if a < b { (a, b) } else if b < a { (b, a) } else { (3, 7) } }
                }
            }
            fn narrow(r: &mut Rng, k: usize) -> (Self, Self) {
                let k = k.min(100) as $t;
                match r.below(5) {
                    0 => (0, k),
                    1 => (<$t>::MAX - k, <$t>::MAX),
                    2 => (<$t>::MIN, <$t>::MIN + k),
                    3 => (<$t>::MAX / 2 - 50, <$t>::MAX / 2 - 50 + k),
                    _ => { let l = if <$t>::MIN == 0 { 1 } else { (0 as $t).wrapping_sub(k / 2) }; (l, l + k) }
                }
            }
            fn randint(_: bool, shape: &[usize], lo: Self, hi: Self) -> (Vec<Self>, Vec<usize>) {
                let a = NdArray::<$t>::randint(shape, lo, hi);
                (a.flatiter().collect(), a.shape().to_vec())
            }
            fn floats(_: bool, _: usize, _: &[usize], _: Self, _: Self) -> (Vec<Self>, Vec<usize>) { unreachable!() }
            fn fbounds(_: &mut Rng) -> (Self, Self) { (0, 1) }
        }
    )*};
}
ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128);

macro_rules! floats {
    ($($t:ty),*) => {$(
        impl RT for $t {
            fn whole(self) -> bool { self.fract() == 0.0 }
            fn finite(self) -> bool { self.is_finite() }
            fn bits(self) -> u128 { self.to_bits() as u128 }
            fn d(self) -> f64 { self as f64 }
            fn minus(self, lo: Self) -> f64 { self as f64 - lo as f64 }
            fn ceil_(self) -> Self { self.ceil() }
            fn bounds(r: &mut Rng) -> (Self, Self) {
                match r.below(11) {
                    0 => (0.0, 1.0),
                    1 => (0.0, 1.0 + r.below(100) as $t),
                    2 => (-5.0, 3.0),
                    3 => (-(r.below(50) as $t), 1.0 + r.below(50) as $t),
                    4 => (0.5, 2.5),
                    5 => (-0.5, 0.5),
                    6 => (-2.75, -0.25),
                    7 => (0.0, 1e9),
                    8 => (-1e7, 1e7),
                    9 => (8388600.0, 8388607.0),
                    _ => { let l = -(r.below(1000) as $t); (l, l + 1.0 + r.below(5) as $t) }
                }
            }
            fn narrow(r: &mut Rng, k: usize) -> (Self, Self) {
                match r.below(4) { 0 => (0.0, k as $t), 1 => (-(k as $t), 0.0), 2 => (-3.5, -3.5 + k as $t), _ => { let l = -(r.below(k) as $t); (l, l + k as $t) } }
            }
            fn randint(tensor: bool, shape: &[usize], lo: Self, hi: Self) -> (Vec<Self>, Vec<usize>) {
                if tensor { let a = Tensor::<$t>::randint(shape, lo, hi); (a.ndarray().flatiter().collect(), a.shape().to_vec()) }
                else { let a = NdArray::<$t>::randint(shape, lo, hi); (a.flatiter().collect(), a.shape().to_vec()) }
            }
            fn floats(tensor: bool, op: usize, shape: &[usize], lo: Self, hi: Self) -> (Vec<Self>, Vec<usize>) {
                if tensor {
                    let a: Tensor<$t> = match op { 0 => Tensor::rand(shape), 1 => Tensor::uniform(shape, lo, hi), _ => Tensor::randn(shape) };
                    (a.ndarray().flatiter().collect(), a.shape().to_vec())
                } else {
                    let a: NdArray<$t> = match op { 0 => NdArray::rand(shape), 1 => NdArray::uniform(shape, lo, hi), _ => NdArray::randn(shape) };
                    (a.flatiter().collect(), a.shape().to_vec())
                }
            }
            fn fbounds(r: &mut Rng) -> (Self, Self) {
                let x = (r.below(2000) as $t - 1000.0) / 8.0;
                match r.below(12) {
                    0 => (0.0, 1.0),
                    1 => (-5.0, 3.0),
                    2 => (1.0, 1.0 + <$t>::EPSILON),
                    3 => (-1.0 - <$t>::EPSILON, -1.0),
                    4 => (1.0, 1.0 + 3.0 * <$t>::EPSILON),
                    5 => (0.0, <$t>::MIN_POSITIVE),
                    6 => (-1e30, 1e30),
                    7 => (1e30, 2e30),
                    8 => (-1e-20, 1e-20),
                    9 => (x, x + 0.1),
                    10 => (16777216.0, 16777220.0),
                    _ => (x, x + 1.0 + r.below(100) as $t),
                }
            }
        }
    )*};
}
floats!(f32, f64);

fn gen_shape(r: &mut Rng, max: usize) -> Vec<usize> {
    loop {
        let n = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4]);
        let s: Vec<usize> = (0..n).map(|_| *r.pick(&[1usize, 2, 3, 5, 7, 8, 17, 33])).collect();
        if s.iter().product::<usize>() <= max { return s; }
    }
}

pub const OPN: [&str; 4] = ["rand", "uniform", "randn", "randint"];

// ---- C09 ---------------------------------------------------------------------------------

fn check_range<T: RT>(ty: usize, op: usize, r: &mut Rng) -> R {
    let tensor = ty == 2 || ty == 3;
    let shape = gen_shape(r, 300);
    let n: usize = shape.iter().product();
    let (lo, hi) = match op { 3 => T::bounds(r), 1 => T::fbounds(r), _ => T::fbounds(&mut Rng::new(0)) };
    let name = format!("{}::{}({shape:?}{})", TNAMES[ty], OPN[op], match op { 1 | 3 => format!(", {lo:?}, {hi:?}"), _ => String::new() });
    set_cat(Cat::Random, &name);
    ct(Ct::RandCalls);
    ent::limit(200_000 + 300 * n as u64);
    let sh = shape.clone();
    let res = lib(|| if op == 3 { T::randint(tensor, &sh, lo, hi) } else { T::floats(tensor, op, &sh, lo, hi) });
    let Ok((v, s)) = res else { return vio("range", format!("{name} panicked: {}", last_panic())) };
    if s != shape || v.len() != n { return vio("range", format!("{name} returned shape {s:?} with {} elements", v.len())); }
    ctn(Ct::RandElems, n as u64);
    let mut dg = 0;
    for (k, &x) in v.iter().enumerate() {
        let bad = match op {
            0 => { if !(x.d() >= 0.0 && x.d() < 1.0) { "outside [0, 1)" } else { "" } }
            1 => { if !(x >= lo && x < hi) { "outside [low, high)" } else { "" } }
            2 => { if !x.finite() { "not finite" } else { "" } }
            _ => { if !(x >= lo && x < hi) { "outside [low, high)" } else if !x.whole() { "not a whole number" } else { "" } }
        };
        if !bad.is_empty() { return vio("range", format!("{name}: element {k} is {x:?}, {bad}")); }
        dg = hash2(dg, x.bits() as u64);
    }
    digest(dg);
    reached(hash2(hash2(ty as u64, op as u64), hash2(shape.iter().fold(1, |a, &d| hash2(a, d as u64)), hash2(lo.bits() as u64, hi.bits() as u64))));
    let _ = lib(move || drop((v, s)));
    Ok(())
}

macro_rules! dispatch {
    ($ty:expr, $f:ident, $($a:expr),*) => {
        match $ty {
            0 | 2 => $f::<f32>($($a),*), 1 | 3 => $f::<f64>($($a),*),
            4 => $f::<u8>($($a),*), 5 => $f::<i8>($($a),*), 6 => $f::<u16>($($a),*), 7 => $f::<i16>($($a),*),
            8 => $f::<u32>($($a),*), 9 => $f::<i32>($($a),*), 10 => $f::<u64>($($a),*), 11 => $f::<i64>($($a),*),
            12 => $f::<usize>($($a),*), 13 => $f::<isize>($($a),*), 14 => $f::<u128>($($a),*), _ => $f::<i128>($($a),*),
        }
    };
}

/// step arguments: type, constructor, entropy profile, entropy seed, choices
pub fn step_range(no: u32, s: &Step) -> R {
    shm().step = no;
    let a = &mut Args::new(&s.a);
    let ty = a.below(NTYPES);
    let op = if ty >= 4 { a.raw(); 3 } else { a.below(4) };
    let mode = a.raw() % ent::NMODES;
    let es = a.raw() as u64;
    ent::set(mode, es);
    let (w0, x0) = ent::counts();
    let mut r = a.stream();
    ct(Ct::Steps);
    let res = dispatch!(ty, check_range, ty, op, &mut r);
    let (w1, x1) = ent::counts();
    ctn(Ct::EntWords, w1 - w0);
    ctn(Ct::EntExtreme, x1 - x0);
    res
}

// ---- C10 ---------------------------------------------------------------------------------

const Z: f64 = 8.5;

fn phi(x: f64) -> f64 {
    // Abramowitz-Stegun 7.1.26 is too coarse for large samples; use the complementary series
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}
fn erfc(x: f64) -> f64 {
    let z = x.abs();
    let v = if z < 2.5 {
        // Taylor series of erf
        let mut t = z;
        let mut s = z;
        for k in 1..200 {
            t *= -z * z / k as f64;
            s += t / (2 * k + 1) as f64;
            if (t / (2 * k + 1) as f64).abs() < 1e-17 { break; }
        }
        1.0 - 2.0 / std::f64::consts::PI.sqrt() * s
    } else {
        // continued fraction
        let mut f = 0.0;
        for k in (1..200).rev() { f = k as f64 / 2.0 / (z + f); }
        (-z * z).exp() / std::f64::consts::PI.sqrt() / (z + f)
    };
    if x >= 0.0 { v } else { 2.0 - v }
}

/// |count - n p| beyond any plausible fluctuation?
fn off(count: f64, n: f64, p: f64) -> bool {
    let e = n * p;
    let sd = (n * p * (1.0 - p)).sqrt();
    if e >= 60.0 && n - e >= 60.0 { (count - e).abs() > Z * sd }
    // rare events: Poisson bounds of comparable strength
    else if e < 60.0 { (count == 0.0 && e > 32.0) || count > e + 12.0 * e.sqrt() + 30.0 }
    else { count < e - 12.0 * sd - 30.0 }
}

/// the cumulative distribution as a position in [0, 1)
fn unit<T: RT>(op: usize, lo: T, hi: T, x: T) -> f64 {
    match op {
        0 => x.d(),
        1 => (x.d() - lo.d()) / (hi.d() - lo.d()),
        2 => phi(x.d()),
        _ => x.minus(lo.ceil_()) / hi.ceil_().minus(lo.ceil_()),
    }
}

struct Sampler { ty: usize, op: usize }
impl Sampler {
    fn call<T: RT>(&self, shape: &[usize], lo: T, hi: T) -> Result<Vec<T>, Vio> {
        ct(Ct::RandCalls);
        let n: usize = shape.iter().product();
        ent::limit(u64::MAX);
        let tensor = self.ty == 2 || self.ty == 3;
        match lib(|| if self.op == 3 { T::randint(tensor, shape, lo, hi) } else { T::floats(tensor, self.op, shape, lo, hi) }) {
            Err(_) => vio("range", format!("{} panicked: {}", OPN[self.op], last_panic())),
            Ok((v, s)) => if s != shape || v.len() != n { vio("range", format!("shape {s:?} instead of {shape:?}")) } else { ctn(Ct::RandElems, n as u64); Ok(v) },
        }
    }
}

fn corr(a: &[f64], b: &[f64]) -> f64 {
    let n = a.len() as f64;
    let (ma, mb) = (a.iter().sum::<f64>() / n, b.iter().sum::<f64>() / n);
    let (mut x, mut y, mut z) = (0.0, 0.0, 0.0);
    for (p, q) in a.iter().zip(b) { x += (p - ma) * (q - mb); y += (p - ma) * (p - ma); z += (q - mb) * (q - mb); }
    if y == 0.0 || z == 0.0 { return 0.0; }
    x / (y * z).sqrt() * n.sqrt()
}

/// Sixty million draws, of which only the extreme ones and the repetitions are counted.
fn long<T: RT>(sm: &Sampler, es: u64, name: &str, lo: T, hi: T) -> R {
    unsafe {
        let rl = libc::rlimit { rlim_cur: 300, rlim_max: 302 };
        libc::setrlimit(libc::RLIMIT_CPU, &rl);
        libc::alarm(800);
    }
    ct(Ct::RandLong);
    ent::set(0, es);
    let per = 500_000usize;
    let calls = 120;
    let n = (per * calls) as f64;
    let cuts: Vec<f64> = if sm.op == 2 { vec![3.5, 4.0, 4.25, 4.5, 4.75, 5.0] } else { (14..=20).map(|e| (-(e as f64)).exp2()).collect() };
    let p: Vec<f64> = cuts.iter().map(|&c| if sm.op == 2 { 1.0 - phi(c) } else { c }).collect();
    let mut c = vec![[0f64; 2]; cuts.len()];
    let mut start: Vec<u128> = vec![];
    let mut again = 0;
    for k in 0..calls {
        let v = sm.call::<T>(&[per], lo, hi)?;
        for x in &v {
            let d = x.d();
            if sm.op == 2 { if d.abs() > cuts[0] { for (i, &t) in cuts.iter().enumerate() { if d > t { c[i][1] += 1.0 } if d < -t { c[i][0] += 1.0 } } } }
            else if d < cuts[0] || d >= 1.0 - cuts[0] { for (i, &t) in cuts.iter().enumerate() { if d < t { c[i][0] += 1.0 } if d >= 1.0 - t { c[i][1] += 1.0 } } }
        }
        // does the stream of the first call come back?
        if k == 0 { start = v[..4].iter().map(|x| x.bits()).collect(); }
        again += v.windows(4).skip(if k == 0 { 4 } else { 0 }).filter(|w| w[0].bits() == start[0] && (1..4).all(|j| w[j].bits() == start[j])).count();
    }
    ct(Ct::Checks);
    let fail = |m: String| vio("dist", format!("{name}, {n:.0} draws in {calls} calls: {m}"));
    if again > 0 { return fail(format!("the first four draws came back {again} times")); }
    for (i, x) in c.iter().enumerate() {
        for (s, cnt, q) in [("lower", x[0], p[i]), ("upper", x[1], p[i]), ("either", x[0] + x[1], 2.0 * p[i])] {
            if off(cnt, n, q) { return fail(format!("{cnt} values beyond {} at the {s} end, expected about {:.1}", cuts[i], n * q)); }
        }
    }
    digest(c.iter().fold(es, |a, x| hash2(a, hash2(x[0] as u64, x[1] as u64))));
    reached(hash2(0x10F6, sm.ty as u64 * 4 + sm.op as u64));
    Ok(())
}

fn dist<T: RT>(ty: usize, op: usize, size: usize, es: u64, r: &mut Rng) -> R {
    let sm = Sampler { ty, op };
    // (bounds, number of distinct values or 0 for continuous)
    let (lo, hi, k) = match op {
        3 => {
            let k = *r.pick(&[2usize, 3, 5, 8, 10, 16, 37, 64, 100]);
            if r.chance(1, 5) && ty >= 6 { // a wide range, tested in bins
                let (l, h) = T::bounds(r);
                let w = h.minus(l); if w > 1e4 && w < 1e15 { (l, h, 0) } else { let (l, h) = T::narrow(r, k); (l, h, k) }
            } else { let (l, h) = T::narrow(r, k); (l, h, k) }
        }
        1 => loop { let (l, h) = T::fbounds(r); let w = h.d() - l.d(); if w > 1e-25 && w / l.d().abs().max(h.d().abs()) > 1e-3 { break (l, h, 0) } },
        _ => { let (l, h) = T::fbounds(&mut Rng::new(0)); (l, h, 0) }
    };
    let name = format!("{}::{}{}", TNAMES[ty], OPN[op], match op { 1 | 3 => format!("(low {lo:?}, high {hi:?})"), _ => String::new() });
    set_cat(Cat::Random, &name);
    let size = if size == 4 && op != 0 && op != 2 { 3 } else { size };
    if size == 4 { return long::<T>(&sm, es, &name, lo, hi); }
    let total = [3_000usize, 20_000, 60_000, 400_000][size];
    // several calls of different shapes make up the sample
    let ncalls = *r.pick(&[1usize, 2, 5, 20]);
    let per = total / ncalls;
    let cols = *r.pick(&[1usize, 2, 4, 10, 25]);
    let shape = if cols == 1 { vec![per] } else { vec![per / cols, cols] };
    ent::set(0, es);
    let mut calls: Vec<Vec<T>> = vec![];
    for _ in 0..ncalls { calls.push(sm.call::<T>(&shape, lo, hi)?); }
    let all: Vec<T> = calls.iter().flatten().copied().collect();
    let n = all.len() as f64;
    let u: Vec<f64> = all.iter().map(|&x| unit(op, lo, hi, x)).collect();
    let fail = |m: String| vio("dist", format!("{name}, {} draws in {ncalls} call(s) of shape {shape:?}: {m}", all.len()));
    ct(Ct::Checks);
    // --- marginal distribution
    if k > 0 {
        let mut c = vec![0u64; k];
        for (i, x) in u.iter().enumerate() {
            let b = (x * k as f64 + 0.5).floor();
            if !(b >= 0.0 && b < k as f64) { return vio("range", format!("{name}: {:?} outside [low, high)", all[i])); }
            c[b as usize] += 1;
        }
        for (i, &x) in c.iter().enumerate() {
            if off(x as f64, n, 1.0 / k as f64) { return fail(format!("value number {i} of {k} occurred {x} times, expected about {:.0}", n / k as f64)); }
        }
        // consecutive pairs
        if k <= 16 {
            let mut c = vec![0u64; k * k];
            for w in u.windows(2) { c[(w[0] * k as f64 + 0.5) as usize * k + (w[1] * k as f64 + 0.5) as usize] += 1; }
            for (i, &x) in c.iter().enumerate() {
                if off(x as f64, n, 1.0 / (k * k) as f64) { return fail(format!("value number {} followed by number {} occurred {x} times, expected about {:.0}", i / k, i % k, n / (k * k) as f64)); }
            }
        }
    } else {
        for bins in [7usize, 40] {
            let mut c = vec![0u64; bins];
            for x in &u { c[((x * bins as f64) as usize).min(bins - 1)] += 1; }
            for (i, &x) in c.iter().enumerate() {
                if off(x as f64, n, 1.0 / bins as f64) { return fail(format!("bin {i} of {bins} holds {x} values, expected about {:.0}", n / bins as f64)); }
            }
        }
        // both ends of the range, progressively finer
        for e in 6..16 {
            let p = (-(e as f64)).exp2();
            if n * p < 40.0 { break; }
            let (a, b) = (u.iter().filter(|&&x| x < p).count() as f64, u.iter().filter(|&&x| x >= 1.0 - p).count() as f64);
            if off(a, n, p) { return fail(format!("{a} values in the lowest 2^-{e} of the distribution, expected about {:.0}", n * p)); }
            if off(b, n, p) { return fail(format!("{b} values in the highest 2^-{e} of the distribution, expected about {:.0}", n * p)); }
        }
        // duplicates: continuous draws hardly ever repeat
        let mut s: Vec<u128> = all.iter().map(|x| x.bits()).collect();
        s.sort_unstable();
        let dup = s.windows(2).filter(|w| w[0] == w[1]).count() as f64;
        let f32ish = ty == 0 || ty == 2;
        let pool: f64 = match op {
            3 => hi.minus(lo),
            1 => if f32ish { (hi.d() - lo.d()) / (lo.d().abs().max(hi.d().abs())) * 8388608.0 } else { 4.5e12 },
            _ => if f32ish { 4.0e6 } else { 4.5e12 },
        };
        let e = n * n / 2.0 / pool.min(4.5e12);
        if dup > 2.0 * e + 12.0 * e.sqrt() + 6.0 { return fail(format!("{dup} repeated values, expected about {e:.1}")); }
    }
    if op == 2 {
        let mean = all.iter().map(|x| x.d()).sum::<f64>() / n;
        let var = all.iter().map(|x| (x.d() - mean) * (x.d() - mean)).sum::<f64>() / n;
        let skew = all.iter().map(|x| x.d().powi(3)).sum::<f64>() / n;
        let kurt = all.iter().map(|x| x.d().powi(4)).sum::<f64>() / n;
        if mean.abs() > Z / n.sqrt() { return fail(format!("mean {mean}")); }
        if (var - 1.0).abs() > Z * (2.0 / n).sqrt() { return fail(format!("variance {var}")); }
        if skew.abs() > Z * (15.0 / n).sqrt() { return fail(format!("third moment {skew}")); }
        if (kurt - 3.0).abs() > 1.5 * Z * (96.0 / n).sqrt() { return fail(format!("fourth moment {kurt}")); }
        for t in [1.0, 2.0, 3.0, 3.5, 4.0] {
            for sgn in [1.0, -1.0] {
                let c = all.iter().filter(|x| x.d() * sgn > t).count() as f64;
                if off(c, n, 1.0 - phi(t)) { return fail(format!("{c} values beyond {} standard deviations, expected about {:.1}", t * sgn, n * (1.0 - phi(t)))); }
            }
        }
    }
    // --- independence between positions
    let mut lags: Vec<usize> = (1..=12).collect();
    lags.extend([16, 20, 25, 32, 50, 64, 100, 128, 256, 512, 1000, 1024, cols, 2 * cols, per, per / 2, per + 1, per.saturating_sub(1)]);
    for l in lags {
        if l == 0 || l + 500 > u.len() { continue; }
        let c = corr(&u[..u.len() - l], &u[l..]);
        if c.abs() > Z { return fail(format!("elements {l} positions apart are correlated (z = {c:.1})")); }
    }
    // mirrored positions and positions of different calls
    let rev: Vec<f64> = u.iter().rev().copied().collect();
    let h = u.len() / 2;
    let c = corr(&u[..h], &rev[..h]);
    if c.abs() > Z { return fail(format!("mirrored positions are correlated (z = {c:.1})")); }
    // even / odd positions each follow the distribution
    for (nm, par) in [("even", 0usize), ("odd", 1)] {
        let m: Vec<f64> = u.iter().skip(par).step_by(2).copied().collect();
        let mean = m.iter().sum::<f64>() / m.len() as f64;
        let (em, ev) = if k > 0 { ((k as f64 - 1.0) / 2.0 / k as f64, ((k * k) as f64 - 1.0) / 12.0 / (k * k) as f64) } else { (0.5, 1.0 / 12.0) };
        if (mean - em).abs() > Z * (ev / m.len() as f64).sqrt() { return fail(format!("{nm} positions average {mean:.5}, expected {em:.5}")); }
    }
    // --- first and last elements of many small calls follow the distribution too
    let small = 600usize;
    let sh = r.pick(&[vec![1usize], vec![], vec![2], vec![3], vec![2, 2], vec![7], vec![8], vec![5, 5]]).clone();
    let mut firsts = vec![];
    let mut lasts = vec![];
    let mut prev: Vec<u128> = vec![];
    let mut same = 0;
    for _ in 0..small {
        let v = sm.call::<T>(&sh, lo, hi)?;
        firsts.push(unit(op, lo, hi, v[0]));
        lasts.push(unit(op, lo, hi, v[v.len() - 1]));
        let b: Vec<u128> = v.iter().map(|x| x.bits()).collect();
        if b == prev { same += 1; }
        prev = b;
    }
    let p = if k > 0 { (k as f64).powi(-(sh.iter().product::<usize>() as i32)) } else { 1e-5 };
    if same as f64 > 3.0 + small as f64 * p + 12.0 * (small as f64 * p).sqrt() && p < 0.3 { return fail(format!("{same} of {small} consecutive calls of shape {sh:?} returned the same array as the call before")); }
    for (nm, v) in [("first", &firsts), ("last", &lasts)] {
        let mean = v.iter().sum::<f64>() / v.len() as f64;
        let (em, ev) = if k > 0 { ((k as f64 - 1.0) / 2.0 / k as f64, ((k * k) as f64 - 1.0) / 12.0 / (k * k) as f64) } else { (0.5, 1.0 / 12.0) };
        if (mean - em).abs() > Z * (ev / v.len() as f64).sqrt() { return fail(format!("the {nm} elements of {small} calls of shape {sh:?} average {mean:.4}, expected {em:.4}")); }
        let c = corr(&v[..v.len() - 1], &v[1..]);
        if c.abs() > Z { return fail(format!("the {nm} elements of consecutive calls of shape {sh:?} are correlated (z = {c:.1})")); }
    }
    // --- another entropy stream, another thread: nothing repeats
    let m = per.min(2000).max(60);
    let base = sm.call::<T>(&[m], lo, hi)?;
    ent::set(0, es ^ 0xABCD_EF01);
    let other = sm.call::<T>(&[m], lo, hi)?;
    ct(Ct::SwitchEnt);
    let op2 = op;
    let (ty2, es2) = (ty, es.wrapping_add(0x77));
    let th = std::thread::spawn(move || { ent::set(0, es2); let s = Sampler { ty: ty2, op: op2 }; s.call::<T>(&[m], lo, hi) }).join();
    let thr = match th { Ok(v) => v?, Err(_) => return vio("harness", "thread ended".into()) };
    let eq = |a: &[T], b: &[T]| a.iter().zip(b).filter(|(x, y)| x.bits() == y.bits()).count() as f64;
    let pe = if k > 0 { 1.0 / k as f64 } else { 1e-4 };
    let lim = m as f64 * pe + Z * (m as f64 * pe * (1.0 - pe)).sqrt() + 8.0;
    for (nm, a, b) in [("two entropy streams", &base, &other), ("two threads", &base, &thr), ("two threads", &other, &thr)] {
        if lim < m as f64 * 0.95 && eq(a, b) > lim { return fail(format!("calls of shape [{m}] fed by {nm} agree in {} elements", eq(a, b))); }
    }
    let mut dg = 0;
    for x in all.iter().step_by(97) { dg = hash2(dg, x.bits() as u64); }
    digest(dg);
    reached(hash2(hash2(ty as u64, op as u64), hash2(hash2(size as u64, k as u64), hash2(cols as u64, hash2(lo.bits() as u64, ncalls as u64)))));
    Ok(())
}

/// step arguments: type, constructor, sample size, entropy seed, choices
pub fn step_dist(no: u32, s: &Step) -> R {
    shm().step = no;
    let a = &mut Args::new(&s.a);
    let ty = a.below(NTYPES);
    let op = if ty >= 4 { a.raw(); 3 } else { a.below(4) };
    let size = a.below(5);
    let es = a.raw() as u64;
    let mut r = a.stream();
    ct(Ct::Steps);
    let (w0, _) = ent::counts();
    let res = dispatch!(ty, dist, ty, op, size, es, &mut r);
    ctn(Ct::EntWords, ent::counts().0 - w0);
    res
}
