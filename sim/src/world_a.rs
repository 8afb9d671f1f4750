//! World A: clients creating, viewing, writing, reading, iterating over and dropping arrays.
//! The reference model is a set of flat storages plus, for every handle, the explicit list of
//! storage positions it denotes.
use crate::core::*;
use crate::heap;
use crate::real::*;
use crate::rng::{hash2, mix, Args, Rng};

pub const NOPS: usize = 26;
pub mod op {
    pub const CREATE: u8 = 0;
    pub const VIEW: u8 = 1;
    pub const CONSUME: u8 = 2;
    pub const DROP: u8 = 3;
    pub const WINDEX: u8 = 4;
    pub const FILL: u8 = 5;
    pub const IOP: u8 = 6;
    pub const IOPS: u8 = 7;
    pub const RED: u8 = 8;
    pub const REDAX: u8 = 9;
    pub const BIN: u8 = 10;
    pub const BINS: u8 = 11;
    pub const NEG: u8 = 12;
    pub const MAT: u8 = 13;
    pub const EINSUM: u8 = 14;
    pub const RINDEX: u8 = 15;
    pub const EQ: u8 = 16;
    pub const COPY: u8 = 17;
    pub const TRACE: u8 = 18;
    pub const PRINT: u8 = 19;
    pub const CUROPEN: u8 = 20;
    pub const CURSTEP: u8 = 21;
    pub const CURCLOSE: u8 = 22;
    pub const INVALID: u8 = 23;
    pub const TRAP: u8 = 24;
    pub const USERPANIC: u8 = 25;
    pub const SINK: u8 = 26;
    pub const STDERR: u8 = 27;
    pub const SWEEP: u8 = 28;
}

struct Sto {
    dt: Dt,
    base: usize,
    vals: Vec<i128>,
    live: bool,
}

struct H {
    id: u64,
    obj: Option<Obj>,
    dt: Dt,
    sto: usize,
    shape: Vec<usize>,
    idx: Vec<u32>,
    ro: bool,
    owned: bool,
    parent: Option<u64>,
    kids: u32,
    depth: u32,
    meta: Meta,
}

struct C {
    obj: Box<dyn Cursor>,
    parent: u64,
    sto: usize,
    dt: Dt,
    flat: u8, // 0 value, 1 address, 2 arrays
    pos: usize,
    items: Vec<Vec<u32>>,
    item_shape: Vec<usize>,
    writes_at: u64,
}

pub struct Cfg {
    pub exact: bool,
    pub maxh: usize,
    /// bit mask of element types in use
    pub dts: u32,
    pub big: u32,
    /// apply the memory ledger's checks after every step
    pub mem: bool,
    /// standard-error faults take effect
    pub stderr: bool,
}

pub struct WA {
    cfg: Cfg,
    sto: Vec<Sto>,
    h: Vec<H>,
    cur: Vec<C>,
    nid: u64,
    cat: Cat,
    name: String,
    writes: u64,
    sparse: bool,
    stepno: u32,
}

fn kind_of(c: Cat) -> &'static str {
    match c {
        Cat::Create | Cat::Read => "read",
        Cat::View => "view",
        Cat::Write | Cat::Drop => "write",
        Cat::Cursor => "cursor",
        Cat::Reject => "reject",
        Cat::Sink => "sink",
        _ => "read",
    }
}

pub fn prod(s: &[usize]) -> usize { s.iter().product() }

pub fn unravel(mut k: usize, shape: &[usize]) -> Vec<usize> {
    let mut r = vec![0; shape.len()];
    for i in (0..shape.len()).rev() {
        r[i] = k % shape[i];
        k /= shape[i];
    }
    r
}
pub fn ravel(ix: &[usize], shape: &[usize]) -> usize {
    ix.iter().zip(shape).fold(0, |a, (&i, &d)| a * d + i)
}
fn absax(ax: isize, n: usize) -> Option<usize> {
    let n = n as isize;
    if ax < -n || ax >= n { None } else { Some(if ax < 0 { ax + n } else { ax } as usize) }
}

/// what a view operation denotes: None = invalid arguments
pub fn model_view(shape: &[usize], idx: &[u32], v: &VOp) -> Option<(Vec<usize>, Vec<u32>)> {
    let nd = shape.len();
    let perm = |p: &[usize]| {
        let ns: Vec<usize> = p.iter().map(|&i| shape[i]).collect();
        let ni = (0..prod(&ns)).map(|k| {
            let u = unravel(k, &ns);
            let mut o = vec![0; nd];
            for (j, &i) in p.iter().enumerate() { o[i] = u[j]; }
            idx[ravel(&o, shape)]
        }).collect();
        (ns, ni)
    };
    let sliced = |ix: &[(usize, usize, bool)]| {
        // per axis: start, length, collapse
        let mut ns = vec![];
        for &(_, l, c) in ix { if !c { ns.push(l) } }
        let full: Vec<usize> = ix.iter().map(|x| if x.2 { 1 } else { x.1 }).collect();
        let ni = (0..prod(&full)).map(|k| {
            let u = unravel(k, &full);
            let o: Vec<usize> = u.iter().zip(ix).map(|(&i, x)| i + x.0).collect();
            idx[ravel(&o, shape)]
        }).collect();
        (ns, ni)
    };
    let one = |ix: &Ix, d: usize| -> Option<(usize, usize, bool)> {
        let (s, e) = match *ix {
            Ix::At(i) => return if i < d { Some((i, 1, true)) } else { None },
            Ix::R(a, b) => (a, b),
            Ix::From(a) => (a, d),
            Ix::Full => (0, d),
            Ix::RI(a, b) => (a, b + 1),
            Ix::To(b) => (0, b),
            Ix::ToI(b) => (0, b + 1),
        };
        if s < e && e <= d { Some((s, e - s, false)) } else { None }
    };
    Some(match v {
        VOp::View => (shape.to_vec(), idx.to_vec()),
        VOp::Reshape(s) => { if prod(s) != idx.len() { return None; } (s.clone(), idx.to_vec()) }
        VOp::Squeeze => (shape.iter().copied().filter(|&d| d != 1).collect(), idx.to_vec()),
        VOp::Unsqueeze(a) => { let a = absax(*a, nd + 1)?; let mut s = shape.to_vec(); s.insert(a, 1); (s, idx.to_vec()) }
        VOp::T => { if nd < 2 { return None; } let mut p: Vec<usize> = (0..nd).collect(); p.swap(0, 1); perm(&p) }
        VOp::Transpose(x, y) => { let (x, y) = (absax(*x, nd)?, absax(*y, nd)?); let mut p: Vec<usize> = (0..nd).collect(); p.swap(x, y); perm(&p) }
        VOp::Slice(ix) => {
            if ix.len() > nd { return None; }
            let mut v = vec![];
            for k in 0..nd { v.push(if k < ix.len() { one(&ix[k], shape[k])? } else { (0, shape[k], false) }) }
            sliced(&v)
        }
        VOp::SliceAlong(ax, i) => {
            let ax = absax(*ax, nd)?;
            let mut v: Vec<(usize, usize, bool)> = shape.iter().map(|&d| (0, d, false)).collect();
            v[ax] = one(i, shape[ax])?;
            sliced(&v)
        }
        VOp::Diag(k, off, x, y) => {
            if nd < 2 { return None; }
            let off = if *k == 0 || *k == 2 { 0 } else { *off };
            let (x, y) = if *k < 2 { (0, 1) } else { (absax(*x, nd)?, absax(*y, nd)?) };
            if x == y { return None; }
            let (mut d1, mut d2, mut o1, mut o2) = (shape[x], shape[y], 0, 0);
            if off >= 0 { if off as usize >= d2 { return None; } d2 -= off as usize; o2 = off as usize; }
            else { let o = (-off) as usize; if o >= d1 { return None; } d1 -= o; o1 = o; }
            let n = d1.min(d2);
            let rest: Vec<usize> = (0..nd).filter(|&i| i != x && i != y).collect();
            let mut ns: Vec<usize> = rest.iter().map(|&i| shape[i]).collect();
            ns.push(n);
            let ni = (0..prod(&ns)).map(|k| {
                let u = unravel(k, &ns);
                let mut o = vec![0; nd];
                for (j, &i) in rest.iter().enumerate() { o[i] = u[j]; }
                o[x] = u[rest.len()] + o1;
                o[y] = u[rest.len()] + o2;
                idx[ravel(&o, shape)]
            }).collect();
            (ns, ni)
        }
        VOp::Broadcast(to) => {
            if to.len() < nd { return None; }
            let p = to.len() - nd;
            for i in 0..nd { if shape[i] != 1 && shape[i] != to[p + i] { return None; } }
            let ni = (0..prod(to)).map(|k| {
                let u = unravel(k, to);
                let o: Vec<usize> = (0..nd).map(|i| if shape[i] == 1 { 0 } else { u[p + i] }).collect();
                idx[ravel(&o, shape)]
            }).collect();
            (to.clone(), ni)
        }
        VOp::EinsumView(i, o) => {
            let (il, ol) = (i.as_bytes(), o.as_bytes());
            if il.len() != nd { return None; }
            let ns: Vec<usize> = ol.iter().map(|c| shape[il.iter().position(|x| x == c).unwrap()]).collect();
            let ni = (0..prod(&ns)).map(|k| {
                let u = unravel(k, &ns);
                let o: Vec<usize> = il.iter().map(|c| u[ol.iter().position(|x| x == c).unwrap()]).collect();
                idx[ravel(&o, shape)]
            }).collect();
            (ns, ni)
        }
    })
}

pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut r = vec![0; n];
    for i in 0..n {
        let x = if i + a.len() >= n { a[i + a.len() - n] } else { 1 };
        let y = if i + b.len() >= n { b[i + b.len() - n] } else { 1 };
        r[i] = if x == y { x } else if x == 1 { y } else if y == 1 { x } else { return None };
    }
    Some(r)
}
pub fn bcast(vals: &[i128], shape: &[usize], to: &[usize]) -> Vec<i128> {
    let id: Vec<u32> = (0..vals.len() as u32).collect();
    model_view(shape, &id, &VOp::Broadcast(to.to_vec())).unwrap().1.into_iter().map(|i| vals[i as usize]).collect()
}

/// exact result of one elementwise operation, None if it is not exactly representable / traps
pub fn el_op(dt: Dt, o: u8, a: i128, b: i128) -> Option<i128> {
    let sh = dt.shift();
    let r = match o {
        0 => a.checked_add(b)?,
        1 => a.checked_sub(b)?,
        2 => { let p = a.checked_mul(b)?; if p & ((1 << sh) - 1) != 0 { return None; } p >> sh }
        3 => { if b == 0 || !dt.float() { return None; } let n = a.checked_mul(1 << sh)?; if n % b != 0 { return None; } n / b }
        4 => { if b == 0 { return None; } a % b }
        5 => a & b,
        6 => a | b,
        7 => { if b < 0 || b >= dt.bits() as i128 || b > 20 { return None; } a.checked_mul(1 << b)? }
        8 => { if b < 0 || b >= dt.bits() as i128 { return None; } a >> b }
        _ => unreachable!(),
    };
    if dt.fits(r) { Some(r) } else { None }
}

/// all partial sums of at most `n` products, one factor from each operand, are exact in any order
pub fn budget(dt: Dt, ops: &[&[i128]], n: usize) -> bool {
    let mut tot: u128 = n.max(1) as u128;
    for v in ops {
        let or = v.iter().fold(0u128, |a, x| a | x.unsigned_abs());
        let m = v.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0).max(1);
        let g = if dt.float() && or != 0 { or.trailing_zeros().min(64) } else { 0 };
        match tot.checked_mul((m >> g).max(1)) { Some(t) => tot = t, None => return false }
    }
    if dt.float() { tot <= 1u128 << dt.mant() } else if dt.boolean() { false } else { tot <= dt.max() as u128 }
}

/// all partial sums of these values are exact in any order
pub fn budget_sum(dt: Dt, v: &[i128]) -> bool {
    let or = v.iter().fold(0u128, |a, x| a | x.unsigned_abs());
    let g = if dt.float() && or != 0 { or.trailing_zeros().min(64) } else { 0 };
    let tot: u128 = v.iter().map(|x| x.unsigned_abs() >> g).sum();
    if dt.float() { tot <= 1u128 << dt.mant() } else if dt.boolean() { false } else { tot <= dt.max() as u128 }
}

/// product of fixed point factors, scaled back
pub fn fmul(dt: Dt, a: i128, b: i128) -> Option<i128> {
    let p = a.checked_mul(b)?;
    let sh = dt.shift();
    if p & ((1i128 << sh) - 1) != 0 { None } else { Some(p >> sh) }
}

/// exact reduction of a group of values
pub fn reduce(dt: Dt, k: u8, v: &[i128]) -> Option<i128> {
    let r = match k {
        0 => { if !budget_sum(dt, v) { return None; } v.iter().sum() }
        1 => {
            let mut acc = dt.one();
            let mut units: u128 = 1;
            for &x in v {
                let a = x.unsigned_abs();
                let g = if dt.float() && a != 0 { a.trailing_zeros() } else { 0 };
                units = units.checked_mul((a >> g).max(1))?;
                if dt.float() { if units > 1 << dt.mant() { return None; } } else if units > dt.max() as u128 { return None; }
                acc = fmul(dt, acc, x)?;
                if acc == 0 { /* keep going: later factors still bounded */ }
            }
            acc
        }
        2 => *v.iter().min()?,
        3 => *v.iter().max()?,
        4 => v.iter().map(|x| x.abs()).min()?,
        5 => v.iter().map(|x| x.abs()).max()?,
        _ => {
            if !budget_sum(dt, v) { return None; }
            let s: i128 = v.iter().sum();
            let n = v.len() as i128;
            if s % n != 0 { return None; }
            s / n
        }
    };
    if dt.fits(r) { Some(r) } else { None }
}

/// reduces the given (absolute) axes
pub fn reduce_axes(dt: Dt, k: u8, vals: &[i128], shape: &[usize], axes: &[usize]) -> Option<(Vec<usize>, Vec<i128>)> {
    let keep: Vec<usize> = (0..shape.len()).filter(|i| !axes.contains(i)).collect();
    let os: Vec<usize> = keep.iter().map(|&i| shape[i]).collect();
    let mut groups: Vec<Vec<i128>> = vec![vec![]; prod(&os)];
    for (i, &x) in vals.iter().enumerate() {
        let u = unravel(i, shape);
        let o: Vec<usize> = keep.iter().map(|&j| u[j]).collect();
        groups[ravel(&o, &os)].push(x);
    }
    let mut r = vec![];
    for g in groups { r.push(reduce(dt, k, &g)?) }
    Some((os, r))
}

/// einsum by definition
pub fn model_einsum(dt: Dt, ops: &[(Vec<usize>, Vec<i128>)], labs: &[String], out: &str) -> Option<(Vec<usize>, Vec<i128>)> {
    let mut names: Vec<u8> = out.bytes().collect();
    for l in labs { for c in l.bytes() { if !names.contains(&c) { names.push(c) } } }
    let dim = |c: u8| {
        for (l, o) in labs.iter().zip(ops) { if let Some(p) = l.bytes().position(|x| x == c) { return o.0[p]; } }
        1
    };
    let dims: Vec<usize> = names.iter().map(|&c| dim(c)).collect();
    let no = out.len();
    let os: Vec<usize> = dims[..no].to_vec();
    let inner = prod(&dims[no..]);
    let refs: Vec<&[i128]> = ops.iter().map(|o| &o.1[..]).collect();
    // up to two operands: the sums that really occur, and each operand's own; otherwise the worst case
    let two = refs.len() <= 2 && !dt.float() && !dt.boolean();
    if !(if two { refs.iter().all(|v| budget_sum(dt, v)) } else { budget(dt, &refs, inner) }) { return None; }
    let pos: Vec<Vec<usize>> = labs.iter().map(|l| l.bytes().map(|c| names.iter().position(|&x| x == c).unwrap()).collect()).collect();
    let mut r = vec![0i128; prod(&os)];
    let mut tot = vec![0i128; if two { r.len() } else { 0 }];
    for k in 0..prod(&dims) {
        let u = unravel(k, &dims);
        let mut p = dt.one();
        for (o, ps) in ops.iter().zip(&pos) {
            let ix: Vec<usize> = ps.iter().map(|&j| u[j]).collect();
            p = fmul(dt, p, o.1[ravel(&ix, &o.0)])?;
        }
        r[k / inner] += p;
        if two { tot[k / inner] += p.abs(); }
    }
    if tot.iter().any(|&x| x > dt.max()) { return None; }
    if r.iter().all(|&x| dt.fits(x)) { Some((os, r)) } else { None }
}

/// a parameterless panic of a valid call
fn bad_panic<T>(kind: &str, what: &str) -> Result<T, Vio> {
    vio(kind, format!("valid call panicked: {what}: {}", last_panic()))
}

enum Pick { Any, Mutable, Free }

impl WA {
    pub fn new(cfg: Cfg) -> WA {
        WA { cfg, sto: vec![], h: vec![], cur: vec![], nid: 1, cat: Cat::Idle, name: String::new(), writes: 0, sparse: false, stepno: 0 }
    }

    fn pos(&self, id: u64) -> usize { self.h.iter().position(|x| x.id == id).unwrap() }
    fn vals(&self, i: usize) -> Vec<i128> { let h = &self.h[i]; h.idx.iter().map(|&k| self.sto[h.sto].vals[k as usize]).collect() }
    fn obj(&self, i: usize) -> &dyn Real { &**self.h[i].obj.as_ref().unwrap() }

    fn begin(&mut self, c: Cat, name: String) {
        set_cat(c, &name);
        self.cat = c;
        self.name = name;
    }
    fn fail<T>(&self, msg: String) -> Result<T, Vio> { vio(kind_of(self.cat), format!("{}: {msg}", self.name)) }
    fn panicked<T>(&self) -> Result<T, Vio> { bad_panic(kind_of(self.cat), &self.name) }

    fn desc(&self, i: usize) -> String {
        let h = &self.h[i];
        format!("{}{:?}/{:?}{}{}", h.dt.name(), h.shape, h.meta.stride, if h.owned { "" } else { " view" }, if h.ro { " ro" } else { "" })
    }

    fn pick(&self, a: &mut Args, want: Pick) -> Option<usize> {
        let c: Vec<usize> = (0..self.h.len()).filter(|&i| match want {
            Pick::Any => true,
            Pick::Mutable => self.h[i].kids == 0,
            Pick::Free => self.h[i].kids == 0,
        }).collect();
        let r = a.raw() as usize;
        if c.is_empty() { None } else { Some(c[c.len() - 1 - r % c.len()]) }
    }
    fn pick_dt(&self, a: &mut Args, f: impl Fn(&H) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.h.len()).filter(|&i| f(&self.h[i])).collect();
        let r = a.raw() as usize;
        if c.is_empty() { None } else { Some(c[c.len() - 1 - r % c.len()]) }
    }

    /// elements of a new array; sometimes all alike but for a few, so that a single element that is
    /// left out or taken twice decides a result, and long sums stay exact in narrow types
    fn gen_vals(&self, dt: Dt, n: usize, r: &mut Rng) -> Vec<i128> {
        if !self.cfg.exact || n < 2 || !(if self.sparse { r.chance(3, 4) } else { r.chance(1, 8) }) { return (0..n).map(|_| self.gen_val(dt, r)).collect(); }
        let bg = match r.below(4) { 0 | 1 => 0, 2 => dt.one(), _ => self.gen_val(dt, r) };
        let bg = if dt.boolean() { bg.min(1) } else { bg };
        let mut v = vec![bg; n];
        for _ in 0..1 + r.below(3) {
            let p = match r.below(6) { 0 | 1 => n - 1, 2 => n - 1 - r.below(n.min(9)), 3 => r.below(n.min(9)), _ => r.below(n) };
            v[p] = self.gen_val(dt, r);
        }
        v
    }
    fn gen_val(&self, dt: Dt, r: &mut Rng) -> i128 {
        let mut salted;
        let r = if crate::rng::SALT.with(|s| s.get()) != 0 { salted = r.salted(); &mut salted } else { r };
        if !self.cfg.exact {
            return match r.below(4) {
                0 if dt.float() => { let x = [0.1f64, -3.7, 1e-7, 1e20, 0.0, -0.0, f64::NAN, f64::INFINITY, 1.0 / 3.0, 7.25][r.below(10)]; if dt.0 == 12 { (x as f32).to_bits() as i128 } else { x.to_bits() as i128 } }
                1 | 2 if dt.float() => { let x = (r.next() as i64 as f64) / (1u64 << 60) as f64; if dt.0 == 12 { (x as f32).to_bits() as i128 } else { x.to_bits() as i128 } }
                1 | 2 => r.below(4) as i128,
                _ => { let v = r.next() as u128; let m = if dt.bits() >= 127 { u64::MAX as u128 } else { (1u128 << dt.bits()) - 1 }; if dt.boolean() { (v & 1) as i128 } else { (v & m) as i128 } }
            };
        }
        if dt.boolean() { return r.below(2) as i128; }
        if dt.float() {
            let m = if r.chance(1, 5) { 64 } else { 12 };
            let q = r.range(-m, m) as i128;
            return if r.chance(1, 2) { q << FSHIFT } else { q << (FSHIFT - 2) };
        }
        let m = if dt.bits() == 8 { if r.chance(1, 4) { 9 } else { 2 } } else if r.chance(1, 5) { 100 } else { 7 };
        if dt.unsigned() { r.range(0, m) as i128 } else { r.range(-m, m) as i128 }
    }
    fn gen_scalar(&self, dt: Dt, o: u8, r: &mut Rng) -> i128 {
        if !self.cfg.exact { return self.gen_val(dt, r); }
        match o {
            3 => { let k = r.range(-2, 2); let v = if k < 0 { dt.one() >> -k } else { dt.one() << k }; if r.chance(1, 2) { v } else { -v } }
            4 => { let v = self.gen_val(dt, r); if v == 0 { dt.one() } else { v } }
            7 | 8 => r.below(3) as i128,
            _ => self.gen_val(dt, r),
        }
    }
    fn gen_dt(&self, r: &mut Rng) -> Dt {
        let l: Vec<u8> = (0..NDT as u8).filter(|&i| self.cfg.dts >> i & 1 == 1).collect();
        Dt(*r.pick(&l))
    }
    fn gen_shape(&self, r: &mut Rng) -> Vec<usize> {
        let nd = r.weighted(&[6, 18, 30, 26, 14, 6]);
        if self.cfg.big == 3 && r.chance(1, 2) {
            return match r.below(7) {
                0 => vec![r.range(5000, 70000) as usize],
                1 => vec![*r.pick(&[8192usize, 10000, 16384, 32768, 65536]) + r.below(3) - 1],
                2 => vec![r.range(70, 300) as usize, r.range(70, 260) as usize],
                3 => vec![r.range(2, 5) as usize, r.range(2000, 17000) as usize],
                4 => vec![r.range(2000, 17000) as usize, r.range(2, 5) as usize],
                5 => vec![1, r.range(5000, 40000) as usize],
                _ => vec![r.range(2, 40) as usize, r.range(20, 40) as usize, r.range(20, 40) as usize],
            };
        }
        if self.cfg.big >= 2 && r.chance(1, 4) {
            // sizes at which a threshold in the code may switch algorithms
            return match r.below(6) {
                0 => vec![r.range(200, 5000) as usize],
                1 => vec![*r.pick(&[256usize, 512, 1000, 1024, 2048, 4096]) + r.below(3) - 1],
                2 => vec![r.range(17, 70) as usize, r.range(17, 70) as usize],
                3 => vec![r.range(2, 6) as usize, r.range(64, 600) as usize],
                4 => vec![r.range(64, 600) as usize, r.range(2, 6) as usize],
                _ => vec![r.range(2, 9) as usize, r.range(8, 24) as usize, r.range(8, 24) as usize],
            };
        }
        if self.cfg.big > 0 && r.chance(if self.cfg.big >= 2 { 3 } else { 1 }, 16) {
            return match r.below(5) {
                0 => vec![r.range(33, 140) as usize],
                1 => vec![r.range(2, 9) as usize, r.range(9, 34) as usize],
                2 => vec![r.range(9, 34) as usize, r.range(2, 9) as usize],
                3 => vec![r.range(2, 4) as usize, r.range(2, 6) as usize, r.range(8, 19) as usize],
                _ => vec![r.range(8, 17) as usize, r.range(8, 17) as usize],
            };
        }
        loop {
            let s: Vec<usize> = (0..nd).map(|_| [1, 2, 3, 4, 5, 6][r.weighted(&[20, 28, 24, 14, 8, 6])]).collect();
            if prod(&s) <= 200 { return s; }
        }
    }

    // ---- registering results ----------------------------------------------------------------

    fn honest(&self, m: &Meta, idx: &[u32]) -> R {
        let n = idx.len();
        if m.contiguous && n > 1 && !(0..n).all(|k| idx[k] as usize == idx[0] as usize + k) {
            return vio("layout", format!("{}: array claims to be contiguous but its elements are at {:?} (shape {:?} stride {:?})", self.name, &idx[..n.min(12)], m.shape, m.stride));
        }
        if n > 1 {
            let d = idx[1] as i64 - idx[0] as i64;
            let unif = (0..n).all(|k| idx[k] as i64 == idx[0] as i64 + d * k as i64);
            if m.uniform && !unif {
                return vio("layout", format!("{}: array claims a uniform stride but its elements are at {:?} (shape {:?} stride {:?})", self.name, &idx[..n.min(12)], m.shape, m.stride));
            }
            if let Some(s) = m.ustride {
                if !unif || s as i64 != d {
                    return vio("layout", format!("{}: has_uniform_stride() says {s} but its elements are at {:?} (shape {:?} stride {:?})", self.name, &idx[..n.min(12)], m.shape, m.stride));
                }
            }
        }
        Ok(())
    }

    fn meta_ok(&self, m: &Meta, shape: &[usize]) -> R {
        if m.shape != shape { return self.fail(format!("result has shape {:?}, expected {:?}", m.shape, shape)); }
        if m.ndims != shape.len() || m.size != prod(shape) || m.len != shape.first().copied().unwrap_or(0) {
            return self.fail(format!("ndims/size/len {} {} {} inconsistent with shape {:?}", m.ndims, m.size, m.len, shape));
        }
        Ok(())
    }

    /// registers a freshly allocated result; `exp` are its expected elements
    fn adopt_owned(&mut self, obj: Obj, dt: Dt, shape: Vec<usize>, exp: Option<Vec<i128>>) -> Result<usize, Vio> {
        let m = obj.meta();
        self.meta_ok(&m, &shape)?;
        let addrs = match obj.addrs() { Ok(a) => a, Err(_) => return self.panicked() };
        if addrs.len() != prod(&shape) { return self.fail(format!("result iterates over {} elements, shape {:?}", addrs.len(), shape)); }
        let base = addrs.iter().copied().min().unwrap();
        let idx: Vec<u32> = addrs.iter().map(|&a| ((a - base) / dt.size()) as u32).collect();
        self.iterates(&*obj, &addrs)?;
        let n = idx.iter().copied().max().unwrap() as usize + 1;
        let end = base + n * dt.size();
        for s in self.sto.iter().filter(|s| s.live) {
            let e = s.base + s.vals.len() * s.dt.size();
            if base < e && s.base < end {
                return vio("alias", format!("{}: result shares memory with an existing array", self.name));
            }
        }
        if m.view { return vio("alias", format!("{}: result of a computation reports to be a view", self.name)); }
        self.honest(&m, &idx)?;
        let vals: Vec<i128> = (0..n).map(|k| peek(dt, base, k)).collect();
        ct(Ct::Checks);
        if let Some(e) = &exp {
            if self.cfg.exact {
                for (k, &i) in idx.iter().enumerate() {
                    if vals[i as usize] != e[k] {
                        return self.fail(format!("element {:?} of the result is {}, expected {}", unravel(k, &shape), self.show(dt, vals[i as usize]), self.show(dt, e[k])));
                    }
                }
            }
        }
        let mut d = hash2(0x0A, shape.iter().fold(dt.0 as u64, |a, &x| hash2(a, x as u64)));
        for &i in &idx { d = hash2(d, self.bits(dt, base, i as usize)); }
        digest(d);
        self.sto.push(Sto { dt, base, vals, live: true });
        let sto = self.sto.len() - 1;
        self.push(H { id: 0, obj: Some(obj), dt, sto, shape, idx, ro: false, owned: true, parent: None, kids: 0, depth: 0, meta: m })
    }

    fn bits(&self, dt: Dt, base: usize, i: usize) -> u64 {
        let p = (base + i * dt.size()) as *const u8;
        let mut h = 0u64;
        for k in 0..dt.size() { h = h.rotate_left(8) ^ unsafe { *p.add(k) } as u64; if k == 7 { h = mix(h); } }
        // the sign of a zero is not part of what the exact model predicts
        h
    }

    fn show(&self, dt: Dt, v: i128) -> String {
        if dt.float() && self.cfg.exact { format!("{}", v as f64 / (1u64 << FSHIFT) as f64) } else { format!("{v}") }
    }

    fn push(&mut self, mut h: H) -> Result<usize, Vio> {
        h.id = self.nid;
        self.nid += 1;
        if h.depth >= 4 { ct(Ct::PDeepChain); }
        let mut sig = hash2(h.dt.0 as u64, h.meta.contiguous as u64 | (h.meta.uniform as u64) << 1 | (h.owned as u64) << 2 | (h.ro as u64) << 3 | (h.depth as u64) << 4);
        for (a, b) in h.shape.iter().zip(&h.meta.stride) { sig = hash2(sig, (*a as u64) << 32 | *b as u64); }
        reached(sig);
        self.h.push(h);
        Ok(self.h.len() - 1)
    }

    fn adopt_view(&mut self, obj: Obj, src: usize, shape: Vec<usize>, idx: Vec<u32>, ro: bool) -> Result<usize, Vio> {
        let m = obj.meta();
        self.meta_ok(&m, &shape)?;
        let (sto, dt, id, depth) = (self.h[src].sto, self.h[src].dt, self.h[src].id, self.h[src].depth);
        self.view_addrs(&*obj, sto, &idx, &m)?;
        if !m.view { return self.fail("a borrowed view reports to own its data".into()); }
        self.h[src].kids += 1;
        self.push(H { id: 0, obj: Some(obj), dt, sto, shape, idx, ro, owned: false, parent: Some(id), kids: 0, depth: depth + 1, meta: m })
    }

    fn view_addrs(&self, obj: &dyn Real, sto: usize, idx: &[u32], m: &Meta) -> R {
        let addrs = match obj.addrs() { Ok(a) => a, Err(_) => return self.panicked() };
        let s = &self.sto[sto];
        let sz = s.dt.size();
        let exp: Vec<usize> = idx.iter().map(|&i| s.base + i as usize * sz).collect();
        ct(Ct::Checks);
        if addrs != exp {
            let f = |v: &[usize]| v.iter().take(12).map(|&a| (a as i64 - s.base as i64) / sz as i64).collect::<Vec<_>>();
            return self.fail(format!("view denotes storage positions {:?}{}, expected {:?} (shape {:?} stride {:?})", f(&addrs), if addrs.len() != exp.len() { " (count differs)" } else { "" }, f(&exp), m.shape, m.stride));
        }
        self.iterates(obj, &addrs)?;
        self.honest(m, idx)
    }

    /// the pointer iterator visits the elements in order
    fn iterates(&self, obj: &dyn Real, addrs: &[usize]) -> R {
        match obj.ptrs() {
            Ok(p) if p == addrs => Ok(()),
            Ok(p) => vio("cursor", format!("{}: iteration over the {} elements of the result visits {} addresses, the first {} of them in order", self.name, addrs.len(), p.len(), p.iter().zip(addrs).take_while(|(x, y)| x == y).count())),
            Err(_) => bad_panic("cursor", &self.name),
        }
    }

    fn remove(&mut self, i: usize) -> H {
        let h = self.h.remove(i);
        if let Some(p) = h.parent { let p = self.pos(p); self.h[p].kids -= 1; }
        h
    }

    /// drop one handle through the library
    fn drop_handle(&mut self, i: usize) -> R {
        let mut h = self.remove(i);
        if h.owned { self.sto[h.sto].live = false; }
        if h.obj.take().unwrap().discard().is_err() { return self.panicked(); }
        ct(Ct::Drop);
        Ok(())
    }

    fn trim(&mut self) -> R {
        while self.h.len() > self.cfg.maxh {
            match (0..self.h.len()).find(|&i| self.h[i].kids == 0) {
                Some(i) => self.drop_handle(i)?,
                None => break,
            }
        }
        Ok(())
    }

    /// compares everything with the model after a step
    fn post(&mut self) -> R {
        for h in &self.h {
            let m = h.obj.as_ref().unwrap().meta();
            if m != h.meta {
                return self.fail(format!("shape/stride/flags of an existing array changed from {:?} to {:?}", h.meta, m));
            }
        }
        let exact = self.cfg.exact;
        for s in self.sto.iter_mut().filter(|s| s.live) {
            for k in 0..s.vals.len() {
                let v = peek(s.dt, s.base, k);
                if v != s.vals[k] {
                    if exact {
                        let (dt, old) = (s.dt, s.vals[k]);
                        let kind = match self.cat { Cat::Create | Cat::Read => "read+alias", Cat::Cursor => "cursor+alias", Cat::Sink => "sink+alias", c => kind_of(c) };
                        return vio(kind, format!("{}: storage element {k} of a {} array holds {}, model says {}", self.name, dt.name(), self.show(dt, v), self.show(dt, old)));
                    }
                    s.vals[k] = v;
                }
            }
        }
        ct(Ct::Checks);
        if self.cfg.mem {
            heap::check_all();
            heap::check_poison();
        }
        if let Some(e) = heap::take_err() {
            if self.cfg.mem { return vio("mem", format!("{}: {e}", self.name)); }
        }
        Ok(())
    }

    // ---- operands ---------------------------------------------------------------------------

    fn make_plain(&mut self, dt: Dt, shape: &[usize], r: &mut Rng) -> Result<usize, Vio> {
        let n = prod(shape);
        let vals = self.gen_vals(dt, n, r);
        let nd = shape.len();
        let obj = if nd == 0 { create(dt, 4, shape, &vals) } else { create(dt, 0, shape, &vals) };
        match obj {
            Ok(o) => { ct(Ct::Create); self.adopt_owned(o, dt, shape.to_vec(), Some(vals)) }
            Err(_) => self.panicked(),
        }
    }

    /// creates an array and derives from it a view of exactly `shape` with a chosen layout
    fn make_operand(&mut self, dt: Dt, shape: &[usize], r: &mut Rng) -> Result<usize, Vio> {
        let save = (self.cat, self.name.clone());
        self.begin(Cat::View, format!("prepare {} {:?}", dt.name(), shape));
        let nd = shape.len();
        let choice = r.weighted(&[26, 16, 16, 10, 8, 8, 10, 6]);
        let res = match choice {
            1 if nd >= 2 => { // transposed
                let (x, y) = (r.below(nd), r.below(nd));
                let mut s = shape.to_vec();
                s.swap(x, y);
                let b = self.make_plain(dt, &s, r)?;
                self.do_view(b, VOp::Transpose(x as isize, y as isize))?
            }
            2 if nd >= 1 => { // slice of something larger
                let mut s = shape.to_vec();
                let mut ix = vec![];
                for d in s.iter_mut() {
                    let (before, after) = (r.below(2), r.below(3));
                    ix.push(Ix::R(before, before + *d));
                    *d += before + after;
                }
                if prod(&s) > 4000 { self.make_plain(dt, shape, r)? } else {
                    let b = self.make_plain(dt, &s, r)?;
                    self.do_view(b, VOp::Slice(ix))?
                }
            }
            3 if nd >= 1 => { // broadcast
                let mut s = shape.to_vec();
                for d in s.iter_mut() { if r.chance(1, 2) { *d = 1 } }
                let drop = if r.chance(1, 3) { r.below(nd) } else { 0 };
                let mut k = drop;
                while k > 0 && s[k - 1] != 1 { k -= 1 }
                let s = s[k..].to_vec();
                let b = self.make_plain(dt, &s, r)?;
                self.do_view(b, VOp::Broadcast(shape.to_vec()))?
            }
            4 if nd >= 1 => { // one index of a higher dimensional array
                let ax = r.below(nd + 1);
                let len = 2 + r.below(2);
                let mut s = shape.to_vec();
                s.insert(ax, len);
                let b = self.make_plain(dt, &s, r)?;
                self.do_view(b, VOp::SliceAlong(ax as isize, Ix::At(r.below(len))))?
            }
            5 if nd >= 1 => { // diagonal
                let n = shape[nd - 1];
                let mut s = shape[..nd - 1].to_vec();
                s.push(n);
                s.push(n + r.below(2));
                if prod(&s) > 4000 { self.make_plain(dt, shape, r)? } else {
                    let b = self.make_plain(dt, &s, r)?;
                    self.do_view(b, VOp::Diag(3, 0, nd as isize - 1, nd as isize))?
                }
            }
            6 if nd >= 1 => { // every other element of a wider array
                let mut s = shape.to_vec();
                s.push(2);
                let b = self.make_plain(dt, &s, r)?;
                self.do_view(b, VOp::SliceAlong(-1, Ix::At(r.below(2))))?
            }
            7 if prod(shape) > 0 => { // reshaped owner
                let b = self.make_plain(dt, &[prod(shape)], r)?;
                self.do_consume(b, VOp::Reshape(shape.to_vec()))?
            }
            _ => self.make_plain(dt, shape, r)?,
        };
        self.begin(save.0, save.1);
        Ok(res)
    }

    /// an existing handle with this dtype and shape, or a new operand
    fn operand(&mut self, a: &mut Args, dt: Dt, shape: &[usize]) -> Result<usize, Vio> {
        let reuse = a.chance(5, 10);
        let found = self.pick_dt(a, |h| h.dt == dt && h.shape == shape);
        let mut r = a.stream();
        match found { Some(i) if reuse => Ok(i), _ => self.make_operand(dt, shape, &mut r) }
    }

    fn do_view(&mut self, i: usize, v: VOp) -> Result<usize, Vio> {
        let h = &self.h[i];
        let (shape, idx) = model_view(&h.shape, &h.idx, &v).expect("valid view");
        let ro = h.ro || matches!(v, VOp::Broadcast(_));
        // reshape needs a uniform layout unless the shape stays the same
        let may_refuse = matches!(&v, VOp::Reshape(s) if *s != h.shape) && !h.meta.uniform;
        match self.obj(i).view(&v) {
            Err(_) if may_refuse => { ct(Ct::PPanicsValid); digest(0xF0); Ok(i) }
            Err(_) => self.panicked(),
            Ok(None) => self.fail("returned None for a valid view".into()),
            Ok(Some(o)) => { ct(Ct::View); self.adopt_view(o, i, shape, idx, ro) }
        }
    }

    fn do_consume(&mut self, i: usize, v: VOp) -> Result<usize, Vio> {
        let h = &self.h[i];
        let (shape, idx) = model_view(&h.shape, &h.idx, &v).expect("valid view");
        let may_refuse = matches!(&v, VOp::Reshape(s) if *s != h.shape) && !h.meta.uniform;
        let mut h = self.h.remove(i);
        let obj = h.obj.take().unwrap();
        ct(Ct::Consume);
        match obj.consume(&v) {
            Err(_) if may_refuse => {
                // the operand was moved into the failed call and is gone
                ct(Ct::PPanicsValid);
                digest(0xF1);
                if h.owned { self.sto[h.sto].live = false; }
                if let Some(p) = h.parent { let p = self.pos(p); self.h[p].kids -= 1; }
                Ok(usize::MAX)
            }
            Err(_) => self.panicked(),
            Ok(o) => {
                let m = o.meta();
                self.meta_ok(&m, &shape)?;
                self.view_addrs(&*o, h.sto, &idx, &m)?;
                if m.view == h.owned { return self.fail(format!("consuming {} array yields is_view() = {}", if h.owned { "an owning" } else { "a non-owning" }, m.view)); }
                h.obj = Some(o);
                h.shape = shape;
                h.idx = idx;
                h.meta = m;
                h.depth += 1;
                self.push(h)
            }
        }
    }

    fn gen_ix(r: &mut Rng, d: usize) -> Ix {
        let a = r.below(d);
        let b = a + 1 + r.below(d - a);
        match r.below(8) {
            0 | 1 => Ix::At(a),
            2 | 3 => Ix::R(a, b),
            4 => Ix::From(a),
            5 => Ix::RI(a, b - 1),
            6 => if r.chance(1, 2) { Ix::To(b) } else { Ix::ToI(b - 1) },
            _ => Ix::Full,
        }
    }
    fn gen_reshape(r: &mut Rng, n: usize) -> Vec<usize> {
        let mut left = n;
        let mut s = vec![];
        for _ in 0..r.below(4) {
            let divs: Vec<usize> = (1..=left).filter(|d| left % d == 0).collect();
            let d = *r.pick(&divs);
            s.push(d);
            left /= d;
        }
        if left > 1 || s.is_empty() { let p = r.below(s.len() + 1); s.insert(p, left); }
        if n == 1 && r.chance(1, 3) { return vec![]; }
        s
    }
    fn signed_ax(r: &mut Rng, ax: usize, n: usize) -> isize {
        if r.chance(1, 3) { ax as isize - n as isize } else { ax as isize }
    }
    fn gen_view(&self, h: &H, r: &mut Rng, consuming: bool) -> VOp {
        let nd = h.shape.len();
        for _ in 0..8 {
            let k = r.weighted(if consuming { &[2, 6, 3, 4, 4, 6, 0, 0, 0, 0, 0] } else { &[2, 5, 3, 4, 3, 6, 10, 8, 7, 6, 5] });
            return match k {
                0 => VOp::View,
                1 => VOp::Reshape(Self::gen_reshape(r, prod(&h.shape))),
                2 => VOp::Squeeze,
                3 => { if nd >= 6 { continue; } let a = r.below(nd + 1); VOp::Unsqueeze(Self::signed_ax(r, a, nd + 1)) }
                4 => { if nd < 2 { continue; } VOp::T }
                5 => { if nd < 1 { continue; } let (x, y) = (r.below(nd), r.below(nd)); VOp::Transpose(Self::signed_ax(r, x, nd), Self::signed_ax(r, y, nd)) }
                6 => { let n = r.below(nd + 1); VOp::Slice((0..n).map(|i| Self::gen_ix(r, h.shape[i])).collect()) }
                7 => { if nd < 1 { continue; } let x = r.below(nd); VOp::SliceAlong(Self::signed_ax(r, x, nd), Self::gen_ix(r, h.shape[x])) }
                8 => {
                    if nd < 2 { continue; }
                    let kind = r.below(4) as u8;
                    let x = if kind < 2 { 0 } else { r.below(nd) };
                    let y = if kind < 2 { 1 } else { (x + 1 + r.below(nd - 1)) % nd };
                    let off = r.range(1 - h.shape[x] as i64, h.shape[y] as i64 - 1) as isize;
                    VOp::Diag(kind, off, Self::signed_ax(r, x, nd), Self::signed_ax(r, y, nd))
                }
                9 => {
                    let mut s: Vec<usize> = h.shape.iter().map(|&d| if d == 1 && r.chance(2, 3) { 1 + r.below(4) } else { d }).collect();
                    for _ in 0..r.below(3) { if s.len() < 6 { s.insert(0, 1 + r.below(3)); } }
                    if prod(&s) > 400 { continue; }
                    VOp::Broadcast(s)
                }
                _ => {
                    if h.dt.boolean() || nd == 0 { continue; }
                    // permutation, possibly with a repeated label (diagonal)
                    let mut labs: Vec<u8> = (0..nd).map(|i| b'a' + i as u8).collect();
                    if nd >= 2 && r.chance(1, 2) {
                        let x = r.below(nd);
                        let y = r.below(nd);
                        if x != y && h.shape[x] == h.shape[y] { labs[y.max(x)] = labs[y.min(x)]; }
                    }
                    let mut out: Vec<u8> = vec![];
                    for &l in &labs { if !out.contains(&l) { let p = r.below(out.len() + 1); out.insert(p, l); } }
                    VOp::EinsumView(String::from_utf8(labs).unwrap(), String::from_utf8(out).unwrap())
                }
            };
        }
        VOp::View
    }

    // ---- steps -------------------------------------------------------------------------------

    pub fn step(&mut self, no: u32, st: &Step) -> R {
        shm().step = no;
        self.stepno = no;
        heap::set_step(no);
        let before = shm().ndig;
        let done = fault_step(matches!(st.op, op::INVALID | op::TRAP | op::USERPANIC), || self.dispatch(st))?;
        ct(if done { Ct::Steps } else { Ct::Skipped });
        if shm().ndig == before { digest(done as u64); }
        self.post()?;
        self.begin(Cat::Drop, "drop surplus handle".into());
        self.trim()?;
        self.post()?;
        set_cat(Cat::Idle, "");
        Ok(())
    }

    fn dispatch(&mut self, st: &Step) -> Result<bool, Vio> {
        let mut a = Args::new(&st.a);
        let a = &mut a;
        match st.op {
            op::CREATE => self.s_create(a),
            op::VIEW => {
                let Some(i) = self.pick(a, Pick::Any) else { return Ok(false) };
                let v = self.gen_view(&self.h[i], &mut a.stream(), false);
                self.begin(Cat::View, format!("{:?} of {}", v, self.desc(i)));
                self.do_view(i, v)?;
                Ok(true)
            }
            op::CONSUME => {
                let Some(i) = self.pick(a, Pick::Free) else { return Ok(false) };
                let v = self.gen_view(&self.h[i], &mut a.stream(), true);
                self.begin(Cat::View, format!("{:?} consuming {}", v, self.desc(i)));
                self.do_consume(i, v)?;
                Ok(true)
            }
            op::DROP => {
                let Some(i) = self.pick(a, Pick::Free) else { return Ok(false) };
                self.begin(Cat::Drop, format!("drop {}", self.desc(i)));
                self.drop_handle(i)?;
                Ok(true)
            }
            op::WINDEX => self.s_windex(a),
            op::FILL => self.s_fill(a),
            op::IOP => self.s_iop(a),
            op::IOPS => self.s_iops(a),
            op::RED => self.s_red(a),
            op::SWEEP => self.s_sweep(a),
            op::REDAX => self.s_redax(a),
            op::BIN => self.s_bin(a),
            op::BINS => self.s_bins(a),
            op::NEG => self.s_neg(a),
            op::MAT => self.s_mat(a),
            op::EINSUM => self.s_einsum(a),
            op::RINDEX => self.s_rindex(a),
            op::EQ => self.s_eq(a),
            op::COPY => self.s_copy(a),
            op::TRACE => self.s_trace(a),
            op::PRINT => self.s_print(a),
            op::CUROPEN => self.s_curopen(a),
            op::CURSTEP => self.s_curstep(a),
            op::CURCLOSE => {
                if self.cur.is_empty() { return Ok(false); }
                let k = a.below(self.cur.len());
                self.begin(Cat::Cursor, "drop cursor".into());
                let mut c = self.cur.remove(k);
                let p = self.pos(c.parent);
                self.h[p].kids -= 1;
                if c.obj.close().is_err() { return self.panicked(); }
                Ok(true)
            }
            op::INVALID => self.s_invalid(a),
            op::TRAP => self.s_trap(a),
            op::USERPANIC => {
                let Some(i) = self.pick_dt(a, |h| !h.shape.is_empty()) else { return Ok(false) };
                let mut r = a.stream();
                let nd = self.h[i].shape.len();
                let n = 1 + r.below(nd);
                let ix: Vec<Ix> = (0..n).map(|k| Self::gen_ix(&mut r, self.h[i].shape[k])).collect();
                let at = r.below(n + 1);
                self.begin(Cat::Reject, format!("slice {} with an iterator that panics at item {at}", self.desc(i)));
                ct(Ct::UserPanic);
                match self.obj(i).slice_panicking(&ix, at) {
                    Err(_) => { digest(0xBAD); Ok(true) }
                    Ok(_) => self.fail("the caller's panic disappeared".into()),
                }
            }
            op::SINK => {
                let Some(i) = self.pick(a, Pick::Any) else { return Ok(false) };
                let k = a.raw() as u8;
                let mut r = a.stream();
                self.begin(Cat::Sink, format!("print {} into failing sinks, form {}", self.desc(i), k % 7));
                let o = self.obj(i);
                crate::sink::probe(&self.name, &mut r, &|w| o.debug_to(k, w))?;
                Ok(true)
            }
            op::STDERR => {
                self.begin(Cat::Idle, "standard error fails".into());
                if self.cfg.stderr { crate::sink::stderr_state(a.raw() % 6); }
                Ok(true)
            }
            _ => Ok(false),
        }
    }

    fn s_create(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let k = a.below(14);
        let mut r = a.stream();
        let dt = self.gen_dt(&mut r);
        let mut shape = self.gen_shape(&mut r);
        if k == 13 && !dt.boolean() && !wild() { shape = vec![1 + r.below(9)]; }
        let n = prod(&shape);
        self.begin(Cat::Create, format!("create {} {:?} kind {k}", dt.name(), shape));
        ct(Ct::Create);
        if shape.is_empty() { ct(Ct::PScalar0d); }
        if n > 64 { ct(Ct::PBig); }
        let (kind, vals): (u8, Vec<i128>) = match k {
            6 => { let v = self.gen_val(dt, &mut r); (1, vec![v; n]) }
            7 => (2, vec![one_of(dt, 0); n]),
            8 => (3, vec![one_of(dt, dt.one()); n]),
            13 if !dt.boolean() && !wild() => {
                let kd = 6 + r.below(if dt.float() { 4 } else { 2 }) as u8;
                if kd == 8 { shape[0] = *r.pick(&[1, 2, 3, 5, 9]); }
                (kd, vec![r.below(5) as i128])
            }
            _ if shape.is_empty() => (4, vec![self.gen_val(dt, &mut r)]),
            _ => (if k >= 10 { 5 } else { 0 }, self.gen_vals(dt, n, &mut r)),
        };
        if kind >= 6 {
            // what these constructors compute is not judged here, only what becomes of their arrays
            return match create(dt, kind, &shape, &vals) {
                Ok(o) => { let m = o.meta(); self.adopt_owned(o, dt, m.shape, None)?; Ok(true) }
                Err(_) => { digest(0xA4A); Ok(true) }
            };
        }
        match create(dt, kind, &shape, &vals) {
            Ok(o) => { self.adopt_owned(o, dt, shape, Some(vals))?; Ok(true) }
            Err(_) => self.panicked(),
        }
    }

    fn note_operand(&self, i: usize) {
        let h = &self.h[i];
        if !h.meta.uniform { ct(Ct::PNonUnif) }
        if h.meta.stride.iter().zip(&h.shape).any(|(&s, &d)| s == 0 && d > 1) { ct(Ct::PBroadcast) }
        if h.idx.len() > 64 { ct(Ct::PBig) }
        if h.shape.is_empty() { ct(Ct::PScalar0d) }
        let mut sig = hash2(mix(h.dt.0 as u64 + 77), self.name.bytes().take(9).fold(7, |a, b| hash2(a, b as u64)));
        for (a, b) in h.shape.iter().zip(&h.meta.stride) { sig = hash2(sig, (*a as u64) << 32 | *b as u64); }
        reached(sig);
    }

    /// picks a handle that may be written; read-only ones become refused writes
    fn writable(&mut self, a: &mut Args, f: impl Fn(&H) -> bool) -> Option<usize> {
        self.pick_dt(a, |h| h.kids == 0 && f(h))
    }

    fn wrote(&mut self, i: usize, k: usize, v: i128) {
        let s = self.h[i].sto;
        let p = self.h[i].idx[k] as usize;
        self.sto[s].vals[p] = v;
    }
    fn written(&mut self, i: usize) {
        self.writes += 1;
        let s = self.h[i].sto;
        if self.h.iter().filter(|h| h.sto == s).count() > 1 { ct(Ct::AliasWriteSeen) }
    }

    /// the outcome of a write attempt on handle i: true = go on and update the model
    fn write_result(&mut self, i: usize, r: P<()>) -> Result<bool, Vio> {
        digest(r.is_ok() as u64 + 0x70);
        if self.h[i].ro {
            ct(Ct::ROWrite);
            return match r {
                Err(_) => Ok(false),
                Ok(()) => vio("readonly", format!("{}: a write through a read-only view was accepted", self.name)),
            };
        }
        match r { Ok(()) => { self.written(i); Ok(true) } Err(_) if !self.cfg.exact => Ok(false), Err(_) => self.panicked() }
    }

    fn s_windex(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.writable(a, |h| h.shape.len() <= 6) else { return Ok(false) };
        let mut r = a.stream();
        let h = &self.h[i];
        let k = r.below(h.idx.len());
        let ix = unravel(k, &h.shape);
        let v = self.gen_val(h.dt, &mut r);
        self.begin(Cat::Write, format!("{}[{:?}] = {v}", self.desc(i), ix));
        ct(Ct::WIndex);
        self.note_operand(i);
        let one = ix.len() == 1 && r.chance(1, 2);
        let o = self.h[i].obj.as_mut().unwrap();
        let res = if one { o.set1(ix[0], v) } else { o.set(&ix, v) };
        if self.write_result(i, res)? { self.wrote(i, k, v); }
        Ok(true)
    }

    fn s_fill(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.writable(a, |_| true) else { return Ok(false) };
        let mut r = a.stream();
        let zero = r.chance(1, 3);
        let dt = self.h[i].dt;
        let v = if zero { one_of(dt, 0) } else { self.gen_val(dt, &mut r) };
        self.begin(Cat::Write, format!("{} of {}", if zero { "zero" } else { "fill" }, self.desc(i)));
        ct(Ct::WFill);
        self.note_operand(i);
        let o = self.h[i].obj.as_mut().unwrap();
        let res = if zero { o.zero() } else { o.fill(v) };
        if self.write_result(i, res)? { for k in 0..self.h[i].idx.len() { self.wrote(i, k, v) } }
        Ok(true)
    }

    fn gen_op(dt: Dt, r: &mut Rng) -> u8 {
        if dt.float() { *r.pick(&[0, 1, 2, 0, 1, 2, 3, 4]) } else { *r.pick(&[0, 1, 2, 0, 1, 2, 4, 5, 6, 7, 8]) }
    }

    /// values of an operand prepared so that `o` is exact: rewrites a fresh rhs
    fn rhs_for(&mut self, dt: Dt, o: u8, shape: &[usize], r: &mut Rng) -> Result<usize, Vio> {
        let i = self.make_operand(dt, shape, r)?;
        if self.cfg.exact && (o == 3 || o == 4 || o == 7 || o == 8) {
            // fill the new operand's whole storage with admissible values through its owner
            let s = self.h[i].sto;
            let n = self.sto[s].vals.len();
            for k in 0..n {
                let v = self.gen_scalar(dt, o, r);
                self.sto[s].vals[k] = v;
                poke(dt, self.sto[s].base, k, v);
            }
        }
        Ok(i)
    }

    fn s_iop(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.writable(a, |h| !h.dt.boolean()) else { return Ok(false) };
        let id = self.h[i].id;
        let dt = self.h[i].dt;
        let mut r = a.stream();
        let o = Self::gen_op(dt, &mut r);
        let sh = self.h[i].shape.clone();
        // rhs shape: same, or broadcastable into lhs
        let mut rs = sh.clone();
        if r.chance(2, 5) {
            for d in rs.iter_mut() { if r.chance(1, 2) { *d = 1 } }
            let mut cut = 0;
            while cut < rs.len() && rs[cut] == 1 && r.chance(1, 2) { cut += 1 }
            rs = rs[cut..].to_vec();
        }
        self.begin(Cat::Write, "prepare in-place operand".into());
        let reuse = self.pick_dt(a, |h| h.dt == dt && h.shape == rs && h.id != id);
        let j = match reuse {
            Some(j) if r.chance(1, 2) => j,
            _ => self.rhs_for(dt, o, &rs, &mut r)?,
        };
        let i = self.pos(id);
        if i == j { return Ok(false); }
        // overlapping operands: only the element-for-element identical mapping is unambiguous
        if self.h[i].sto == self.h[j].sto && self.h[i].idx != self.h[j].idx {
            let l: std::collections::HashSet<u32> = self.h[i].idx.iter().copied().collect();
            if self.h[j].idx.iter().any(|x| l.contains(x)) { ct(Ct::Skipped); return Ok(false); }
        }
        let lv = self.vals(i);
        let rv = bcast(&self.vals(j), &self.h[j].shape, &sh);
        let mut nv = vec![];
        if self.cfg.exact {
            for k in 0..lv.len() { match el_op(dt, o, lv[k], rv[k]) { Some(x) => nv.push(x), None => return Ok(false) } }
        }
        let by_val = r.chance(1, 3) && self.h[j].kids == 0 && self.h[j].id != self.h[i].parent.unwrap_or(0);
        self.begin(Cat::Write, format!("{} op{o}= {}{}", self.desc(i), self.desc(j), if by_val { " (by value)" } else { "" }));
        ct(Ct::WInplace);
        self.note_operand(i);
        self.note_operand(j);
        let mut lo = self.h[i].obj.take().unwrap();
        let res;
        if by_val {
            let jid = self.h[j].id;
            let mut hj = { let j = self.pos(jid); self.remove(j) };
            if hj.owned { self.sto[hj.sto].live = false; }
            res = lo.iop_own(o, hj.obj.take().unwrap());
            ct(Ct::Consume);
        } else {
            res = lo.iop(o, self.obj(j));
        }
        let i = self.pos(id);
        self.h[i].obj = Some(lo);
        if self.write_result(i, res)? && self.cfg.exact { for (k, v) in nv.into_iter().enumerate() { self.wrote(i, k, v) } }
        Ok(true)
    }

    fn s_iops(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.writable(a, |h| !h.dt.boolean()) else { return Ok(false) };
        let dt = self.h[i].dt;
        let mut r = a.stream();
        let o = Self::gen_op(dt, &mut r);
        let s = self.gen_scalar(dt, o, &mut r);
        let lv = self.vals(i);
        let mut nv = vec![];
        if self.cfg.exact { for x in lv { match el_op(dt, o, x, s) { Some(x) => nv.push(x), None => return Ok(false) } } }
        self.begin(Cat::Write, format!("{} op{o}= scalar", self.desc(i)));
        ct(Ct::WScalar);
        self.note_operand(i);
        let res = self.h[i].obj.as_mut().unwrap().iop_s(o, s);
        if self.write_result(i, res)? && self.cfg.exact { for (k, v) in nv.into_iter().enumerate() { self.wrote(i, k, v) } }
        Ok(true)
    }

    /// registers the result of a read operation (kept as a handle so that isolation is observed)
    fn result(&mut self, r: P<Obj>, dt: Dt, shape: Vec<usize>, exp: Option<Vec<i128>>) -> Result<bool, Vio> {
        match r {
            Ok(o) => { self.adopt_owned(o, dt, shape, exp)?; Ok(true) }
            Err(_) if !self.cfg.exact => { digest(0xE77); Ok(true) }
            Err(_) => self.panicked(),
        }
    }

    /// one operand of some element type, length and layout, and a few calls on it
    fn s_sweep(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let mut r = a.stream();
        self.sparse = r.chance(3, 4);
        let mut did = false;
        for _ in 0..1 + r.below(4) {
            let dt = Dt(r.below(14) as u8);
            let n = match r.weighted(&[1, 3, 6, 1]) { 0 => 1 + r.below(8), 1 => r.range(8, 40) as usize, 2 => r.range(40, 300) as usize, _ => r.range(300, 2000) as usize };
            let k = 1 + r.below(5);
            let shape = match r.below(10) { 0..=5 => vec![n], 6 => vec![k, n], 7 => vec![n, k], 8 => vec![1 + r.below(3), k, n.min(300)], _ => vec![1 + r.below(3), n.min(300), k] };
            if prod(&shape) > 4000 { continue; }
            let first = self.nid;
            let i = self.make_operand(dt, &shape, &mut r)?;
            let id = self.h[i].id;
            for _ in 0..2 + r.below(3) {
                if !self.h.iter().any(|h| h.id == id) { break; }
                let args = [0, r.u32(), r.u32(), r.u32(), r.u32(), r.u32()];
                let b = &mut Args::new(&args);
                did |= match r.below(12) {
                    0..=3 => self.s_red(b),
                    4 | 5 => self.s_redax(b),
                    6 => self.s_bin(b),
                    7 => self.s_bins(b),
                    8 => if dt.unsigned() { self.s_copy(b) } else { self.s_neg(b) },
                    9 => self.s_mat(b),
                    10 => self.s_eq(b),
                    _ => self.s_copy(b),
                }?;
                self.forget_since(id + 1)?;
            }
            self.forget_since(first)?;
        }
        self.sparse = false;
        Ok(did)
    }
    /// drops what was made since handle `id`
    fn forget_since(&mut self, id: u64) -> R {
        while let Some(i) = (0..self.h.len()).rev().find(|&i| self.h[i].id >= id && self.h[i].kids == 0) { self.drop_handle(i)?; }
        Ok(())
    }

    fn s_red(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick_dt(a, |h| !h.dt.boolean()) else { return Ok(false) };
        let dt = self.h[i].dt;
        let k = a.below(if dt.float() { 7 } else { 6 }) as u8;
        let v = self.vals(i);
        let e = if self.cfg.exact { match reduce(dt, k, &v) { Some(x) => Some(vec![x]), None => return Ok(false) } } else { None };
        self.begin(Cat::Read, format!("reduce {k} of {}", self.desc(i)));
        ct(Ct::RReduce);
        self.note_operand(i);
        let r = self.obj(i).red(k);
        self.result(r, dt, vec![], e)
    }

    fn s_redax(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick_dt(a, |h| !h.dt.boolean() && !h.shape.is_empty()) else { return Ok(false) };
        let dt = self.h[i].dt;
        let k = a.below(if dt.float() { 7 } else { 6 }) as u8;
        let mut r = a.stream();
        let nd = self.h[i].shape.len();
        let mut axes: Vec<usize> = (0..nd).filter(|_| r.chance(1, 2)).collect();
        if axes.is_empty() && r.chance(4, 5) { axes.push(r.below(nd)); }
        for _ in 0..2 { if axes.len() > 1 { let x = r.below(axes.len()); let y = r.below(axes.len()); axes.swap(x, y); } }
        let v = self.vals(i);
        let sh = self.h[i].shape.clone();
        let os: Vec<usize> = (0..nd).filter(|x| !axes.contains(x)).map(|x| sh[x]).collect();
        let e = if self.cfg.exact { match reduce_axes(dt, k, &v, &sh, &axes) { Some(x) => Some(x.1), None => return Ok(false) } } else { None };
        let ax: Vec<isize> = axes.iter().map(|&x| if k == 6 { x as isize } else { Self::signed_ax(&mut r, x, nd) }).collect();
        self.begin(Cat::Read, format!("reduce {k} along {:?} of {}", ax, self.desc(i)));
        ct(Ct::RReduceAx);
        self.note_operand(i);
        let form = r.below(5) as u8;
        let r = self.obj(i).red_ax(k, ax, form);
        self.result(r, dt, os, e)
    }

    fn s_bin(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick_dt(a, |h| !h.dt.boolean()) else { return Ok(false) };
        let dt = self.h[i].dt;
        let id = self.h[i].id;
        let sh = self.h[i].shape.clone();
        let mut r = a.stream();
        let o = Self::gen_op(dt, &mut r);
        let mut rs = sh.clone();
        if r.chance(1, 2) {
            for d in rs.iter_mut() { if *d == 1 { if r.chance(1, 3) { *d = 1 + r.below(4) } } else if r.chance(1, 3) { *d = 1 } }
            let mut cut = 0;
            while cut < rs.len() && r.chance(1, 4) { cut += 1 }
            rs = rs[cut..].to_vec();
            if r.chance(1, 5) && rs.len() < 5 { rs.insert(0, 1 + r.below(3)); }
            if prod(&bshape(&sh, &rs).unwrap_or(vec![9999])) > 600 { return Ok(false); }
        }
        self.begin(Cat::Read, "prepare operand".into());
        let reuse = self.pick_dt(a, |h| h.dt == dt && bshape(&h.shape, &sh).map_or(false, |s| prod(&s) <= 600));
        let j = match reuse { Some(j) if r.chance(1, 2) => j, _ => self.rhs_for(dt, o, &rs, &mut r)? };
        let i = self.pos(id);
        let (i, j) = if o < 3 && r.chance(1, 2) { (j, i) } else { (i, j) };
        let (iid, jid) = (self.h[i].id, self.h[j].id);
        let os = bshape(&self.h[i].shape, &self.h[j].shape).unwrap();
        let mut e = None;
        if self.cfg.exact {
            let lv = bcast(&self.vals(i), &self.h[i].shape, &os);
            let rv = bcast(&self.vals(j), &self.h[j].shape, &os);
            let mut nv = vec![];
            for k in 0..lv.len() { match el_op(dt, o, lv[k], rv[k]) { Some(x) => nv.push(x), None => return Ok(false) } }
            e = Some(nv);
        }
        let mut form = r.below(5);
        let can = |w: &WA, x: u64, y: u64| { let p = w.pos(x); w.h[p].kids == 0 && x != y && w.h[w.pos(y)].parent != Some(x) };
        if (form == 1 || form == 3) && !can(self, iid, jid) { form = 0; }
        if (form == 2 || form == 3) && !can(self, jid, iid) { form = 0; }
        if form == 4 { form = 0; }
        self.begin(Cat::Read, format!("{} op{o} {} form {form}", self.desc(i), self.desc(j)));
        ct(Ct::RBin);
        self.note_operand(i);
        self.note_operand(j);
        let mut taken: Vec<Obj> = vec![];
        let mut take = |w: &mut WA, x: u64| {
            let p = w.pos(x);
            let mut h = w.remove(p);
            if h.owned { w.sto[h.sto].live = false; }
            ct(Ct::Consume);
            taken.push(h.obj.take().unwrap());
        };
        let res = match form {
            1 => { take(self, iid); let l = taken.pop().unwrap(); l.bin_own(o, self.obj(self.pos(jid))) }
            2 => { take(self, jid); let rr = taken.pop().unwrap(); self.obj(self.pos(iid)).bin_ro(o, rr) }
            3 => { take(self, iid); let l = taken.pop().unwrap(); let mut take2 = |w: &mut WA, x: u64| { let p = w.pos(x); let mut h = w.remove(p); if h.owned { w.sto[h.sto].live = false; } h.obj.take().unwrap() }; let rr = take2(self, jid); l.bin_oo(o, rr) }
            _ => self.obj(i).bin(o, self.obj(j)),
        };
        self.result(res, dt, os, e)
    }

    fn s_bins(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick_dt(a, |h| !h.dt.boolean()) else { return Ok(false) };
        let dt = self.h[i].dt;
        let mut r = a.stream();
        let o = Self::gen_op(dt, &mut r);
        let s = self.gen_scalar(dt, o, &mut r);
        let mut e = None;
        if self.cfg.exact {
            let mut nv = vec![];
            for x in self.vals(i) { match el_op(dt, o, x, s) { Some(x) => nv.push(x), None => return Ok(false) } }
            e = Some(nv);
        }
        let own = r.chance(1, 3) && self.h[i].kids == 0;
        let sh = self.h[i].shape.clone();
        self.begin(Cat::Read, format!("{} op{o} scalar{}", self.desc(i), if own { " consuming" } else { "" }));
        ct(Ct::RScalar);
        self.note_operand(i);
        let res = if own {
            let mut h = self.remove(i);
            if h.owned { self.sto[h.sto].live = false; }
            ct(Ct::Consume);
            h.obj.take().unwrap().bin_s_own(o, s)
        } else { self.obj(i).bin_s(o, s) };
        self.result(res, dt, sh, e)
    }

    fn s_neg(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick_dt(a, |h| !h.dt.boolean() && !h.dt.unsigned()) else { return Ok(false) };
        let dt = self.h[i].dt;
        let own = a.chance(1, 3) && self.h[i].kids == 0;
        let e = if self.cfg.exact { Some(self.vals(i).iter().map(|x| -x).collect()) } else { None };
        let sh = self.h[i].shape.clone();
        self.begin(Cat::Read, format!("neg {}{}", self.desc(i), if own { " consuming" } else { "" }));
        ct(Ct::RUnary);
        self.note_operand(i);
        let res = if own {
            let mut h = self.remove(i);
            if h.owned { self.sto[h.sto].live = false; }
            ct(Ct::Consume);
            h.obj.take().unwrap().neg_own()
        } else { self.obj(i).neg() };
        self.result(res, dt, sh, e)
    }

    fn s_mat(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let mut r = a.stream();
        let want = r.below(4); // 0 dot 1 mat-vec 2 mat-mat 3 bmm
        let ndl = [1, 2, 2, 3][want];
        let found = self.pick_dt(a, |h| !h.dt.boolean() && h.shape.len() == ndl);
        let big = self.cfg.big;
        let dims = |r: &mut Rng| if big >= 2 && r.chance(1, 2) { 30 + r.below(50) } else if r.chance(1, 8) { 9 + r.below(30) } else { 1 + r.below(6) };
        self.begin(Cat::Read, "prepare matrix operand".into());
        let i = match found { Some(i) if r.chance(2, 3) => i, _ => {
            let dt = loop { let d = self.gen_dt(&mut r); if !d.boolean() { break d } if self.cfg.dts == 1 << 14 { return Ok(false); } };
            let s: Vec<usize> = (0..ndl).map(|_| dims(&mut r)).collect();
            if prod(&s) > if big >= 2 { 20000 } else { 900 } { return Ok(false); }
            self.make_operand(dt, &s, &mut r)?
        } };
        let id = self.h[i].id;
        let dt = self.h[i].dt;
        let sh = self.h[i].shape.clone();
        let n = if big >= 2 && r.chance(1, 2) { 6 + r.below(70) } else if r.chance(1, 12) { 6 + r.below(14) } else { 1 + r.below(5) };
        if want > 1 && prod(&sh) * n > 400_000 { return Ok(false); }
        let rs = match want { 0 => vec![sh[0]], 1 => vec![sh[1]], 2 => vec![sh[1], n], _ => vec![sh[0], sh[2], n] };
        let j = self.operand(a, dt, &rs)?;
        let i = self.pos(id);
        let (labs, out) = match want {
            0 => (["i", "i"], ""),
            1 => (["ij", "j"], "i"),
            2 => (["ij", "jk"], "ik"),
            _ => (["bij", "bjk"], "bik"),
        };
        let os = match want { 0 => vec![], 1 => vec![sh[0]], 2 => vec![sh[0], rs[1]], _ => vec![sh[0], sh[1], rs[2]] };
        let mut e = None;
        if self.cfg.exact {
            let l: Vec<String> = labs.iter().map(|s| s.to_string()).collect();
            let ops = [(sh.clone(), self.vals(i)), (self.h[j].shape.clone(), self.vals(j))];
            match model_einsum(dt, &ops, &l, out) { Some(x) => e = Some(x.1), None => return Ok(false) }
        }
        let own = r.chance(1, 4) && self.h[j].kids == 0 && i != j && self.h[i].parent != Some(self.h[j].id);
        let k = match want { 0 => r.below(2) as u8, 3 => 2, _ => 1 };
        self.begin(Cat::Read, format!("{} of {} and {}{}", ["dot", "matmul", "bmm"][k as usize], self.desc(i), self.desc(j), if own { " (rhs by value)" } else { "" }));
        ct(Ct::RMat);
        self.note_operand(i);
        self.note_operand(j);
        let res = if own {
            let mut h = self.remove(j);
            if h.owned { self.sto[h.sto].live = false; }
            ct(Ct::Consume);
            self.obj(self.pos(id)).mat_own(k, h.obj.take().unwrap())
        } else { self.obj(i).mat(k, self.obj(j)) };
        self.result(res, dt, os, e)
    }

    fn s_einsum(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let mut r = a.stream();
        let first = self.pick_dt(a, |h| !h.dt.boolean() && !h.shape.is_empty() && h.shape.len() <= 5);
        let nops = 1 + r.weighted(&[26, 34, 24, 12, 4]);
        const NL: usize = 8;
        let mut ldim = [0usize; NL];
        let mut labs: Vec<String> = vec![];
        let mut ids: Vec<u64> = vec![];
        let mut dt = None;
        self.begin(Cat::Read, "prepare einsum operand".into());
        if let Some(i) = first {
            if r.chance(2, 3) {
                let h = &self.h[i];
                dt = Some(h.dt);
                let mut l = String::new();
                for (k, &d) in h.shape.iter().enumerate() {
                    // repeat an earlier label of equal length now and then
                    let rep = (0..k).find(|&p| h.shape[p] == d && r.chance(1, 3)).map(|p| l.as_bytes()[p]);
                    let c = match rep { Some(c) => c, None => { let x = (0..NL).find(|&x| ldim[x] == 0).unwrap(); ldim[x] = d; b'a' + x as u8 } };
                    l.push(c as char);
                }
                ids.push(h.id);
                labs.push(l);
            }
        }
        let dt = match dt { Some(d) => d, None => loop { let d = self.gen_dt(&mut r); if !d.boolean() { break d } if self.cfg.dts == 1 << 14 { return Ok(false); } } };
        let big = self.cfg.big;
        for x in ldim.iter_mut() { if *x == 0 { *x = if big > 0 && r.chance(1, 3) { 5 + r.below(if big > 1 { 40 } else { 14 }) } else { 1 + r.below(4) } } }
        let nlab = 2 + r.weighted(&[4, 4, 4, 3, 2, 1, 1]);
        while labs.len() < nops {
            let k = 1 + r.weighted(&[5, 6, 5, 2, 1]);
            let mut l = String::new();
            for _ in 0..k {
                let c = (b'a' + r.below(nlab.min(NL)) as u8) as char;
                if l.contains(c) && !r.chance(1, 3) { continue; }
                l.push(c);
            }
            let s: Vec<usize> = l.bytes().map(|c| ldim[(c - b'a') as usize]).collect();
            if prod(&s) > if big > 1 { 5000 } else { 500 } { return Ok(false); }
            let j = self.operand(a, dt, &s)?;
            ids.push(self.h[j].id);
            labs.push(l);
        }
        let mut used: Vec<u8> = vec![];
        for l in &labs { for c in l.bytes() { if !used.contains(&c) { used.push(c) } } }
        if used.iter().map(|c| ldim[(*c - b'a') as usize]).product::<usize>() > if big > 1 { 100_000 } else { 4000 } { return Ok(false); }
        let mut out = vec![];
        for &c in &used { if r.chance(1, 2) { let p = r.below(out.len() + 1); out.insert(p, c); } }
        let out = String::from_utf8(out).unwrap();
        let is: Vec<usize> = ids.iter().map(|&x| self.pos(x)).collect();
        let os: Vec<usize> = out.bytes().map(|c| ldim[(c - b'a') as usize]).collect();
        let mut e = None;
        if self.cfg.exact {
            let ops: Vec<(Vec<usize>, Vec<i128>)> = is.iter().map(|&i| (self.h[i].shape.clone(), self.vals(i))).collect();
            match model_einsum(dt, &ops, &labs, &out) { Some(x) => e = Some(x.1), None => return Ok(false) }
        }
        self.begin(Cat::Read, format!("einsum {:?}->{out:?} of {}", labs, is.iter().map(|&i| self.desc(i)).collect::<Vec<_>>().join(", ")));
        ct(Ct::REinsum);
        if is.len() == 1 && out.len() == labs[0].len() { ct(Ct::EinsumDiag); }
        for &i in &is { self.note_operand(i) }
        reached(labs.iter().fold(out.bytes().fold(3, |a, b| hash2(a, b as u64)), |a, l| l.bytes().fold(hash2(a, 1), |a, b| hash2(a, b as u64))));
        let rest: Vec<&dyn Real> = is[1..].iter().map(|&i| self.obj(i)).collect();
        let res = self.obj(is[0]).einsum(&rest, &labs, &out);
        self.result(res, dt, os, e)
    }

    fn s_rindex(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, Pick::Any) else { return Ok(false) };
        let k = a.raw() as usize % self.h[i].idx.len();
        let form = a.below(4);
        let ix = unravel(k, &self.h[i].shape);
        let e = self.vals(i)[k];
        self.begin(Cat::Read, format!("read {:?} of {} form {form}", ix, self.desc(i)));
        ct(Ct::RIndex);
        self.note_operand(i);
        let o = self.obj(i);
        let v = if form == 3 {
            match o.flat() { Ok(v) => {
                if v != self.vals(i) { return vio("cursor", format!("iteration yields {:?}, expected {:?}", &v[..v.len().min(10)], &self.vals(i)[..v.len().min(10)])); }
                Ok(v[k])
            } Err(e) => Err(e) }
        } else if ix.len() == 1 && form == 1 { o.index1(ix[0]) }
        else if self.h[i].idx.len() == 1 && form == 2 { o.value() }
        else { if ix.len() > 6 { return Ok(false); } o.index(&ix) };
        ct(Ct::Checks);
        match v {
            Ok(v) => { digest(hash2(0x1D, v as u64)); if v != e { return self.fail(format!("read {}, expected {}", self.show(self.h[i].dt, v), self.show(self.h[i].dt, e))); } Ok(true) }
            Err(_) => self.panicked(),
        }
    }

    fn s_eq(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, Pick::Any) else { return Ok(false) };
        let dt = self.h[i].dt;
        let sh = self.h[i].shape.clone();
        let form = a.below(4) as u8;
        let mut r = a.stream();
        let id = self.h[i].id;
        let sto = self.h[i].sto;
        let j = match r.below(5) {
            0 => match self.pick_dt(a, |h| h.dt == dt) { Some(j) => j, None => return Ok(false) },
            // another window on the same storage
            3 => match self.pick_dt(a, |h| h.sto == sto && h.id != id && h.shape == sh) { Some(j) => j, None => i },
            4 => {
                let sq: Vec<usize> = (0..sh.len()).filter(|&x| (0..sh.len()).any(|y| y != x && sh[y] == sh[x])).collect();
                if sq.is_empty() { self.begin(Cat::View, "view".into()); self.do_view(i, VOp::View)? } else {
                    let x = sq[r.below(sq.len())];
                    let y = (0..sh.len()).find(|&y| y != x && sh[y] == sh[x]).unwrap();
                    self.begin(Cat::View, format!("swap equal axes {x},{y} of {}", self.desc(i)));
                    self.do_view(i, VOp::Transpose(x as isize, y as isize))?
                }
            }
            m => {
                // a plain copy of the elements, differing in one place or not
                let mut v = self.vals(i);
                if m == 2 { let k = r.below(v.len()); v[k] = self.gen_val(dt, &mut r); }
                self.begin(Cat::Create, "plain copy".into());
                let o = match if sh.is_empty() { create(dt, 4, &sh, &v) } else { create(dt, 0, &sh, &v) } { Ok(o) => o, Err(_) => return self.panicked() };
                self.adopt_owned(o, dt, sh.clone(), Some(v))?
            }
        };
        let i = self.pos(id);
        self.begin(Cat::Read, format!("{} == {} form {form}", self.desc(i), self.desc(j)));
        ct(Ct::REq);
        ct(Ct::Checks);
        self.note_operand(i);
        let r = self.obj(i).eq(self.obj(j), form);
        match r {
            Ok(b) => {
                digest(b as u64 + 0xE0);
                if self.cfg.exact || !dt.float() {
                    let e = self.h[i].shape == self.h[j].shape && self.vals(i) == self.vals(j);
                    if b != e { return self.fail(format!("returned {b}, expected {e}")); }
                }
                Ok(true)
            }
            Err(_) => self.panicked(),
        }
    }

    fn s_copy(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let k = a.below(6);
        let Some(i) = (if k == 4 { self.pick_dt(a, |h| h.owned && h.kids == 0) } else { self.pick(a, Pick::Any) }) else { return Ok(false) };
        let (dt, sh, v) = (self.h[i].dt, self.h[i].shape.clone(), self.vals(i));
        self.begin(Cat::Read, format!("copy kind {k} of {}", self.desc(i)));
        ct(Ct::RCopy);
        self.note_operand(i);
        match k {
            0 | 1 => { let r = self.obj(i).copy(0); self.result(r, dt, sh, Some(v)) }
            2 => { let n = v.len(); let r = self.obj(i).copy(1); self.result(r, dt, vec![n], Some(v)) }
            3 => {
                let claims = self.h[i].meta.contiguous;
                match self.obj(i).data_slice() {
                    Ok(s) => { ct(Ct::Checks); if s != v { return vio("read+reject", format!("{}: data slice {:?}.., expected {:?}..", self.name, &s[..s.len().min(10)], &v[..v.len().min(10)])); } Ok(true) }
                    Err(_) if !claims => { digest(0xF2); Ok(true) }
                    Err(_) => self.panicked(),
                }
            }
            5 => {
                // what the conversion computes is not judged here, only what becomes of the array
                let lim = 1i128 << if dt.float() { 20 + FSHIFT } else { 20 };
                if dt.boolean() || (self.cfg.exact && v.iter().any(|x| x.abs() > lim)) { return Ok(false); }
                let to = Dt(*a.stream().pick(&[0, 2, 8, 9, 10, 12, 13]));
                match self.obj(i).astype(to) {
                    Ok(o) => { let m = o.meta(); self.adopt_owned(o, to, m.shape, None)?; Ok(true) }
                    Err(_) => { digest(0xA57); Ok(true) }
                }
            }
            _ => {
                let claims = self.h[i].meta.contiguous;
                let mut h = self.remove(i);
                self.sto[h.sto].live = false;
                ct(Ct::Consume);
                match h.obj.take().unwrap().into_vec() {
                    Ok(s) => { ct(Ct::Checks); if s != v { return vio("read+reject", format!("{}: data vector {:?}.., expected {:?}..", self.name, &s[..s.len().min(10)], &v[..v.len().min(10)])); } Ok(true) }
                    Err(_) if !claims => { digest(0xF3); Ok(true) }
                    Err(_) => self.panicked(),
                }
            }
        }
    }

    fn s_trace(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick_dt(a, |h| !h.dt.boolean() && h.shape.len() >= 2) else { return Ok(false) };
        let mut r = a.stream();
        let h = &self.h[i];
        let (nd, dt) = (h.shape.len(), h.dt);
        let k = r.below(4) as u8;
        let x = if k < 2 { 0 } else { r.below(nd) };
        let y = if k < 2 { 1 } else { (x + 1 + r.below(nd - 1)) % nd };
        let off = r.range(1 - h.shape[x] as i64, h.shape[y] as i64 - 1) as isize;
        let (sx, sy) = (Self::signed_ax(&mut r, x, nd), Self::signed_ax(&mut r, y, nd));
        let (ds, di) = model_view(&h.shape, &h.idx, &VOp::Diag(k, off, sx, sy)).unwrap();
        let dv: Vec<i128> = di.iter().map(|&i| self.sto[h.sto].vals[i as usize]).collect();
        let os = ds[..ds.len() - 1].to_vec();
        let e = if self.cfg.exact { match reduce_axes(dt, 0, &dv, &ds, &[ds.len() - 1]) { Some(e) => Some(e.1), None => return Ok(false) } } else { None };
        self.begin(Cat::Read, format!("trace kind {k} off {off} axes {sx},{sy} of {}", self.desc(i)));
        ct(Ct::RTrace);
        self.note_operand(i);
        let res = self.obj(i).trace(k, off, sx, sy);
        self.result(res, dt, os, e)
    }

    fn s_print(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, Pick::Any) else { return Ok(false) };
        let (dt, sh, v) = (self.h[i].dt, self.h[i].shape.clone(), self.vals(i));
        self.begin(Cat::Read, format!("print {}", self.desc(i)));
        ct(Ct::RPrint);
        ct(Ct::Checks);
        self.note_operand(i);
        let t = match self.obj(i).debug() { Ok(t) => t, Err(_) => return self.panicked() };
        digest(t.bytes().fold(5, |a, b| hash2(a, b as u64)));
        // the reference text is what a fresh plain copy prints
        let c = match if sh.is_empty() { create(dt, 4, &sh, &v) } else { create(dt, 0, &sh, &v) } { Ok(o) => o, Err(_) => return self.panicked() };
        // same bits, so that the sign of a zero is copied too
        if let Ok(ad) = c.addrs() {
            let h = &self.h[i];
            for (k, p) in ad.iter().enumerate() {
                unsafe { std::ptr::copy_nonoverlapping((self.sto[h.sto].base + h.idx[k] as usize * dt.size()) as *const u8, *p as *mut u8, dt.size()) };
            }
        }
        let e = match c.debug() { Ok(t) => t, Err(_) => return self.panicked() };
        if self.cfg.exact && t != e { return self.fail(format!("printed {t:.200}, a plain copy prints {e:.200}")); }
        if c.discard().is_err() { return self.panicked(); }
        Ok(true)
    }

    fn s_curopen(&mut self, a: &mut Args) -> Result<bool, Vio> {
        if self.cur.len() >= 6 { return Ok(false); }
        let Some(i) = self.pick(a, Pick::Any) else { return Ok(false) };
        let mut r = a.stream();
        let h = &self.h[i];
        let nd = h.shape.len();
        let mut axes: Vec<usize> = vec![];
        let c = match r.weighted(&[20, 6, 16, 20, 24, 14]) {
            0 => Cu::Flat,
            1 => Cu::Ptr,
            _ if nd == 0 => Cu::Flat,
            2 => { axes = vec![0]; Cu::Iter }
            3 => { let x = r.below(nd); axes = vec![x]; Cu::Along(Self::signed_ax(&mut r, x, nd)) }
            k => {
                axes = (0..nd).filter(|_| r.chance(1, 2)).take(3).collect();
                if axes.is_empty() { axes.push(r.below(nd)) }
                let mut l = [0; 4];
                let mut sh = axes.clone();
                if r.chance(1, 3) { sh.reverse() }
                for (i, &x) in sh.iter().enumerate() { l[i] = x }
                if k == 4 { Cu::Nd(l, axes.len()) } else { Cu::NdArr(l, axes.len()) }
            }
        };
        self.begin(Cat::Cursor, format!("open {c:?} over {}", self.desc(i)));
        ct(Ct::CurOpen);
        self.note_operand(i);
        let h = &self.h[i];
        let (flat, items, item_shape) = match c {
            Cu::Flat => (0, h.idx.iter().map(|&x| vec![x]).collect(), vec![]),
            Cu::Ptr => (1, h.idx.iter().map(|&x| vec![x]).collect::<Vec<_>>(), vec![]),
            _ => {
                axes.sort();
                let it: Vec<usize> = axes.iter().map(|&x| h.shape[x]).collect();
                let rest: Vec<usize> = (0..nd).filter(|x| !axes.contains(x)).collect();
                let rs: Vec<usize> = rest.iter().map(|&x| h.shape[x]).collect();
                let items = (0..prod(&it)).map(|k| {
                    let u = unravel(k, &it);
                    (0..prod(&rs)).map(|m| {
                        let w = unravel(m, &rs);
                        let mut o = vec![0; nd];
                        for (p, &x) in axes.iter().enumerate() { o[x] = u[p] }
                        for (p, &x) in rest.iter().enumerate() { o[x] = w[p] }
                        h.idx[ravel(&o, &h.shape)]
                    }).collect()
                }).collect();
                (2, items, rs)
            }
        };
        let (sto, dt, id) = (h.sto, h.dt, h.id);
        match self.obj(i).cursor(c) {
            Ok(obj) => {
                self.h[i].kids += 1;
                self.cur.push(C { obj, parent: id, sto, dt, flat, pos: 0, items, item_shape, writes_at: self.writes });
                Ok(true)
            }
            Err(_) => self.panicked(),
        }
    }

    fn s_curstep(&mut self, a: &mut Args) -> Result<bool, Vio> {
        if self.cur.is_empty() { return Ok(false); }
        let k = a.below(self.cur.len());
        let n = 1 + a.below(4);
        let jump = a.below(7);
        if jump == 6 && a.chance(1, 2) { return self.cur_finish(k, a); }
        for _ in 0..n {
            let (pos, sto, dt, flat) = { let c = &self.cur[k]; (c.pos, c.sto, c.dt, c.flat) };
            let pi = self.pos(self.cur[k].parent);
            self.begin(Cat::Cursor, format!("cursor step {pos} of {} over {}", self.cur[k].items.len(), self.desc(pi)));
            ct(Ct::CurStep);
            ct(Ct::Checks);
            if self.cur[k].writes_at != self.writes { ct(Ct::CurWriteBetween); self.cur[k].writes_at = self.writes; }
            let left = self.cur[k].items.len().saturating_sub(pos);
            if jump == 2 {
                let (lo, hi) = match self.cur[k].obj.hint() { Ok(h) => h, Err(_) => return self.panicked() };
                if lo > left || hi.map_or(false, |h| h < left) { return self.fail(format!("announces between {lo} and {hi:?} more items, {left} are left")); }
            }
            let (it, pos) = if jump == 1 {
                let skip = a.below(4);
                (self.cur[k].obj.nth(skip), if pos + skip > self.cur[k].items.len() { self.cur[k].items.len() } else { pos + skip })
            } else { (self.cur[k].obj.step(), pos) };
            let it = match it { Ok(i) => i, Err(_) => return self.panicked() };
            self.cur[k].pos = pos;
            let c = &self.cur[k];
            let done = pos >= c.items.len();
            match it {
                None if done => { ct(Ct::CurDone); digest(0xC0); if pos > c.items.len() + 1 { return Ok(true); } self.cur[k].pos += 1; }
                None => return self.fail(format!("ended after {pos} of {} items", c.items.len())),
                Some(_) if done => return self.fail("yielded another item after the last one".into()),
                Some(Item::Val(v)) => {
                    let e = self.sto[sto].vals[c.items[pos][0] as usize];
                    digest(hash2(0xC1, v as u64));
                    if v != e && (flat != 0 || self.cfg.exact || !dt.float()) { return self.fail(format!("yielded {}, storage holds {}", self.show(dt, v), self.show(dt, e))); }
                    self.cur[k].pos += 1;
                }
                Some(Item::Addr(p)) => {
                    let e = self.sto[sto].base + c.items[pos][0] as usize * dt.size();
                    if p != e { return self.fail(format!("yielded address at position {}, expected {}", (p as i64 - self.sto[sto].base as i64) / dt.size() as i64, c.items[pos][0])); }
                    self.cur[k].pos += 1;
                }
                Some(Item::Arr(o)) => {
                    let m = o.meta();
                    let c = &self.cur[k];
                    if m.shape != c.item_shape { return self.fail(format!("yielded an item of shape {:?}, expected {:?}", m.shape, c.item_shape)); }
                    let v = match o.flat() { Ok(v) => v, Err(_) => return self.panicked() };
                    let e: Vec<i128> = c.items[pos].iter().map(|&i| self.sto[sto].vals[i as usize]).collect();
                    digest(v.iter().fold(0xC2, |a, &x| hash2(a, x as u64)));
                    if v != e && (self.cfg.exact || !dt.float()) {
                        return self.fail(format!("item {pos} is {:?}, storage holds {:?}", v.iter().take(8).map(|&x| self.show(dt, x)).collect::<Vec<_>>(), e.iter().take(8).map(|&x| self.show(dt, x)).collect::<Vec<_>>()));
                    }
                    self.cur[k].pos += 1;
                    if a.chance(1, 2) && !m.view {
                        // keep the item as an array of its own
                        let sh = m.shape.clone();
                        self.adopt_owned(o, dt, sh, Some(e))?;
                    } else if o.discard().is_err() { return self.panicked(); }
                }
            }
        }
        Ok(true)
    }

    /// exhausts a cursor from where it stands with one call
    fn cur_finish(&mut self, k: usize, a: &mut Args) -> Result<bool, Vio> {
        let form = a.below(6) as u8;
        let mut c = self.cur.remove(k);
        let p = self.pos(c.parent);
        self.begin(Cat::Cursor, format!("rest of a cursor at {} of {} over {} by {}", c.pos, c.items.len(), self.desc(p), ["count", "last", "collect", "fold", "step_by(2)", "skip(1)"][form as usize]));
        ct(Ct::CurStep);
        ct(Ct::CurDone);
        ct(Ct::Checks);
        if c.writes_at != self.writes { ct(Ct::CurWriteBetween); }
        self.h[p].kids -= 1;
        let (n, got) = match c.obj.finish(form) { Ok(x) => x, Err(_) => return self.panicked() };
        let rest: Vec<usize> = (c.pos.min(c.items.len())..c.items.len()).collect();
        let want: Vec<usize> = match form {
            0 => vec![],
            1 => rest.last().copied().into_iter().collect(),
            4 => rest.iter().copied().step_by(2).collect(),
            5 => rest.iter().copied().skip(1).collect(),
            _ => rest.clone(),
        };
        digest(hash2(0xC3, n as u64));
        if form == 0 && n != rest.len() { return self.fail(format!("counted {n}, {} are left", rest.len())); }
        if got.len() != want.len() { return self.fail(format!("yielded {} items, expected {}", got.len(), want.len())); }
        for (it, w) in got.into_iter().zip(want) {
            let e: Vec<i128> = c.items[w].iter().map(|&i| self.sto[c.sto].vals[i as usize]).collect();
            match it {
                Item::Val(v) => {
                    digest(hash2(0xC1, v as u64));
                    if v != e[0] && (c.flat != 0 || self.cfg.exact || !c.dt.float()) { return self.fail(format!("item {w} is {}, storage holds {}", self.show(c.dt, v), self.show(c.dt, e[0]))); }
                }
                Item::Addr(q) => {
                    let x = self.sto[c.sto].base + c.items[w][0] as usize * c.dt.size();
                    if q != x { return self.fail(format!("item {w} is the address of position {}, expected {}", (q as i64 - self.sto[c.sto].base as i64) / c.dt.size() as i64, c.items[w][0])); }
                }
                Item::Arr(o) => {
                    let m = o.meta();
                    if m.shape != c.item_shape { return self.fail(format!("yielded an item of shape {:?}, expected {:?}", m.shape, c.item_shape)); }
                    let v = match o.flat() { Ok(v) => v, Err(_) => return self.panicked() };
                    digest(v.iter().fold(0xC2, |a, &x| hash2(a, x as u64)));
                    if v != e && (self.cfg.exact || !c.dt.float()) { return self.fail(format!("item {w} is {:?}, storage holds {:?}", v.iter().take(8).map(|&x| self.show(c.dt, x)).collect::<Vec<_>>(), e.iter().take(8).map(|&x| self.show(c.dt, x)).collect::<Vec<_>>())); }
                    if o.discard().is_err() { return self.panicked(); }
                }
            }
        }
        Ok(true)
    }

    fn rejected<T>(&mut self, r: P<T>) -> Result<bool, Vio> {
        match r {
            Err(_) => { ct(Ct::InvalidPanicked); digest(0xDEAD); Ok(true) }
            Ok(_) => self.fail("an invalid call was accepted".into()),
        }
    }

    fn s_invalid(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let which = a.below(26);
        let mut r = a.stream();
        let Some(i) = self.pick(a, Pick::Any) else { return Ok(false) };
        let nd = self.h[i].shape.len();
        let sh = self.h[i].shape.clone();
        let dt = self.h[i].dt;
        let num = !dt.boolean();
        let d = self.desc(i);
        macro_rules! inv { ($($f:tt)*) => { self.begin(Cat::Reject, format!("invalid: {} on {d}", format!($($f)*))); ct(Ct::Invalid); } }
        let badax = |r: &mut Rng, n: usize| if r.chance(1, 2) { (n + r.below(2)) as isize } else { -(n as isize) - 1 - r.below(2) as isize };
        match which {
            0 | 1 => {
                if nd == 0 || nd > 6 { return Ok(false); }
                let mut ix = unravel(r.below(prod(&sh)), &sh);
                let ax = r.below(nd);
                ix[ax] = sh[ax] + r.below(3);
                if nd == 1 && r.chance(1, 3) {
                    let k = ix[0];
                    if which == 0 { inv!("read [{k}]"); let r = self.obj(i).index1(k); return self.rejected(r); }
                    if self.h[i].kids > 0 { return Ok(false); }
                    inv!("write [{k}]");
                    let v = self.gen_val(dt, &mut r);
                    let r = self.h[i].obj.as_mut().unwrap().set1(k, v);
                    return self.rejected(r);
                }
                if which == 0 { inv!("read index {ix:?}"); let r = self.obj(i).index(&ix); return self.rejected(r); }
                if self.h[i].kids > 0 { return Ok(false); }
                inv!("write index {ix:?}");
                let v = self.gen_val(dt, &mut r);
                let r = self.h[i].obj.as_mut().unwrap().set(&ix, v);
                self.rejected(r)
            }
            2 => {
                if nd != 1 && r.chance(1, 4) { inv!("read [0]"); let r = self.obj(i).index1(0); return self.rejected(r); }
                let n = [nd.wrapping_sub(1), nd + 1][r.below(2)];
                if n > 6 { return Ok(false); }
                let ix = vec![0; n];
                if r.chance(1, 2) || self.h[i].kids > 0 { inv!("read with {n} indices"); let r = self.obj(i).index(&ix); self.rejected(r) }
                else { inv!("write with {n} indices"); let v = self.gen_val(dt, &mut r); let r = self.h[i].obj.as_mut().unwrap().set(&ix, v); self.rejected(r) }
            }
            3 | 4 => {
                if which == 4 && (nd == 0 || r.chance(1, 4)) {
                    let x = badax(&mut r, nd);
                    let ix = match r.below(3) { 0 => Ix::Full, 1 => Ix::At(0), _ => Ix::R(0, 1) };
                    inv!("slice_along axis {x} {ix:?}");
                    let r = self.obj(i).view(&VOp::SliceAlong(x, ix));
                    return self.rejected(r);
                }
                if nd == 0 { return Ok(false); }
                let mut ix: Vec<Ix> = (0..nd).map(|k| Self::gen_ix(&mut r, sh[k])).collect();
                let k = r.below(nd);
                if r.chance(1, 6) { ix.push(Ix::At(0)); } else {
                    let l = sh[k];
                    let e = r.below(2);
                    ix[k] = match r.below(7) { 0 => Ix::At(l + e), 1 => Ix::R(r.below(l), l + 1 + e), 2 => Ix::RI(0, l + e), 3 => Ix::To(l + 1 + e), 4 => Ix::ToI(l + e), 5 => Ix::R(1 + r.below(l + 1), 0), _ => Ix::From(l + 1 + e) };
                }
                if which == 4 && ix.len() == nd {
                    inv!("slice_along {k} {:?}", ix[k]);
                    let v = VOp::SliceAlong(k as isize, ix[k].clone());
                    let r = self.obj(i).view(&v);
                    return self.rejected(r);
                }
                inv!("slice {ix:?}");
                let r = self.obj(i).view(&VOp::Slice(ix));
                self.rejected(r)
            }
            5 => { let x = badax(&mut r, nd); inv!("transpose axis {x}"); let v = if nd < 2 && r.chance(1, 2) { VOp::T } else { match r.below(4) { 0 => VOp::Transpose(x, 0), 1 => VOp::Transpose(x, x), 2 => VOp::Transpose(-1, x), _ => VOp::Transpose(0, x) } }; let r = self.obj(i).view(&v); self.rejected(r) }
            6 => { let x = badax(&mut r, nd + 1); inv!("unsqueeze axis {x}"); let r = self.obj(i).view(&VOp::Unsqueeze(x)); self.rejected(r) }
            7 => {
                let mut s = Self::gen_reshape(&mut r, prod(&sh));
                if s.is_empty() { s.push(2) } else { let k = r.below(s.len()); s[k] += 1 }
                if r.chance(1, 3) && self.h[i].kids == 0 {
                    inv!("consuming reshape {s:?}");
                    let mut h = self.remove(i);
                    if h.owned { self.sto[h.sto].live = false; }
                    let r = h.obj.take().unwrap().consume(&VOp::Reshape(s));
                    return self.rejected(r);
                }
                inv!("reshape {s:?}");
                let r = self.obj(i).view(&VOp::Reshape(s));
                self.rejected(r)
            }
            8 => {
                let s: Vec<usize> = if nd >= 1 && r.chance(1, 2) { sh[1..].to_vec() } else if r.chance(1, 3) && sh.iter().any(|&d| d > 1) { let k = *r.pick(&(0..nd).filter(|&k| sh[k] > 1).collect::<Vec<_>>()); let mut s = sh.clone(); s[k] = 1; if r.chance(1, 2) { s.insert(0, 2) } s } else { let mut s = sh.clone(); match s.iter().position(|&d| d > 1) { Some(k) => s[k] += 1, None => return Ok(false) } s };
                inv!("broadcast to {s:?}");
                let r = self.obj(i).view(&VOp::Broadcast(s));
                self.rejected(r)
            }
            9 | 10 => {
                if !num { return Ok(false); }
                let mut s = sh.clone();
                match s.iter().position(|&d| d > 1) { Some(k) => s[k] += 1, None if which == 10 => s.insert(0, 2), None => return Ok(false) }
                if which == 10 && r.chance(1, 3) { s = sh.clone(); s.insert(0, 2); }
                let o = Self::gen_op(dt, &mut r);
                let id = self.h[i].id;
                self.begin(Cat::Create, "prepare".into());
                let j = self.make_operand(dt, &s, &mut r)?;
                let i = self.pos(id);
                if which == 9 {
                    inv!("op{o} with shape {s:?}");
                    let r = if r.chance(1, 2) { self.obj(i).bin(o, self.obj(j)) } else { self.obj(j).bin(o, self.obj(i)) };
                    self.rejected(r)
                } else {
                    if self.h[i].kids > 0 { return Ok(false); }
                    inv!("op{o}= with shape {s:?}");
                    let mut l = self.h[i].obj.take().unwrap();
                    let r = l.iop(o, self.obj(j));
                    self.h[i].obj = Some(l);
                    self.rejected(r)
                }
            }
            11 => {
                if !num || nd == 0 { return Ok(false); }
                let k = r.below(if dt.float() { 7 } else { 6 }) as u8;
                let ax = match r.below(4) {
                    0 | 1 if k == 6 => vec![nd as isize + r.below(2) as isize],
                    0 => vec![badax(&mut r, nd)],
                    1 => vec![0, badax(&mut r, nd)],
                    2 if k < 6 => vec![0, -(nd as isize)],
                    _ => vec![nd as isize - 1; 2],
                };
                inv!("reduce {k} along {ax:?}");
                let form = r.below(5) as u8; let r = self.obj(i).red_ax(k, ax, form);
                self.rejected(r)
            }
            12 | 20 => {
                let v = if nd < 2 { (r.below(4) as u8, 0, 0, 1) } else if r.chance(1, 3) {
                    match r.below(4) { 0 => (2, 0, badax(&mut r, nd), 0), 1 => (3, 0, badax(&mut r, nd), 1), 2 => (1u8, sh[1] as isize, 0, 1), _ => (1, -(sh[0] as isize), 0, 1) }
                } else {
                    let (x, y) = (0isize, 1 + r.below(nd - 1) as isize);
                    match r.below(4) { 0 => (3, sh[y as usize] as isize + r.below(2) as isize, x, y), 1 => (3, -(sh[0] as isize) - r.below(2) as isize, x, y), 2 => (2, 0, x, badax(&mut r, nd)), _ => (2, 0, y, y - nd as isize) }
                };
                if which == 12 { inv!("diagonal {v:?}"); let r = self.obj(i).view(&VOp::Diag(v.0, v.1, v.2, v.3)); self.rejected(r) }
                else { if !num { return Ok(false); } inv!("trace {v:?}"); let r = self.obj(i).trace(v.0, v.1, v.2, v.3); self.rejected(r) }
            }
            13 => {
                if !num { return Ok(false); }
                let (k, s) = match nd {
                    1 => (r.below(2) as u8, vec![sh[0] + 1]),
                    2 => match r.below(3) { 0 => (1, vec![sh[1] + 1]), 1 => (1, vec![sh[1] + 1, 2]), _ => (0, vec![sh[1]]) },
                    3 => match r.below(4) { 0 => (2, vec![sh[0] + 1, sh[2], 2]), 1 => (2, vec![sh[0], sh[2] + 1, 2]), 2 => (2, vec![sh[2], 2]), _ => (1, vec![sh[0], sh[2], 2]) },
                    _ => (r.below(3) as u8, vec![2]),
                };
                let id = self.h[i].id;
                self.begin(Cat::Create, "prepare".into());
                let j = self.make_operand(dt, &s, &mut r)?;
                let i = self.pos(id);
                inv!("matrix product {k} with shape {s:?}");
                let r = self.obj(i).mat(k, self.obj(j));
                self.rejected(r)
            }
            14 => {
                if !num || nd == 0 || nd > 3 { return Ok(false); }
                let l = "abcd"[..nd].to_string();
                let id = self.h[i].id;
                match r.below(12) {
                    9 => { inv!("einsum with more subscripts than operands"); let r = self.obj(i).einsum(&[], &[l.clone(), l], ""); self.rejected(r) }
                    10 => { inv!("einsum with fewer subscripts than operands"); let o = self.obj(i); let r = o.einsum(&[o], &[l], ""); self.rejected(r) }
                    11 => {
                        let (x, y) = r.pick(&[("abcd", "z"), ("abcd", "aa"), ("ab?d", "a"), ("abcd", "a?")]).clone();
                        if nd < 3 && x.contains('?') { return Ok(false); }
                        inv!("einsum_view {x} {y}");
                        match self.obj(i).view(&VOp::EinsumView(x[..nd].into(), y.into())) { Ok(Some(_)) => self.fail("an invalid call was accepted".into()), _ => { ct(Ct::InvalidPanicked); digest(0xDEAE); Ok(true) } }
                    }
                    6 => { inv!("einsum label that is no letter"); let l2 = ["?bcd", "1bcd", "#bcd", ".bcd"][r.below(4)][..nd].to_string(); let o = if nd > 1 { "b" } else { "" }; let r = self.obj(i).einsum(&[], &[l2], o); self.rejected(r) }
                    7 => { inv!("einsum label that is not ascii"); let l2 = "\u{e9}bcd"[..nd + 1].to_string(); let r = self.obj(i).einsum(&[], &[l2], ""); self.rejected(r) }
                    8 => { inv!("einsum output label that is no letter"); let o = ["a?", "1", "a.", "\u{e9}"][r.below(4)]; let r = self.obj(i).einsum(&[], &[l], o); self.rejected(r) }
                    0 => { inv!("einsum unknown output label"); let r = self.obj(i).einsum(&[], &[l], "z"); self.rejected(r) }
                    1 => { inv!("einsum too many labels"); let r = self.obj(i).einsum(&[], &[l + "y"], "a"); self.rejected(r) }
                    2 => { inv!("einsum too few labels"); let l2 = l[1..].to_string(); let r = self.obj(i).einsum(&[], &[l2], ""); self.rejected(r) }
                    3 => { inv!("einsum repeated output label"); let r = self.obj(i).einsum(&[], &[l], "aa"); self.rejected(r) }
                    4 => {
                        self.begin(Cat::Create, "prepare".into());
                        let j = self.make_operand(dt, &[sh[0] + 1], &mut r)?;
                        let i = self.pos(id);
                        inv!("einsum mismatched dimension");
                        let r = self.obj(i).einsum(&[self.obj(j)], &[l, "a".into()], "");
                        self.rejected(r)
                    }
                    _ => {
                        if nd < 2 || sh[0] == sh[1] { return Ok(false); }
                        inv!("einsum repeated label over different dimensions");
                        let l2 = "aab"[..nd].to_string();
                        let r = if r.chance(1, 2) { self.obj(i).einsum(&[], &[l2], "") } else { self.obj(i).einsum(&[], &[l2], "a") };
                        self.rejected(r)
                    }
                }
            }
            15 => { if prod(&sh) == 1 { return Ok(false); } inv!("value()"); let r = self.obj(i).value(); self.rejected(r) }
            16 => {
                let h = &self.h[i];
                if h.owned || h.kids > 0 { return Ok(false); }
                inv!("into_data_vector of a view");
                let mut h = self.remove(i);
                let r = h.obj.take().unwrap().into_vec();
                self.rejected(r)
            }
            17 => {
                let n = self.h[i].idx.len();
                let contiguous = (0..n).all(|k| self.h[i].idx[k] as usize == self.h[i].idx[0] as usize + k);
                if contiguous { return Ok(false); }
                inv!("data_slice of a non-contiguous array");
                let r = self.obj(i).data_slice();
                self.rejected(r)
            }
            18 => {
                let c = if nd == 0 { Cu::Iter } else { match r.below(3) { 0 => Cu::Along(badax(&mut r, nd)), 1 => Cu::Nd([nd, 0, 0, 0], 1), _ => Cu::Nd([nd - 1, nd - 1, 0, 0], 2) } };
                inv!("cursor {c:?}");
                let r = self.obj(i).cursor(c);
                self.rejected(r)
            }
            19 => {
                let mut s = sh.clone();
                if r.chance(1, 2) {
                    if s.is_empty() { s.push(0) } else { let k = r.below(s.len()); s[k] = 0 }
                    inv!("create empty {s:?}");
                    let v = [one_of(dt, 0)];
                    let k = 1 + r.below(3) as u8;
                    let r = create(dt, k, &s, &v);
                    self.rejected(r)
                } else {
                    inv!("create from ragged rows");
                    let l = if r.chance(1, 4) { vec![0] } else { let n = 1 + r.below(3); let mut v = vec![n; 2 + r.below(2)]; let k = r.below(v.len()); v[k] += 1; v };
                    let form = r.below(8) as u8;
                    let r = create_ragged(dt, &l, form);
                    self.rejected(r)
                }
            }
            24 => {
                let k = r.below(6) as u8;
                inv!("random constructor {k} with an empty range");
                let r = random_bad(k);
                self.rejected(r)
            }
            _ => {
                // writes to read-only views
                let Some(i) = self.pick_dt(a, |h| h.ro && h.kids == 0) else { return Ok(false) };
                let d = self.desc(i);
                let (dt, sh) = (self.h[i].dt, self.h[i].shape.clone());
                let v = self.gen_val(dt, &mut r);
                self.begin(Cat::Reject, format!("write to read-only {d}"));
                ct(Ct::Invalid);
                ct(Ct::ROWrite);
                let id = self.h[i].id;
                let form = r.below(if dt.boolean() { 4 } else { 8 });
                let op = Self::gen_op(dt, &mut r);
                let at = unravel(r.below(prod(&sh)), &sh);
                let mut o = self.h[i].obj.take().unwrap();
                let r = match form {
                    0 => o.fill(v),
                    1 => o.zero(),
                    2 => o.set(&if sh.len() > 6 { vec![0; 6] } else { at }, v),
                    3 if sh.len() == 1 => o.set1(at[0], v),
                    3 => o.fill(v),
                    4 | 5 => o.iop_s(op, v),
                    _ => {
                        self.h[i].obj = Some(o);
                        self.begin(Cat::Create, "prepare".into());
                        let j = self.make_plain(dt, &sh, &mut r)?;
                        let i = self.pos(id);
                        self.begin(Cat::Reject, format!("in-place write to read-only {d}"));
                        o = self.h[i].obj.take().unwrap();
                        o.iop(op, self.obj(j))
                    }
                };
                let i = self.pos(id);
                self.h[i].obj = Some(o);
                self.rejected(r)
            }
        }
    }

    /// arithmetic that cannot be represented: panic or return, but nothing else may change
    fn s_trap(&mut self, a: &mut Args) -> Result<bool, Vio> {
        if !self.cfg.exact { return Ok(false); }
        let Some(i) = self.pick_dt(a, |h| h.dt.int() && h.dt.bits() < 128) else { return Ok(false) };
        let mut r = a.stream();
        let dt = self.h[i].dt;
        let (o, s) = match r.below(4) { 0 => (0u8, dt.max()), 1 => (2, dt.max() / 2 + 1), 2 => (4, 0), _ => (7, dt.bits() as i128) };
        let form = r.below(6);
        let d = self.desc(i);
        ct(Ct::Trap);
        if form > 3 { return self.trap_kernel(dt, &mut r); }
        if form == 0 || self.h[i].kids > 0 || self.h[i].ro {
            self.begin(Cat::Reject, format!("trap: {d} op{o} {s}"));
            let res = self.obj(i).bin_s(o, s);
            digest(0x7A + res.is_ok() as u64);
            if let Ok(x) = res { if x.discard().is_err() { return self.panicked(); } }
            return Ok(true);
        }
        let lv = self.vals(i);
        let id = self.h[i].id;
        let rv;
        let res = if form == 1 {
            self.begin(Cat::Reject, format!("trap: {d} op{o}= {s}"));
            rv = vec![s; lv.len()];
            self.h[i].obj.as_mut().unwrap().iop_s(o, s)
        } else {
            // an array rhs in which only one element traps
            self.begin(Cat::Create, "prepare".into());
            let sh = self.h[i].shape.clone();
            let mut v: Vec<i128> = (0..lv.len()).map(|_| 1).collect();
            let k = r.below(v.len());
            v[k] = s;
            let x = match if sh.is_empty() { create(dt, 4, &sh, &v) } else { create(dt, 0, &sh, &v) } { Ok(x) => x, Err(_) => return self.panicked() };
            let j = self.adopt_owned(x, dt, sh, Some(v.clone()))?;
            rv = v;
            let i = self.pos(id);
            self.begin(Cat::Reject, format!("trap: {d} op{o}= array"));
            let mut l = self.h[i].obj.take().unwrap();
            let res = if form == 3 {
                let jid = self.h[j].id;
                let p = self.pos(jid);
                // the panicking call owns its right-hand side
                let mut hj = self.h.remove(p);
                self.sto[hj.sto].live = false;
                l.iop_own(o, hj.obj.take().unwrap())
            } else { l.iop(o, self.obj(j)) };
            let i = self.pos(id);
            self.h[i].obj = Some(l);
            res
        };
        let i = self.pos(id);
        digest(0x7C + res.is_ok() as u64);
        self.writes += 1;
        // every element of the destination holds its old or its new value
        let mut mixed = (false, false);
        for k in 0..lv.len() {
            let p = self.h[i].idx[k] as usize;
            let s = self.h[i].sto;
            let now = peek(dt, self.sto[s].base, p);
            let new = el_op(dt, o, lv[k], rv[k]);
            if now == lv[k] { mixed.0 = true } else { mixed.1 = true }
            let ok = now == lv[k] || match new { Some(x) => now == x, None => !dt.int() || o > 4 || now == -dt.max() - 1 };
            if !ok { return self.fail(format!("after the trap element {k} holds {now}, neither old {} nor new {:?}", lv[k], new)); }
            if res.is_ok() { if let Some(x) = new { if now != x { return self.fail(format!("the call returned but element {k} holds {now}, expected {x}")); } } }
            self.sto[s].vals[p] = now;
            if !dt.fits(now) {
                // the most negative integer (or an inexact float) would trap later valid calls
                poke(dt, self.sto[s].base, p, 0);
                self.sto[s].vals[p] = 0;
            }
        }
        if res.is_err() && mixed.0 && mixed.1 { ct(Ct::TrapPartial); }
        Ok(true)
    }

    /// overflow in the middle of a kernel: whatever the call had set up for its result is released again
    fn trap_kernel(&mut self, dt: Dt, r: &mut Rng) -> Result<bool, Vio> {
        let n = 1 + r.below(4);
        let k = r.below(11);
        let nd = match k { 0 => 1, 1 | 2 => 2, 3 => 3, _ => 1 + r.below(3) };
        let sh = vec![n; nd];
        let len = prod(&sh);
        // all at the limit, or a single element beyond what the rest tolerates
        let v: Vec<i128> = if r.chance(1, 2) { vec![dt.max(); len] } else { let at = r.below(len); (0..len).map(|p| if p == at { dt.max() } else { 2 }).collect() };
        self.begin(Cat::Reject, format!("trap: kernel {k} of {dt:?}{sh:?}"));
        let mk = || create(dt, 0, &sh, &v);
        let x = match mk() { Ok(x) => x, Err(_) => return self.panicked() };
        let y = match mk() { Ok(x) => x, Err(_) => return self.panicked() };
        let lab: String = "abc"[..nd].into();
        let out = &lab[..r.below(nd + 1)];
        let res = match k {
            0 => x.mat(0, y.as_ref()),
            1 => x.mat(1, y.as_ref()),
            2 => x.einsum(&[y.as_ref()], &["ab".into(), "bc".into()], "ac"),
            3 => x.mat(2, y.as_ref()),
            4 => { let e = r.below(3); let rest: Vec<&dyn Real> = (0..e).map(|_| y.as_ref()).collect(); x.einsum(&rest, &vec![lab.clone(); e + 1], out) }
            5 => x.red(r.below(2) as u8),
            6 => x.red_ax(r.below(2) as u8, vec![r.below(nd) as isize], 0),
            7 => x.bin(if r.chance(1, 2) { 0 } else { 2 }, y.as_ref()),
            // the panicking call owns one operand or both
            8 => { let z = match mk() { Ok(x) => x, Err(_) => return self.panicked() }; z.bin_own(2, y.as_ref()) }
            9 => { let z = match mk() { Ok(x) => x, Err(_) => return self.panicked() }; x.bin_ro(2, z) }
            _ => {
                let z = match mk() { Ok(x) => x, Err(_) => return self.panicked() };
                let w = match mk() { Ok(x) => x, Err(_) => return self.panicked() };
                if r.chance(1, 2) { z.bin_oo(2, w) } else { let e = x.mat_own(if nd == 1 { 0 } else if nd == 2 { 1 } else { 2 }, w); if z.discard().is_err() { return self.panicked(); } e }
            }
        };
        digest(0x7E + res.is_ok() as u64);
        if let Ok(o) = res { if o.discard().is_err() { return self.panicked(); } }
        if x.discard().is_err() || y.discard().is_err() { return self.panicked(); }
        Ok(true)
    }

    /// releases everything in a legal order
    pub fn teardown(&mut self) -> R {
        while let Some(mut c) = self.cur.pop() {
            self.begin(Cat::Cursor, "drop cursor at end".into());
            let p = self.pos(c.parent);
            self.h[p].kids -= 1;
            if c.obj.close().is_err() { return self.panicked(); }
        }
        self.begin(Cat::Drop, "drop at end".into());
        while !self.h.is_empty() {
            match (0..self.h.len()).find(|&i| self.h[i].kids == 0) {
                Some(i) => self.drop_handle(i)?,
                None => return vio("harness", "cyclic borrow".into()),
            }
            self.post()?;
        }
        set_cat(Cat::Idle, "");
        Ok(())
    }
}

/// stores a model value straight into memory (operand preparation only)
pub fn poke(dt: Dt, base: usize, i: usize, v: i128) {
    by_dt!(dt, T => unsafe {
        let p = (base as *mut u8).add(i * std::mem::size_of::<T>()) as *mut T;
        std::ptr::write_unaligned(p, if wild() { <T as El>::fb(v as u128) } else { <T as El>::fi(v) });
    })
}
