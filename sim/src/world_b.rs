//! World B: clients building, sharing, differentiating, re-configuring and dropping tensors.
//! The reference model is a tape of nodes in exact (dyadic) arithmetic; a backward pass is one
//! reverse topological sweep.  Before a pass is issued the model proves that every order of
//! summation over paths is exact in the element type, so comparisons are equalities.
use crate::core::*;
use crate::heap;
use crate::real::{El, Nd, P};
use crate::rng::{hash2, Args, Rng};
use crate::world_a::{bshape, prod, ravel, unravel};
use redstone_ml::*;
use std::rc::Rc;

pub mod op {
    pub const LEAF: u8 = 0;
    pub const TOGGLE: u8 = 1;
    pub const BIN: u8 = 2;
    pub const BINS: u8 = 3;
    pub const NEG: u8 = 4;
    pub const MAT: u8 = 5;
    pub const VIEW: u8 = 6;
    pub const CONSUME: u8 = 7;
    pub const DROP: u8 = 8;
    pub const BACK: u8 = 9;
    pub const BACKWITH: u8 = 10;
    pub const ZERO: u8 = 11;
    pub const GHOLD: u8 = 12;
    pub const GWRITE: u8 = 13;
    pub const GDROP: u8 = 14;
    pub const CONVERT: u8 = 15;
    pub const READ: u8 = 16;
    pub const INVALID: u8 = 17;
    pub const ARRMUT: u8 = 18;
    pub const DROPCHAIN: u8 = 19;
    pub const DROPALL: u8 = 20;
    pub const REBACK: u8 = 21;
    pub const SINK: u8 = 22;
    pub const STDERR: u8 = 23;
    pub const CHAIN: u8 = 24;
    pub const MANY: u8 = 25;
}

pub trait TF: El + TensorDataType + 'static {
    const MANT: i32;
    fn f(v: f64) -> Self;
    fn d(self) -> f64;
    fn bits64(self) -> u64;
    fn new_t(v: Vec<Self>, shape: &[usize]) -> Tn<Self>;
    fn new_a(v: Vec<Self>, shape: &[usize]) -> Nd<Self>;
    fn iop_a(o: u8, a: &mut Nd<Self>, s: Self);
}
macro_rules! tf {
    ($t:ty, $m:expr) => {
        impl TF for $t {
            const MANT: i32 = $m;
            fn f(v: f64) -> Self { v as $t }
            fn d(self) -> f64 { self as f64 }
            fn bits64(self) -> u64 { self.to_bits() as u64 }
            fn new_t(v: Vec<Self>, shape: &[usize]) -> Tn<Self> {
                match shape.len() {
                    0 => Tensor::scalar(v[0]),
                    1 if shape[0] == 3 => Tensor::new([v[0], v[1], v[2]]),
                    2 if shape == [2, 2] => Tensor::new([[v[0], v[1]], [v[2], v[3]]]),
                    2 if shape == [2, 3] => Tensor::new([[v[0], v[1], v[2]], [v[3], v[4], v[5]]]),
                    1 => Tensor::new(v),
                    2 => Tensor::new(v.chunks(shape[1]).map(|c| c.to_vec()).collect::<Vec<_>>()),
                    3 => Tensor::new(v.chunks(shape[1] * shape[2]).map(|c| c.chunks(shape[2]).map(|d| d.to_vec()).collect::<Vec<_>>()).collect::<Vec<_>>()),
                    _ => Tensor::new(v).reshape(shape),
                }
            }
            fn new_a(v: Vec<Self>, shape: &[usize]) -> Nd<Self> {
                if shape.is_empty() { NdArray::scalar(v[0]) } else { NdArray::new(v).reshape(shape) }
            }
            fn iop_a(o: u8, a: &mut Nd<Self>, s: Self) { match o { 0 => *a += s, 1 => *a -= s, _ => *a *= s } }
        }
    };
}
tf!(f32, 24);
tf!(f64, 53);

type Tn<T> = Tensor<'static, T>;
fn st<T: TF>(t: &Tn<T>) -> &'static Tn<T> { unsafe { &*(t as *const Tn<T>) } }

#[derive(Clone, Debug)]
enum Nk { None, Acc(Vec<f64>), Add, Sub, Mul, Div, Neg, Scale(f64), Ident, Map(Vec<u32>), Dot, MatVec, MatMat, Bmm }
struct Node { k: Nk, ins: Vec<usize>, shape: Vec<usize>, ish: Vec<Vec<usize>>, saved: Vec<Vec<f64>>, depth: u32 }

struct Hd<T: TF> {
    id: u64,
    obj: Option<Box<Tn<T>>>,
    shape: Vec<usize>,
    vals: Vec<f64>,
    node: usize,
    req: bool,
    direct: bool,
    user: bool,
    parent: Option<u64>,
    kids: u32,
    rooted: bool,
}
struct Gh<T: TF> { arr: Option<Nd<T>>, parent: u64, node: usize, shape: Vec<usize> }
enum ArrK<T: TF> { Own(Nd<T>), Shared(Rc<Nd<T>>) }
struct Ar<T: TF> { a: ArrK<T>, shape: Vec<usize>, vals: Vec<f64>, seq: u64, src_live: Option<u64> }

#[derive(Clone, PartialEq, Debug)]
enum Ctx { Build(u64), Back { reached: Vec<usize>, re: bool }, Toggle(u64), Zero(u64), GWrite(usize), Drop, Reject, Other }

pub struct Cfg { pub maxh: usize, pub keep: bool, pub mem: bool, pub stderr: bool, pub big: bool }

pub struct WB<T: TF> {
    cfg: Cfg,
    nodes: Vec<Node>,
    h: Vec<Hd<T>>,
    g: Vec<Gh<T>>,
    arrs: Vec<Ar<T>>,
    grave: Vec<(u64, Box<Tn<T>>)>,
    gravea: Vec<Ar<T>>,
    nid: u64,
    name: String,
    cat: Cat,
    ctx: Ctx,
    gone: bool,
}

fn gran(v: &[f64]) -> i32 {
    let mut g = 500;
    for &x in v {
        if x != 0.0 {
            let b = x.to_bits();
            let e = ((b >> 52) & 0x7ff) as i32 - 1075;
            let m = (b & ((1 << 52) - 1)) | (1 << 52);
            g = g.min(e + m.trailing_zeros() as i32);
        }
    }
    g
}
fn maxabs(v: &[f64]) -> f64 { v.iter().fold(0.0, |a, x| f64::max(a, x.abs())) }
fn maxexp(v: &[f64]) -> i32 { v.iter().map(|x| ((x.to_bits() >> 52) & 0x7ff) as i32 - 1023).max().unwrap_or(0) }
fn pow2(x: f64) -> bool { x != 0.0 && (x.to_bits() & ((1 << 52) - 1)) == 0 }
/// |values| <= bound, multiples of 2^g: exactly representable, in any order of summation
fn exact(mant: i32, bound: f64, g: i32) -> bool {
    if bound == 0.0 { return true; }
    g > -100 && bound < 1e30 && bound / (g.min(400) as f64).exp2() < (mant as f64).exp2()
}

fn bget(v: &[f64], sh: &[usize], ix: &[usize]) -> f64 {
    let o = ix.len() - sh.len();
    let mut k = 0;
    for (i, &d) in sh.iter().enumerate() { k = k * d + if d == 1 { 0 } else { ix[o + i] }; }
    v[k]
}
fn reduce_to(g: &[f64], gsh: &[usize], sh: &[usize]) -> Vec<f64> {
    if gsh == sh { return g.to_vec(); }
    let mut r = vec![0.0; prod(sh)];
    let o = gsh.len() - sh.len();
    for (k, x) in g.iter().enumerate() {
        let ix = unravel(k, gsh);
        let mut p = 0;
        for (i, &d) in sh.iter().enumerate() { p = p * d + if d == 1 { 0 } else { ix[o + i] }; }
        r[p] += x;
    }
    r
}
fn matmul(a: &[f64], b: &[f64], n: usize, k: usize, m: usize) -> Vec<f64> {
    let mut r = vec![0.0; n * m];
    for i in 0..n { for j in 0..m { for t in 0..k { r[i * m + j] += a[i * k + t] * b[t * m + j]; } } }
    r
}
fn tr(a: &[f64], n: usize, m: usize) -> Vec<f64> {
    let mut r = vec![0.0; n * m];
    for i in 0..n { for j in 0..m { r[j * n + i] = a[i * m + j]; } }
    r
}

/// contributions of one node to its inputs (`abs`: with all signs positive), and the change of granularity
fn vjp(n: &Node, g: &[f64], abs: bool) -> Vec<(Vec<f64>, i32)> {
    let a = |v: &[f64]| -> Vec<f64> { if abs { v.iter().map(|x| x.abs()).collect() } else { v.to_vec() } };
    let sg = if abs { 1.0 } else { -1.0 };
    match &n.k {
        Nk::None | Nk::Acc(_) => vec![],
        Nk::Add => vec![(reduce_to(g, &n.shape, &n.ish[0]), 0), (reduce_to(g, &n.shape, &n.ish[1]), 0)],
        Nk::Sub => { let m: Vec<f64> = g.iter().map(|x| sg * x).collect(); vec![(reduce_to(g, &n.shape, &n.ish[0]), 0), (reduce_to(&m, &n.shape, &n.ish[1]), 0)] }
        Nk::Mul | Nk::Div => {
            let (l, r) = (a(&n.saved[0]), a(&n.saved[1]));
            let (mut x, mut y) = (vec![], vec![]);
            for (k, gv) in g.iter().enumerate() {
                let ix = unravel(k, &n.shape);
                let (lv, rv) = (bget(&l, &n.ish[0], &ix), bget(&r, &n.ish[1], &ix));
                if matches!(n.k, Nk::Mul) { x.push(gv * rv); y.push(gv * lv); }
                else { x.push(gv / rv); y.push(sg * gv * lv / (rv * rv)); }
            }
            let (gx, gy) = if matches!(n.k, Nk::Mul) { (gran(&r), gran(&l)) } else { (-maxexp(&r), gran(&l) - 2 * maxexp(&r)) };
            vec![(reduce_to(&x, &n.shape, &n.ish[0]), gx), (reduce_to(&y, &n.shape, &n.ish[1]), gy)]
        }
        Nk::Neg => vec![(g.iter().map(|x| sg * x).collect(), 0)],
        Nk::Scale(s) => vec![(g.iter().map(|x| x * if abs { s.abs() } else { *s }).collect(), gran(&[*s]))],
        Nk::Ident => vec![(g.to_vec(), 0)],
        Nk::Map(m) => {
            let mut r = vec![0.0; prod(&n.ish[0])];
            for (k, x) in g.iter().enumerate() { r[m[k] as usize] += x; }
            vec![(r, 0)]
        }
        Nk::Dot => {
            let (l, r) = (a(&n.saved[0]), a(&n.saved[1]));
            vec![(r.iter().map(|x| x * g[0]).collect(), gran(&r)), (l.iter().map(|x| x * g[0]).collect(), gran(&l))]
        }
        Nk::MatVec => {
            let (m, v) = (a(&n.saved[0]), a(&n.saved[1]));
            let (rows, cols) = (n.ish[0][0], n.ish[0][1]);
            let mut dm = vec![];
            for i in 0..rows { for j in 0..cols { dm.push(g[i] * v[j]); } }
            vec![(dm, gran(&v)), (matmul(&tr(&m, rows, cols), g, cols, rows, 1), gran(&m))]
        }
        Nk::MatMat => {
            let (l, r) = (a(&n.saved[0]), a(&n.saved[1]));
            let (i, k, j) = (n.ish[0][0], n.ish[0][1], n.ish[1][1]);
            vec![(matmul(g, &tr(&r, k, j), i, j, k), gran(&r)), (matmul(&tr(&l, i, k), g, k, i, j), gran(&l))]
        }
        Nk::Bmm => {
            let (l, r) = (a(&n.saved[0]), a(&n.saved[1]));
            let (b, i, k, j) = (n.ish[0][0], n.ish[0][1], n.ish[0][2], n.ish[1][2]);
            let (mut x, mut y) = (vec![], vec![]);
            for t in 0..b {
                let (lt, rt, gt) = (&l[t * i * k..(t + 1) * i * k], &r[t * k * j..(t + 1) * k * j], &g[t * i * j..(t + 1) * i * j]);
                x.extend(matmul(gt, &tr(rt, k, j), i, j, k));
                y.extend(matmul(&tr(lt, i, k), gt, k, i, j));
            }
            vec![(x, gran(&r)), (y, gran(&l))]
        }
    }
}

/// element map of a view: output position -> input position
fn view_map(shape: &[usize], v: &Vo) -> Option<(Vec<usize>, Vec<u32>)> {
    let n = prod(shape);
    let id: Vec<u32> = (0..n as u32).collect();
    Some(match v {
        Vo::View => (shape.to_vec(), id),
        Vo::Reshape(s) => { if prod(s) != n { return None; } (s.clone(), id) }
        Vo::Squeeze => (shape.iter().copied().filter(|&d| d != 1).collect(), id),
        Vo::Unsqueeze(x) => {
            let k = if *x < 0 { (shape.len() + 1) as isize + x } else { *x };
            let mut s = shape.to_vec();
            s.insert(k as usize, 1);
            (s, id)
        }
        Vo::T | Vo::Transpose(..) => {
            let (x, y) = match v { Vo::T => (0, 1), Vo::Transpose(x, y) => (*x, *y), _ => unreachable!() };
            let f = |a: isize| if a < 0 { (shape.len() as isize + a) as usize } else { a as usize };
            let (x, y) = (f(x), f(y));
            if x >= shape.len() || y >= shape.len() { return None; }
            let mut s = shape.to_vec();
            s.swap(x, y);
            let m = (0..n).map(|k| { let mut ix = unravel(k, &s); ix.swap(x, y); ravel(&ix, shape) as u32 }).collect();
            (s, m)
        }
    })
}
#[derive(Clone, Debug)]
enum Vo { View, Reshape(Vec<usize>), Squeeze, Unsqueeze(isize), T, Transpose(isize, isize) }

fn do_vo<X: Reshape<T>, T: TF>(x: X, v: &Vo) -> X::Output {
    match v {
        Vo::View => x.view(),
        Vo::Reshape(s) => x.reshape(s),
        Vo::Squeeze => x.squeeze(),
        Vo::Unsqueeze(a) => x.unsqueeze(*a),
        Vo::T => x.T(),
        Vo::Transpose(a, b) => x.transpose(*a, *b),
    }
}

impl<T: TF> WB<T> {
    pub fn new(cfg: Cfg) -> Self {
        WB { cfg, nodes: vec![Node { k: Nk::None, ins: vec![], shape: vec![], ish: vec![], saved: vec![], depth: 0 }], h: vec![], g: vec![], arrs: vec![], grave: vec![], gravea: vec![], nid: 1, name: String::new(), cat: Cat::Idle, ctx: Ctx::Other, gone: false }
    }
    fn begin(&mut self, c: Cat, name: String) { set_cat(c, &name); self.cat = c; self.name = name; }
    fn pos(&self, id: u64) -> Option<usize> { self.h.iter().position(|x| x.id == id) }
    fn t(&self, i: usize) -> &'static Tn<T> { st(self.h[i].obj.as_ref().unwrap()) }
    fn desc(&self, i: usize) -> String {
        let h = &self.h[i];
        format!("#{}{:?}{}{}", h.id, h.shape, if h.direct { " leaf" } else if h.req { " tracked" } else { "" }, if h.parent.is_some() { " view" } else { "" })
    }
    fn kind_panic(&self) -> &'static str {
        match self.cat { Cat::Backward => "grad", Cat::Track => "track", Cat::Reject => "reject", Cat::Sink => "sink", _ => "tvalue" }
    }
    fn panicked<X>(&self) -> Result<X, Vio> { vio(self.kind_panic(), format!("valid call panicked: {}: {}", self.name, last_panic())) }

    fn acc(&mut self, shape: &[usize]) -> usize {
        self.node(Nk::Acc(vec![0.0; prod(shape)]), vec![], shape.to_vec(), vec![], vec![])
    }
    fn node(&mut self, k: Nk, ins: Vec<usize>, shape: Vec<usize>, ish: Vec<Vec<usize>>, saved: Vec<Vec<f64>>) -> usize {
        let depth = ins.iter().map(|&i| self.nodes[i].depth + 1).max().unwrap_or(0);
        self.nodes.push(Node { k, ins, shape, ish, saved, depth });
        self.nodes.len() - 1
    }

    fn push(&mut self, obj: Tn<T>, shape: Vec<usize>, vals: Vec<f64>, node: usize, req: bool, direct: bool, user: bool, parent: Option<u64>) -> usize {
        let id = self.nid;
        self.nid += 1;
        if let Some(p) = parent { if let Some(p) = self.pos(p) { self.h[p].kids += 1; } }
        self.h.push(Hd { id, obj: Some(Box::new(obj)), shape, vals, node, req, direct, user, parent, kids: 0, rooted: false });
        self.ctx = Ctx::Build(id);
        self.h.len() - 1
    }
    /// takes the handle out of the model; the caller disposes of the object
    fn take(&mut self, i: usize) -> Hd<T> {
        let h = self.h.remove(i);
        if let Some(p) = h.parent { if let Some(p) = self.pos(p) { self.h[p].kids -= 1; } }
        self.gone = true;
        h
    }
    fn dispose(&mut self, mut h: Hd<T>) -> R {
        let o = h.obj.take().unwrap();
        if self.cfg.keep { self.grave.push((h.id, o)); return Ok(()); }
        match lib(move || drop(o)) { Ok(_) => Ok(()), Err(_) => self.panicked() }
    }

    fn pick(&self, a: &mut Args, f: impl Fn(&Hd<T>) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.h.len()).filter(|&i| f(&self.h[i])).collect();
        if c.is_empty() { return None; }
        // two draws out of three prefer the most recent half
        let r = a.raw() as usize;
        let k = if r % 3 != 0 && c.len() > 2 { c.len() / 2 + (r / 3) % (c.len() - c.len() / 2) } else { (r / 3) % c.len() };
        Some(c[k])
    }
    fn gen_shape(&self, r: &mut Rng) -> Vec<usize> {
        if self.cfg.big && r.chance(1, 3) {
            return match r.below(6) {
                0 => vec![r.range(5, 70) as usize],
                1 => vec![*r.pick(&[128usize, 256, 300, 512, 1024, 2048, 4096]) + r.below(3) - 1],
                2 => vec![r.range(4, 34) as usize, r.range(2, 34) as usize],
                3 => vec![r.range(2, 5) as usize, r.range(20, 120) as usize],
                4 => vec![r.range(20, 120) as usize, r.range(2, 5) as usize],
                _ => vec![r.range(2, 9) as usize, r.range(3, 10) as usize, r.range(3, 10) as usize],
            };
        }
        let n = *r.pick(&[0usize, 1, 1, 2, 2, 2, 3, 3, 3, 4]);
        (0..n).map(|_| *r.pick(&[1usize, 2, 2, 3, 3, 4])).collect()
    }
    fn gen_vals(r: &mut Rng, n: usize, p2: bool) -> Vec<f64> {
        let mut salted;
        let r = if crate::rng::SALT.with(|s| s.get()) != 0 { salted = r.salted(); &mut salted } else { r };
        (0..n).map(|_| if p2 { *r.pick(&[1.0, -1.0, 2.0, 0.5, -2.0]) } else { *r.pick(&[1.0, -1.0, 2.0, -2.0, 3.0, 0.5, -0.5, 1.5, 0.0]) }).collect()
    }
    fn leaf(&mut self, shape: &[usize], p2: bool, track: bool, r: &mut Rng) -> Result<usize, Vio> {
        let n = prod(shape);
        let kind = if p2 { 0 } else { *r.pick(&[0u8, 0, 0, 0, 1, 2, 3, 4]) };
        let vals = match kind { 1 => vec![1.5; n], 2 => vec![0.0; n], 3 => vec![1.0; n], _ => Self::gen_vals(r, n, p2) };
        self.begin(Cat::TensorOp, format!("create tensor {shape:?} kind {kind}"));
        let v: Vec<T> = vals.iter().map(|&x| T::f(x)).collect();
        let sh = shape.to_vec();
        let o = match kind {
            1 => lib(|| Tn::<T>::full(T::f(1.5), &sh)),
            2 => lib(|| Tn::<T>::zeros(&sh)),
            3 => lib(|| Tn::<T>::ones(&sh)),
            _ => lib(|| T::new_t(v.clone(), &sh)),
        };
        let Ok(o) = o else { return self.panicked() };
        ct(Ct::Create);
        // a reshape inside the constructor helper yields a derived tensor only for >3 dims
        let user = shape.len() <= 3;
        let i = self.push(o, sh, vals, 0, false, false, user, None);
        if track { self.toggle(i, true)?; }
        Ok(i)
    }
    fn toggle(&mut self, i: usize, on: bool) -> R {
        self.begin(Cat::Track, format!("set_requires_grad({on}) on {}", self.desc(i)));
        ct(Ct::Toggle);
        let t = self.h[i].obj.as_mut().unwrap();
        if lib(|| { t.set_requires_grad(on); }).is_err() { return self.panicked(); }
        let h = &self.h[i];
        if on && !h.req {
            let sh = h.shape.clone();
            let n = self.acc(&sh);
            let h = &mut self.h[i];
            h.req = true;
            h.direct = true;
            h.node = n;
        } else if !on && h.req {
            let h = &mut self.h[i];
            h.req = false;
            h.direct = false;
            h.node = 0;
        }
        self.ctx = Ctx::Toggle(self.h[i].id);
        Ok(())
    }
    fn is_none(&self, n: usize) -> bool { matches!(self.nodes[n].k, Nk::None) }

    pub fn step(&mut self, no: u32, s: &Step) -> R {
        shm().step = no;
        heap::set_step(no);
        self.ctx = Ctx::Other;
        let before = shm().ndig;
        let done = fault_step(s.op == op::INVALID, || self.dispatch(s))?;
        ct(if done { Ct::Steps } else { Ct::Skipped });
        self.post()?;
        if self.h.len() > self.cfg.maxh {
            let n = self.h.len();
            if let Some(i) = (0..n).find(|&i| self.h[i].kids == 0) {
                self.begin(Cat::Drop, format!("drop surplus {}", self.desc(i)));
                let h = self.take(i);
                self.ctx = Ctx::Drop;
                self.dispose(h)?;
                self.post()?;
            }
        }
        if shm().ndig == before { digest(done as u64); }
        set_cat(Cat::Idle, "");
        Ok(())
    }

    fn dispatch(&mut self, s: &Step) -> Result<bool, Vio> {
        let mut a = Args::new(&s.a);
        let a = &mut a;
        match s.op {
            op::LEAF => {
                let mut r = a.stream();
                let sh = self.gen_shape(&mut r);
                let track = a.raw() % 4 != 0;
                let p2 = r.chance(1, 5);
                self.leaf(&sh, p2, track, &mut r)?;
                Ok(true)
            }
            op::TOGGLE => {
                let Some(i) = self.pick(a, |h| h.kids == 0) else { return Ok(false) };
                let on = a.raw() % 3 != 0;
                self.toggle(i, on)?;
                Ok(true)
            }
            op::BIN => self.s_bin(a),
            op::BINS => self.s_bins(a),
            op::NEG => {
                let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
                let own = a.chance(1, 3) && self.h[i].kids == 0;
                self.neg_at(i, own)
            }
            op::CHAIN => self.s_chain(a),
            op::MANY => self.s_many(a),
            op::SINK => {
                let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
                let k = a.raw() as u8;
                let mut r = a.stream();
                self.begin(Cat::Sink, format!("print {} into failing sinks, form {}", self.desc(i), k % 7));
                let t = self.t(i);
                crate::sink::probe(&self.name, &mut r, &|w| lib(|| crate::sink::show(k, w, t)))?;
                Ok(true)
            }
            op::STDERR => {
                self.begin(Cat::Idle, "standard error fails".into());
                if self.cfg.stderr { crate::sink::stderr_state(a.raw() % 6); }
                Ok(true)
            }
            op::MAT => self.s_mat(a),
            op::VIEW => {
                let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
                let mut r = a.stream();
                let v = self.gen_vo(i, &mut r);
                self.view(i, v, false)
            }
            op::CONSUME => {
                let Some(i) = self.pick(a, |h| h.kids == 0) else { return Ok(false) };
                let mut r = a.stream();
                let v = self.gen_vo(i, &mut r);
                self.view(i, v, true)
            }
            op::DROP => {
                let Some(i) = self.pick(a, |h| h.kids == 0) else { return Ok(false) };
                self.drop_at(i)?;
                Ok(true)
            }
            op::DROPCHAIN => {
                let Some(i) = self.pick(a, |h| h.kids == 0 && h.parent.is_some()) else { return Ok(false) };
                let mut p = self.h[i].parent;
                self.drop_at(i)?;
                self.post()?;
                while let Some(id) = p {
                    let Some(k) = self.pos(id) else { break };
                    if self.h[k].kids > 0 { break; }
                    p = self.h[k].parent;
                    ct(Ct::TDropBase);
                    self.drop_at(k)?;
                    self.post()?;
                }
                Ok(true)
            }
            op::DROPALL => {
                // everything that was not differentiated directly goes, views first; the roots stay
                let Some(k) = self.pick(a, |h| h.req) else { return Ok(false) };
                let keep = self.h[k].id;
                loop {
                    let c = (0..self.h.len()).rev().find(|&i| self.h[i].kids == 0 && !self.h[i].direct && self.h[i].id != keep);
                    match c { Some(i) => { self.drop_at(i)?; self.post()?; } None => break }
                }
                Ok(true)
            }
            op::BACK | op::BACKWITH | op::REBACK => self.s_back(s.op, a),
            op::ZERO => {
                let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
                self.begin(Cat::Track, format!("zero_gradient on {}", self.desc(i)));
                ct(Ct::ZeroGrad);
                let t = self.t(i);
                if lib(|| t.zero_gradient()).is_err() { return self.panicked(); }
                let n = self.h[i].node;
                if self.h[i].direct { if let Nk::Acc(g) = &mut self.nodes[n].k { g.iter_mut().for_each(|x| *x = 0.0); } }
                self.ctx = Ctx::Zero(self.h[i].id);
                Ok(true)
            }
            op::GHOLD => {
                let Some(i) = self.pick(a, |h| h.direct) else { return Ok(false) };
                if self.g.len() >= 4 { return Ok(false); }
                self.begin(Cat::Track, format!("gradient() of {}", self.desc(i)));
                ct(Ct::GradHold);
                let t = self.t(i);
                let g = match lib(|| t.gradient()) { Ok(g) => g, Err(_) => return self.panicked() };
                let Some(g) = g else { return vio("track", format!("{}: tracking was enabled directly but there is no gradient", self.name)) };
                self.h[i].kids += 1;
                let (p, n, sh) = { let h = &self.h[i]; (h.id, h.node, h.shape.clone()) };
                self.g.push(Gh { arr: Some(g), parent: p, node: n, shape: sh });
                Ok(true)
            }
            op::GDROP => {
                if self.g.is_empty() { return Ok(false); }
                let k = a.below(self.g.len());
                self.begin(Cat::Drop, "drop gradient handle".into());
                self.drop_g(k)?;
                self.ctx = Ctx::Drop;
                Ok(true)
            }
            op::GWRITE => {
                if self.g.is_empty() { return Ok(false); }
                let k = a.below(self.g.len());
                let how = a.below(3);
                let node = self.g[k].node;
                let Nk::Acc(cur) = self.nodes[node].k.clone() else { return Ok(false) };
                self.begin(Cat::Track, format!("write through gradient handle of #{} form {how}", self.g[k].parent));
                ct(Ct::GradWrite);
                let arr = self.g[k].arr.as_mut().unwrap();
                let mut nv = cur.clone();
                let ok = match how {
                    0 => { nv.iter_mut().for_each(|x| *x = 0.5); lib(|| arr.fill(T::f(0.5))).is_ok() }
                    1 => { nv.iter_mut().for_each(|x| *x += 1.0); if !exact(T::MANT, maxabs(&cur) + 1.0, gran(&cur).min(0)) { return Ok(false); } lib(|| *arr += T::f(1.0)).is_ok() }
                    _ => { nv.iter_mut().for_each(|x| *x = 0.0); lib(|| arr.zero()).is_ok() }
                };
                if !ok { return self.panicked(); }
                if let Nk::Acc(g) = &mut self.nodes[node].k { *g = nv; }
                self.ctx = Ctx::GWrite(node);
                Ok(true)
            }
            op::CONVERT => self.s_convert(a),
            op::ARRMUT => {
                let c: Vec<usize> = (0..self.arrs.len()).filter(|&i| matches!(self.arrs[i].a, ArrK::Own(_))).collect();
                if c.is_empty() { return Ok(false); }
                let k = c[a.below(c.len())];
                let how = a.below(3);
                self.begin(Cat::TensorOp, format!("mutate converted array {:?} form {how}", self.arrs[k].shape));
                ct(Ct::ArrMut);
                let x = &mut self.arrs[k];
                let ArrK::Own(arr) = &mut x.a else { unreachable!() };
                let ok = match how {
                    0 => { x.vals.iter_mut().for_each(|v| *v = 7.0); lib(|| arr.fill(T::f(7.0))).is_ok() }
                    1 => { x.vals.iter_mut().for_each(|v| *v = 0.0); lib(|| arr.zero()).is_ok() }
                    _ => { if !exact(T::MANT, 2.0 * maxabs(&x.vals), gran(&x.vals)) { return Ok(false); } x.vals.iter_mut().for_each(|v| *v *= 2.0); lib(|| T::iop_a(2, arr, T::f(2.0))).is_ok() }
                };
                if !ok { return self.panicked(); }
                Ok(true)
            }
            op::READ => self.s_read(a),
            op::INVALID => self.s_invalid(a),
            _ => Ok(false),
        }
    }

    fn neg_at(&mut self, i: usize, own: bool) -> Result<bool, Vio> {
        let (sh, v, req, n) = { let h = &self.h[i]; (h.shape.clone(), h.vals.iter().map(|x| -x).collect::<Vec<_>>(), h.req, h.node) };
        self.begin(Cat::TensorOp, format!("neg {}{}", self.desc(i), if own { " by value" } else { "" }));
        ct(Ct::TOp);
        let res = if own && !self.cfg.keep { ct(Ct::TConsume); let t = *self.take(i).obj.take().unwrap(); lib(move || -t) } else {
            let t = self.t(i);
            let r = lib(|| -t);
            if own { let h = self.take(i); self.dispose(h)?; }
            r
        };
        let node = if req { self.node(Nk::Neg, vec![n], sh.clone(), vec![sh.clone()], vec![]) } else { 0 };
        self.result(res, sh, v, node, req)
    }

    /// a long computation: a chain of steps on one value, most intermediates dropped at once
    fn s_chain(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
        let mut r = a.stream();
        let sh = self.h[i].shape.clone();
        if prod(&sh) > 300 { return Ok(false); }
        let root = self.h[i].id;
        // the value added again and again: many paths lead to it
        let acc = self.pick(a, |h| h.shape == sh).map(|j| self.h[j].id).unwrap();
        let n = *r.pick(&[6usize, 12, 12, 30, 70, 140]);
        let mut cur = root;
        let adds = r.below(3);
        let mut done = 0;
        for _ in 0..n {
            let Some(i) = self.pos(cur) else { break };
            let free = self.h[i].kids == 0 && cur != root && cur != acc;
            let own = free && r.chance(1, 2);
            let before = self.nid;
            if r.below(3) < adds {
                let Some(j) = self.pos(acc) else { break };
                let o = r.below(2);
                let (hi, hj) = (&self.h[i], &self.h[j]);
                if !exact(T::MANT, maxabs(&hi.vals) + maxabs(&hj.vals), gran(&hi.vals).min(gran(&hj.vals))) { break; }
                let v: Vec<f64> = hi.vals.iter().zip(&hj.vals).map(|(x, y)| if o == 0 { x + y } else { x - y }).collect();
                let (ni, nj, vi, vj, req) = (hi.node, hj.node, hi.vals.clone(), hj.vals.clone(), hi.req || hj.req);
                self.bin_go(i, j, o, own, false, sh.clone(), v, req, ni, nj, vi, vj, vec![sh.clone(), sh.clone()])?;
            } else { self.neg_at(i, own)?; }
            self.post()?;
            if self.nid == before { break; }
            done += 1;
            let next = self.h.last().unwrap().id;
            if !own && free && (r.chance(4, 5) || self.h.len() >= self.cfg.maxh) {
                if let Some(k) = self.pos(cur) { if self.h[k].kids == 0 { self.drop_at(k)?; self.post()?; } }
            }
            cur = next;
        }
        if done >= 12 { ct(Ct::LongChain); }
        Ok(done > 0)
    }

    /// a training loop: many passes from one root, with a reset in between now and then
    fn s_many(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, |h| h.req) else { return Ok(false) };
        let mut r = a.stream();
        let n = *r.pick(&[3usize, 6, 12, 20, 40]);
        let (root, sh) = (self.h[i].node, self.h[i].shape.clone());
        let id = self.h[i].id;
        let mut done = 0;
        for _ in 0..n {
            let Some(p) = self.plan(root, &vec![1.0; prod(&sh)]) else { break };
            let i = self.pos(id).unwrap();
            let re = self.h[i].rooted;
            self.begin(Cat::Backward, format!("backward from {}, pass {done} of many", self.desc(i)));
            ct(Ct::Backward);
            if re { ct(Ct::Reback); }
            let t = self.t(i);
            if lib(|| t.backward()).is_err() { return self.panicked(); }
            let mut reached = vec![];
            for (k, v) in p {
                if let Nk::Acc(g) = &mut self.nodes[k].k { for m in 0..g.len() { g[m] += v[m]; } }
                reached.push(k);
            }
            self.h[i].rooted = true;
            self.ctx = Ctx::Back { reached, re };
            self.post()?;
            done += 1;
            if r.chance(1, 10) {
                let Some(k) = (0..self.h.len()).find(|&k| self.h[k].direct) else { continue };
                self.begin(Cat::Track, format!("zero_gradient on {}", self.desc(k)));
                ct(Ct::ZeroGrad);
                let t = self.t(k);
                if lib(|| t.zero_gradient()).is_err() { return self.panicked(); }
                let nd = self.h[k].node;
                if let Nk::Acc(g) = &mut self.nodes[nd].k { g.iter_mut().for_each(|x| *x = 0.0); }
                self.ctx = Ctx::Zero(self.h[k].id);
                self.post()?;
            }
        }
        if done >= 12 { ct(Ct::ManyPasses); }
        Ok(done > 0)
    }

    fn drop_g(&mut self, k: usize) -> R {
        let g = self.g.remove(k);
        if let Some(p) = self.pos(g.parent) { self.h[p].kids -= 1; }
        let arr = g.arr;
        if lib(move || drop(arr)).is_err() { return self.panicked(); }
        Ok(())
    }
    fn drop_at(&mut self, i: usize) -> R {
        self.begin(Cat::Drop, format!("drop {}", self.desc(i)));
        ct(Ct::TDrop);
        let h = self.take(i);
        self.ctx = Ctx::Drop;
        self.dispose(h)
    }

    fn result(&mut self, r: P<Tn<T>>, sh: Vec<usize>, v: Vec<f64>, node: usize, req: bool) -> Result<bool, Vio> {
        match r {
            Ok(t) => { self.push(t, sh, v, node, req, false, false, None); Ok(true) }
            Err(_) => self.panicked(),
        }
    }

    fn partner(&mut self, a: &mut Args, sh: &[usize], r: &mut Rng, f: impl Fn(&Hd<T>) -> bool) -> Result<usize, Vio> {
        let sh2 = sh.to_vec();
        let c = self.pick(a, |h| bshape(&h.shape, &sh2).is_some() && f(h));
        if let Some(j) = c { if r.chance(3, 4) { return Ok(j); } }
        let mut s = sh.to_vec();
        if r.chance(2, 5) { for d in s.iter_mut() { if r.chance(1, 2) { *d = 1 } } }
        if r.chance(1, 3) { let k = r.below(s.len() + 1); s = s[k..].to_vec(); }
        else if r.chance(1, 6) && s.len() < 3 { s.insert(0, 2); }
        let track = r.chance(3, 4);
        let p2 = r.chance(1, 3);
        self.leaf(&s, p2, track, r)
    }

    fn s_bin(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
        let idi = self.h[i].id;
        let mut r = a.stream();
        let o = r.below(4);
        let sh = self.h[i].shape.clone();
        let j = if o == 3 {
            let s2 = sh.clone();
            match self.pick(a, |h| bshape(&h.shape, &s2).is_some() && h.vals.iter().all(|&x| pow2(x))) {
                Some(j) if r.chance(2, 3) => j,
                _ => { let mut s = sh.clone(); if r.chance(1, 3) { for d in s.iter_mut() { if r.chance(1, 2) { *d = 1 } } } let tr = r.chance(3, 4); self.leaf(&s, true, tr, &mut r)? }
            }
        } else { self.partner(a, &sh, &mut r, |_| true)? };
        let i = self.pos(idi).unwrap();
        let (hi, hj) = (&self.h[i], &self.h[j]);
        let out = bshape(&hi.shape, &hj.shape).unwrap();
        if prod(&out) > if self.cfg.big { 5000 } else { 96 } { return Ok(false); }
        let mut v = vec![];
        for k in 0..prod(&out) {
            let ix = unravel(k, &out);
            let (x, y) = (bget(&hi.vals, &hi.shape, &ix), bget(&hj.vals, &hj.shape, &ix));
            v.push(match o { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y });
        }
        let (gi, gj, mi, mj) = (gran(&hi.vals), gran(&hj.vals), maxabs(&hi.vals), maxabs(&hj.vals));
        let ok = match o {
            0 | 1 => exact(T::MANT, mi + mj, gi.min(gj)),
            2 => exact(T::MANT, mi * mj, gi.min(200) + gj.min(200)),
            _ => exact(T::MANT, mi, gi) && gi.min(200) - maxexp(&hj.vals) > -60,
        };
        if !ok || self.nodes[hi.node].depth > 40 || self.nodes[hj.node].depth > 40 { return Ok(false); }
        let req = hi.req || hj.req;
        let (ni, nj) = (hi.node, hj.node);
        let (vi, vj) = (hi.vals.clone(), hj.vals.clone());
        let ish = vec![hi.shape.clone(), hj.shape.clone()];
        let form = if i == j { 0 } else { r.below(6).min(4) };
        let (oi, oj) = (form == 1 || form == 3, form == 2 || form == 3);
        // a consumed operand must not be borrowed, and not be the other operand's source
        if (oi && (self.h[i].kids > 0)) || (oj && self.h[j].kids > 0) { return self.bin_go(i, j, o, false, false, out, v, req, ni, nj, vi, vj, ish); }
        self.bin_go(i, j, o, oi, oj, out, v, req, ni, nj, vi, vj, ish)
    }

    #[allow(clippy::too_many_arguments)]
    fn bin_go(&mut self, i: usize, j: usize, o: usize, oi: bool, oj: bool, out: Vec<usize>, v: Vec<f64>, req: bool, ni: usize, nj: usize, vi: Vec<f64>, vj: Vec<f64>, ish: Vec<Vec<usize>>) -> Result<bool, Vio> {
        self.begin(Cat::TensorOp, format!("{}{} op{o} {}{}", self.desc(i), if oi { " (by value)" } else { "" }, self.desc(j), if oj { " (by value)" } else { "" }));
        ct(Ct::TOp);
        let (idi, idj) = (self.h[i].id, self.h[j].id);
        macro_rules! go { ($a:expr, $b:expr) => { { let (a, b) = ($a, $b); lib(move || match o { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b }) } } }
        let res = if self.cfg.keep || (!oi && !oj) {
            let (x, y) = (self.t(i), self.t(j));
            let r = go!(x, y);
            for (own, id) in [(oi, idi), (oj, idj)] { if own { let k = self.pos(id).unwrap(); let h = self.take(k); self.dispose(h)?; } }
            r
        } else {
            ct(Ct::TConsume);
            let mut x = None;
            let mut y = None;
            if oi { let k = self.pos(idi).unwrap(); x = self.take(k).obj; }
            if oj { let k = self.pos(idj).unwrap(); y = self.take(k).obj; }
            match (x, y) {
                (Some(x), Some(y)) => go!(*x, *y),
                (Some(x), None) => { let y = self.t(self.pos(idj).unwrap()); go!(*x, y) }
                (None, Some(y)) => { let x = self.t(self.pos(idi).unwrap()); go!(x, *y) }
                _ => unreachable!(),
            }
        };
        let node = if req {
            let k = [Nk::Add, Nk::Sub, Nk::Mul, Nk::Div][o].clone();
            self.node(k, vec![ni, nj], out.clone(), ish, vec![vi, vj])
        } else { 0 };
        self.result(res, out, v, node, req)
    }

    fn s_bins(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
        let o = a.below(4);
        let own = a.chance(1, 3) && self.h[i].kids == 0;
        let sc = [2.0, 0.5, -1.0, 3.0, 5.0, -2.0, 0.0, 1.0][a.below(8)];
        let sc = if o == 3 && sc == 0.0 { 1.0 } else { sc };
        let sc = if o == 3 && !pow2(sc) { 4.0 } else { sc };
        let h = &self.h[i];
        let v: Vec<f64> = h.vals.iter().map(|x| match o { 0 => x + sc, 1 => x - sc, 2 => x * sc, _ => x / sc }).collect();
        let (g, m) = (gran(&h.vals), maxabs(&h.vals));
        let ok = match o { 0 | 1 => exact(T::MANT, m + sc.abs(), g.min(gran(&[sc]))), 2 => exact(T::MANT, m * sc.abs(), g.min(200) + gran(&[sc])), _ => g > -60 };
        if !ok || self.nodes[h.node].depth > 40 { return Ok(false); }
        let (sh, req, n) = (h.shape.clone(), h.req, h.node);
        self.begin(Cat::TensorOp, format!("{} op{o} scalar {sc}{}", self.desc(i), if own { " by value" } else { "" }));
        ct(Ct::TOp);
        let s = T::f(sc);
        let res = if own && !self.cfg.keep { ct(Ct::TConsume); let t = *self.take(i).obj.take().unwrap(); lib(move || match o { 0 => t + s, 1 => t - s, 2 => t * s, _ => t / s }) } else {
            let t = self.t(i);
            let r = lib(|| match o { 0 => t + s, 1 => t - s, 2 => t * s, _ => t / s });
            if own { let h = self.take(i); self.dispose(h)?; }
            r
        };
        let k = match o { 0 | 1 => Nk::Ident, 2 => Nk::Scale(sc), _ => Nk::Scale(1.0 / sc) };
        let node = if req { self.node(k, vec![n], sh.clone(), vec![sh.clone()], vec![]) } else { 0 };
        self.result(res, sh, v, node, req)
    }

    fn s_mat(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let want = 1 + a.below(3);
        let i = match self.pick(a, |h| h.shape.len() == want) {
            Some(i) => i,
            None => { let mut r = a.stream(); let sh: Vec<usize> = (0..want).map(|_| 1 + r.below(4)).collect(); let t = r.chance(3, 4); self.leaf(&sh, false, t, &mut r)? }
        };
        let idi = self.h[i].id;
        let mut r = a.stream();
        let si = self.h[i].shape.clone();
        let kind = match want { 1 => if r.chance(1, 2) { 0 } else { 3 }, 2 => 1 + r.below(2), _ => 4 };
        // kinds: 0 dot, 1 matrix*vector, 2 matrix*matrix, 3 matmul of two vectors, 4 bmm
        let fit = |s: &[usize]| match kind { 0 | 3 => s == &si[..], 1 => s.len() == 1 && s[0] == si[1], 2 => s.len() == 2 && s[0] == si[1], _ => s.len() == 3 && s[0] == si[0] && s[1] == si[2] };
        let c = self.pick(a, |h| fit(&h.shape));
        let j = match c {
            Some(j) if r.chance(2, 3) => j,
            _ => {
                let m = 1 + r.below(if self.cfg.big { 24 } else { 4 });
                let s = match kind { 0 | 3 => si.clone(), 1 => vec![si[1]], 2 => vec![si[1], m], _ => vec![si[0], si[2], m] };
                let t = r.chance(3, 4);
                self.leaf(&s, false, t, &mut r)?
            }
        };
        let i = self.pos(idi).unwrap();
        let (hi, hj) = (&self.h[i], &self.h[j]);
        let sj = hj.shape.clone();
        let (out, v, kk, nk): (Vec<usize>, Vec<f64>, usize, Nk) = match kind {
            0 | 3 => (vec![], vec![hi.vals.iter().zip(&hj.vals).map(|(x, y)| x * y).sum()], si[0], Nk::Dot),
            1 => (vec![si[0]], matmul(&hi.vals, &hj.vals, si[0], si[1], 1), si[1], Nk::MatVec),
            2 => (vec![si[0], sj[1]], matmul(&hi.vals, &hj.vals, si[0], si[1], sj[1]), si[1], Nk::MatMat),
            _ => {
                let mut v = vec![];
                let (n, k, m) = (si[1], si[2], sj[2]);
                for t in 0..si[0] { v.extend(matmul(&hi.vals[t * n * k..(t + 1) * n * k], &hj.vals[t * k * m..(t + 1) * k * m], n, k, m)); }
                (vec![si[0], n, m], v, k, Nk::Bmm)
            }
        };
        if !exact(T::MANT, kk as f64 * maxabs(&hi.vals) * maxabs(&hj.vals), gran(&hi.vals).min(200) + gran(&hj.vals).min(200)) || self.nodes[hi.node].depth > 40 || self.nodes[hj.node].depth > 40 { return Ok(false); }
        let req = hi.req || hj.req;
        let (ni, nj, vi, vj) = (hi.node, hj.node, hi.vals.clone(), hj.vals.clone());
        let own = r.chance(1, 4) && i != j && self.h[j].kids == 0;
        self.begin(Cat::TensorOp, format!("matrix product kind {kind} of {} and {}{}", self.desc(i), self.desc(j), if own { " (by value)" } else { "" }));
        ct(Ct::TMat);
        let x = self.t(i);
        let res = if own && !self.cfg.keep {
            ct(Ct::TConsume);
            let y = *self.take(j).obj.take().unwrap();
            lib(move || match kind { 0 => x.dot(y), 4 => x.bmm(y), _ => x.matmul(y) })
        } else {
            let y = self.t(j);
            let r = lib(|| match kind { 0 => x.dot(y), 4 => x.bmm(y), _ => x.matmul(y) });
            if own { let h = self.take(j); self.dispose(h)?; }
            r
        };
        let node = if req { self.node(nk, vec![ni, nj], out.clone(), vec![si, sj], vec![vi, vj]) } else { 0 };
        self.result(res, out, v, node, req)
    }

    fn gen_vo(&self, i: usize, r: &mut Rng) -> Vo {
        let sh = &self.h[i].shape;
        let n = sh.len() as isize;
        match r.below(8) {
            0 => Vo::View,
            1 | 2 => {
                let p = prod(sh);
                let opts: Vec<Vec<usize>> = vec![vec![p], vec![1, p], vec![p, 1], if p % 2 == 0 { vec![2, p / 2] } else { vec![p] }, if p % 2 == 0 { vec![p / 2, 1, 2] } else { vec![1, p] }, if p % 3 == 0 { vec![p / 3, 3] } else { sh.clone() }, if p == 1 { vec![] } else { sh.clone() }];
                Vo::Reshape(r.pick(&opts).clone())
            }
            3 => Vo::Squeeze,
            4 => if sh.len() < 4 { let k = r.below(sh.len() + 1) as isize; Vo::Unsqueeze(if r.chance(1, 3) { k - n - 1 } else { k }) } else { Vo::View },
            5 if sh.len() >= 2 => Vo::T,
            _ => if sh.len() >= 2 {
                let (x, y) = (r.below(sh.len()) as isize, r.below(sh.len()) as isize);
                Vo::Transpose(if r.chance(1, 3) { x - n } else { x }, if r.chance(1, 3) { y - n } else { y })
            } else { Vo::View },
        }
    }

    fn view(&mut self, i: usize, v: Vo, consume: bool) -> Result<bool, Vio> {
        let (sh, map) = match view_map(&self.h[i].shape, &v) { Some(x) => x, None => return Ok(false) };
        let t = self.t(i);
        // the documented precondition of reshape
        let unsupported = matches!(&v, Vo::Reshape(s) if *s != self.h[i].shape) && !t.is_uniformly_strided();
        let h = &self.h[i];
        if self.nodes[h.node].depth > 40 { return Ok(false); }
        let vals: Vec<f64> = map.iter().map(|&k| h.vals[k as usize]).collect();
        let (req, n, osh, id) = (h.req, h.node, h.shape.clone(), h.id);
        self.begin(Cat::TensorOp, format!("{v:?} of {}{}", self.desc(i), if consume { " (by value)" } else { "" }));
        ct(Ct::TView);
        let mut parent = Some(id);
        let res = if consume && !self.cfg.keep {
            ct(Ct::TConsume);
            let t = *self.take(i).obj.take().unwrap();
            // consuming yields a 'static tensor even when the source was a view
            parent = None;
            lib(move || { let r = do_vo(t, &v); (r, v) })
        } else {
            let r = lib(|| { let r = do_vo(t, &v); (r, v) });
            if consume {
                parent = None;
                let h = self.take(i);
                self.dispose(h)?;
            }
            r
        };
        match res {
            Err(_) if unsupported => { ct(Ct::PPanicsValid); self.ctx = Ctx::Reject; Ok(true) }
            Err(_) => self.panicked(),
            Ok((t, v)) => {
                let node = if req {
                    let ident = map.iter().enumerate().all(|(k, &m)| k as u32 == m);
                    self.node(if ident && sh == osh { Nk::Ident } else { Nk::Map(map) }, vec![n], sh.clone(), vec![osh], vec![])
                } else { 0 };
                drop(v);
                // a view made from a view keeps the original borrow
                self.push(t, sh, vals, node, req, false, false, parent);
                Ok(true)
            }
        }
    }

    /// (gradients per accumulator, reached accumulators) or None if the pass would be inexact or too large
    fn plan(&self, root: usize, g0: &[f64]) -> Option<Vec<(usize, Vec<f64>)>> {
        let n = root + 1;
        let mut g: Vec<Option<(Vec<f64>, Vec<f64>, i32, f64)>> = vec![None; n];
        g[root] = Some((g0.to_vec(), g0.iter().map(|x| x.abs()).collect(), gran(g0), 1.0));
        let mut out = vec![];
        let mut visits = 0.0;
        for k in (0..n).rev() {
            let Some((v, ab, gr, paths)) = g[k].take() else { continue };
            let nd = &self.nodes[k];
            if matches!(nd.k, Nk::None) { continue; }
            visits += paths;
            if visits > 1500.0 || !exact(T::MANT, maxabs(&ab), gr) { return None; }
            if let Nk::Acc(cur) = &nd.k {
                if !exact(T::MANT, maxabs(cur) + maxabs(&ab), gr.min(gran(cur))) { return None; }
                if paths > 1.5 { ct(Ct::Diamond); }
                out.push((k, v));
                continue;
            }
            let vs = vjp(nd, &v, false);
            let abs = vjp(nd, &ab, true);
            for (q, ((x, dg), (y, _))) in vs.into_iter().zip(abs).enumerate() {
                let t = nd.ins[q];
                if matches!(self.nodes[t].k, Nk::None) { continue; }
                let ng = gr.saturating_add(dg).min(500);
                match &mut g[t] {
                    Some((a, b, c, p)) => {
                        for m in 0..a.len() { a[m] += x[m]; b[m] += y[m]; }
                        *c = (*c).min(ng);
                        *p += paths;
                    }
                    s => *s = Some((x, y, ng, paths)),
                }
            }
        }
        Some(out)
    }

    fn s_back(&mut self, o: u8, a: &mut Args) -> Result<bool, Vio> {
        let i = if o == op::REBACK { self.pick(a, |h| h.rooted) } else if a.raw() % 8 == 0 { self.pick(a, |_| true) } else { self.pick(a, |h| h.req && !h.direct).or_else(|| self.pick(a, |_| true)) };
        let Some(i) = i else { return Ok(false) };
        let sh = self.h[i].shape.clone();
        let n = prod(&sh);
        let mut r = a.stream();
        let form = if o == op::BACK || (o == op::REBACK && r.chance(1, 2)) { 0 } else { 1 + r.below(6) };
        // forms: 0 ones, 1 plain, 2 transposed view, 3 strided slice, 4 broadcast view, 5 plain by value, 6 another tensor's gradient handle
        let mut g0 = vec![1.0; n];
        let mut arr: Option<Nd<T>> = None;
        let mut base: Option<Nd<T>> = None;
        let mut held: Option<usize> = None;
        let mk = |v: &[f64], s: &[usize]| { let v: Vec<T> = v.iter().map(|&x| T::f(x)).collect(); lib(|| T::new_a(v.clone(), s)) };
        let stn = |x: &Nd<T>| unsafe { &*(x as *const Nd<T>) };
        self.begin(Cat::Backward, format!("prepare gradient form {form}"));
        match form {
            0 => {}
            6 if self.g.iter().any(|g| g.shape == sh) => {
                let c: Vec<usize> = (0..self.g.len()).filter(|&k| self.g[k].shape == sh).collect();
                let k = c[r.below(c.len())];
                held = Some(k);
                let Nk::Acc(cur) = &self.nodes[self.g[k].node].k else { return Ok(false) };
                g0 = cur.clone();
            }
            2 if sh.len() >= 2 => {
                let mut s2 = sh.clone();
                s2.swap(0, sh.len() - 1);
                let bv = Self::gen_vals(&mut r, n, false);
                for k in 0..n { let mut ix = unravel(k, &sh); ix.swap(0, sh.len() - 1); g0[k] = bv[ravel(&ix, &s2)]; }
                let b = match mk(&bv, &s2) { Ok(b) => b, Err(_) => return self.panicked() };
                let bb = Box::leak(Box::new(b));
                arr = match lib(|| stn(bb).transpose(0, (sh.len() - 1) as isize)) { Ok(v) => Some(v), Err(_) => return self.panicked() };
                base = Some(unsafe { *Box::from_raw(bb as *mut Nd<T>) });
            }
            3 if !sh.is_empty() => {
                let mut s2 = sh.clone();
                let l = s2.len() - 1;
                s2[l] += 2;
                let bv = Self::gen_vals(&mut r, prod(&s2), false);
                for k in 0..n { let mut ix = unravel(k, &sh); ix[l] += 1; g0[k] = bv[ravel(&ix, &s2)]; }
                let b = match mk(&bv, &s2) { Ok(b) => b, Err(_) => return self.panicked() };
                let (lo, hi) = (1, 1 + sh[l]);
                let bb = Box::leak(Box::new(b));
                arr = match lib(|| stn(bb).slice_along(Axis(l as isize), lo..hi)) { Ok(v) => Some(v), Err(_) => return self.panicked() };
                base = Some(unsafe { *Box::from_raw(bb as *mut Nd<T>) });
            }
            4 if !sh.is_empty() => {
                let mut s2 = sh.clone();
                for d in s2.iter_mut() { if r.chance(1, 2) { *d = 1 } }
                let bv = Self::gen_vals(&mut r, prod(&s2), false);
                for k in 0..n { g0[k] = bget(&bv, &s2, &unravel(k, &sh)); }
                let b = match mk(&bv, &s2) { Ok(b) => b, Err(_) => return self.panicked() };
                let bb = Box::leak(Box::new(b));
                arr = match lib(|| stn(bb).broadcast_to(&sh)) { Ok(v) => Some(v), Err(_) => return self.panicked() };
                base = Some(unsafe { *Box::from_raw(bb as *mut Nd<T>) });
            }
            _ => {
                g0 = Self::gen_vals(&mut r, n, false);
                arr = match mk(&g0, &sh) { Ok(b) => Some(b), Err(_) => return self.panicked() };
            }
        }
        let root = self.h[i].node;
        let re = self.h[i].rooted;
        let plan = self.plan(root, &g0);
        let done = match plan {
            None => { ct(Ct::BackSkip); None }
            Some(p) => {
                self.begin(Cat::Backward, format!("backward from {} with gradient form {form}{}", self.desc(i), if re { " again" } else { "" }));
                ct(Ct::Backward);
                if re { ct(Ct::Reback); }
                if self.gone { ct(Ct::BackAfterDrop); }
                let t = self.t(i);
                let ok = match form {
                    0 => lib(|| t.backward()).is_ok(),
                    5 => { let g = arr.take().unwrap(); lib(move || t.backward_with(g)).is_ok() }
                    _ => {
                        if let Some(k) = held { let g = stn(self.g[k].arr.as_ref().unwrap()); lib(|| t.backward_with(g)).is_ok() }
                        else { let g = arr.as_ref().unwrap(); lib(|| t.backward_with(g)).is_ok() }
                    }
                };
                if !ok { return self.panicked(); }
                Some(p)
            }
        };
        if lib(move || { drop(arr); drop(base) }).is_err() { return self.panicked(); }
        let Some(p) = done else { return Ok(false) };
        let mut reached = vec![];
        for (k, v) in p {
            if let Nk::Acc(g) = &mut self.nodes[k].k { for m in 0..g.len() { g[m] += v[m]; } }
            reached.push(k);
        }
        self.h[i].rooted = true;
        self.ctx = Ctx::Back { reached, re };
        Ok(true)
    }

    fn s_convert(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, |h| h.kids == 0) else { return Ok(false) };
        if self.arrs.len() > 5 {
            self.begin(Cat::Drop, "drop converted array".into());
            let x = self.arrs.remove(0);
            if self.cfg.keep { self.gravea.push(x); } else if lib(move || drop(x.a)).is_err() { return self.panicked(); }
            self.ctx = Ctx::Drop;
            return Ok(true);
        }
        let how = a.below(4);
        let (sh, vals, seq) = { let h = &self.h[i]; (h.shape.clone(), h.vals.clone(), h.id) };
        self.begin(Cat::TensorOp, format!("convert {} form {}", self.desc(i), ["detach", "into_ndarray", "get_ndarray", "get_ndarray then drop tensor"][how]));
        ct(Ct::TConvert);
        let t = self.t(i);
        let ar = match how {
            0 => match lib(|| t.detach()) { Ok(x) => ArrK::Own(x), Err(_) => return self.panicked() },
            1 => {
                if self.cfg.keep {
                    let r = match lib(|| t.detach()) { Ok(x) => x, Err(_) => return self.panicked() };
                    let h = self.take(i);
                    self.dispose(h)?;
                    ArrK::Own(r)
                } else {
                    let o = *self.take(i).obj.take().unwrap();
                    match lib(move || o.into_ndarray()) { Ok(x) => ArrK::Own(x), Err(_) => return self.panicked() }
                }
            }
            _ => {
                let r = match lib(|| t.get_ndarray()) { Ok(x) => x, Err(_) => return self.panicked() };
                if how == 3 { let h = self.take(i); self.dispose(h)?; }
                ArrK::Shared(r)
            }
        };
        self.arrs.push(Ar { a: ar, shape: sh, vals, seq, src_live: None });
        self.ctx = Ctx::Other;
        Ok(true)
    }

    fn s_read(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
        let how = a.below(5);
        let t = self.t(i);
        self.begin(Cat::TensorOp, format!("read {} form {how}", self.desc(i)));
        ct(Ct::Checks);
        let h = &self.h[i];
        match how {
            0 if h.vals.len() == 1 => match lib(|| t.value()) { Ok(v) => if v.d() != h.vals[0] { return vio("tvalue", format!("{}: value() is {}, model {}", self.name, v.d(), h.vals[0])); }, Err(_) => return self.panicked() },
            1 => {
                let v: Vec<T> = h.vals.iter().map(|&x| T::f(x)).collect();
                let sh = h.shape.clone();
                // equal, and with one element changed unequal
                let mut w = v.clone();
                let odd = a.below(w.len());
                w[odd] = T::f(h.vals[odd] + if h.vals[odd].abs() < 1e6 { 1.0 } else { h.vals[odd].abs() });
                for (v, want) in [(v, true), (w, false)] {
                    let r = lib(|| {
                        let b = T::new_t(v.clone(), &sh);
                        let m = T::new_a(v.clone(), &sh);
                        let rm = &m;
                        [*t == b, !(*t != b), *t == m, m == *t, m == t, rm == *t]
                    });
                    match r {
                        Ok(x) => if x.iter().any(|&e| e != want) { return vio("tvalue", format!("{}: comparisons with {} tensors/arrays give {x:?}", self.name, if want { "equal" } else { "different" })) },
                        Err(_) => return self.panicked(),
                    }
                }
            }
            2 => match lib(|| format!("{t:?}") == format!("{:?}", t.ndarray())) { Ok(true) => {} Ok(false) => return vio("tvalue", format!("{}: prints differently from its array", self.name)), Err(_) => return self.panicked() },
            3 => { if t.ndims() != h.shape.len() || t.size() != prod(&h.shape) || t.len() != h.shape.first().copied().unwrap_or(0) { return vio("tvalue", format!("{}: ndims/size/len disagree with shape {:?}", self.name, h.shape)); } }
            _ => {}
        }
        Ok(true)
    }

    fn s_invalid(&mut self, a: &mut Args) -> Result<bool, Vio> {
        let Some(i) = self.pick(a, |_| true) else { return Ok(false) };
        let mut r = a.stream();
        let sh = self.h[i].shape.clone();
        let t = self.t(i);
        let how = r.below(10);
        let cur: std::cell::RefCell<String> = Default::default();
        let nm = |s: String| { *cur.borrow_mut() = s.clone(); set_cat(Cat::Reject, &s) };
        let res: Result<bool, Panicked> = match how {
            0 => {
                let mut s2 = sh.clone();
                match r.below(4) {
                    0 => s2.insert(0, 1),
                    1 if !s2.is_empty() => { let k = r.below(s2.len()); s2[k] += 1 }
                    2 if s2.iter().any(|&d| d > 1) => { let k = s2.iter().position(|&d| d > 1).unwrap(); s2[k] = 1 }
                    _ => s2.push(2),
                }
                let v = vec![T::f(1.0); prod(&s2)];
                self.begin(Cat::Create, "gradient of another shape".into());
                let g = match lib(|| T::new_a(v.clone(), &s2)) { Ok(g) => g, Err(_) => return self.panicked() };
                nm(format!("backward_with gradient of shape {s2:?} on {}", self.desc(i)));
                let x = lib(|| { t.backward_with(&g); false });
                let _ = lib(move || drop(g));
                x
            }
            1 | 2 => {
                let mut s2 = sh.clone();
                if s2.iter().all(|&d| d == 1) { return Ok(false); }
                let k = s2.iter().position(|&d| d > 1).unwrap();
                s2[k] += 1;
                let j = self.leaf(&s2, false, r.chance(1, 2), &mut r.clone())?;
                let (x, y) = (self.t(i), self.t(j));
                let o = r.below(4);
                nm(format!("op{o} of incompatible shapes {} and {}", self.desc(i), self.desc(j)));
                lib(|| { let _z = match o { 0 => x + y, 1 => x - y, 2 => y * x, _ => y / x }; false })
            }
            3 | 4 => {
                // matrix products with mismatched shapes
                let kind = r.below(3);
                let (a1, b1): (Vec<usize>, Vec<usize>) = match kind {
                    0 => r.pick(&[(vec![3], vec![4]), (vec![2, 2], vec![2]), (vec![2], vec![2, 2]), (vec![], vec![2]), (vec![1], vec![3])]).clone(),
                    1 => r.pick(&[(vec![2, 3], vec![2, 3]), (vec![2, 3], vec![2]), (vec![2, 1], vec![3, 2]), (vec![3], vec![3, 2]), (vec![2, 2, 2], vec![2, 2]), (vec![2, 3], vec![1]), (vec![3, 2], vec![3, 3])]).clone(),
                    _ => r.pick(&[(vec![2, 2, 3], vec![2, 2, 3]), (vec![2, 2, 3], vec![3, 3, 2]), (vec![1, 2, 3], vec![2, 3, 2]), (vec![2, 2], vec![2, 2]), (vec![2, 2, 3], vec![2, 4, 2]), (vec![2, 2, 1], vec![2, 3, 2]), (vec![2, 2, 3], vec![2, 1, 2])]).clone(),
                };
                let tr1 = r.chance(1, 2);
                let p = self.leaf(&a1, false, tr1, &mut r)?;
                let pid = self.h[p].id;
                let q = self.leaf(&b1, false, !tr1, &mut r)?;
                let p = self.pos(pid).unwrap();
                let (x, y) = (self.t(p), self.t(q));
                nm(format!("matrix product kind {kind} of shapes {a1:?} and {b1:?}"));
                lib(|| { let _z = match kind { 0 => x.dot(y), 1 => x.matmul(y), _ => x.bmm(y) }; false })
            }
            5 => { let n = sh.len() as isize; let (x, y) = *r.pick(&[(0, n), (n, 0), (-n - 1, 0), (n + 3, n + 3)]); nm(format!("transpose({x}, {y}) of {}", self.desc(i))); lib(|| { let _z = t.transpose(x, y); false }) }
            7 if sh.len() < 2 => { nm(format!("T of {}", self.desc(i))); lib(|| { let _z = t.T(); false }) }
            8 if prod(&sh) > 1 => { nm(format!("value of {}", self.desc(i))); lib(|| { let _z = t.value(); false }) }
            9 => { let k = r.below(4); nm(format!("tensor from invalid data {k}")); lib(|| { match k { 0 => drop(Tensor::<f64>::new(vec![vec![1.0f64; 2], vec![1.0; 3]])), 1 => drop(Tensor::<f32>::new(Vec::<f32>::new())), 2 => drop(Tensor::<T>::full(T::f(2.0), [2, 0])), _ => drop(Tensor::<f64>::new([vec![1.0f64; 1], vec![1.0; 2]])) }; false }) }
            6 => { let s2 = vec![prod(&sh), 2]; nm(format!("reshape {s2:?} of {}", self.desc(i))); lib(|| { let _z = t.reshape(&s2); false }) }
            _ => { let n = sh.len() as isize; let x = *r.pick(&[n + 1, n + 2, -n - 2]); nm(format!("unsqueeze({x}) of {}", self.desc(i))); lib(|| { let _z = t.unsqueeze(x); false }) }
        };
        self.cat = Cat::Reject;
        self.name = cur.borrow().clone();
        ct(Ct::Invalid);
        self.ctx = Ctx::Reject;
        match res {
            Ok(_) => vio("reject", format!("invalid call accepted: {}", self.name)),
            Err(_) => { ct(Ct::InvalidPanicked); Ok(true) }
        }
    }

    fn cmp(&self, real: &[T], model: &[f64]) -> Option<String> {
        if real.len() != model.len() { return Some(format!("{} elements, model has {}", real.len(), model.len())); }
        for k in 0..real.len() {
            if real[k].d() != model[k] { return Some(format!("element {k} is {}, model says {} (all: {:?})", real[k].d(), model[k], real.iter().take(8).map(|x| x.d()).collect::<Vec<_>>())); }
        }
        None
    }

    /// compares everything observable with the model
    fn post(&mut self) -> R {
        if self.cfg.mem {
            heap::check_all();
            if let Some(e) = heap::take_err() { return vio("mem", format!("{}: {e}", self.name)); }
        }
        let ctx = self.ctx.clone();
        let mut dg = 0u64;
        for i in 0..self.h.len() {
            let h = &self.h[i];
            let t = self.t(i);
            let who = self.desc(i);
            let me = |id: u64| id == h.id;
            let vkind = match &ctx { Ctx::Back { .. } | Ctx::Zero(_) | Ctx::GWrite(_) => "track", Ctx::Toggle(_) => "reconf", Ctx::Reject => "reject", _ => "tvalue" };
            let vkind = if self.cat == Cat::Sink { "sink" } else { vkind };
            let fkind = match &ctx { _ if self.cat == Cat::Sink => "sink", Ctx::Reject => "reject", Ctx::Toggle(id) if !me(*id) => "reconf", _ => "track" };
            if t.shape() != &h.shape[..] || t.ndarray().shape() != &h.shape[..] { return vio(vkind, format!("{}: {who} has shape {:?}, model {:?}", self.name, t.shape(), h.shape)); }
            let v = match lib(|| t.ndarray().flatiter().collect::<Vec<T>>()) { Ok(v) => v, Err(_) => return self.panicked() };
            ct(Ct::Checks);
            if let Some(m) = self.cmp(&v, &h.vals) { return vio(vkind, format!("{}: value of {who}: {m}", self.name)); }
            for x in &v { dg = hash2(dg, x.bits64()); }
            drop_lib(v);
            if t.requires_grad() != h.req { return vio(fkind, format!("{}: {who}: requires_grad is {}, expected {}", self.name, t.requires_grad(), h.req)); }
            // (whether a computed tensor on which tracking was switched on counts as a leaf is left open)
            if !(h.direct && !h.user) {
                let leaf = if h.req { h.user } else { true };
                if t.is_leaf() != leaf { return vio(fkind, format!("{}: {who}: is_leaf is {}, expected {leaf}", self.name, t.is_leaf())); }
            }
            let g = match lib(|| t.gradient().map(|g| { let s = g.shape().to_vec(); (g.flatiter().collect::<Vec<T>>(), s) })) { Ok(g) => g, Err(_) => return self.panicked() };
            match (&g, h.direct) {
                (Some(_), false) => return vio(fkind, format!("{}: {who}: a gradient is available on a tensor that is not a tracked leaf", self.name)),
                (None, true) => return vio(fkind, format!("{}: {who}: no gradient although tracking was enabled on it", self.name)),
                (None, false) => {}
                (Some((v, s)), true) => {
                    let Nk::Acc(cur) = &self.nodes[h.node].k else { return vio("harness", "leaf without accumulator".into()) };
                    if *s != h.shape { return vio("grad", format!("{}: gradient of {who} has shape {s:?}", self.name)); }
                    if let Some(m) = self.cmp(v, cur) {
                        let k = match &ctx {
                            Ctx::Back { reached, re } => if reached.contains(&h.node) { if *re { "regrad" } else { "grad" } } else { "track" },
                            Ctx::Zero(id) => if me(*id) { "grad" } else { "track" },
                            Ctx::Toggle(id) => if me(*id) { "track" } else { "reconf" },
                            Ctx::Reject => "reject",
                            Ctx::GWrite(n) => if *n == h.node { "grad" } else { "track" },
                            _ => "grad",
                        };
                        return vio(k, format!("{}: gradient of {who}: {m}", self.name));
                    }
                    for x in v { dg = hash2(dg, x.bits64()); }
                }
            }
            drop_lib(g);
            ct(Ct::Checks);
        }
        for g in &self.g {
            let Nk::Acc(cur) = &self.nodes[g.node].k else { continue };
            let arr = g.arr.as_ref().unwrap();
            let v = match lib(|| arr.flatiter().collect::<Vec<T>>()) { Ok(v) => v, Err(_) => return self.panicked() };
            if let Some(m) = self.cmp(&v, cur) {
                let k = if ctx == Ctx::Reject { "reject" } else { "grad" };
                return vio(k, format!("{}: gradient handle of #{} taken earlier: {m}", self.name, g.parent));
            }
            drop_lib(v);
        }
        for x in &self.arrs {
            let arr: &Nd<T> = match &x.a { ArrK::Own(a) => a, ArrK::Shared(a) => a };
            let v = match lib(|| arr.flatiter().collect::<Vec<T>>()) { Ok(v) => v, Err(_) => return self.panicked() };
            if arr.shape() != &x.shape[..] { return vio("tvalue", format!("{}: converted array has shape {:?}, expected {:?}", self.name, arr.shape(), x.shape)); }
            if let Some(m) = self.cmp(&v, &x.vals) { return vio(if ctx == Ctx::Reject { "reject" } else { "tvalue" }, format!("{}: converted array (from #{}): {m}", self.name, x.seq)); }
            drop_lib(v);
        }
        digest(dg);
        let mut sig = self.h.len() as u64;
        for h in &self.h { sig = hash2(sig, hash2(h.shape.iter().fold(7, |a, &d| hash2(a, d as u64)), (h.req as u64) | (h.direct as u64) << 1 | (h.kids as u64) << 2 | (self.nodes[h.node].depth as u64) << 8)); }
        reached(hash2(sig, self.cat as u64));
        Ok(())
    }

    pub fn teardown(&mut self) -> R {
        self.begin(Cat::Drop, "drop at end".into());
        while !self.g.is_empty() { self.drop_g(0)?; }
        while let Some(x) = self.arrs.pop() { if lib(move || drop(x.a)).is_err() { return self.panicked(); } }
        while let Some(x) = self.gravea.pop() { if lib(move || drop(x.a)).is_err() { return self.panicked(); } }
        // latest first: views go before their sources
        let mut all: Vec<(u64, Box<Tn<T>>)> = std::mem::take(&mut self.grave);
        for mut h in std::mem::take(&mut self.h) { all.push((h.id, h.obj.take().unwrap())); }
        all.sort_by_key(|x| x.0);
        while let Some((_, o)) = all.pop() {
            if lib(move || drop(o)).is_err() { return self.panicked(); }
            if self.cfg.mem { heap::check_all(); if let Some(e) = heap::take_err() { return vio("mem", format!("drop at end: {e}")); } }
        }
        set_cat(Cat::Idle, "");
        Ok(())
    }
}

/// frees a buffer that was allocated while library code was running
fn drop_lib<X>(x: X) { let _ = lib(move || drop(x)); }
