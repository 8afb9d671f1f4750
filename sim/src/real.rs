//! The object-safe layer through which the worlds drive the real `NdArray<T>` of every element
//! type.  Nothing here models behaviour: each method is one public library call.
use crate::core::{lib, Panicked};
use redstone_ml::util::index::Index;
use redstone_ml::*;
use std::any::Any;

pub type Nd<T> = NdArray<'static, T>;
pub type Obj = Box<dyn Real>;
pub type P<T> = Result<T, Panicked>;

pub const NDT: usize = 15;
pub const DT_NAMES: [&str; NDT] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool"];
pub const FSHIFT: u32 = 12;

/// static facts about an element type the model needs
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Dt(pub u8);
impl Dt {
    pub fn name(self) -> &'static str { DT_NAMES[self.0 as usize] }
    pub fn unsigned(self) -> bool { self.0 < 6 }
    pub fn float(self) -> bool { self.0 == 12 || self.0 == 13 }
    pub fn boolean(self) -> bool { self.0 == 14 }
    pub fn int(self) -> bool { self.0 < 12 }
    pub fn size(self) -> usize { [1, 2, 4, 8, 16, 8, 1, 2, 4, 8, 16, 8, 4, 8, 1][self.0 as usize] }
    pub fn bits(self) -> u32 { self.size() as u32 * 8 }
    pub fn max(self) -> i128 {
        match self.0 {
            0..=3 => (1i128 << self.bits()) - 1,
            5 => (1i128 << 64) - 1,
            4 => i128::MAX,
            14 => 1,
            10 => i128::MAX,
            _ => (1i128 << (self.bits() - 1)) - 1,
        }
    }
    pub fn mant(self) -> u32 { if self.0 == 12 { 24 } else { 53 } }
    pub fn shift(self) -> u32 { if self.float() { FSHIFT } else { 0 } }
    pub fn one(self) -> i128 { 1i128 << self.shift() }
    /// value v (fixed point) is exactly representable
    pub fn fits(self, v: i128) -> bool {
        if self.float() {
            if v == 0 { return true; }
            let a = v.unsigned_abs();
            128 - a.leading_zeros() - a.trailing_zeros() <= self.mant()
        } else if self.boolean() {
            v == 0 || v == 1
        } else if self.unsigned() {
            v >= 0 && v <= self.max()
        } else {
            // the most negative value has no magnitude
            v <= self.max() && v >= -self.max()
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub shape: Vec<usize>,
    pub stride: Vec<usize>,
    pub contiguous: bool,
    pub view: bool,
    pub uniform: bool,
    pub ustride: Option<usize>,
    pub ndims: usize,
    pub len: usize,
    pub size: usize,
}

#[derive(Clone, Debug)]
pub enum Ix { At(usize), R(usize, usize), From(usize), Full, RI(usize, usize), To(usize), ToI(usize) }
impl Ix {
    pub fn real(&self) -> Index {
        match *self {
            Ix::At(i) => Index::from(i),
            Ix::R(a, b) => Index::from(a..b),
            Ix::From(a) => Index::from(a..),
            Ix::Full => Index::from(..),
            Ix::RI(a, b) => Index::from(a..=b),
            Ix::To(b) => Index::from(..b),
            Ix::ToI(b) => Index::from(..=b),
        }
    }
}

#[derive(Clone, Debug)]
pub enum VOp {
    View,
    Reshape(Vec<usize>),
    Squeeze,
    Unsqueeze(isize),
    T,
    Transpose(isize, isize),
    Slice(Vec<Ix>),
    SliceAlong(isize, Ix),
    Diag(u8, isize, isize, isize),
    Broadcast(Vec<usize>),
    EinsumView(String, String),
}

/// an owned or borrowed operand
pub enum A<'x, T: RawDataType> { R(&'x Nd<T>), O(Nd<T>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cu { Flat, Ptr, Iter, Along(isize), Nd([usize; 4], usize), NdArr([usize; 4], usize) }

pub enum Item { Val(i128), Addr(usize), Arr(Obj) }
pub trait Cursor {
    fn step(&mut self) -> P<Option<Item>>;
    /// skips k items
    fn nth(&mut self, k: usize) -> P<Option<Item>>;
    fn hint(&self) -> P<(usize, Option<usize>)>;
    fn close(&mut self) -> P<()>;
    /// runs to the end with one of the consuming adaptors: 0 count, 1 last, 2 collect, 3 fold, 4 step_by(2), 5 skip(1)
    fn finish(&mut self, k: u8) -> P<(usize, Vec<Item>)>;
}

pub trait El: RawDataType {
    const DT: Dt;
    fn fi(v: i128) -> Self;
    fn ti(self) -> i128;
    /// raw bits, for bitwise comparison
    fn tb(self) -> u128;
    fn fb(v: u128) -> Self;
    fn zeros(_s: Vec<usize>) -> Nd<Self> { unreachable!() }
    fn ones(_s: Vec<usize>) -> Nd<Self> { unreachable!() }
    fn zero_(_a: &mut Nd<Self>) { unreachable!() }
    fn bin(_o: u8, _a: A<Self>, _b: A<Self>) -> Nd<Self> { unreachable!() }
    fn bin_s(_o: u8, _a: A<Self>, _s: Self) -> Nd<Self> { unreachable!() }
    fn iop(_o: u8, _a: &mut Nd<Self>, _b: A<Self>) { unreachable!() }
    fn iop_s(_o: u8, _a: &mut Nd<Self>, _s: Self) { unreachable!() }
    fn red(_k: u8, _a: &Nd<Self>) -> Nd<Self> { unreachable!() }
    fn red_ax(_k: u8, _a: &Nd<Self>, _ax: Vec<isize>, _form: u8) -> Nd<Self> { unreachable!() }
    fn neg(_a: A<Self>) -> Nd<Self> { unreachable!() }
    fn mat(_k: u8, _a: &Nd<Self>, _b: A<Self>) -> Nd<Self> { unreachable!() }
    fn einsum(_ops: &[&Nd<Self>], _s: &[String], _o: &str) -> Nd<Self> { unreachable!() }
    fn einsum_view(_a: &'static Nd<Self>, _s: (&str, &str)) -> Option<Nd<Self>> { unreachable!() }
    fn trace(_k: u8, _a: &Nd<Self>, _off: isize, _x: isize, _y: isize) -> Nd<Self> { unreachable!() }
    fn nested(_v: Vec<Self>, _shape: &[usize]) -> Nd<Self>;
    fn ragged(_v: Vec<Vec<Self>>, _form: u8) -> Nd<Self>;
    /// from nested fixed-size arrays, and vectors of arrays, where the shape is one of those spelt out
    fn literal(_v: &[Self], _shape: &[usize]) -> Nd<Self>;
    fn arange(_k: u8, _lo: i128, _n: usize) -> Nd<Self> { unreachable!() }
    fn astype(_a: &Nd<Self>, _to: Dt) -> Obj { unreachable!() }
}

macro_rules! binops {
    ($o:expr, $a:expr, $b:expr, $($n:literal $op:tt),*) => {
        match $o { $($n => match ($a, $b) {
            (A::R(a), A::R(b)) => a $op b,
            (A::O(a), A::R(b)) => a $op b,
            (A::R(a), A::O(b)) => a $op b,
            (A::O(a), A::O(b)) => a $op b,
        },)* _ => unreachable!() }
    };
}
macro_rules! binops_s {
    ($o:expr, $a:expr, $s:expr, $($n:literal $op:tt),*) => {
        match $o { $($n => match $a { A::R(a) => a $op $s, A::O(a) => a $op $s },)* _ => unreachable!() }
    };
}
macro_rules! iops {
    ($o:expr, $a:expr, $b:expr, $($n:literal $op:tt),*) => {
        match $o { $($n => match $b { A::R(b) => *$a $op b, A::O(b) => *$a $op b },)* _ => unreachable!() }
    };
}
macro_rules! iops_s {
    ($o:expr, $a:expr, $s:expr, $($n:literal $op:tt),*) => {
        match $o { $($n => *$a $op $s,)* _ => unreachable!() }
    };
}
macro_rules! common_el {
    () => {
        fn nested(v: Vec<Self>, shape: &[usize]) -> Nd<Self> {
            match shape.len() {
                1 => Nd::new(v),
                2 => Nd::new(v.chunks(shape[1]).map(|c| c.to_vec()).collect::<Vec<_>>()),
                3 => Nd::new(v.chunks(shape[1] * shape[2]).map(|c| c.chunks(shape[2]).map(|d| d.to_vec()).collect::<Vec<_>>()).collect::<Vec<_>>()),
                _ => Nd::new(v).reshape(shape),
            }
        }
        fn ragged(v: Vec<Vec<Self>>, form: u8) -> Nd<Self> {
            let even = |v: &[Vec<Self>]| v.iter().map(|_| v[0].clone()).collect::<Vec<_>>();
            match (form, v.len()) {
                (1, 2) => Nd::new([v[0].clone(), v[1].clone()]),
                (1, 3) => Nd::new([v[0].clone(), v[1].clone(), v[2].clone()]),
                (2, _) => Nd::new(vec![v.clone(), v]),
                (3, _) => Nd::new(vec![even(&v), v]),
                (4, 2) => Nd::new(vec![[v[0].clone(), v[1].clone()], [v[0].clone(), v[1].clone()]]),
                (5, 2) => Nd::new([[v[0].clone(), v[0].clone()], [v[0].clone(), v[1].clone()]]),
                (6, _) => Nd::new([v.clone(), v]),
                (7, n) if n > 1 => Nd::new(vec![even(&v), even(&v)[1..].to_vec()]),
                _ => Nd::new(v),
            }
        }
        fn literal(v: &[Self], shape: &[usize]) -> Nd<Self> {
            match *shape {
                [1] => Nd::new([v[0]]),
                [2] => Nd::new([v[0], v[1]]),
                [3] => Nd::new([v[0], v[1], v[2]]),
                [4] => Nd::new([v[0], v[1], v[2], v[3]]),
                [5] => Nd::new([v[0], v[1], v[2], v[3], v[4]]),
                [1, 3] => Nd::new([[v[0], v[1], v[2]]]),
                [2, 2] => Nd::new([[v[0], v[1]], [v[2], v[3]]]),
                [2, 3] => Nd::new([[v[0], v[1], v[2]], [v[3], v[4], v[5]]]),
                [3, 2] => Nd::new([[v[0], v[1]], [v[2], v[3]], [v[4], v[5]]]),
                [3, 1] => Nd::new([[v[0]], [v[1]], [v[2]]]),
                [2, 2, 2] => Nd::new([[[v[0], v[1]], [v[2], v[3]]], [[v[4], v[5]], [v[6], v[7]]]]),
                [2, 1, 3] => Nd::new([[[v[0], v[1], v[2]]], [[v[3], v[4], v[5]]]]),
                [n, 2] => Nd::new((0..n).map(|k| [v[2 * k], v[2 * k + 1]]).collect::<Vec<_>>()),
                [n, 3] => Nd::new((0..n).map(|k| [v[3 * k], v[3 * k + 1], v[3 * k + 2]]).collect::<Vec<_>>()),
                [2, n] => Nd::new([v[..n].to_vec(), v[n..].to_vec()]),
                _ => Self::nested(v.to_vec(), shape),
            }
        }
        fn zeros(s: Vec<usize>) -> Nd<Self> { Nd::<Self>::zeros(s) }
        fn ones(s: Vec<usize>) -> Nd<Self> { Nd::<Self>::ones(s) }
        fn zero_(a: &mut Nd<Self>) { a.zero() }
    };
}
macro_rules! num_el {
    () => {
        fn red(k: u8, a: &Nd<Self>) -> Nd<Self> {
            match k { 0 => a.sum(), 1 => a.product(), 2 => a.min(), 3 => a.max(), 4 => a.min_magnitude(), 5 => a.max_magnitude(), _ => Self::mean_(a) }
        }
        fn red_ax(k: u8, a: &Nd<Self>, ax: Vec<isize>, form: u8) -> Nd<Self> {
            macro_rules! go { ($e:expr) => { match k {
                0 => a.sum_along($e), 1 => a.product_along($e), 2 => a.min_along($e), 3 => a.max_along($e),
                4 => a.min_magnitude_along($e), 5 => a.max_magnitude_along($e), _ => Self::mean_ax_(a, $e.to_vec()) } } }
            match (form, ax.len()) {
                (1, 1) => match k {
                    0 => a.sum_along(ax[0]), 1 => a.product_along(ax[0]), 2 => a.min_along(ax[0]), 3 => a.max_along(ax[0]),
                    4 => a.min_magnitude_along(ax[0]), 5 => a.max_magnitude_along(ax[0]), _ => Self::mean_ax1_(a, ax[0]) },
                (2, 1) => match k {
                    0 => a.sum_along(Axis(ax[0])), 1 => a.product_along(Axis(ax[0])), 2 => a.min_along(Axis(ax[0])), 3 => a.max_along(Axis(ax[0])),
                    4 => a.min_magnitude_along(Axis(ax[0])), 5 => a.max_magnitude_along(Axis(ax[0])), _ => Self::mean_ax1_(a, ax[0]) },
                (1..=2, 2) => go!([ax[0], ax[1]]),
                (1..=2, 3) => go!([ax[0], ax[1], ax[2]]),
                (3, _) => go!(&ax),
                (4, _) => go!(&ax[..]),
                _ => go!(ax),
            }
        }
        fn mat(k: u8, a: &Nd<Self>, b: A<Self>) -> Nd<Self> {
            match (k, b) {
                (0, A::R(b)) => a.dot(b), (0, A::O(b)) => a.dot(b),
                (1, A::R(b)) => a.matmul(b), (1, A::O(b)) => a.matmul(b),
                (_, A::R(b)) => a.bmm(b), (_, A::O(b)) => a.bmm(b),
            }
        }
        fn einsum(ops: &[&Nd<Self>], s: &[String], o: &str) -> Nd<Self> { einsum(ops, (s, o)) }
        fn arange(k: u8, lo: i128, n: usize) -> Nd<Self> {
            let (a, b) = (lo as Self, (lo + n as i128) as Self);
            match k { 0 => Nd::<Self>::arange(a, b), 1 => Nd::<Self>::arange_with_step(a, b, 1 as Self), 2 => Self::linspace_(a, b, n, true), _ => Self::linspace_(a, b, n, false) }
        }
        fn astype(a: &Nd<Self>, to: Dt) -> Obj {
            match to.0 {
                0 => N::ob(a.astype::<u8>()), 2 => N::ob(a.astype::<u32>()), 8 => N::ob(a.astype::<i32>()), 9 => N::ob(a.astype::<i64>()), 10 => N::ob(a.astype::<i128>()),
                12 => N::ob(a.astype::<f32>()), _ => N::ob(a.astype::<f64>()),
            }
        }
        fn einsum_view(a: &'static Nd<Self>, s: (&str, &str)) -> Option<Nd<Self>> { einsum_view(a, s) }
        fn trace(k: u8, a: &Nd<Self>, off: isize, x: isize, y: isize) -> Nd<Self> {
            match k { 0 => a.trace(), 1 => a.offset_trace(off), 2 => a.trace_along(x, y), _ => a.offset_trace_along(off, x, y) }
        }
    };
}
trait MeanF: RawDataType {
    fn linspace_(_a: Self, _b: Self, _n: usize, _incl: bool) -> Nd<Self> { unreachable!() }
    fn mean_(_a: &Nd<Self>) -> Nd<Self> { unreachable!() }
    fn mean_ax_(_a: &Nd<Self>, _ax: Vec<isize>) -> Nd<Self> { unreachable!() }
    fn mean_ax1_(_a: &Nd<Self>, _ax: isize) -> Nd<Self> { unreachable!() }
}
macro_rules! int_el {
    ($($t:ty, $dt:literal, $neg:expr);* $(;)?) => { $(
        impl MeanF for $t {}
        impl El for $t {
            const DT: Dt = Dt($dt);
            fn fi(v: i128) -> Self { v as $t }
            fn ti(self) -> i128 { self as i128 }
            fn tb(self) -> u128 { self as u128 }
            fn fb(v: u128) -> Self { v as $t }
            common_el!();
            num_el!();
            fn bin(o: u8, a: A<Self>, b: A<Self>) -> Nd<Self> { binops!(o, a, b, 0 +, 1 -, 2 *, 4 %, 5 &, 6 |, 7 <<, 8 >>) }
            fn bin_s(o: u8, a: A<Self>, s: Self) -> Nd<Self> { binops_s!(o, a, s, 0 +, 1 -, 2 *, 4 %, 5 &, 6 |, 7 <<, 8 >>) }
            fn iop(o: u8, a: &mut Nd<Self>, b: A<Self>) { iops!(o, a, b, 0 +=, 1 -=, 2 *=, 4 %=, 5 &=, 6 |=, 7 <<=, 8 >>=) }
            fn iop_s(o: u8, a: &mut Nd<Self>, s: Self) { iops_s!(o, a, s, 0 +=, 1 -=, 2 *=, 4 %=, 5 &=, 6 |=, 7 <<=, 8 >>=) }
            fn neg(a: A<Self>) -> Nd<Self> { ($neg)(a) }
        }
    )* };
}
fn no_neg<T: RawDataType>(_a: A<T>) -> Nd<T> { unreachable!() }
macro_rules! yes_neg { () => { |a| match a { A::R(a) => -a, A::O(a) => -a } } }
int_el! {
    u8, 0, no_neg; u16, 1, no_neg; u32, 2, no_neg; u64, 3, no_neg; u128, 4, no_neg; usize, 5, no_neg;
    i8, 6, yes_neg!(); i16, 7, yes_neg!(); i32, 8, yes_neg!(); i64, 9, yes_neg!(); i128, 10, yes_neg!(); isize, 11, yes_neg!();
}
macro_rules! float_el {
    ($($t:ty, $dt:literal, $b:ty);*) => { $(
        impl MeanF for $t {
            fn mean_(a: &Nd<Self>) -> Nd<Self> { a.mean() }
            fn linspace_(a: Self, b: Self, n: usize, incl: bool) -> Nd<Self> { if incl { Nd::<Self>::linspace(a, b, n) } else { Nd::<Self>::linspace_exclusive(a, b, n) } }
            fn mean_ax_(a: &Nd<Self>, ax: Vec<isize>) -> Nd<Self> { a.mean_along(ax) }
            fn mean_ax1_(a: &Nd<Self>, ax: isize) -> Nd<Self> { a.mean_along(ax) }
        }
        impl El for $t {
            const DT: Dt = Dt($dt);
            fn fi(v: i128) -> Self { v as $t / (1u64 << FSHIFT) as $t }
            fn ti(self) -> i128 {
                let x = self * (1u64 << FSHIFT) as $t;
                // what the model never produces maps outside its range
                if !x.is_finite() || x != x.trunc() { return i128::MAX - (self.to_bits() as i128 & 0xffff); }
                x as i128
            }
            fn tb(self) -> u128 { self.to_bits() as u128 }
            fn fb(v: u128) -> Self { <$t>::from_bits(v as $b) }
            common_el!();
            num_el!();
            fn bin(o: u8, a: A<Self>, b: A<Self>) -> Nd<Self> { binops!(o, a, b, 0 +, 1 -, 2 *, 3 /, 4 %) }
            fn bin_s(o: u8, a: A<Self>, s: Self) -> Nd<Self> { binops_s!(o, a, s, 0 +, 1 -, 2 *, 3 /, 4 %) }
            fn iop(o: u8, a: &mut Nd<Self>, b: A<Self>) { iops!(o, a, b, 0 +=, 1 -=, 2 *=, 3 /=, 4 %=) }
            fn iop_s(o: u8, a: &mut Nd<Self>, s: Self) { iops_s!(o, a, s, 0 +=, 1 -=, 2 *=, 3 /=, 4 %=) }
            fn neg(a: A<Self>) -> Nd<Self> { match a { A::R(a) => -a, A::O(a) => -a } }
        }
    )* };
}
float_el! { f32, 12, u32; f64, 13, u64 }
impl El for bool {
    const DT: Dt = Dt(14);
    fn fi(v: i128) -> Self { v != 0 }
    fn ti(self) -> i128 { self as i128 }
    fn tb(self) -> u128 { self as u128 }
    fn fb(v: u128) -> Self { v & 1 == 1 }
    common_el!();
}

// ---- the trait object ----------------------------------------------------------------------

pub struct N<T: El>(pub Box<Nd<T>>);
impl<T: El> N<T> {
    fn ob(n: Nd<T>) -> Obj { Box::new(N(Box::new(n))) }
}

fn st<T: El>(r: &Nd<T>) -> &'static Nd<T> {
    unsafe { &*(r as *const Nd<T>) }
}
fn bx<T: El>(r: P<Nd<T>>) -> P<Obj> {
    r.map(|n| Box::new(N(Box::new(n))) as Obj)
}
fn dc<T: El>(r: &dyn Real) -> &N<T> {
    r.any().downcast_ref::<N<T>>().expect("operand type")
}
fn own<T: El>(r: Obj) -> Nd<T> {
    *r.into_any().downcast::<N<T>>().expect("operand type").0
}

pub trait Real {
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn dt(&self) -> Dt;
    fn meta(&self) -> Meta;
    /// where the elements lie, from the address of the first one and the strides
    fn addrs(&self) -> P<Vec<usize>>;
    /// where the elements lie, from the pointer iterator
    fn ptrs(&self) -> P<Vec<usize>>;
    fn view(&self, v: &VOp) -> P<Option<Obj>>;
    /// slices with a caller iterator that panics after `n` items
    fn slice_panicking(&self, v: &[Ix], n: usize) -> P<Obj>;
    fn consume(self: Box<Self>, v: &VOp) -> P<Obj>;
    fn index(&self, ix: &[usize]) -> P<i128>;
    fn set(&mut self, ix: &[usize], v: i128) -> P<()>;
    fn index1(&self, i: usize) -> P<i128>;
    fn set1(&mut self, i: usize, v: i128) -> P<()>;
    fn fill(&mut self, v: i128) -> P<()>;
    fn zero(&mut self) -> P<()>;
    fn iop(&mut self, o: u8, b: &dyn Real) -> P<()>;
    fn iop_own(&mut self, o: u8, b: Obj) -> P<()>;
    fn iop_self(&mut self, o: u8, alias: &dyn Real) -> P<()>;
    fn iop_s(&mut self, o: u8, s: i128) -> P<()>;
    fn value(&self) -> P<i128>;
    fn flat(&self) -> P<Vec<i128>>;
    fn flat_bits(&self) -> P<Vec<u128>>;
    fn eq(&self, b: &dyn Real, form: u8) -> P<bool>;
    fn copy(&self, k: u8) -> P<Obj>;
    fn data_slice(&self) -> P<Vec<i128>>;
    fn into_vec(self: Box<Self>) -> P<Vec<i128>>;
    fn debug(&self) -> P<String>;
    fn debug_to(&self, k: u8, w: &mut dyn std::fmt::Write) -> P<std::fmt::Result>;
    fn red(&self, k: u8) -> P<Obj>;
    fn red_ax(&self, k: u8, ax: Vec<isize>, form: u8) -> P<Obj>;
    fn astype(&self, to: Dt) -> P<Obj>;
    fn neg(&self) -> P<Obj>;
    fn neg_own(self: Box<Self>) -> P<Obj>;
    fn bin(&self, o: u8, b: &dyn Real) -> P<Obj>;
    fn bin_own(self: Box<Self>, o: u8, b: &dyn Real) -> P<Obj>;
    fn bin_ro(&self, o: u8, b: Obj) -> P<Obj>;
    fn bin_oo(self: Box<Self>, o: u8, b: Obj) -> P<Obj>;
    fn bin_s(&self, o: u8, s: i128) -> P<Obj>;
    fn bin_s_own(self: Box<Self>, o: u8, s: i128) -> P<Obj>;
    fn mat(&self, k: u8, b: &dyn Real) -> P<Obj>;
    fn mat_own(&self, k: u8, b: Obj) -> P<Obj>;
    fn einsum(&self, rest: &[&dyn Real], s: &[String], o: &str) -> P<Obj>;
    fn trace(&self, k: u8, off: isize, x: isize, y: isize) -> P<Obj>;
    fn cursor(&self, c: Cu) -> P<Box<dyn Cursor>>;
    fn discard(self: Box<Self>) -> P<()>;
}

macro_rules! with_ix {
    ($ix:expr, $arr:ident => $e:expr) => {
        match $ix.len() {
            0 => { let $arr: [usize; 0] = []; $e }
            1 => { let $arr = [$ix[0]]; $e }
            2 => { let $arr = [$ix[0], $ix[1]]; $e }
            3 => { let $arr = [$ix[0], $ix[1], $ix[2]]; $e }
            4 => { let $arr = [$ix[0], $ix[1], $ix[2], $ix[3]]; $e }
            5 => { let $arr = [$ix[0], $ix[1], $ix[2], $ix[3], $ix[4]]; $e }
            _ => { let $arr = [$ix[0], $ix[1], $ix[2], $ix[3], $ix[4], $ix[5]]; $e }
        }
    };
}

static mut WILD: bool = false;
/// wild mode: model values are raw bit patterns instead of numbers
pub fn set_wild(w: bool) { unsafe { WILD = w } }
pub fn wild() -> bool { unsafe { WILD } }
fn mk<T: El>(v: i128) -> T { if wild() { T::fb(v as u128) } else { T::fi(v) } }
fn un<T: El>(v: T) -> i128 { if wild() { v.tb() as i128 } else { v.ti() } }

struct SlowIter<'x> { v: &'x [Ix], i: usize, n: usize }
impl Iterator for SlowIter<'_> {
    type Item = Index;
    fn next(&mut self) -> Option<Index> {
        if self.i == self.n { panic!("caller iterator failed"); }
        let r = self.v.get(self.i).map(|x| x.real());
        self.i += 1;
        r
    }
}

impl<T: El> Real for N<T> {
    fn any(&self) -> &dyn Any { self }
    fn into_any(self: Box<Self>) -> Box<dyn Any> { self }
    fn dt(&self) -> Dt { T::DT }
    fn meta(&self) -> Meta {
        let a = &*self.0;
        Meta { shape: a.shape().to_vec(), stride: a.stride().to_vec(), contiguous: a.is_contiguous(), view: a.is_view(), uniform: a.is_uniformly_strided(),
               ustride: a.has_uniform_stride(), ndims: a.ndims(), len: a.len(), size: a.size() }
    }
    fn ptrs(&self) -> P<Vec<usize>> { lib(|| self.0.flatiter_ptr().map(|p| p as usize).collect()) }
    fn addrs(&self) -> P<Vec<usize>> {
        let a = &*self.0;
        let zero = vec![0usize; a.ndims()];
        if zero.len() > 6 { return self.ptrs(); }
        let base = lib(|| with_ix!(zero, i => &a[i] as *const T as usize))?;
        let (sh, st) = (a.shape(), a.stride());
        let mut v = vec![base];
        for (&n, &s) in sh.iter().zip(st) {
            v = v.iter().flat_map(|&b| (0..n).map(move |k| b.wrapping_add(k * s * std::mem::size_of::<T>()))).collect();
        }
        Ok(v)
    }
    fn view(&self, v: &VOp) -> P<Option<Obj>> {
        let a = st(&self.0);
        let r = match v {
            VOp::View => lib(|| Some(a.view())),
            VOp::Reshape(s) => lib(|| Some(a.reshape(s))),
            VOp::Squeeze => lib(|| Some(a.squeeze())),
            VOp::Unsqueeze(x) => lib(|| Some(if x & 1 == 0 { a.unsqueeze(Axis(*x)) } else { a.unsqueeze(*x) })),
            VOp::T => lib(|| Some(a.T())),
            VOp::Transpose(x, y) => lib(|| Some(if *x < *y { a.transpose(Axis(*x), Axis(*y)) } else { a.transpose(*x, *y) })),
            VOp::Slice(ix) => { let i: Vec<Index> = ix.iter().map(|x| x.real()).collect(); lib(|| Some(a.slice(i))) }
            VOp::SliceAlong(ax, Ix::At(i)) => lib(|| Some(a.slice_along(Axis(*ax), *i))),
            VOp::SliceAlong(ax, Ix::R(x, y)) => lib(|| Some(a.slice_along(Axis(*ax), *x..*y))),
            VOp::SliceAlong(ax, ix) => { let i = ix.real(); lib(|| Some(a.slice_along(Axis(*ax), i))) }
            VOp::Diag(k, off, x, y) => lib(|| Some(match k { 0 => a.diagonal(), 1 => a.offset_diagonal(*off), 2 => a.diagonal_along(*x, *y), _ => a.offset_diagonal_along(*off, *x, *y) })),
            VOp::Broadcast(s) => lib(|| Some(a.broadcast_to(s))),
            VOp::EinsumView(i, o) => lib(|| T::einsum_view(a, (i, o))),
        };
        r.map(|o| o.map(|n| Box::new(N(Box::new(n))) as Obj))
    }
    fn slice_panicking(&self, v: &[Ix], n: usize) -> P<Obj> {
        let a = st(&self.0);
        bx(lib(|| a.slice(SlowIter { v, i: 0, n })))
    }
    fn consume(self: Box<Self>, v: &VOp) -> P<Obj> {
        let a = *self.0;
        bx(match v {
            VOp::View => lib(move || a.view()),
            VOp::Reshape(s) => lib(move || a.reshape(s)),
            VOp::Squeeze => lib(move || a.squeeze()),
            VOp::Unsqueeze(x) => lib(move || a.unsqueeze(*x)),
            VOp::T => lib(move || a.T()),
            VOp::Transpose(x, y) => lib(move || a.transpose(*x, *y)),
            _ => unreachable!(),
        })
    }
    fn index(&self, ix: &[usize]) -> P<i128> { lib(|| with_ix!(ix, i => self.0[i])).map(un) }
    fn set(&mut self, ix: &[usize], v: i128) -> P<()> { let v: T = mk(v); lib(|| with_ix!(ix, i => self.0[i] = v)) }
    fn index1(&self, i: usize) -> P<i128> { lib(|| self.0[i]).map(un) }
    fn set1(&mut self, i: usize, v: i128) -> P<()> { let v: T = mk(v); lib(|| self.0[i] = v) }
    fn fill(&mut self, v: i128) -> P<()> { let v: T = mk(v); lib(|| self.0.fill(v)) }
    fn zero(&mut self) -> P<()> { lib(|| T::zero_(&mut self.0)) }
    fn iop(&mut self, o: u8, b: &dyn Real) -> P<()> { let b = &dc::<T>(b).0; lib(|| T::iop(o, &mut self.0, A::R(b))) }
    fn iop_own(&mut self, o: u8, b: Obj) -> P<()> { let b = own::<T>(b); lib(|| T::iop(o, &mut self.0, A::O(b))) }
    fn iop_self(&mut self, o: u8, alias: &dyn Real) -> P<()> { self.iop(o, alias) }
    fn iop_s(&mut self, o: u8, s: i128) -> P<()> { let s: T = mk(s); lib(|| T::iop_s(o, &mut self.0, s)) }
    fn value(&self) -> P<i128> { lib(|| self.0.value()).map(un) }
    fn flat(&self) -> P<Vec<i128>> { lib(|| self.0.flatiter().collect::<Vec<T>>()).map(|v| v.into_iter().map(un).collect()) }
    fn flat_bits(&self) -> P<Vec<u128>> { lib(|| self.0.flatiter().collect::<Vec<T>>()).map(|v| v.into_iter().map(|x| x.tb()).collect()) }
    fn eq(&self, b: &dyn Real, form: u8) -> P<bool> {
        let b = &dc::<T>(b).0;
        let a = &self.0;
        lib(|| match form { 0 => **a == **b, 1 => &**a == **b, 2 => **a == &**b, _ => !(**a != **b) })
    }
    fn copy(&self, k: u8) -> P<Obj> { bx(lib(|| if k == 0 { self.0.clone() } else { self.0.flatten() })) }
    fn data_slice(&self) -> P<Vec<i128>> { lib(|| self.0.data_slice()).map(|s| s.iter().map(|&x| un(x)).collect()) }
    fn into_vec(self: Box<Self>) -> P<Vec<i128>> { let a = *self.0; lib(move || a.into_data_vector()).map(|v| v.iter().map(|&x| un(x)).collect()) }
    fn debug(&self) -> P<String> { lib(|| format!("{:?}", *self.0)).map(|s| s.as_str().to_string()) }
    fn debug_to(&self, k: u8, w: &mut dyn std::fmt::Write) -> P<std::fmt::Result> { lib(|| crate::sink::show(k, w, &*self.0)) }
    fn red(&self, k: u8) -> P<Obj> { bx(lib(|| T::red(k, &self.0))) }
    fn red_ax(&self, k: u8, ax: Vec<isize>, form: u8) -> P<Obj> { bx(lib(|| T::red_ax(k, &self.0, ax, form))) }
    fn astype(&self, to: Dt) -> P<Obj> { lib(|| T::astype(&self.0, to)) }
    fn neg(&self) -> P<Obj> { bx(lib(|| T::neg(A::R(&self.0)))) }
    fn neg_own(self: Box<Self>) -> P<Obj> { let a = *self.0; bx(lib(move || T::neg(A::O(a)))) }
    fn bin(&self, o: u8, b: &dyn Real) -> P<Obj> { let b = &dc::<T>(b).0; bx(lib(|| T::bin(o, A::R(&self.0), A::R(b)))) }
    fn bin_own(self: Box<Self>, o: u8, b: &dyn Real) -> P<Obj> { let b = &dc::<T>(b).0; let a = *self.0; bx(lib(move || T::bin(o, A::O(a), A::R(b)))) }
    fn bin_ro(&self, o: u8, b: Obj) -> P<Obj> { let b = own::<T>(b); bx(lib(|| T::bin(o, A::R(&self.0), A::O(b)))) }
    fn bin_oo(self: Box<Self>, o: u8, b: Obj) -> P<Obj> { let b = own::<T>(b); let a = *self.0; bx(lib(move || T::bin(o, A::O(a), A::O(b)))) }
    fn bin_s(&self, o: u8, s: i128) -> P<Obj> { let s: T = mk(s); bx(lib(|| T::bin_s(o, A::R(&self.0), s))) }
    fn bin_s_own(self: Box<Self>, o: u8, s: i128) -> P<Obj> { let s: T = mk(s); let a = *self.0; bx(lib(move || T::bin_s(o, A::O(a), s))) }
    fn mat(&self, k: u8, b: &dyn Real) -> P<Obj> { let b = &dc::<T>(b).0; bx(lib(|| T::mat(k, &self.0, A::R(b)))) }
    fn mat_own(&self, k: u8, b: Obj) -> P<Obj> { let b = own::<T>(b); bx(lib(|| T::mat(k, &self.0, A::O(b)))) }
    fn einsum(&self, rest: &[&dyn Real], s: &[String], o: &str) -> P<Obj> {
        let mut v: Vec<&Nd<T>> = vec![&self.0];
        for r in rest { v.push(&dc::<T>(*r).0); }
        bx(lib(|| T::einsum(&v, s, o)))
    }
    fn trace(&self, k: u8, off: isize, x: isize, y: isize) -> P<Obj> { bx(lib(|| T::trace(k, &self.0, off, x, y))) }
    fn cursor(&self, c: Cu) -> P<Box<dyn Cursor>> {
        let a = st(&self.0);
        let b: P<CurImpl<T>> = match c {
            Cu::Flat => lib(|| a.flatiter()).map(|i| CurImpl::Flat(Box::new(i))),
            Cu::Ptr => lib(|| a.flatiter_ptr()).map(|i| CurImpl::Ptr(Box::new(i))),
            Cu::Iter => lib(|| a.iter()).map(|i| CurImpl::Nd(Box::new(i))),
            Cu::Along(x) => lib(|| if x & 1 == 0 { a.iter_along(x) } else { a.iter_along(Axis(x)) }).map(|i| CurImpl::Nd(Box::new(i))),
            Cu::Nd(ax, n) => { let v = ax[..n].to_vec(); lib(|| a.nditer(v)).map(|i| CurImpl::Nd(Box::new(i))) }
            Cu::NdArr(ax, n) => lib(|| match n { 1 => a.nditer([ax[0]]), 2 => a.nditer([ax[0], ax[1]]), _ => a.nditer([ax[0], ax[1], ax[2]]) }).map(|i| CurImpl::Nd(Box::new(i))),
        };
        b.map(|c| Box::new(c) as Box<dyn Cursor>)
    }
    fn discard(self: Box<Self>) -> P<()> { let a = *self.0; lib(move || drop(a)) }
}

/// an iterator behind a box that still uses its own versions of the consuming methods
trait It<X>: Iterator<Item = X> {
    fn fin(self: Box<Self>, k: u8) -> (usize, Vec<X>);
}
impl<X, I: Iterator<Item = X>> It<X> for I {
    fn fin(self: Box<Self>, k: u8) -> (usize, Vec<X>) {
        let i = *self;
        match k {
            0 => (i.count(), vec![]),
            1 => (0, i.last().into_iter().collect()),
            2 => { let v: Vec<_> = i.collect(); (v.len(), v) }
            3 => { let v = i.fold(vec![], |mut v, x| { v.push(x); v }); (v.len(), v) }
            4 => { let v: Vec<_> = i.step_by(2).collect(); (v.len(), v) }
            _ => { let v: Vec<_> = i.skip(1).collect(); (v.len(), v) }
        }
    }
}
enum CurImpl<T: El> {
    Flat(Box<dyn It<T>>),
    Ptr(Box<dyn It<*mut T>>),
    Nd(Box<dyn It<Nd<T>>>),
    Closed,
}
impl<T: El> Cursor for CurImpl<T> {
    fn step(&mut self) -> P<Option<Item>> {
        match self {
            CurImpl::Flat(i) => lib(|| i.next()).map(|o| o.map(|v| Item::Val(un(v)))),
            CurImpl::Ptr(i) => lib(|| i.next()).map(|o| o.map(|p| Item::Addr(p as usize))),
            CurImpl::Nd(i) => lib(|| i.next()).map(|o| o.map(|n| Item::Arr(Box::new(N(Box::new(n)))))),
            CurImpl::Closed => Ok(None),
        }
    }
    fn nth(&mut self, k: usize) -> P<Option<Item>> {
        match self {
            CurImpl::Flat(i) => lib(|| i.nth(k)).map(|o| o.map(|v| Item::Val(un(v)))),
            CurImpl::Ptr(i) => lib(|| i.nth(k)).map(|o| o.map(|p| Item::Addr(p as usize))),
            CurImpl::Nd(i) => lib(|| i.nth(k)).map(|o| o.map(|n| Item::Arr(Box::new(N(Box::new(n)))))),
            CurImpl::Closed => Ok(None),
        }
    }
    fn hint(&self) -> P<(usize, Option<usize>)> {
        match self {
            CurImpl::Flat(i) => lib(|| i.size_hint()),
            CurImpl::Ptr(i) => lib(|| i.size_hint()),
            CurImpl::Nd(i) => lib(|| i.size_hint()),
            CurImpl::Closed => Ok((0, Some(0))),
        }
    }
    fn close(&mut self) -> P<()> {
        let c = std::mem::replace(self, CurImpl::Closed);
        match c {
            CurImpl::Flat(i) => lib(move || drop(i)),
            CurImpl::Ptr(i) => lib(move || drop(i)),
            CurImpl::Nd(i) => lib(move || drop(i)),
            CurImpl::Closed => Ok(()),
        }
    }
    fn finish(&mut self, k: u8) -> P<(usize, Vec<Item>)> {
        let c = std::mem::replace(self, CurImpl::Closed);
        match c {
            CurImpl::Flat(i) => lib(move || i.fin(k)).map(|(n, v)| (n, v.into_iter().map(|v| Item::Val(un(v))).collect())),
            CurImpl::Ptr(i) => lib(move || i.fin(k)).map(|(n, v)| (n, v.into_iter().map(|p| Item::Addr(p as usize)).collect())),
            CurImpl::Nd(i) => lib(move || i.fin(k)).map(|(n, v)| (n, v.into_iter().map(|a| Item::Arr(Box::new(N(Box::new(a))) as Obj)).collect())),
            CurImpl::Closed => Ok((0, vec![])),
        }
    }
}

macro_rules! by_dt {
    ($dt:expr, $t:ident => $e:expr) => {
        match $dt.0 {
            0 => { type $t = u8; $e } 1 => { type $t = u16; $e } 2 => { type $t = u32; $e } 3 => { type $t = u64; $e } 4 => { type $t = u128; $e }
            5 => { type $t = usize; $e } 6 => { type $t = i8; $e } 7 => { type $t = i16; $e } 8 => { type $t = i32; $e } 9 => { type $t = i64; $e }
            10 => { type $t = i128; $e } 11 => { type $t = isize; $e } 12 => { type $t = f32; $e } 13 => { type $t = f64; $e } _ => { type $t = bool; $e }
        }
    };
}
pub(crate) use by_dt;

/// kind: 0 nested vectors, 1 full, 2 zeros, 3 ones, 4 scalar, 5 nested arrays, 6..9 evenly spaced
pub fn create(dt: Dt, kind: u8, shape: &[usize], vals: &[i128]) -> P<Obj> {
    by_dt!(dt, T => {
        let v: Vec<T> = vals.iter().map(|&x| mk(x)).collect();
        bx::<T>(match kind {
            0 => { let v2 = v; let s = shape.to_vec(); lib(move || <T as El>::nested(v2.clone(), &s)) }
            1 => { let s = shape.to_vec(); lib(move || Nd::<T>::full(v[0], s)) }
            2 => { let s = shape.to_vec(); lib(move || <T as El>::zeros(s.clone())) }
            3 => { let s = shape.to_vec(); lib(move || <T as El>::ones(s.clone())) }
            5 => { let s = shape.to_vec(); lib(move || <T as El>::literal(&v, &s)) }
            6..=9 => { let n = shape[0]; let lo = vals[0]; lib(move || <T as El>::arange(kind - 6, lo, n)) }
            _ => lib(|| Nd::<T>::scalar(v[0])),
        })
    })
}
pub fn create_ragged(dt: Dt, lens: &[usize], form: u8) -> P<Obj> {
    by_dt!(dt, T => {
        let v: Vec<Vec<T>> = lens.iter().map(|&n| vec![T::fi(0); n]).collect();
        bx::<T>(lib(|| <T as El>::ragged(v, form)))
    })
}
/// reads element `i` of the buffer at `base` straight from memory
pub fn peek(dt: Dt, base: usize, i: usize) -> i128 {
    by_dt!(dt, T => {
        let p = (base as *const u8).wrapping_add(i * std::mem::size_of::<T>());
        if dt.boolean() {
            // any bit pattern may be found in damaged memory
            unsafe { *p as i128 }
        } else {
            un::<T>(unsafe { std::ptr::read_unaligned(p as *const T) })
        }
    })
}
pub fn one_of(dt: Dt, v: i128) -> i128 {
    // the bit pattern / number the constructor `ones` stores
    by_dt!(dt, T => un::<T>(T::fi(v)))
}

/// random constructors with an empty range of values
pub fn random_bad(k: u8) -> P<()> {
    lib(|| match k {
        0 => drop(NdArray::<f32>::uniform([2], 1.0, 1.0)),
        1 => drop(NdArray::<f64>::uniform([2], 2.0, -1.0)),
        2 => drop(NdArray::<f64>::randint([2], 3.0, 3.0)),
        3 => drop(NdArray::<i32>::randint([2], 5, 5)),
        4 => drop(NdArray::<u8>::randint([2], 9, 3)),
        _ => drop(NdArray::<i64>::randint([2], 0, -1)),
    })
}
