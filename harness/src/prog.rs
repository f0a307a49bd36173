//! Programs over a pool of tensors of every kind, executed on the library and on the model side by side.
use crate::framework::guard;
use crate::gens::*;
use crate::graph::{grad_of, OpSpec};
use crate::lib_tensor::*;
use crate::model::*;
use crate::{on, ops};
use rust_light::tensor::*;
use std::ops::Deref;

pub const CODES: u8 = 24;

/// One operation with its operands fixed: can be executed again later.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    New { how: u8, shape: Vec<usize>, salt: u64 },
    Add(usize, usize, u32),
    Sub(usize, usize, u32),
    Mul(usize, usize, u32),
    EwMul(usize, usize),
    Dot(usize, usize, u32),
    Mm(usize, usize, u32),
    Scale(usize, i8, bool),
    Neg(usize),
    Sum(usize),
    Map(usize, u8),
    Unary(usize, u8),
    Slice(usize, Vec<(usize, usize)>, u32),
    Reshape(usize, Vec<usize>),
    Copy(usize, u8),
}
impl Act {
    pub fn operands(&self) -> Vec<usize> {
        use Act::*;
        match self {
            New { .. } => vec![],
            Add(a, b, _) | Sub(a, b, _) | Mul(a, b, _) | EwMul(a, b) | Dot(a, b, _) | Mm(a, b, _) => vec![*a, *b],
            Scale(a, ..) | Neg(a) | Sum(a) | Map(a, _) | Unary(a, _) | Slice(a, ..) | Reshape(a, _) | Copy(a, _) => vec![*a],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Val<T: El> {
    pub lib: Lib<T>,
    pub m: Nd,
    pub act: Act,
    /// work a backward pass from here may take
    pub cost: f64,
}

pub struct Prog<T: El> {
    pub vals: Vec<Val<T>>,
    vseed: u64,
    salt: u64,
    elems: usize,
    mag: f64,
}

impl<T: El> Prog<T> {
    pub fn new(vseed: u64, elems: usize) -> Self {
        let mag = if T::NAME == "i32" { 1e7 } else { 1e9 };
        Prog { vals: vec![], vseed, salt: 0, elems, mag }
    }
    pub fn shape(&self, i: usize) -> &Vec<usize> {
        &self.vals[i].m.shape
    }
    fn pick(&self, sel: u16, ok: impl Fn(&Val<T>) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.vals.len()).rev().filter(|&i| ok(&self.vals[i])).collect();
        if c.is_empty() {
            return None;
        }
        let n = if sel & 1 == 0 { c.len().min(3) } else { c.len() };
        Some(c[(sel as usize >> 1) % n])
    }
    /// Constructs a new tensor of the given shape and returns its index.
    pub fn fresh(&mut self, shape: &[usize], how: u8) -> Result<usize, String> {
        self.salt += 1;
        let act = Act::New { how, shape: shape.to_vec(), salt: self.salt };
        let (lib, m) = (self.run(&act), self.model(&act).unwrap());
        let lib = lib.map_err(|e| format!("constructing {shape:?}: {e}"))?;
        expect_lib(&format!("construction {how} of {shape:?}"), &lib, &m)?;
        self.vals.push(Val { lib, m, act, cost: 0.0 });
        Ok(self.vals.len() - 1)
    }
    fn bcast_shape(&self, s: &[usize], aux: u32) -> Vec<usize> {
        let mut out = s.to_vec();
        for (d, o) in out.iter_mut().enumerate() {
            match (aux >> (2 * (d % 8))) & 3 {
                0 => *o = 1,
                1 if *o == 1 => *o = 2 + (aux as usize >> 16) % 3,
                _ => {}
            }
        }
        if (aux >> 20) & 1 == 0 && !out.is_empty() {
            out.drain(..1 + (aux as usize >> 23) % out.len());
        }
        out
    }
    /// Decides what to do. `wild`: operands are taken as they come, compatible or not.
    pub fn plan(&mut self, op: &OpSpec, wild: bool) -> Result<Act, String> {
        let aux = op.aux;
        let large = self.elems > 1000;
        let small = |x: u32| {
            if large {
                [1usize, 8, 31, 3, 33, 2, 16, 64][x as usize % 8]
            } else {
                [1usize, 2, 3, 4, 1, 2, 5, 3][x as usize % 8]
            }
        };
        if self.vals.is_empty() || op.code == 0 {
            let r = (aux >> 8) as usize % 5;
            let shape = cap_shape((0..r as u32).map(|d| if aux >> 28 == 15 && d == 1 { 0 } else { small(aux >> (10 + 3 * d)) }).collect(), self.elems);
            self.salt += 1;
            return Ok(Act::New { how: aux as u8, shape, salt: self.salt });
        }
        let a = self.pick(op.a, |_| true).unwrap();
        let sa = self.shape(a).clone();
        let elems = self.elems;
        let form = aux >> 6;
        let any = |p: &Self| p.pick(op.b, |_| true).unwrap();
        let same = |p: &mut Self, how: u8| -> Result<usize, String> {
            let found = if aux & 3 == 0 { None } else { p.pick(op.b, |v| v.m.shape == sa) };
            match found {
                Some(b) => Ok(b),
                None => p.fresh(&sa, how),
            }
        };
        Ok(match op.code {
            1..=5 => {
                let b = if wild {
                    any(self)
                } else if aux & 31 == 9 {
                    a
                } else {
                    let found = if aux & 3 == 0 { None } else { self.pick(op.b, |v| broadcast(&sa, &v.m.shape).is_some_and(|s| count(&s) <= elems)) };
                    match found {
                        Some(b) => b,
                        None => {
                            let mut s = self.bcast_shape(&sa, aux >> 4);
                            if broadcast(&sa, &s).is_none_or(|x| count(&x) > elems) {
                                s = sa.clone();
                            }
                            self.fresh(&s, (aux >> 2) as u8)?
                        }
                    }
                };
                let (x, y) = if aux & 32 == 0 { (a, b) } else { (b, a) };
                if op.code <= 3 {
                    Act::Add(x, y, form)
                } else {
                    Act::Sub(x, y, form)
                }
            }
            6 | 7 => {
                let b = if wild {
                    any(self)
                } else if aux & 12 == 0 {
                    match self.pick(op.b, |v| v.m.shape.is_empty()) {
                        Some(b) => b,
                        None => self.fresh(&[], (aux >> 2) as u8)?,
                    }
                } else {
                    same(self, (aux >> 2) as u8)?
                };
                if aux & 32 == 0 {
                    Act::Mul(a, b, form)
                } else {
                    Act::Mul(b, a, form)
                }
            }
            8 => Act::EwMul(a, if wild { any(self) } else { same(self, (aux >> 2) as u8)? }),
            9 => Act::Dot(a, if wild { any(self) } else { same(self, (aux >> 2) as u8)? }, form),
            10..=13 => {
                if wild {
                    Act::Mm(a, any(self), form)
                } else {
                    let l = match self.pick(op.a, |v| (2..=3).contains(&v.m.shape.len())) {
                        Some(l) => l,
                        None => self.fresh(&[small(aux >> 8), small(aux >> 11)], (aux >> 2) as u8)?,
                    };
                    let k = *self.shape(l).last().unwrap();
                    let found = if aux & 3 == 0 { None } else { self.pick(op.b, |v| v.m.shape.len() == 2 && v.m.shape[0] == k) };
                    let r = match found {
                        Some(r) => r,
                        None => self.fresh(&[k, small(aux >> 14)], (aux >> 2) as u8)?,
                    };
                    Act::Mm(l, r, form)
                }
            }
            14 => Act::Scale(a, (aux >> 8) as i8 % 4, aux & 1 == 0),
            15 => Act::Neg(a),
            16 => Act::Sum(a),
            17 => Act::Map(a, (aux >> 3) as u8),
            18 if T::REAL => Act::Unary(a, (aux >> 3) as u8 % 3),
            18 => Act::Neg(a),
            19 | 20 => {
                let r = sa
                    .iter()
                    .enumerate()
                    .map(|(d, &n)| {
                        let x = aux.rotate_left(7 * d as u32 + 3);
                        let mut end = n - if n > 1 && x & 3 == 0 { (x as usize >> 4) % n } else { 0 };
                        let mut start = if end > 0 && x & 12 == 0 { (x as usize >> 8) % end } else { 0 };
                        if wild && x & 0x70 == 0 {
                            end = n + 1 + (x as usize >> 9) % 2;
                            if x & 0x80 == 0 {
                                start = end - 1;
                            }
                        }
                        (start, end)
                    })
                    .collect();
                Act::Slice(a, r, form)
            }
            21 => {
                let n = count(&sa);
                let s = match aux & 3 {
                    0 => vec![n],
                    1 => {
                        let mut s = sa.clone();
                        s.reverse();
                        s
                    }
                    2 => {
                        let d: Vec<usize> = (2..=n).filter(|d| n % d == 0).collect();
                        if d.is_empty() {
                            vec![1, n]
                        } else {
                            let x = d[(aux as usize >> 4) % d.len()];
                            vec![x, n / x]
                        }
                    }
                    _ => {
                        let mut s = sa.clone();
                        s.insert((aux as usize >> 4) % (s.len() + 1), 1);
                        s
                    }
                };
                Act::Reshape(a, s)
            }
            _ => Act::Copy(a, (aux >> 3) as u8 % 4),
        })
    }
    /// What the reference says; None: the operation is not defined on these operands.
    pub fn model(&self, act: &Act) -> Option<Nd> {
        use Act::*;
        let v = |i: &usize| &self.vals[*i].m;
        Some(match act {
            New { how, shape, salt } => {
                let mut d = values::<T>(self.vseed, *salt, count(shape));
                if how % 6 == 1 || how % 6 == 2 {
                    let x = values::<T>(self.vseed, *salt, 1)[0];
                    d.iter_mut().for_each(|y| *y = x);
                }
                Nd::new(shape.clone(), d)
            }
            Add(a, b, _) => v(a).add(v(b))?,
            Sub(a, b, _) => v(a).sub(v(b))?,
            Mul(a, b, _) => {
                let (x, y) = (v(a), v(b));
                if x.shape != y.shape && !x.shape.is_empty() && !y.shape.is_empty() {
                    return None;
                }
                x.mul(y)?
            }
            EwMul(a, b) => {
                if v(a).shape != v(b).shape {
                    return None;
                }
                v(a).mul(v(b))?
            }
            Dot(a, b, _) => {
                if v(a).shape != v(b).shape {
                    return None;
                }
                v(a).mul(v(b))?.sum().reshape(vec![1])
            }
            Mm(a, b, _) => v(a).matmul(v(b))?,
            Scale(a, s, _) => {
                let s = *s as f64;
                v(a).map(|x| x * s, |m| m * s.abs())
            }
            Neg(a) => v(a).neg(),
            Sum(a) => v(a).sum(),
            Map(a, c) => {
                let (_, g, h) = ops::fun::<T>(*c);
                v(a).map(g, h)
            }
            Unary(a, c) => match c {
                0 => v(a).map(f64::abs, |m| m),
                1 => v(a).map(|x| x.max(0.0), |m| m),
                _ => v(a).map(f64::tanh, |m| m.max(1.0)),
            },
            Slice(a, r, _) => {
                if r.iter().zip(&v(a).shape).any(|(r, &n)| r.1 > n) {
                    return None;
                }
                v(a).slice(r)
            }
            Reshape(a, s) => v(a).reshape(s.clone()),
            Copy(a, _) => v(a).clone(),
        })
    }
    /// A piecewise function at a point closer to its jump than the rounding error.
    pub fn undecided(&self, act: &Act) -> bool {
        let near = |i: usize| self.vals[i].m.data.iter().zip(&self.vals[i].m.mag).any(|(x, m)| x.abs() <= 1e-3 * m && T::REAL);
        matches!(act, Act::Map(a, c) if c % 4 == 2 && near(*a))
    }
    /// Executes it on the library. Err: refused.
    pub fn run(&self, act: &Act) -> Result<Lib<T>, String> {
        use Act::*;
        let v = |i: &usize| &self.vals[*i].lib;
        guard(|| match act {
            New { how, shape, salt } => {
                let d = conv::<T>(&values::<T>(self.vseed, *salt, count(shape)));
                let first = conv::<T>(&values::<T>(self.vseed, *salt, 1))[0];
                match how % 6 {
                    1 => Lib::Raw(RawTensor::new_with_filler(shape.clone(), first)),
                    2 => Lib::Rc(RcTensor::new_with_filler(shape.clone(), first)),
                    3 if shape.is_empty() => Lib::Rc(if how & 64 == 0 { RcTensor::scalar(d[0]) } else { RcTensor::from(d[0]) }),
                    4 if shape.is_empty() => Lib::Raw(if how & 64 == 0 { RawTensor::scalar(d[0]) } else { RawTensor::from(d[0]) }),
                    3 if shape.len() == 1 && shape[0] > 0 => Lib::Rc(RcTensor::from(d)),
                    4 if shape.len() == 1 && shape[0] > 0 => Lib::Raw(RawTensor::from(d)),
                    3 if shape.len() == 2 && !shape.contains(&0) => Lib::Rc(RcTensor::from(d.chunks(shape[1]).map(|c| c.to_vec()).collect::<Vec<_>>())),
                    4 if shape.len() == 2 && !shape.contains(&0) => Lib::Raw(RawTensor::from(d.chunks(shape[1]).map(|c| c.to_vec()).collect::<Vec<_>>())),
                    0 | 3 => Lib::Rc(RcTensor::new(d, shape.clone())),
                    _ => Lib::Raw(RawTensor::new(d, shape.clone())),
                }
            }
            Add(a, b, f) => ops::add(v(a), v(b), *f),
            Sub(a, b, f) => ops::sub(v(a), v(b), *f),
            Mul(a, b, f) => ops::mul(v(a), v(b), *f),
            EwMul(a, b) => ops::ew_mul(v(a), v(b)),
            Dot(a, b, f) => ops::dot(v(a), v(b), *f),
            Mm(a, b, f) => ops::bmm(v(a), v(b), *f),
            act => self.one(act, v(&act.operands()[0])),
        })
    }
    /// The same program once more, each tensor handed over by value at its last use; the handles kept are compared.
    pub fn replay(&self, keep: u64) -> Result<usize, String> {
        use Act::*;
        let n = self.vals.len();
        let h = bits(keep, 5, n);
        let kept = |i: usize| h[i] % [3, 8, 100, 1][keep as usize % 4] == 0 && keep % 4 != 3;
        let mut last: Vec<usize> = (0..n).collect();
        for (i, v) in self.vals.iter().enumerate() {
            for p in v.act.operands() {
                last[p] = i;
            }
        }
        let mut slots: Vec<Option<Lib<T>>> = vec![None; n];
        let mut moved = 0;
        for (i, v) in self.vals.iter().enumerate() {
            let ps = v.act.operands();
            let mut args: Vec<Lib<T>> = vec![];
            for (k, &p) in ps.iter().enumerate() {
                let more = ps[k + 1..].contains(&p);
                if last[p] == i && !kept(p) && !more {
                    moved += 1;
                    args.push(slots[p].take().unwrap());
                } else {
                    args.push(slots[p].clone().unwrap());
                }
            }
            let by_value = h[i] >> 9 & 7 != 0;
            let mut args = args.into_iter();
            let (a, b) = (args.next(), args.next());
            let sr = |r: &[(usize, usize)]| r.iter().map(|x| SliceRange::new(x.0, x.1)).collect::<Vec<_>>();
            let lib = guard(|| match (&v.act, a, b) {
                (New { .. }, _, _) => self.run(&v.act).unwrap(),
                (Add(..), Some(Lib::Rc(x)), Some(Lib::Rc(y))) if by_value => Lib::Rc(x + y),
                (Sub(..), Some(Lib::Rc(x)), Some(Lib::Rc(y))) if by_value => Lib::Rc(x - y),
                (Mul(..), Some(Lib::Rc(x)), Some(Lib::Rc(y))) if by_value => Lib::Rc(x * y),
                (Mul(..), Some(Lib::Raw(x)), Some(Lib::Rc(y))) if by_value => Lib::Raw(&x * y),
                (Mul(..), Some(Lib::Rc(x)), Some(y)) if by_value => on!(&y, y => Lib::Rc(x * y)),
                (Slice(_, r, _), Some(Lib::Rc(x)), _) if by_value => Lib::View(TensorView::new(x, sr(r))),
                (Unary(_, c), Some(Lib::Rc(x)), _) if T::REAL => Lib::Rc(T::unary_owned(*c, x).unwrap()),
                (act, a, b) => {
                    let (a, b) = (a.as_ref(), b.as_ref());
                    let two = || (a.unwrap(), b.unwrap());
                    match act {
                        Add(_, _, f) => ops::add(two().0, two().1, *f),
                        Sub(_, _, f) => ops::sub(two().0, two().1, *f),
                        Mul(_, _, f) => ops::mul(two().0, two().1, *f),
                        EwMul(..) => ops::ew_mul(two().0, two().1),
                        Dot(_, _, f) => ops::dot(two().0, two().1, *f),
                        Mm(_, _, f) => ops::bmm(two().0, two().1, *f),
                        act => self.one(act, a.unwrap()),
                    }
                }
            })
            .map_err(|e| format!("{:?} is refused when temporaries are handed over: {e}", v.act))?;
            expect_lib(&format!("value {i} ({:?}) computed from temporaries", v.act), &lib, &v.m)?;
            slots[i] = Some(lib);
        }
        for (i, v) in self.vals.iter().enumerate() {
            if let Some(l) = &slots[i] {
                expect_lib(&format!("value {i} ({:?}) at the end, temporaries handed over", v.act), l, &v.m)?;
            }
        }
        Ok(moved)
    }
    /// an operation with one operand
    fn one(&self, act: &Act, a: &Lib<T>) -> Lib<T> {
        use Act::*;
        match act {
            Scale(_, s, left) => ops::scale(a, T::from_f(*s as f64), *left),
            Neg(_) => ops::neg(a),
            Sum(_) => ops::sum(a),
            Map(_, c) => ops::map(a, ops::fun::<T>(*c).0),
            Unary(_, c) => Lib::Rc(T::unary(*c, &ops::to_rc(a)).unwrap()),
            Slice(_, r, f) => ops::slice(a, r, *f),
            Reshape(_, s) => ops::reshape(a, s.clone()),
            Copy(_, c) => match c {
                0 => Lib::Rc(on!(a, x => x.to_tensor())),
                1 => Lib::Rc(on!(a, x => x.deep_clone())),
                2 => Lib::Raw(ops::boxed_raw(a)),
                _ => a.clone(),
            },
            _ => unreachable!(),
        }
    }
    pub fn cost(&self, act: &Act, out: &Nd) -> f64 {
        let n = |i: usize| self.vals[i].m.count() as f64;
        let own = match act {
            Act::Mm(a, b, _) => 4.0 * n(*a) * self.shape(*b).last().copied().unwrap_or(1) as f64,
            Act::Unary(a, _) => n(*a) * n(*a),
            _ => 3.0 * out.count() as f64 + act.operands().iter().map(|&i| n(i)).sum::<f64>(),
        };
        10.0 + own + act.operands().iter().map(|&i| self.vals[i].cost).sum::<f64>()
    }
    /// within the sizes and magnitudes the harness explores
    pub fn fits(&self, m: &Nd) -> bool {
        m.count() <= self.elems && m.max_mag() <= self.mag
    }
    pub fn push(&mut self, lib: Lib<T>, m: Nd, act: Act) -> usize {
        let cost = self.cost(&act, &m);
        self.vals.push(Val { lib, m, act, cost });
        self.vals.len() - 1
    }
}

/// What can be observed of a library value: shape, count, elements in row-major order (None: not readable), and the
/// stored gradient's shape and elements.
#[derive(Clone, Debug)]
pub struct Print {
    pub shape: Vec<usize>,
    pub count: usize,
    pub elems: Vec<Option<f64>>,
    pub grad: Option<(Vec<usize>, Vec<Option<f64>>)>,
}
fn elems<T: El, V: TensorLike<Elem = T>>(t: &V) -> (Vec<usize>, Vec<Option<f64>>) {
    let shape: Vec<usize> = t.shape().deref().clone();
    let e = (0..count(&shape)).map(|p| t.get(&unravel(p, &shape)).ok().map(|x| x.to_f())).collect();
    (shape, e)
}
pub fn print<T: El>(l: &Lib<T>) -> Print {
    let (shape, e) = on!(l, x => elems::<T, _>(x));
    let grad = match l {
        Lib::Rc(x) => grad_of(x),
        // an owned tensor's gradient can only be observed on a copy
        Lib::Raw(x) => grad_of(&x.to_tensor()),
        Lib::View(_) => None,
    };
    Print { shape, count: on!(l, x => x.count()), elems: e, grad: grad.map(|g| elems::<T, _>(&g)) }
}
fn same_bits(a: &[Option<f64>], b: &[Option<f64>]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| match (a, b) {
            (Some(a), Some(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (None, None) => true,
            _ => false,
        })
}
/// What changed, if anything.
pub fn changed(before: &Print, now: &Print, grads: bool) -> Option<String> {
    if before.shape != now.shape || before.count != now.count {
        return Some(format!("shape {:?} (count {}) became {:?} (count {})", before.shape, before.count, now.shape, now.count));
    }
    if !same_bits(&before.elems, &now.elems) {
        return Some(format!("elements {:?} became {:?}", before.elems, now.elems));
    }
    if !grads {
        return None;
    }
    match (&before.grad, &now.grad) {
        (None, None) => None,
        (Some(a), Some(b)) if a.0 == b.0 && same_bits(&a.1, &b.1) => None,
        (a, b) => Some(format!("gradient {a:?} became {b:?}")),
    }
}
