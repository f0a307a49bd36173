//! Differentiable expression DAGs: random programs over shared tensors, executed on the library and on the model,
//! with a reverse-mode reference gradient.
use crate::ensure;
use crate::gens::*;
use crate::lib_tensor::*;
use crate::model::*;
use proptest::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OpSpec {
    pub code: u8,
    pub a: u16,
    pub b: u16,
    pub aux: u32,
}
pub fn op_spec(codes: u8) -> impl Strategy<Value = OpSpec> {
    (0..codes, any::<u16>(), any::<u16>(), any::<u32>()).prop_map(|(code, a, b, aux)| OpSpec { code, a, b, aux })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rule {
    Leaf,
    Add(usize, usize),
    Sub(usize, usize),
    Neg(usize),
    Mul(usize, usize),
    Abs(usize),
    Relu(usize),
    Tanh(usize),
    Sum(usize),
    Dot(usize, usize),
    Mm(usize, usize),
}
impl Rule {
    pub fn parents(&self) -> Vec<usize> {
        use Rule::*;
        match *self {
            Leaf => vec![],
            Neg(a) | Abs(a) | Relu(a) | Tanh(a) | Sum(a) => vec![a],
            Add(a, b) | Sub(a, b) | Mul(a, b) | Dot(a, b) | Mm(a, b) => vec![a, b],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Node<T: El> {
    pub lib: RcTensor<T>,
    pub val: Nd,
    pub rule: Rule,
    /// estimated work of the operation and of its derivative
    pub cost: f64,
}

#[derive(Clone, Debug)]
pub struct Limits {
    pub elems: usize,
    pub cost: f64,
    pub mag: f64,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { elems: 400, cost: 25_000.0, mag: 1e5 }
    }
}

pub struct Graph<T: El> {
    pub nodes: Vec<Node<T>>,
    pub vseed: u64,
    pub salt: u64,
    pub lim: Limits,
}

pub const OPS: u8 = 16;

impl<T: El> Graph<T> {
    pub fn new(vseed: u64, lim: Limits) -> Self {
        Graph { nodes: vec![], vseed, salt: 0, lim }
    }
    pub fn fresh_values(&mut self, shape: &[usize]) -> Nd {
        self.salt += 1;
        Nd::new(shape.to_vec(), values::<T>(self.vseed, self.salt, count(shape)))
    }
    pub fn leaf(&mut self, shape: &[usize]) -> usize {
        let val = self.fresh_values(shape);
        self.leaf_from(val)
    }
    pub fn leaf_from(&mut self, val: Nd) -> usize {
        self.nodes.push(Node { lib: rc(&val), val, rule: Rule::Leaf, cost: 0.0 });
        self.nodes.len() - 1
    }
    fn pick(&self, sel: u16, ok: impl Fn(&Node<T>) -> bool) -> Option<usize> {
        // newer nodes come first so that programs grow deep rather than wide
        let c: Vec<usize> = (0..self.nodes.len()).rev().filter(|&i| ok(&self.nodes[i])).collect();
        if c.is_empty() {
            return None;
        }
        // half of the selector range prefers the three newest candidates
        let n = if sel & 1 == 0 { c.len().min(3) } else { c.len() };
        Some(c[(sel as usize >> 1) % n])
    }
    fn shape(&self, i: usize) -> Vec<usize> {
        self.nodes[i].val.shape.clone()
    }
    /// A shape that broadcasts with `s`: some dimensions set to 1, leading ones dropped or added, ones expanded.
    fn derived_shape(&self, s: &[usize], aux: u32) -> Vec<usize> {
        let mut out = s.to_vec();
        for (d, o) in out.iter_mut().enumerate() {
            match (aux >> (2 * (d % 8))) & 3 {
                0 => *o = 1,
                1 if *o == 1 => *o = 2 + (aux as usize >> 16) % 3,
                _ => {}
            }
        }
        match (aux >> 20) & 7 {
            0 | 1 if !out.is_empty() => {
                out.drain(..1 + (aux as usize >> 23) % out.len());
            }
            2 => out.insert(0, 1 + (aux as usize >> 23) % 3),
            _ => {}
        }
        out
    }
    /// estimated work of a backward pass through everything these nodes depend on
    fn cost_of(&self, from: Vec<usize>) -> f64 {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo = from;
        let mut cost = 0.0;
        while let Some(i) = todo.pop() {
            if !std::mem::replace(&mut seen[i], true) {
                cost += self.nodes[i].cost;
                todo.extend(self.nodes[i].rule.parents());
            }
        }
        cost
    }

    /// Executes one operation on library and model and compares the result. None: not applicable / over the limits.
    pub fn apply(&mut self, op: &OpSpec) -> Result<Option<usize>, String> {
        if self.nodes.is_empty() {
            return Ok(None);
        }
        let a = self.pick(op.a, |_| true).unwrap();
        let sa = self.shape(a);
        let aux = op.aux;
        let fresh = aux & 3 == 0;
        let rule = match op.code {
            // ---- add / sub with broadcasting
            0..=3 => {
                let elems = self.lim.elems;
                let b = if aux & 31 == 7 {
                    a
                } else {
                    let found = if fresh {
                        None
                    } else {
                        self.pick(op.b, |n| broadcast(&sa, &n.val.shape).is_some_and(|s| count(&s) <= elems))
                    };
                    match found {
                        Some(b) => b,
                        None => {
                            let mut s = self.derived_shape(&sa, aux >> 2);
                            if broadcast(&sa, &s).is_none_or(|x| count(&x) > elems) {
                                s = sa.clone();
                            }
                            self.leaf(&s)
                        }
                    }
                };
                let (x, y) = if aux & 4 == 0 { (a, b) } else { (b, a) };
                if op.code <= 1 { Rule::Add(x, y) } else { Rule::Sub(x, y) }
            }
            4 => Rule::Neg(a),
            // ---- multiplication: same shape, or a scalar on one side
            5..=7 => {
                let b = if aux & 31 == 7 {
                    a
                } else {
                    let found = if fresh {
                        None
                    } else {
                        self.pick(op.b, |n| n.val.shape == sa || n.val.shape.is_empty() || sa.is_empty())
                    };
                    match found {
                        Some(b) => b,
                        None if aux & 8 == 0 => self.leaf(&sa),
                        None => self.leaf(&[]),
                    }
                };
                if aux & 4 == 0 { Rule::Mul(a, b) } else { Rule::Mul(b, a) }
            }
            8 if T::REAL => Rule::Abs(a),
            9 if T::REAL => Rule::Relu(a),
            10 if T::REAL => Rule::Tanh(a),
            8..=10 => Rule::Neg(a),
            11 => Rule::Sum(a),
            12 => {
                let found = if fresh { None } else { self.pick(op.b, |n| n.val.shape == sa) };
                let b = found.unwrap_or_else(|| self.leaf(&sa));
                Rule::Dot(a, b)
            }
            // ---- matrix product, operand `a` on either side, or a rank-2/3 node picked for the purpose
            _ => {
                let left = if (2..=3).contains(&sa.len()) { Some(a) } else { self.pick(op.a, |n| (2..=3).contains(&n.val.shape.len())) };
                let Some(l) = left else {
                    // make the newest node a matrix operand through an outer sum with a fresh matrix
                    let s = vec![1 + aux as usize % 3, 1 + (aux >> 4) as usize % 3];
                    let l = self.leaf(&s);
                    return self.mm_with(l, op, false);
                };
                return self.mm_with(l, op, aux & 16 == 16);
            }
        };
        self.exec(rule, aux)
    }
    fn mm_with(&mut self, l: usize, op: &OpSpec, as_right: bool) -> Result<Option<usize>, String> {
        let s = self.shape(l);
        let r = s.len();
        let aux = op.aux;
        // an empty dimension now and then (aux >> 28 == 15)
        let d = |x: u32| if aux >> 28 == 15 && x & 1 == 0 { 0 } else { [1usize, 2, 3, 1, 4, 2, 5, 7][x as usize % 8] };
        let rule = if as_right && r == 2 {
            let k = s[0];
            let found = if aux & 3 == 0 { None } else { self.pick(op.b, |n| (2..=3).contains(&n.val.shape.len()) && *n.val.shape.last().unwrap() == k) };
            let o = found.unwrap_or_else(|| {
                let mut shape = vec![d(aux >> 5), k];
                if aux & 512 == 512 {
                    shape.insert(0, d(aux >> 10));
                }
                self.leaf(&shape)
            });
            Rule::Mm(o, l)
        } else {
            let k = s[r - 1];
            let found = if aux & 3 == 0 { None } else { self.pick(op.b, |n| n.val.shape.len() == 2 && n.val.shape[0] == k) };
            let o = found.unwrap_or_else(|| self.leaf(&[k, d(aux >> 5)]));
            Rule::Mm(l, o)
        };
        self.exec(rule, aux)
    }
    pub fn model_value(&self, rule: &Rule) -> Option<Nd> {
        use Rule::*;
        let v = |i: usize| &self.nodes[i].val;
        Some(match *rule {
            Leaf => return None,
            Add(a, b) => v(a).add(v(b))?,
            Sub(a, b) => v(a).sub(v(b))?,
            Neg(a) => v(a).neg(),
            Mul(a, b) => v(a).mul(v(b))?,
            Abs(a) => v(a).map(f64::abs, |m| m),
            Relu(a) => v(a).map(|x| x.max(0.0), |m| m),
            Tanh(a) => v(a).map(f64::tanh, |m| m.max(1.0)),
            Sum(a) => v(a).sum(),
            Dot(a, b) => {
                let p = v(a).mul(v(b))?.sum();
                p.reshape(vec![1])
            }
            Mm(a, b) => v(a).matmul(v(b))?,
        })
    }
    /// The same operation through one of the equivalent public spellings.
    fn lib_value(&self, rule: &Rule, aux: u32) -> RcTensor<T> {
        use Rule::*;
        let t = |i: usize| &self.nodes[i].lib;
        let form = (aux >> 27) & 3;
        match *rule {
            Leaf => unreachable!(),
            Add(a, b) => match form {
                0 | 1 => t(a) + t(b),
                _ => t(a).clone() + t(b).clone(),
            },
            Sub(a, b) => match form {
                0 => t(a) - t(b),
                1 => t(a).clone() - t(b),
                _ => t(a).clone() - t(b).clone(),
            },
            Neg(a) => -t(a),
            Mul(a, b) => match form {
                0 => t(a) * t(b),
                1 => t(a).clone() * t(b),
                2 => t(a) * t(b).clone(),
                _ => t(a).clone() * t(b).clone(),
            },
            Abs(a) => T::unary(0, t(a)).unwrap(),
            Relu(a) => T::unary(1, t(a)).unwrap(),
            Tanh(a) => T::unary(2, t(a)).unwrap(),
            Sum(a) => t(a).sum(),
            Dot(a, b) => match form {
                0 | 1 => functional::dot(t(a), t(b)),
                _ => t(a).dot(t(b)),
            },
            Mm(a, b) => match form {
                0 | 1 => t(a).bmm(t(b)),
                _ => t(a).bmm_rc(t(b)),
            },
        }
    }
    pub fn exec(&mut self, rule: Rule, aux: u32) -> Result<Option<usize>, String> {
        use Rule::*;
        let Some(val) = self.model_value(&rule) else { return Ok(None) };
        let own = match rule {
            Tanh(a) => (self.nodes[a].val.count() as f64).powi(2) + 10.0,
            Mm(a, b) => 4.0 * self.nodes[a].val.count() as f64 * self.nodes[b].val.shape[1] as f64 + 30.0,
            _ => 3.0 * rule.parents().iter().map(|&p| self.nodes[p].val.count()).max().unwrap_or(1).max(val.count()) as f64 + 10.0,
        };
        if val.count() > self.lim.elems || val.max_mag() > self.lim.mag || own + self.cost_of(rule.parents()) > self.lim.cost {
            return Ok(None);
        }
        let lib = self.lib_value(&rule, aux);
        expect(&format!("forward value of {rule:?}"), &lib, &val)?;
        self.nodes.push(Node { lib, val, rule, cost: own });
        Ok(Some(self.nodes.len() - 1))
    }

    /// Derivatives of the (one-element) node `root` with respect to every node it depends on. Within rounding of a kink
    /// of abs or relu the derivative is a matter of convention: NaN, which spreads to everything that depends on it.
    pub fn adjoints(&self, root: usize) -> Vec<Option<Nd>> {
        use Rule::*;
        let mut g: Vec<Option<Nd>> = vec![None; self.nodes.len()];
        let seed = Nd::new(self.nodes[root].val.shape.clone(), vec![1.0]);
        fn acc(g: &mut [Option<Nd>], i: usize, d: Nd) {
            match &mut g[i] {
                Some(x) => x.add_assign(&d),
                n => *n = Some(d),
            }
        }
        let kink = if T::EPS > 1e-8 { 1e-3 } else { 1e-9 };
        for i in (0..=root).rev() {
            let up = if i == root {
                seed.clone()
            } else {
                match &g[i] {
                    Some(x) => x.clone(),
                    None => continue,
                }
            };
            let v = |j: usize| &self.nodes[j].val;
            let unary = |j: usize, d: &dyn Fn(f64, f64) -> f64| {
                let mut o = up.clone();
                for p in 0..o.count() {
                    let d = d(v(j).data[p], v(j).mag[p]);
                    // zero times anything undecided is still zero
                    o.data[p] = if d == 0.0 { 0.0 } else { o.data[p] * d };
                }
                o
            };
            match self.nodes[i].rule {
                Leaf => {}
                Add(a, b) => {
                    acc(&mut g, a, up.unbroadcast(&v(a).shape));
                    acc(&mut g, b, up.unbroadcast(&v(b).shape));
                }
                Sub(a, b) => {
                    acc(&mut g, a, up.unbroadcast(&v(a).shape));
                    acc(&mut g, b, up.neg().unbroadcast(&v(b).shape));
                }
                Neg(a) => acc(&mut g, a, up.neg()),
                Mul(a, b) => {
                    let da = up.mul(v(b)).unwrap().unbroadcast(&v(a).shape);
                    let db = up.mul(v(a)).unwrap().unbroadcast(&v(b).shape);
                    acc(&mut g, a, da);
                    acc(&mut g, b, db);
                }
                Abs(a) => {
                    let d = unary(a, &|x, m| if x.abs() <= kink * m { f64::NAN } else { x.signum() });
                    acc(&mut g, a, d);
                }
                Relu(a) => {
                    let d = unary(a, &|x, m| if x.abs() <= kink * m { f64::NAN } else if x > 0.0 { 1.0 } else { 0.0 });
                    acc(&mut g, a, d);
                }
                Tanh(a) => {
                    let mut d = unary(a, &|x, _| 1.0 - x.tanh() * x.tanh());
                    // an error in x moves the derivative by less than that error
                    for p in 0..d.count() {
                        d.mag[p] *= v(a).mag[p].max(1.0);
                    }
                    acc(&mut g, a, d);
                }
                Sum(a) => {
                    let n = v(a).count();
                    acc(&mut g, a, Nd::with_mag(v(a).shape.clone(), vec![up.data[0]; n], vec![up.mag[0]; n]));
                }
                Dot(a, b) => {
                    let s = up.reshape(vec![]);
                    acc(&mut g, a, s.mul(v(b)).unwrap());
                    acc(&mut g, b, s.mul(v(a)).unwrap());
                }
                Mm(a, b) => {
                    let k = v(b).shape[0];
                    let n = v(b).shape[1];
                    let rows = v(a).shape.split_last().unwrap().1.iter().product();
                    let up2 = up.reshape(vec![rows, n]);
                    let a2 = v(a).reshape(vec![rows, k]);
                    let da = up2.matmul(&v(b).matrix_transpose()).unwrap().reshape(v(a).shape.clone());
                    let db = a2.matrix_transpose().matmul(&up2).unwrap();
                    acc(&mut g, a, da);
                    acc(&mut g, b, db);
                }
            }
        }
        g[root] = None;
        g
    }

    /// Reduces node `i` to a one-element, differentiable root. `fin` chooses how.
    pub fn finish(&mut self, i: usize, fin: u32) -> Result<Option<usize>, String> {
        let mut i = i;
        if self.nodes[i].val.count() > 1 && fin & 3 != 0 {
            // non-uniform upstream gradient
            let w = self.leaf(&self.shape(i));
            if let Some(j) = self.exec(Rule::Mul(i, w), fin)? {
                i = j;
            }
        }
        let leaf = self.nodes[i].rule == Rule::Leaf;
        if self.nodes[i].val.count() != 1 || leaf || fin & 4 == 4 {
            let shape = self.shape(i);
            let rule = match (fin >> 3) & 3 {
                0 => {
                    let w = self.leaf(&shape);
                    Rule::Dot(i, w)
                }
                1 if shape.len() == 2 => {
                    // u^T X v: the root has shape [1, 1]
                    let u = self.leaf(&[1, shape[0]]);
                    let v = self.leaf(&[shape[1], 1]);
                    match self.exec(Rule::Mm(u, i), fin)? {
                        Some(x) => Rule::Mm(x, v),
                        None => Rule::Sum(i),
                    }
                }
                _ => Rule::Sum(i),
            };
            match self.exec(rule, fin)? {
                Some(j) => i = j,
                None => return Ok(None),
            }
        }
        // a tail of one-element operations, so that the gradient entering the reduction is not 1
        for k in 0..(fin >> 5) & 3 {
            let c = (fin >> (7 + 3 * k)) & 7;
            let rule = match c {
                0 => Rule::Neg(i),
                1 | 2 => {
                    let s = self.leaf(&[]);
                    Rule::Mul(s, i)
                }
                3 if T::REAL => Rule::Tanh(i),
                4 if T::REAL => Rule::Abs(i),
                5 => Rule::Sum(i),
                6 => {
                    let s = self.leaf(&self.shape(i));
                    Rule::Sub(s, i)
                }
                _ => Rule::Neg(i),
            };
            if let Some(j) = self.exec(rule, fin)? {
                i = j;
            }
        }
        ensure!(self.nodes[i].val.count() == 1, "harness bug: root not reduced");
        if self.nodes[i].rule == Rule::Leaf {
            return Ok(None);
        }
        Ok(Some(i))
    }
    /// The part of the program the root depends on once more, the way ordinary code is written: a tensor nobody needs
    /// any more is handed to its last operation by value and gone afterwards. `keep` says which handles are kept;
    /// their values and gradients are compared. Returns how many operands were handed over.
    pub fn replay(&self, root: usize, ga: &[Option<Nd>], keep: u64, kinks: &mut u64) -> Result<usize, String> {
        use Rule::*;
        let needed = |i: usize| i == root || ga[i].is_some();
        let h = bits(keep, 3, root + 1);
        let mode = keep % 4;
        let kept = |i: usize| match (mode, &self.nodes[i].rule) {
            (0, r) => *r == Leaf,
            (1, r) => *r == Leaf && h[i] & 3 == 0,
            (2, _) => h[i] & 7 == 0,
            (_, r) => h[i] & 15 == 0 || (*r == Leaf && h[i] & 1 == 0),
        };
        let mut last = vec![0; root + 1];
        for i in (0..=root).filter(|&i| needed(i)) {
            for p in self.nodes[i].rule.parents() {
                last[p] = i;
            }
        }
        let mut slots: Vec<Option<RcTensor<T>>> = vec![None; root + 1];
        let mut moved = 0;
        for i in 0..=root {
            if !needed(i) {
                continue;
            }
            let rule = &self.nodes[i].rule;
            let ps = rule.parents();
            // by value if this is the end of it
            let mut own = |slots: &mut Vec<Option<RcTensor<T>>>, k: usize| -> RcTensor<T> {
                let p = ps[k];
                if last[p] == i && !kept(p) && !(k == 0 && ps.len() == 2 && ps[1] == p) {
                    moved += 1;
                    slots[p].take().unwrap()
                } else {
                    slots[p].clone().unwrap()
                }
            };
            let form = h[i] >> 8;
            let lib = match *rule {
                Leaf => rc(&self.nodes[i].val),
                _ => {
                    let x = own(&mut slots, 0);
                    let y = if ps.len() == 2 { Some(own(&mut slots, 1)) } else { None };
                    match (rule, y) {
                        (Add(..), Some(y)) => if form & 3 > 0 { x + y } else { &x + &y },
                        (Sub(..), Some(y)) => match form & 3 {
                            0 => &x - &y,
                            1 => x - &y,
                            _ => x - y,
                        },
                        (Mul(..), Some(y)) => match form & 7 {
                            0 => &x * &y,
                            1 => x * &y,
                            2 => &x * y,
                            _ => x * y,
                        },
                        (Dot(..), Some(y)) => if form & 1 == 0 { functional::dot(&x, &y) } else { x.dot(&y) },
                        (Mm(..), Some(y)) => if form & 1 == 0 { x.bmm(&y) } else { x.bmm_rc(&y) },
                        (Neg(_), _) => -&x,
                        (Abs(_), _) => T::unary_owned(0, x).unwrap(),
                        (Relu(_), _) => T::unary_owned(1, x).unwrap(),
                        (Tanh(_), _) => T::unary_owned(2, x).unwrap(),
                        (Sum(_), _) => x.sum(),
                        _ => unreachable!(),
                    }
                }
            };
            if i == root {
                expect("value of the result computed from temporaries", &lib, &self.nodes[i].val)?;
                lib.backward();
                break;
            }
            slots[i] = Some(lib);
        }
        for i in 0..root {
            let (Some(t), Some(a)) = (&slots[i], &ga[i]) else { continue };
            let what = format!("node {i} ({:?}, shape {:?}) kept while temporaries are handed over", self.nodes[i].rule, self.nodes[i].val.shape);
            expect(&format!("value of {what}"), t, &self.nodes[i].val)?;
            let Some(g) = grad_of(t) else { return Err(format!("{what} has no gradient although the result depends on it")) };
            expect_grad(&format!("gradient of {what}"), &g, a, kinks)?;
        }
        Ok(moved)
    }
    pub fn adjoint_mag(g: &[Option<Nd>]) -> f64 {
        g.iter().flatten().map(|x| x.max_mag()).fold(0.0, f64::max)
    }
}

/// Compares a library gradient with the model's, ignoring elements whose model value depends on the kink convention.
pub fn expect_grad<T: El>(what: &str, lib: &RcTensor<T>, a: &Nd, kinks: &mut u64) -> Result<(), String> {
    let mut m = a.clone();
    for p in 0..m.count() {
        if a.data[p].is_nan() {
            *kinks += 1;
            // undecided element: accept whatever is there
            let idx = unravel(p, &m.shape);
            if let Ok(v) = lib.deref_get(&idx) {
                m.data[p] = v.to_f();
            }
        }
    }
    expect(what, lib, &m)
}
/// Does any gradient depend on the kink convention?
pub fn undecided(g: &[Option<Nd>]) -> bool {
    g.iter().flatten().any(|x| x.data.iter().any(|v| v.is_nan()))
}
trait DerefGet<T: El> {
    fn deref_get(&self, i: &Vec<usize>) -> Result<T, String>;
}
impl<T: El> DerefGet<T> for RcTensor<T> {
    fn deref_get(&self, i: &Vec<usize>) -> Result<T, String> {
        TensorLike::get(self, i).copied()
    }
}
/// The stored gradient, or None if there is none.
pub fn grad_of<T: El>(t: &RcTensor<T>) -> Option<RcTensor<T>> {
    crate::framework::guard(|| t.grad()).ok()
}
