//! C12, C13, C14: layers, the SGD step, and whole training histories against textbook backpropagation.
use crate::framework::*;
use crate::gens::*;
use crate::graph::grad_of;
use crate::lib_tensor::*;
use crate::model::*;
use crate::ensure;
use num::traits::real::Real;
use proptest::prelude::*;
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};

pub trait Fl: El + Real {}
impl Fl for f64 {}
impl Fl for f32 {}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    None,
    Identity,
    Tanh,
    Relu,
    Abs,
    /// x -> x + x
    Double,
    /// x -> -x
    Neg,
}
fn act() -> impl Strategy<Value = Act> {
    prop_oneof![2 => Just(Act::None), 1 => Just(Act::Identity), 3 => Just(Act::Tanh), 3 => Just(Act::Relu), 1 => Just(Act::Abs), 1 => Just(Act::Double), 1 => Just(Act::Neg)]
}
impl Act {
    fn lib<T: Fl>(&self) -> Option<fn(RcTensor<T>) -> RcTensor<T>> {
        match self {
            Act::None => None,
            Act::Identity => Some(|t| t),
            Act::Tanh => Some(|t| T::unary(2, &t).unwrap()),
            Act::Relu => Some(|t| T::unary(1, &t).unwrap()),
            Act::Abs => Some(|t| T::unary(0, &t).unwrap()),
            Act::Double => Some(|t| &t + &t),
            Act::Neg => Some(|t| -&t),
        }
    }
    fn f(&self, x: f64) -> f64 {
        match self {
            Act::None | Act::Identity => x,
            Act::Tanh => x.tanh(),
            Act::Relu => x.max(0.0),
            Act::Abs => x.abs(),
            Act::Double => 2.0 * x,
            Act::Neg => -x,
        }
    }
    fn mag(&self, m: f64) -> f64 {
        match self {
            Act::Tanh => m.max(1.0),
            Act::Double => 2.0 * m,
            _ => m,
        }
    }
    fn d(&self, x: f64) -> f64 {
        match self {
            Act::None | Act::Identity => 1.0,
            Act::Tanh => 1.0 - x.tanh() * x.tanh(),
            Act::Relu => {
                if x > 0.0 {
                    1.0
                } else {
                    0.0
                }
            }
            Act::Abs => x.signum(),
            Act::Double => 2.0,
            Act::Neg => -1.0,
        }
    }
    fn kinked(&self) -> bool {
        matches!(self, Act::Relu | Act::Abs)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Net {
    real32: bool,
    /// input width, then the width of every layer's output
    widths: Vec<usize>,
    acts: Vec<Act>,
    /// per layer: 0 [n], 1 [1, n], 2 [1, 1, n] (batched inputs only, else [1, n]), 3 scalar, 4 [1], 5 [rows, n], 6 [rows, 1]
    bias: Vec<u8>,
    batch: Option<usize>,
    rows: usize,
    vseed: u64,
    /// bit 0: layers with weights of the same shape share one weight tensor, bit 1: likewise for the bias
    #[serde(default)]
    tie: u8,
}
fn net_with(max_layers: usize, width: usize, max_rows: usize, simple_bias: bool) -> BoxedStrategy<Net> {
    let w = move || prop_oneof![60 => 1usize..6, 10 => 1..=width, 1 => Just(0)];
    (1..=max_layers)
        .prop_flat_map(move |n| {
            let b = if simple_bias { prop_oneof![1 => Just(0u8), 1 => Just(1)].boxed() } else { (0u8..7).boxed() };
            (
                prop_oneof![5 => Just(false), 1 => Just(true)],
                prop::collection::vec(w(), n + 1),
                prop::collection::vec(act(), n),
                prop::collection::vec(b, n),
                prop_oneof![30 => Just(None), 10 => (1usize..4).prop_map(Some), 1 => Just(Some(0))],
                prop_oneof![25 => 1..=max_rows, 1 => Just(0)],
                any::<u64>(),
                prop_oneof![6 => Just(0u8), 1 => 1u8..4],
            )
        })
        .prop_map(|(real32, mut widths, acts, bias, batch, rows, vseed, tie)| {
            if tie > 0 {
                let w = widths[0];
                let end = if vseed & 1 == 0 { 0 } else { 1 };
                let n = widths.len() - end;
                widths[..n].iter_mut().for_each(|x| *x = w);
            }
            Net { real32, widths, acts, bias, batch, rows, vseed, tie }
        })
        .boxed()
}

/// the values of a network's parameters, in order
#[derive(Clone, Debug)]
struct Params {
    w: Vec<Nd>,
    b: Vec<Nd>,
}
impl Params {
    fn list(&self) -> Vec<&Nd> {
        self.w.iter().zip(&self.b).flat_map(|(w, b)| [w, b]).collect()
    }
}
impl Net {
    fn layers(&self) -> usize {
        self.acts.len()
    }
    fn bias_shape(&self, l: usize) -> Vec<usize> {
        let n = self.widths[l + 1];
        match self.bias[l] {
            1 => vec![1, n],
            2 if self.batch.is_some() => vec![1, 1, n],
            2 => vec![1, n],
            3 => vec![],
            4 => vec![1],
            5 => vec![self.rows, n],
            6 => vec![self.rows, 1],
            _ => vec![n],
        }
    }
    fn params<T: El>(&self, salt: u64) -> Params {
        let v = |s: &[usize], k: u64| Nd::new(s.to_vec(), values::<T>(self.vseed, salt * 1000 + k, count(s)));
        let mut p = Params {
            w: (0..self.layers()).map(|l| v(&[self.widths[l], self.widths[l + 1]], 2 * l as u64)).collect(),
            b: (0..self.layers()).map(|l| v(&self.bias_shape(l), 2 * l as u64 + 1)).collect(),
        };
        for l in 1..self.layers() {
            if self.tie & 1 == 1 && p.w[l].shape == p.w[0].shape {
                p.w[l] = p.w[0].clone();
            }
            if self.tie & 2 == 2 && p.b[l].shape == p.b[0].shape {
                p.b[l] = p.b[0].clone();
            }
        }
        p
    }
    fn input<T: El>(&self, salt: u64) -> Nd {
        let s = match self.batch {
            Some(b) => vec![b, self.rows, self.widths[0]],
            None => vec![self.rows, self.widths[0]],
        };
        Nd::new(s.clone(), values::<T>(self.vseed, 7_000_000 + salt, count(&s)))
    }
    /// parameter tensors in order, the tied ones as one tensor
    fn tensors<T: Fl>(&self, p: &Params) -> Vec<RcTensor<T>> {
        let mut out: Vec<RcTensor<T>> = p.list().iter().map(|x| rc(x)).collect();
        for l in 1..self.layers() {
            for (k, list) in [(0, &p.w), (1, &p.b)] {
                if self.tie >> k & 1 == 1 && list[l].shape == list[0].shape && list[l].data == list[0].data {
                    out[2 * l + k] = out[k].clone();
                }
            }
        }
        out
    }
    fn tied(&self) -> bool {
        self.tie > 0 && self.layers() > 1
    }
}

/// A layer or an MLP of any supported depth behind one interface.
trait Net_<T: Fl>: std::fmt::Debug {
    fn forward(&self, x: RcTensor<T>) -> RcTensor<T>;
    fn params(&self) -> Vec<RcTensor<T>>;
    fn update(&mut self, p: Vec<RcTensor<T>>);
    fn step(&mut self, s: RcTensor<T>);
}
impl<T: Fl, M> Net_<T> for M
where
    M: Module<T, InputType = RcTensor<T>, OutputType = RcTensor<T>> + std::fmt::Debug,
{
    fn forward(&self, x: RcTensor<T>) -> RcTensor<T> {
        Module::forward(self, x)
    }
    fn params(&self) -> Vec<RcTensor<T>> {
        Module::params(self)
    }
    fn update(&mut self, p: Vec<RcTensor<T>>) {
        self.update_params(p)
    }
    fn step(&mut self, s: RcTensor<T>) {
        sgd_step(self, s)
    }
}
#[derive(Debug)]
enum Model<T: Fl> {
    Linear(Linear<T>),
    Mlp(Box<dyn Net_<T>>),
}
const DEPTHS: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16];
impl<T: Fl> Model<T> {
    fn new(n: &Net, p: &Params, as_linear: bool) -> Model<T> {
        let t = n.tensors::<T>(p);
        let l = |i: usize| Linear::new(t[2 * i].clone(), t[2 * i + 1].clone(), n.acts[i].lib::<T>());
        Model::with(n, as_linear, &l)
    }
    fn with(n: &Net, as_linear: bool, l: &dyn Fn(usize) -> Linear<T>) -> Model<T> {
        macro_rules! by_depth {
            ($($d:literal),*) => {
                match n.layers() {
                    1 if as_linear => Model::Linear(l(0)),
                    $($d => Model::Mlp(Box::new(Mlp::<T, $d>::new(std::array::from_fn(l)))),)*
                    d => unreachable!("depth {d}"),
                }
            };
        }
        by_depth!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16)
    }
    fn inner(&self) -> &dyn Net_<T>
    where
        T: 'static,
    {
        match self {
            Model::Linear(l) => l,
            Model::Mlp(m) => m.as_ref(),
        }
    }
    fn inner_mut(&mut self) -> &mut dyn Net_<T>
    where
        T: 'static,
    {
        match self {
            Model::Linear(l) => l,
            Model::Mlp(m) => m.as_mut(),
        }
    }
    fn forward(&self, x: RcTensor<T>) -> RcTensor<T> {
        self.inner().forward(x)
    }
    fn params(&self) -> Vec<RcTensor<T>> {
        self.inner().params()
    }
    fn update(&mut self, p: Vec<RcTensor<T>>) {
        self.inner_mut().update(p)
    }
    fn step(&mut self, s: RcTensor<T>) {
        self.inner_mut().step(s)
    }
}
/// only some depths are instantiated, and a pass follows both uses of a doubled value
fn fix_layers(mut n: Net) -> Net {
    while !DEPTHS.contains(&n.layers()) {
        n.acts.pop();
        n.bias.pop();
        n.widths.pop();
    }
    let mut doubles = 0;
    for a in n.acts.iter_mut() {
        if *a == Act::Double {
            doubles += 1;
            if doubles > 4 {
                *a = Act::Tanh;
            }
        }
    }
    n
}
/// a depth of up to 16
fn net_deep(layers: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Net> {
    (layers, net_with(1, 12, 3, false), prop::collection::vec((1usize..5, act(), 0u8..7), 16), any::<bool>())
        .prop_map(|(n, mut net, more, same)| {
            for (w, a, b) in more.into_iter().take(n).skip(1) {
                net.widths.push(if same { net.widths[0] } else { w });
                net.acts.push(a);
                net.bias.push(b);
            }
            if n == 0 {
                net.widths.pop();
                net.acts.clear();
                net.bias.clear();
            } else if same {
                net.widths[1] = net.widths[0];
            }
            fix_layers(net)
        })
        .boxed()
}

/// per layer: input, pre-activation, output
struct Fwd {
    ins: Vec<Nd>,
    pre: Vec<Nd>,
    out: Nd,
}
fn forward(n: &Net, p: &Params, x: &Nd) -> Fwd {
    let (mut ins, mut pre) = (vec![], vec![]);
    let mut cur = x.clone();
    for l in 0..n.layers() {
        let z = cur.matmul(&p.w[l]).expect("widths").add(&p.b[l]).expect("bias");
        ins.push(cur);
        let a = &n.acts[l];
        cur = z.map(|v| a.f(v), |m| a.mag(m));
        pre.push(z);
    }
    Fwd { ins, pre, out: cur }
}
/// gradients of (w, b) per layer and of the input, from the gradient of the output
fn backprop(n: &Net, p: &Params, f: &Fwd, gout: &Nd) -> (Params, Nd) {
    let mut g = gout.clone();
    let (mut gw, mut gb) = (vec![], vec![]);
    for l in (0..n.layers()).rev() {
        let mut dz = g.clone();
        for i in 0..dz.count() {
            dz.data[i] *= n.acts[l].d(f.pre[l].data[i]);
            dz.mag[i] *= n.acts[l].d(f.pre[l].data[i]).abs().max(1.0);
        }
        let (k, m) = (n.widths[l], n.widths[l + 1]);
        let rows = f.ins[l].shape.split_last().unwrap().1.iter().product();
        let x2 = f.ins[l].reshape(vec![rows, k]);
        let d2 = dz.reshape(vec![rows, m]);
        gw.push(x2.matrix_transpose().matmul(&d2).unwrap());
        gb.push(dz.unbroadcast(&p.b[l].shape));
        g = d2.matmul(&p.w[l].matrix_transpose()).unwrap().reshape(f.ins[l].shape.clone());
    }
    gw.reverse();
    gb.reverse();
    (Params { w: gw, b: gb }, g)
}
fn near_kink(n: &Net, f: &Fwd, eps: f64) -> bool {
    (0..n.layers()).any(|l| n.acts[l].kinked() && f.pre[l].data.iter().zip(&f.pre[l].mag).any(|(x, m)| x.abs() <= eps * m.max(1e-3)))
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FwdCase {
    net: Net,
    as_linear: bool,
    rounds: u8,
}
fn fwd_strategy(_: Tier) -> BoxedStrategy<FwdCase> {
    (net_with(6, 40, 6, false), any::<bool>(), 1u8..4).prop_map(|(net, as_linear, rounds)| FwdCase { net: fix_layers(net), as_linear, rounds }).boxed()
}
fn fwd_deep(_: Tier) -> BoxedStrategy<FwdCase> {
    (prop_oneof![1 => net_deep(0..=0), 30 => net_deep(5..=16)], 1u8..3).prop_map(|(net, rounds)| FwdCase { net, as_linear: false, rounds }).boxed()
}
fn fwd_check(c: &FwdCase) -> Check {
    fn go<T: Fl>(c: &FwdCase) -> Check {
        let n = &c.net;
        let mut p = n.params::<T>(0);
        let mut m: Model<T> = Model::new(n, &p, c.as_linear);
        let x = n.input::<T>(0);
        let xl: RcTensor<T> = rc(&x);
        for round in 0..=c.rounds {
            let what = format!("round {round}, network {n:?}");
            let listed = m.params();
            let want = p.list();
            ensure!(listed.len() == want.len(), "{what}: {} parameters listed, expected {}", listed.len(), want.len());
            for (i, (l, w)) in listed.iter().zip(&want).enumerate() {
                expect(&format!("{what}: parameter {i}"), l, w)?;
            }
            if let Model::Linear(l) = &mut m {
                let own: Vec<RcTensor<T>> = l.params().collect();
                ensure!(own.len() == 2, "{what}: a layer lists {} parameters", own.len());
                expect(&format!("{what}: weights"), &own[0], &p.w[0])?;
                expect(&format!("{what}: bias"), &own[1], &p.b[0])?;
                expect(&format!("{what}: weights field"), &l.weights, &p.w[0])?;
                expect(&format!("{what}: bias field"), &l.bias, &p.b[0])?;
            }
            let f = forward(n, &p, &x);
            expect(&format!("{what}: output"), &m.forward(rc(&x)), &f.out)?;
            expect(&format!("{what}: output for the input of every round"), &m.forward(xl.clone()), &f.out)?;
            // the last layer replaced on its own is a different network; here: replace all parameters
            p = n.params::<T>(round as u64 + 1);
            let fresh = n.tensors::<T>(&p);
            match &mut m {
                // the fields are public
                Model::Linear(l) if round % 2 == 1 => {
                    l.weights = fresh[0].clone();
                    l.bias = fresh[1].clone();
                }
                m => m.update(fresh.clone()),
            }
            expect(&format!("{what}: output for the input of every round after replacing the parameters"), &m.forward(xl.clone()), &forward(n, &p, &x).out)?;
            // the module now holds exactly the given tensors: gradients reach them
            let out = m.forward(rc(&x));
            expect(&format!("{what}: output after replacing the parameters"), &out, &forward(n, &p, &x).out)?;
            if n.layers() > 0 {
                out.sum().backward();
            }
            for (i, t) in fresh.iter().enumerate() {
                ensure!(grad_of(t).is_some(), "{what}: no gradient on parameter {i} given to update_params");
            }
        }
        Ok(Info::new(n.layers() > 1 && n.widths.iter().any(|&w| w != n.widths[0]))
            .label(n.batch.is_some(), "batch")
            .label(n.tied(), "shared-parameters")
            .label(n.layers() == 1, "single-layer")
            .label(n.layers() >= 3, "3+layers"))
    }
    if c.net.real32 {
        go::<f32>(c)
    } else {
        go::<f64>(c)
    }
}

// ------------------------------------------------------------------ C13

/// outside the range in which the element type still represents the reference's numbers
fn too_big(x: &Nd, lim: f64) -> bool {
    !(x.max_mag() <= lim) || x.data.iter().any(|v| !v.is_finite())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StepCase {
    net: Net,
    as_linear: bool,
    /// gradients written by hand instead of by a backward pass
    by_hand: bool,
    passes: u8,
    /// numerator of the step size (over 64); may be 0 or negative
    step: i16,
    later: u8,
}
fn step_strategy(_: Tier) -> BoxedStrategy<StepCase> {
    (net_with(4, 12, 4, false), any::<bool>(), any::<bool>(), 1u8..4, prop_oneof![4 => 1i16..100, 1 => -50i16..50], 0u8..4)
        .prop_map(|(net, as_linear, by_hand, passes, step, later)| StepCase { net: fix_layers(net), as_linear, by_hand, passes, step, later })
        .boxed()
}
fn step_deep(_: Tier) -> BoxedStrategy<StepCase> {
    (net_deep(5..=16), any::<bool>(), 1u8..3, prop_oneof![4 => 1i16..40, 1 => -20i16..20], 0u8..3)
        .prop_map(|(net, by_hand, passes, step, later)| StepCase { net, as_linear: false, by_hand, passes, step, later })
        .boxed()
}
fn step_check(c: &StepCase) -> Check {
    fn go<T: Fl>(c: &StepCase) -> Check {
        let n = &c.net;
        let p = n.params::<T>(0);
        let mut m: Model<T> = Model::new(n, &p, c.as_linear);
        let s = T::from_f(c.step as f64 / 64.0).to_f();
        let read = |t: &RcTensor<T>| -> Nd { Nd::new(t.shape().to_vec(), (0..t.count()).map(|i| t[&unravel(i, t.shape())].to_f()).collect()) };
        // every generation of parameters: the tensors, their values and their gradients
        let mut old: Vec<(RcTensor<T>, Nd, Option<Nd>)> = vec![];
        for gen in 0..=c.later as u64 {
            let before = m.params();
            let vals: Vec<Nd> = before.iter().map(read).collect();
            if c.by_hand {
                for (k, t) in before.iter().enumerate() {
                    for j in 0..c.passes {
                        let d = Nd::new(vals[k].shape.clone(), values::<T>(n.vseed, 31 + 100 * gen + 10 * j as u64 + 1000 * k as u64, vals[k].count()));
                        t.update_grad(rc(&d));
                    }
                }
            } else {
                for j in 0..c.passes {
                    let x = n.input::<T>(gen * 10 + j as u64);
                    let out = m.forward(rc(&x));
                    functional::dot(&out, &rc(&Nd::new(out.shape().to_vec(), values::<T>(n.vseed, 77 + j as u64, out.count())))).backward();
                }
            }
            let grads: Vec<Nd> = before.iter().enumerate().map(|(i, t)| grad_of(t).map(|g| read(&g)).ok_or(format!("no gradient on parameter {i}"))).collect::<Result<_, _>>()?;
            if vals.iter().chain(&grads).any(|x| too_big(x, 1e6)) {
                return Ok(Info::discard());
            }
            m.step(RcTensor::scalar(T::from_f(s)));
            let after = m.params();
            ensure!(after.len() == before.len(), "{} parameters after the step, {} before", after.len(), before.len());
            for (i, t) in after.iter().enumerate() {
                let want = vals[i].sub(&grads[i].map(|g| s * g, |m| s.abs() * m)).unwrap();
                expect(&format!("step {gen}: parameter {i} of {n:?}"), t, &want)?;
                ensure!(grad_of(t).is_none(), "step {gen}: the new parameter {i} has a gradient");
            }
            // the module computes with the new values
            let x = n.input::<T>(5000 + gen);
            let now = Params { w: after.iter().step_by(2).map(read).collect(), b: after.iter().skip(1).step_by(2).map(read).collect() };
            let f = forward(n, &now, &x);
            if now.list().iter().any(|x| too_big(x, 1e6)) || f.pre.iter().any(|z| too_big(z, 1e15)) {
                return Ok(Info::discard());
            }
            let out = m.forward(rc(&x));
            expect("output after the step", &out, &f.out)?;
            for (i, t) in before.into_iter().enumerate() {
                old.push((t, vals[i].clone(), Some(grads[i].clone())));
            }
            // a later pass leaves everything older alone
            out.sum().backward();
            for (i, t) in after.iter().enumerate() {
                ensure!(grad_of(t).is_some(), "no gradient on the new parameter {i}");
                t.zero_grad();
            }
            for (i, (t, v, g)) in old.iter().enumerate() {
                expect(&format!("value of replaced parameter {i} after step {gen}"), t, v)?;
                let now = grad_of(t);
                match (now, g) {
                    (Some(now), Some(g)) => {
                        let now = read(&now);
                        ensure!(now.shape == g.shape && now.data == g.data, "gradient of replaced parameter {i} changed after step {gen}: {:?}, was {:?}", now.data, g.data)
                    }
                    (a, b) => return Err(format!("gradient of replaced parameter {i}: present {} expected {}", a.is_some(), b.is_some())),
                }
            }
        }
        Ok(Info::new(c.step != 0 && old.iter().any(|o| o.1.count() > 1))
            .label(n.tied(), "shared-parameters")
            .label(c.by_hand, "by-hand")
            .label(c.later > 0, "several-steps")
            .label(c.step < 0, "negative-step")
            .label(n.bias.iter().any(|&b| b >= 3), "unusual-bias-shape"))
    }
    if c.net.real32 {
        go::<f32>(c)
    } else {
        go::<f64>(c)
    }
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TrainCase {
    net: Net,
    as_linear: bool,
    /// 0 sum |d|, 1 dot(d, d), 2 (d * d).sum(), 3 |d| scaled by a scalar
    loss: u8,
    iters: u32,
    samples: u8,
    step: u8,
    /// call backward twice per iteration (gradients accumulate)
    twice: bool,
}
fn train_with(layers: usize, rows: usize, lo: u32, hi: u32) -> BoxedStrategy<TrainCase> {
    (net_with(layers, 12, rows, false), any::<bool>(), 0u8..4, lo..=hi, 1u8..4, 1u8..30, prop_oneof![5 => Just(false), 1 => Just(true)])
        .prop_map(|(net, as_linear, loss, iters, samples, step, twice)| TrainCase { net: Net { tie: 0, ..fix_layers(net) }, as_linear, loss, iters, samples, step, twice })
        .boxed()
}
fn train_strategy(_: Tier) -> BoxedStrategy<TrainCase> {
    train_with(4, 4, 1, 10)
}
fn train_deep(_: Tier) -> BoxedStrategy<TrainCase> {
    (net_deep(5..=12), 0u8..4, 1u32..5, 1u8..3, 1u8..30, prop_oneof![5 => Just(false), 1 => Just(true)])
        .prop_map(|(net, loss, iters, samples, step, twice)| TrainCase { net: Net { tie: 0, ..net }, as_linear: false, loss, iters, samples, step, twice })
        .boxed()
}
fn train_long(t: Tier) -> BoxedStrategy<TrainCase> {
    let hi = if t == Tier::Quick { 3_000 } else { 20_000 };
    (2usize..=2)
        .prop_flat_map(move |l| train_with(l, 1, 1_500, hi))
        .prop_map(|mut c| {
            c.net.widths.iter_mut().for_each(|w| *w = (*w).min(3));
            c.net.batch = None;
            c.step = 1;
            c
        })
        .boxed()
}
fn train<T: Fl>(c: &TrainCase) -> Check {
    let n = &c.net;
    // small initial weights, so that long histories stay finite
    let shrink = |p: Params| Params {
        w: p.w.iter().map(|x| x.map(|v| T::from_f(v * 0.4).to_f(), |m| m * 0.4)).collect(),
        b: p.b.iter().map(|x| x.map(|v| T::from_f(v * 0.4).to_f(), |m| m * 0.4)).collect(),
    };
    let p0 = shrink(n.params::<T>(0));
    let mut m: Model<T> = Model::new(n, &p0, c.as_linear);
    let data: Vec<(Nd, Nd, RcTensor<T>, RcTensor<T>)> = (0..c.samples as u64)
        .map(|i| {
            let x = n.input::<T>(i);
            let mut s = x.shape.clone();
            *s.last_mut().unwrap() = *n.widths.last().unwrap();
            let y = Nd::new(s.clone(), values::<T>(n.vseed, 900 + i, count(&s)));
            let (xl, yl) = (rc(&x), rc(&y));
            (x, y, xl, yl)
        })
        .collect();
    let s = T::from_f(c.step as f64 / 512.0).to_f();
    let read = |t: &RcTensor<T>| -> Nd { Nd::new(t.shape().to_vec(), (0..t.count()).map(|i| t[&unravel(i, t.shape())].to_f()).collect()) };
    let read_all = |m: &Model<T>| -> Params {
        let p = m.params();
        Params { w: p.iter().step_by(2).map(read).collect(), b: p.iter().skip(1).step_by(2).map(read).collect() }
    };
    let kink = if T::EPS > 1e-8 { 1e-3 } else { 1e-8 };
    // the gradient that accumulates on the data, which nothing resets
    let mut input_grad: Vec<Option<Nd>> = vec![None; data.len()];
    let (mut compared, mut skipped) = (0u32, 0u32);
    let long = c.iters > 100;
    for it in 0..c.iters {
        // The reference starts each iteration from the values the library has now, so rounding does not build up; that
        // these values in turn are what the reference predicts is checked at the end of each iteration.
        let p = read_all(&m);
        let k = it as usize % data.len();
        let (x, y, xl, yl) = &data[k];
        let f = forward(n, &p, x);
        if p.list().iter().any(|x| too_big(x, 1e6)) || f.pre.iter().any(|z| too_big(z, 1e9)) {
            break;
        }
        let diff = f.out.sub(y).unwrap();
        let (lossv, gout) = match c.loss {
            0 => (diff.map(f64::abs, |m| m).sum(), diff.map(f64::signum, |_| 1.0)),
            1 | 2 => (diff.mul(&diff).unwrap().sum(), diff.map(|d| 2.0 * d, |m| 2.0 * m)),
            _ => (diff.map(|d| 0.25 * d.abs(), |m| 0.25 * m).sum(), diff.map(|d| 0.25 * d.signum(), |_| 0.25)),
        };
        let undecided = near_kink(n, &f, kink) || ((c.loss == 0 || c.loss == 3) && diff.data.iter().zip(&diff.mag).any(|(d, m)| d.abs() <= kink * m));
        // ---- the library
        let out = m.forward(xl.clone());
        let d = &out - yl;
        let loss = match c.loss {
            0 => d.abs_().sum(),
            1 => functional::dot(&d, &d),
            2 => (&d * &d).sum(),
            _ => (&RcTensor::scalar(T::from_f(0.25)) * &d.abs_()).sum(),
        };
        loss.backward();
        if c.twice {
            loss.backward();
        }
        let params = m.params();
        m.step(RcTensor::scalar(T::from_f(s)));
        if undecided {
            // the derivative convention decides: take the library's numbers, compare nothing in this iteration
            skipped += 1;
            xl.zero_grad();
            input_grad[k] = None;
            if long {
                yl.zero_grad();
            }
            continue;
        }
        compared += 1;
        // ---- comparison (in long histories: the first iterations and then every 50th)
        let full = !long || it < 5 || it % 50 == 0;
        let (gp, gx) = backprop(n, &p, &f, &gout);
        if gp.list().iter().any(|x| too_big(x, 1e15)) || too_big(&gx, 1e15) {
            break;
        }
        let times = if c.twice { 2.0 } else { 1.0 };
        let scale = |x: &Nd| x.map(|v| v * times, |m| m * times);
        let gx = scale(&gx);
        match &mut input_grad[k] {
            Some(g) => g.add_assign(&gx),
            e => *e = Some(gx),
        }
        if full {
            let what = format!("iteration {it}");
            expect(&format!("{what}: output"), &out, &f.out)?;
            let lv = read(&loss);
            ensure!(lv.count() == 1 && same_num::<T>(lv.data[0], lossv.data[0], lossv.mag[0]), "{what}: loss {:?}, expected {}", lv.data, lossv.data[0]);
            for (i, (t, g)) in params.iter().zip(gp.list()).enumerate() {
                let lg = grad_of(t).ok_or(format!("{what}: no gradient on parameter {i}"))?;
                expect(&format!("{what}: gradient of parameter {i}"), &lg, &scale(g))?;
            }
            let xg = grad_of(xl).ok_or(format!("{what}: no gradient on the input"))?;
            expect(&format!("{what}: gradient accumulated on the input"), &xg, input_grad[k].as_ref().unwrap())?;
        }
        let mut worst = Ok(());
        for (i, ((t, g), v)) in m.params().iter().zip(gp.list()).zip(p.list()).enumerate() {
            let want = v.sub(&scale(g).map(|g| s * g, |m| s * m)).unwrap();
            let r = expect(&format!("iteration {it}: updated parameter {i}"), t, &want);
            if r.is_err() {
                worst = r;
            }
        }
        worst?;
    }
    // a fresh network built from the current values behaves like the trained one
    let p = read_all(&m);
    let fresh: Model<T> = Model::new(n, &p, c.as_linear);
    for (x, _, xl, _) in &data {
        let (a, b) = (read(&m.forward(xl.clone())), read(&fresh.forward(rc(x))));
        ensure!(a.shape == b.shape && a.data.iter().zip(&b.data).all(|(x, y)| x == y || (x.is_nan() && y.is_nan())), "a fresh network with the same parameters computes {:?}, the trained one {:?}", b.data, a.data);
    }
    Ok(Info::new(compared >= 2 && n.layers() >= 2)
        .label(n.batch.is_some(), "batch")
        .label(skipped > 0, "kink-iterations-skipped")
        .label(compared > 1000, "1000+iterations")
        .label(n.layers() >= 3, "3+layers"))
}
trait Abs {
    fn abs_(&self) -> Self;
}
impl<T: Fl> Abs for RcTensor<T> {
    fn abs_(&self) -> Self {
        T::unary(0, self).unwrap()
    }
}
fn train_check(c: &TrainCase) -> Check {
    if c.net.real32 {
        train::<f32>(c)
    } else {
        train::<f64>(c)
    }
}
fn train_long_check(c: &TrainCase) -> Check {
    let c = c.clone();
    // a small stack: whatever grows with the length of the history is found early
    let r = std::thread::Builder::new().stack_size(1 << 20).spawn(move || guard(|| train_check(&c))).unwrap().join();
    match r {
        Ok(Ok(x)) => x,
        Ok(Err(p)) => Err(p),
        Err(_) => Err("panicked".into()),
    }
}

/// Live heap bytes must not grow with the number of iterations.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LeakCase {
    widths: Vec<usize>,
    rows: usize,
    clear_data: bool,
    vseed: u64,
}
fn leak_strategy(_: Tier) -> BoxedStrategy<LeakCase> {
    (prop::collection::vec(1usize..4, 3), 1usize..3, any::<bool>(), any::<u64>()).prop_map(|(widths, rows, clear_data, vseed)| LeakCase { widths, rows, clear_data, vseed }).boxed()
}
fn leak_check(c: &LeakCase) -> Check {
    let n = Net { real32: false, widths: c.widths.clone(), acts: vec![Act::Tanh, Act::None], bias: vec![0, 1], batch: None, rows: c.rows, vseed: c.vseed, tie: 0 };
    let mut m: Model<f64> = Model::new(&n, &n.params::<f64>(0), false);
    let x: RcTensor<f64> = rc(&n.input::<f64>(0));
    let y: RcTensor<f64> = RcTensor::new_with_filler(vec![c.rows, *c.widths.last().unwrap()], 0.25);
    let mut it = |k: usize| {
        for _ in 0..k {
            let d = &m.forward(x.clone()) - &y;
            functional::dot(&d, &d).backward();
            m.step(RcTensor::scalar(1e-4));
            if c.clear_data {
                x.zero_grad();
                y.zero_grad();
            }
        }
    };
    // the heap settles (thread pools, queues); afterwards it must not keep growing by something per iteration
    it(300);
    let mut low = vec![];
    for _ in 0..5 {
        it(400);
        low.push(crate::alloc::live());
    }
    // one retained small tensor per iteration would be > 100 bytes, i.e. > 40000 bytes per block
    let growth: Vec<i64> = low.windows(2).map(|w| w[1] - w[0]).collect();
    ensure!(growth.iter().any(|&g| g < 20_000), "live heap grows with every 400 iterations: {growth:?} bytes");
    Ok(Info::new(true))
}

// ------------------------------------------------------------------ C17: layers and optimizer

/// Forward passes, parameter lists, replacements and steps of a module leave what they read as it was.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FrozenCase {
    net: Net,
    as_linear: bool,
    /// which tensors carry a gradient beforehand
    grads: u16,
    /// 0 forward, 1 forward twice, 2 list parameters, 3 replace parameters, 4 step, 5 backward
    cmds: Vec<u8>,
}
fn frozen_strategy(_: Tier) -> BoxedStrategy<FrozenCase> {
    (net_with(4, 12, 4, false), any::<bool>(), any::<u16>(), prop::collection::vec(0u8..6, 1..8))
        .prop_map(|(net, as_linear, grads, cmds)| FrozenCase { net: fix_layers(net), as_linear, grads, cmds })
        .boxed()
}
fn frozen_check(c: &FrozenCase) -> Check {
    fn go<T: Fl>(c: &FrozenCase) -> Check {
        use crate::prog::{changed, print, Print};
        let n = &c.net;
        let mut m: Model<T> = Model::new(n, &n.params::<T>(0), c.as_linear);
        let x: RcTensor<T> = rc(&n.input::<T>(0));
        let hand = |t: &RcTensor<T>, salt: u64| {
            let s = t.shape().to_vec();
            t.update_grad(rc(&Nd::new(s.clone(), values::<T>(n.vseed, salt, count(&s)))));
        };
        // every tensor that ever was a parameter, an input or an output, and what it looked like
        let mut seen: Vec<(String, Lib<T>, Print)> = vec![];
        let add = |seen: &mut Vec<(String, Lib<T>, Print)>, name: String, t: &RcTensor<T>| {
            let l = Lib::Rc(t.clone());
            let p = print(&l);
            seen.push((name, l, p));
        };
        if c.grads & 1 == 1 {
            hand(&x, 50);
        }
        add(&mut seen, "the input".into(), &x);
        for (i, t) in m.params().iter().enumerate() {
            if c.grads >> (1 + i % 15) & 1 == 1 {
                hand(t, 60 + i as u64);
            }
        }
        for (i, t) in m.params().iter().enumerate() {
            add(&mut seen, format!("parameter {i}"), t);
        }
        let (mut steps, mut forwards) = (0, 0);
        for (k, cmd) in c.cmds.iter().enumerate() {
            // whether stored gradients may change
            let mut grads_fixed = true;
            let what = match cmd {
                0 | 1 => {
                    let out = m.forward(x.clone());
                    forwards += 1;
                    if *cmd == 1 {
                        let again = m.forward(x.clone());
                        let (a, b) = (print(&Lib::Rc(out.clone())), print(&Lib::Rc(again)));
                        ensure!(changed(&a, &b, true).is_none(), "step {k}: two forward passes in a row give {a:?} and {b:?}");
                    }
                    ensure!(grad_of(&out).is_none(), "step {k}: the output of a forward pass has a gradient");
                    add(&mut seen, format!("output {k}"), &out);
                    "a forward pass"
                }
                2 => {
                    let _ = m.params();
                    let _ = format!("{m:?}");
                    "listing the parameters"
                }
                3 => {
                    let fresh = n.tensors::<T>(&n.params::<T>(100 + k as u64));
                    for (i, t) in fresh.iter().enumerate() {
                        if c.grads >> (i % 16) & 1 == 1 && grad_of(t).is_none() {
                            hand(t, 70 + i as u64);
                        }
                    }
                    for (i, t) in fresh.iter().enumerate() {
                        add(&mut seen, format!("new parameter {i} of step {k}"), t);
                    }
                    m.update(fresh);
                    "replacing the parameters"
                }
                4 => {
                    // an optimizer step needs gradients
                    let params = m.params();
                    for (i, t) in params.iter().enumerate() {
                        if grad_of(t).is_none() {
                            hand(t, 80 + i as u64);
                        }
                    }
                    for (_, l, p) in seen.iter_mut() {
                        *p = print(l);
                    }
                    m.step(RcTensor::scalar(T::from_f(0.125)));
                    for (i, t) in m.params().iter().enumerate() {
                        add(&mut seen, format!("parameter {i} after step {k}"), t);
                    }
                    steps += 1;
                    "an optimizer step"
                }
                _ => {
                    grads_fixed = false;
                    let out = m.forward(x.clone());
                    out.sum().backward();
                    add(&mut seen, format!("output {k}"), &out);
                    "a forward and backward pass"
                }
            };
            for (name, l, p) in seen.iter_mut() {
                let now = print(l);
                if let Some(d) = changed(p, &now, grads_fixed) {
                    return Err(format!("{what} (command {k} of {:?}) changed {name} of {n:?}: {d}", c.cmds));
                }
                *p = now;
            }
        }
        Ok(Info::new(forwards > 0 && c.grads != 0).label(steps > 0, "optimizer-step").label(c.grads & 1 == 1, "input-with-gradient").label(n.tied(), "shared-parameters"))
    }
    if c.net.real32 {
        go::<f32>(c)
    } else {
        go::<f64>(c)
    }
}
pub fn frozen() -> Box<dyn Suite> {
    Box::new(S { name: "layers", rule: "at least one forward pass with gradients already stored somewhere", cases: (12_000, 300_000), strategy: frozen_strategy, check: frozen_check })
}

// ------------------------------------------------------------------ C18: layers and optimizer

/// Inputs, parameter lists and steps that do not fit a module are refused, and leave it as it was.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MisfitCase {
    net: Net,
    as_linear: bool,
    /// which tensors carry a gradient beforehand
    grads: u16,
    /// 0 input of a wrong width, 1 input of a wrong rank, 2 step without a gradient, 3 list too short, 4 list too long,
    /// 5 step size of a wrong shape, 6 layers that do not fit, 7 a bias that does not fit
    call: u8,
    at: u16,
    by: u8,
}
fn misfit_strategy(_: Tier) -> BoxedStrategy<MisfitCase> {
    (prop_oneof![4 => net_with(4, 12, 4, false), 1 => net_deep(0..=8)], any::<bool>(), any::<u16>(), 0u8..8, any::<u16>(), any::<u8>())
        .prop_map(|(net, as_linear, grads, call, at, by)| MisfitCase { net: fix_layers(net), as_linear, grads, call, at, by })
        .boxed()
}
fn misfit_check(c: &MisfitCase) -> Check {
    fn go<T: Fl>(c: &MisfitCase) -> Check {
        use crate::prog::{changed, print, Print};
        let n = &c.net;
        let (good, at, by) = (n.params::<T>(0), c.at as usize, c.by as usize);
        let fresh = |s: Vec<usize>, salt: u64| -> RcTensor<T> { rc(&Nd::new(s.clone(), values::<T>(n.vseed, salt, count(&s)))) };
        let x: RcTensor<T> = rc(&n.input::<T>(0));
        let list = n.tensors::<T>(&good);
        let used: Vec<RcTensor<T>> = match c.call {
            6 | 7 if n.layers() == 0 => return Ok(Info::discard()),
            6 => {
                let mut l = list.clone();
                let k = 2 * (at % n.layers());
                let mut s = l[k].shape().to_vec();
                s[0] = if s[0] > 1 && by % 2 == 0 { s[0] - 1 } else { s[0] + 1 + by / 64 };
                l[k] = fresh(s, 900);
                l
            }
            7 => {
                let mut l = list.clone();
                let k = at % n.layers();
                let w = n.widths[k + 1];
                // a width of 0 is matched by 1, a width of 1 by everything
                if w < 2 {
                    return Ok(Info::discard());
                }
                let bad = if w > 2 && by % 2 == 0 { w - 1 } else { w + 1 };
                l[2 * k + 1] = fresh(if by % 4 < 2 { vec![bad] } else { vec![1, bad] }, 901);
                l
            }
            _ => list.clone(),
        };
        let l = |i: usize| Linear::new(used[2 * i].clone(), used[2 * i + 1].clone(), n.acts[i].lib::<T>());
        let mut m: Model<T> = Model::with(n, c.as_linear, &l);
        let hand = |t: &RcTensor<T>, salt: u64| t.update_grad(fresh(t.shape().to_vec(), salt));
        if c.grads & 1 == 1 {
            hand(&x, 50);
        }
        for (i, t) in used.iter().enumerate() {
            let skip = c.call == 2 && i == at % used.len();
            if (c.grads >> (1 + i % 15) & 1 == 1 || (c.call == 2 && !skip) || c.call == 5) && grad_of(t).is_none() && !skip {
                hand(t, 60 + i as u64);
            }
        }
        let mut seen: Vec<(String, Lib<T>, Print)> = vec![];
        let mut add = |name: String, t: &RcTensor<T>| {
            let l = Lib::Rc(t.clone());
            let p = print(&l);
            seen.push((name, l, p));
        };
        add("the input".into(), &x);
        used.iter().enumerate().for_each(|(i, t)| add(format!("parameter {i}"), t));
        let (is_refused, what) = match c.call {
            0 | 1 => {
                let mut s = x.shape().to_vec();
                if c.call == 0 {
                    let last = s.last_mut().unwrap();
                    *last = if *last > 1 && by % 2 == 0 { *last - 1 } else { *last + 1 + by / 64 };
                } else {
                    s = vec![n.widths[0]];
                }
                let bad = fresh(s.clone(), 902);
                if n.layers() == 0 || Nd::new(s.clone(), vec![0.0; count(&s)]).matmul(&good.w[0]).is_some() {
                    return Ok(Info::discard());
                }
                add("the bad input".into(), &bad);
                (refused(|| m.forward(bad.clone())), format!("a forward pass with an input of shape {s:?}"))
            }
            2 => {
                // a shared parameter may have got its gradient elsewhere
                if used.iter().all(|t| grad_of(t).is_some()) {
                    return Ok(Info::discard());
                }
                (refused(|| m.step(RcTensor::scalar(T::from_f(0.5)))), format!("a step without a gradient for parameter {}", at % used.len()))
            }
            3 | 4 => {
                let mut l = n.tensors::<T>(&n.params::<T>(1));
                if c.call == 3 {
                    if l.is_empty() {
                        return Ok(Info::discard());
                    }
                    l.truncate(at % l.len());
                } else {
                    let more = [1, 1, 2, 3][by % 4];
                    (0..more).for_each(|k| l.push(fresh(vec![2], 910 + k as u64)));
                    if by % 8 >= 4 {
                        l.rotate_right(more);
                    }
                }
                l.iter().enumerate().for_each(|(i, t)| add(format!("new parameter {i}"), t));
                (refused(|| m.update(l.clone())), format!("replacing {} parameters by {}", used.len(), l.len()))
            }
            5 => {
                let s = [vec![2], vec![3], vec![2, 2], vec![1, 1, 2], vec![7, 1]][by % 5].clone();
                if used.iter().all(|t| t.shape().is_empty() || *t.shape() == s) {
                    return Ok(Info::discard());
                }
                (refused(|| m.step(fresh(s.clone(), 903))), format!("a step with a step size of shape {s:?}"))
            }
            _ => (refused(|| m.forward(x.clone())), format!("a forward pass with parameters of shapes {:?}", used.iter().map(|t| t.shape().to_vec()).collect::<Vec<_>>())),
        };
        let shape = |t: &RcTensor<T>| t.shape().to_vec();
        ensure!(is_refused, "{what} is not refused by {n:?}");
        for (name, l, p) in &seen {
            if let Some(d) = changed(p, &print(l), true) {
                return Err(format!("the refused {what} changed {name} of {n:?}: {d}"));
            }
        }
        let now = m.params();
        ensure!(now.len() == used.len(), "after the refused {what}, {n:?} has {} parameters instead of {}", now.len(), used.len());
        for (i, (a, b)) in now.iter().zip(&used).enumerate() {
            if let Some(d) = changed(&print(&Lib::Rc(b.clone())), &print(&Lib::Rc(a.clone())), true) {
                return Err(format!("the refused {what} changed parameter {i} of {n:?} (shapes {:?} and {:?}): {d}", shape(b), shape(a)));
            }
        }
        // everything still works
        if c.call >= 6 {
            m.update(list.clone());
        }
        let out = m.forward(x.clone());
        let other: Model<T> = Model::new(n, &good, c.as_linear);
        let want = other.forward(x.clone());
        if let Some(d) = changed(&print(&Lib::Rc(want.clone())), &print(&Lib::Rc(out.clone())), true) {
            return Err(format!("after the refused {what}, a forward pass of {n:?} gives another result: {d}"));
        }
        let f = forward(n, &good, &n.input::<T>(0));
        let decided = !near_kink(n, &f, if T::EPS > 1e-8 { 1e-3 } else { 1e-8 }) && !f.pre.iter().any(|z| too_big(z, 1e6));
        if decided && !n.tied() && out.shape().iter().all(|&d| d > 0) {
            let params = m.params();
            params.iter().for_each(|t| t.zero_grad());
            out.sum().backward();
            let (g, _) = backprop(n, &good, &f, &f.out.map(|_| 1.0, |_| 1.0));
            for (i, (t, g)) in params.iter().zip(g.list()).enumerate() {
                if too_big(g, 1e15) {
                    break;
                }
                let t = grad_of(t).ok_or_else(|| format!("after the refused {what}, parameter {i} of {n:?} gets no gradient"))?;
                expect(&format!("after the refused {what}: gradient of parameter {i} of {n:?}"), &t, g)?;
            }
        }
        Ok(Info::new(true)
            .label(c.call < 2, "bad-input")
            .label(c.call == 2, "missing-gradient")
            .label(c.call == 3 || c.call == 4, "parameter-list")
            .label(c.call == 5, "bad-step-size")
            .label(c.call >= 6, "layers-that-do-not-fit")
            .label(n.layers() > 1, "several-layers"))
    }
    if c.net.real32 {
        go::<f32>(c)
    } else {
        go::<f64>(c)
    }
}
pub fn misfits() -> Box<dyn Suite> {
    Box::new(S { name: "modules", rule: "the call is not allowed (allowed ones are discarded)", cases: (30_000, 750_000), strategy: misfit_strategy, check: misfit_check })
}

pub fn property_c12() -> Property {
    Property {
        id: "C12",
        shards: 8,
        suites: vec![
            Box::new(S { name: "forward-params", rule: "at least two layers of different widths", cases: (16_000, 400_000), strategy: fwd_strategy, check: fwd_check }),
            Box::new(S { name: "forward-deep", rule: "as forward-params", cases: (4_000, 100_000), strategy: fwd_deep, check: fwd_check }),
        ],
        assumptions: &["MLPs of depth 0 to 12 and 16 are instantiated"],
    }
}
pub fn property_c13() -> Property {
    Property {
        id: "C13",
        shards: 8,
        suites: vec![
            Box::new(S { name: "sgd-step", rule: "a non-zero step on a parameter with more than one element", cases: (40_000, 1_000_000), strategy: step_strategy, check: step_check }),
            Box::new(S { name: "sgd-step-deep", rule: "as sgd-step", cases: (6_000, 150_000), strategy: step_deep, check: step_check }),
        ],
        assumptions: &["cases in which parameter values or gradients exceed 1e6 are discarded"],
    }
}
pub fn property_c14() -> Property {
    Property {
        id: "C14",
        shards: 8,
        suites: vec![
            Box::new(S { name: "train", rule: "at least two layers and two fully compared iterations", cases: (18_000, 450_000), strategy: train_strategy, check: train_check }),
            Box::new(S { name: "train-deep", rule: "as train, 5 to 12 layers", cases: (2_500, 60_000), strategy: train_deep, check: train_check }),
            Box::new(S { name: "train-long", rule: "as train, 1500 to 3000 (thorough: 20000) iterations on a 1 MB stack", cases: (64, 1_600), strategy: train_long, check: train_long_check }),
            Box::new(S { name: "memory", rule: "every case (live heap bytes over 2300 iterations)", cases: (32, 800), strategy: leak_strategy, check: leak_check }),
        ],
        assumptions: &[
            "iterations in which a pre-activation or residual is within rounding of a kink (relu, abs) are run but not compared",
            "training stops when parameters exceed 1e6",
        ],
    }
}
