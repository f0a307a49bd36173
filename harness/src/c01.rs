//! C01: gradients of arbitrary expressions.
use crate::framework::*;
use crate::gens::*;
use crate::graph::*;
use crate::lib_tensor::*;
use crate::model::*;
use crate::{ensure, with_ty};
use proptest::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub leaves: Vec<Vec<usize>>,
    pub ops: Vec<OpSpec>,
    pub vseed: u64,
    pub fin: u32,
}
pub fn strategy_with(max_rank: usize, elems: usize, max_ops: usize) -> BoxedStrategy<Case> {
    let leaf = prop_oneof![
        4 => shape0(max_rank, elems),
        2 => (dim(), dim()).prop_map(|(a, b)| vec![a, b]),
        1 => (dim(), dim(), dim()).prop_map(|(a, b, c)| vec![a, b, c]),
    ]
    .prop_map(move |s| cap_shape(s, elems));
    (ty(), prop::collection::vec(leaf, 1..4), prop::collection::vec(op_spec(OPS), 1..max_ops), any::<u64>(), any::<u32>())
        .prop_map(|(ty, leaves, ops, vseed, fin)| Case { ty, leaves, ops, vseed, fin })
        .boxed()
}
fn strategy(_: Tier) -> BoxedStrategy<Case> {
    strategy_with(4, 120, 12)
}
fn strategy_big(_: Tier) -> BoxedStrategy<Case> {
    strategy_with(4, 700, 5)
}

pub fn run<T: El>(c: &Case, lim: Limits) -> Check {
    let Some((g, root)) = plan::<T>(c, lim)? else { return Ok(Info::discard()) };
    compare(&g, root)
}
fn plan<T: El>(c: &Case, lim: Limits) -> Result<Option<(Graph<T>, usize)>, String> {
    let mut g: Graph<T> = Graph::new(c.vseed, lim);
    for s in &c.leaves {
        g.leaf(s);
    }
    let mut last = 0;
    for op in &c.ops {
        if let Some(i) = g.apply(op)? {
            last = i;
        }
    }
    Ok(g.finish(last, c.fin)?.map(|root| (g, root)))
}
/// integer overflow (or, for f64-exactness of the model, 2^53) is outside the property's domain
fn limit<T: El>() -> f64 {
    match T::NAME {
        "i32" => 1e9,
        "i64" | "i128" => 4e15,
        "f32" => 1e15,
        _ => 1e100,
    }
}
fn compare<T: El>(g: &Graph<T>, root: usize) -> Check {
    let ga = g.adjoints(root);
    let mag = Graph::<T>::adjoint_mag(&ga);
    if mag > limit::<T>() {
        return Ok(Info::discard());
    }
    g.nodes[root].lib.backward();
    let mut kinks = 0;
    let mut reached_inner = 0;
    let (mut bcast, mut shared) = (false, false);
    let mut uses = vec![0; g.nodes.len()];
    for (i, n) in g.nodes.iter().enumerate() {
        let lib_grad = grad_of(&n.lib);
        match &ga[i] {
            Some(a) => {
                if n.rule != Rule::Leaf {
                    reached_inner += 1;
                }
                let Some(lg) = lib_grad else {
                    return Err(format!("node {i} ({:?}) has no gradient although the result depends on it", n.rule));
                };
                expect_grad(&format!("gradient of node {i} ({:?}, shape {:?})", n.rule, n.val.shape), &lg, a, &mut kinks)?;
                for p in n.rule.parents() {
                    uses[p] += 1;
                    if let Rule::Add(x, y) | Rule::Sub(x, y) = n.rule {
                        bcast |= g.nodes[x].val.shape != g.nodes[y].val.shape;
                    }
                }
            }
            _ if i == root => {}
            _ => ensure!(lib_grad.is_none(), "node {i} ({:?}) got a gradient although the result does not depend on it", n.rule),
        }
    }
    shared |= uses.iter().any(|&u| u > 1);
    let inner = |f: fn(&Rule) -> bool| g.nodes.iter().enumerate().any(|(i, n)| (ga[i].is_some() || i == root) && f(&n.rule));
    Ok(Info::new(reached_inner >= 2)
        .label(bcast, "broadcast")
        .label(shared, "shared-subexpression")
        .label(reached_inner >= 4, "depth4+")
        .label(inner(|r| matches!(r, Rule::Mm(..))), "matmul")
        .label(inner(|r| matches!(r, Rule::Dot(..))), "dot")
        .label(inner(|r| matches!(r, Rule::Mul(..))), "mul")
        .label(inner(|r| matches!(r, Rule::Tanh(..))), "tanh")
        .label(ga.iter().flatten().any(|x| x.count() > 32), "over-32-elements")
        .label(kinks > 0, "kink-elements-skipped"))
}
fn check(c: &Case) -> Check {
    fn go<T: El>(c: &Case) -> Check {
        run::<T>(c, Limits::default())
    }
    with_ty!(c.ty, go(c))
}
fn check_big(c: &Case) -> Check {
    fn go<T: El>(c: &Case) -> Check {
        run::<T>(c, Limits { elems: 2500, cost: 400_000.0, mag: 1e5 })
    }
    with_ty!(c.ty, go(c))
}

fn check_temporaries(c: &Case) -> Check {
    fn go<T: El>(c: &Case) -> Check {
        let Some((g, root)) = plan::<T>(c, Limits { elems: 200, ..Limits::default() })? else { return Ok(Info::discard()) };
        let ga = g.adjoints(root);
        if Graph::<T>::adjoint_mag(&ga) > limit::<T>() {
            return Ok(Info::discard());
        }
        let mut kinks = 0;
        let mut moved = 0;
        for k in 0..2 {
            moved = g.replay(root, &ga, c.vseed ^ (c.fin as u64) << 20 ^ k, &mut kinks)?.max(moved);
        }
        Ok(Info::new(moved >= 2).label(moved >= 5, "five-or-more-handed-over").label(kinks > 0, "kink-elements-skipped"))
    }
    with_ty!(c.ty, go(c))
}

/// Long chains and tensors used very often.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    ty: Ty,
    shape: Vec<usize>,
    /// 0 chain, 1 one tensor used again and again in a running sum, 2 pairwise sums of many terms, 3 chain of matrix products
    form: u8,
    len: u16,
    bits: u64,
    vseed: u64,
}
fn strategy_long(t: Tier) -> BoxedStrategy<Long> {
    let hi = if t == Tier::Quick { 320 } else { 700 };
    (ty(), shape(3, 12), 0u8..4, 20u16..hi, any::<u64>(), any::<u64>()).prop_map(|(ty, shape, form, len, bits, vseed)| Long { ty, shape, form, len, bits, vseed }).boxed()
}
fn check_long(c: &Long) -> Check {
    fn go<T: El>(c: &Long) -> Check {
        let mut g: Graph<T> = Graph::new(c.vseed, Limits { elems: 200, cost: 3e6, mag: 1e5 });
        let shape = if c.form == 3 { vec![2, 2] } else { c.shape.clone() };
        let x = g.leaf(&shape);
        let s = g.leaf(&[]);
        let h = bits(c.bits, 0, c.len as usize);
        let mut cur = x;
        let mut uses = 0;
        let mut terms = vec![];
        for &h in &h {
            let aux = (h >> 8) as u32;
            let rule = match c.form {
                0 => match h % 8 {
                    0 => Rule::Neg(cur),
                    1 | 2 if T::REAL => Rule::Tanh(cur),
                    3 if T::REAL && h & 0x100 == 0 => Rule::Abs(cur),
                    4 => Rule::Mul(s, cur),
                    5 => {
                        let w = g.leaf(&shape);
                        Rule::Sub(cur, w)
                    }
                    6 => Rule::Sub(x, cur),
                    _ => {
                        let w = g.leaf(&shape[shape.len() / 2..]);
                        Rule::Add(w, cur)
                    }
                },
                3 => {
                    let w = g.leaf(&[2, 2]);
                    if h & 3 == 0 { Rule::Mm(w, cur) } else if h & 3 == 1 && T::REAL { Rule::Tanh(cur) } else { Rule::Mm(cur, w) }
                }
                f => {
                    let t = match h % 4 {
                        0 => x,
                        1 => g.exec(Rule::Neg(x), aux)?.unwrap_or(x),
                        2 => g.exec(Rule::Mul(x, s), aux)?.unwrap_or(x),
                        _ => g.exec(Rule::Mul(x, x), aux)?.unwrap_or(x),
                    };
                    uses += 1;
                    if f == 2 {
                        terms.push(t);
                        continue;
                    }
                    if h & 0x80 == 0 { Rule::Add(cur, t) } else { Rule::Sub(cur, t) }
                }
            };
            if let Some(i) = g.exec(rule, aux)? {
                cur = i;
            }
        }
        while terms.len() > 1 {
            let next: Vec<usize> = terms.chunks(2).map(|p| if p.len() == 2 { g.exec(Rule::Add(p[0], p[1]), 0).map(|x| x.unwrap_or(p[0])) } else { Ok(p[0]) }).collect::<Result<_, String>>()?;
            terms = next;
            cur = terms[0];
        }
        let Some(root) = g.finish(cur, c.bits as u32)? else { return Ok(Info::discard()) };
        let info = compare(&g, root)?;
        let ga = g.adjoints(root);
        if Graph::<T>::adjoint_mag(&ga) <= limit::<T>() {
            g.replay(root, &ga, c.vseed, &mut 0)?;
        }
        let deep = g.nodes.len();
        Ok(Info::new(info.nontrivial && deep > 40).label(uses > 100, "used-over-100-times").label(c.form == 0 && deep > 200, "chain-over-200").label(c.form == 3, "product-chain"))
    }
    with_ty!(c.ty, go(c))
}

/// Very deep expressions, and ones with astronomically many paths from the result to a leaf.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Deep {
    real: bool,
    len: usize,
    ops: u32,
    /// of every 16 steps this many fork and join again
    forks: u8,
    /// 0: everything is let go of one after the other, 1: by two threads at once, 2: some inner results are kept
    end: u8,
    stack_kb: usize,
    elems: usize,
    vseed: u64,
}
fn strategy_deep(t: Tier) -> BoxedStrategy<Deep> {
    let hi = if t == Tier::Quick { 20_000 } else { 100_000 };
    (any::<bool>(), prop_oneof![1 => 30usize..500, 1 => 500usize..hi], 1u32..64, 0u8..17, 0u8..3, prop_oneof![Just(256usize), Just(1024)], 0usize..5, any::<u64>())
        .prop_map(|(real, len, ops, forks, end, stack_kb, elems, vseed)| Deep { real, len, ops, forks, end, stack_kb, elems, vseed })
        .boxed()
}
fn check_deep(c: &Deep) -> Check {
    fn go<T: El>(c: &Deep) -> Check {
        let n = c.elems;
        // small whole numbers: every sum on the way is exact in every element type
        let small = |salt: u64| -> Vec<f64> { bits(c.vseed, salt, n).iter().map(|b| (b % 7) as f64 - 3.0).collect() };
        let signs = |salt: u64| -> Vec<f64> { bits(c.vseed, salt, n).iter().map(|b| if b & 1 == 0 { 1.0 } else { -1.0 }).collect() };
        let t = |v: &[f64]| -> RcTensor<T> { rc(&Nd::new(vec![n], v.to_vec())) };
        let (x, m, w) = (small(1), signs(2), small(3));
        let (xl, ml, wl) = (t(&x), t(&m), t(&w));
        let zero: RcTensor<T> = RcTensor::scalar(T::zero());
        let one: RcTensor<T> = RcTensor::scalar(T::one());
        let mut val = x.clone();
        let mut cur = xl.clone();
        // per step: the derivative of the value after the step by the one before, and by x directly
        let (mut by_cur, mut by_x): (Vec<Vec<f64>>, Vec<f64>) = (vec![], vec![]);
        let mut kept: Vec<(usize, RcTensor<T>)> = vec![];
        let codes: Vec<u64> = (0..6).filter(|i| c.ops >> i & 1 == 1).collect();
        let h = bits(c.vseed, 4, c.len);
        let mut forks = 0;
        for (k, &h) in h.iter().enumerate() {
            let grown = val.iter().any(|v| v.abs() > 1000.0);
            let mut d = vec![1.0; n];
            let mut dx = 0.0;
            cur = if (h >> 32) % 16 < c.forks as u64 {
                forks += 1;
                match h % 3 {
                    0 => &(&cur + &cur) - &cur,
                    1 => &(&one * &cur) + &(&cur * &zero),
                    _ => {
                        let twice = &cur + &cur;
                        &(&twice + &twice) - &(&twice + &cur)
                    }
                }
            } else {
                let code = codes[(h as usize >> 3) % codes.len()];
                // towards zero once it has grown
                let code = if grown && matches!(code, 1 | 2) { 0 } else { code };
                match code {
                    1 | 2 => {
                        dx = if code == 1 { 1.0 } else { -1.0 };
                        val.iter_mut().zip(&x).for_each(|(v, x)| *v += dx * x);
                        if code == 1 { &cur + &xl } else { &cur - &xl }
                    }
                    3 => {
                        d = m.clone();
                        val.iter_mut().zip(&m).for_each(|(v, m)| *v *= m);
                        if h & 1 == 0 { &cur * &ml } else { &ml * &cur }
                    }
                    4 => {
                        val.iter_mut().zip(&w).for_each(|(v, w)| *v += w);
                        &cur + &wl
                    }
                    5 => {
                        val.iter_mut().zip(&w).for_each(|(v, w)| *v -= w);
                        &cur - &wl
                    }
                    _ => {
                        d = vec![-1.0; n];
                        val.iter_mut().for_each(|v| *v = -*v);
                        -&cur
                    }
                }
            };
            by_cur.push(d);
            by_x.push(dx);
            if c.end == 2 && (h >> 40) % 53 == 0 {
                kept.push((k, cur.clone()));
            }
        }
        let out = Nd::new(vec![n], val);
        expect("value of a deep expression", &cur, &out)?;
        let up = small(5);
        let root = functional::dot(&cur, &t(&up));
        root.backward();
        // backwards through the steps
        let mut g = up.clone();
        let mut gx = vec![0.0; n];
        let mut kept = kept.into_iter().rev().peekable();
        let mut keep = vec![];
        for k in (0..c.len).rev() {
            while let Some((_, l)) = kept.next_if(|(i, _)| *i == k) {
                // (the last step is the operand of the dot product itself)
                let lg = grad_of(&l).ok_or(format!("the result of step {k} has no gradient"))?;
                expect(&format!("gradient of the result of step {k} of {}", c.len), &lg, &Nd::new(vec![n], g.clone()))?;
                keep.push(l);
            }
            for e in 0..n {
                gx[e] += g[e] * by_x[k];
                g[e] *= by_cur[k][e];
            }
        }
        for e in 0..n {
            gx[e] += g[e];
        }
        let lg = grad_of(&xl).ok_or("x has no gradient")?;
        expect("gradient of the first operand", &lg, &Nd::new(vec![n], gx))?;
        if c.end == 1 {
            let other = root.clone();
            drop(cur);
            let wait = std::sync::Barrier::new(2);
            std::thread::scope(|s| {
                for r in [root, other] {
                    let wait = &wait;
                    std::thread::Builder::new()
                        .stack_size(256 << 10)
                        .spawn_scoped(s, move || {
                            wait.wait();
                            drop(r);
                        })
                        .unwrap();
                }
            });
        } else {
            drop(root);
            drop(cur);
        }
        for l in keep {
            drop(l);
        }
        Ok(Info::new(c.len > 100 && n > 0).label(forks > 40, "over-2^40-paths").label(c.len > 10_000, "over-10000-operations").label(c.end == 1, "dropped-by-two-threads").label(c.end == 2, "inner-results-kept"))
    }
    let c = c.clone();
    let r = std::thread::Builder::new()
        .stack_size(c.stack_kb << 10)
        .spawn(move || guard(|| if c.real { go::<f64>(&c) } else { go::<i64>(&c) }))
        .unwrap()
        .join();
    match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => Err(e),
        Err(_) => Err("the thread panicked".into()),
    }
}

// ------------------------------------------------------------------ one operation

/// The gradients of one operation, on larger shapes and ranks than in whole expressions, also with infinities and NaN.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Single {
    ty: Ty,
    l: Vec<usize>,
    r: Vec<usize>,
    op: u8,
    form: u8,
    special: bool,
    same: bool,
    vseed: u64,
}
fn single_of(p: BoxedStrategy<(Vec<usize>, Vec<usize>)>) -> BoxedStrategy<Single> {
    let ty = prop_oneof![4 => Just(Ty::I64), 1 => Just(Ty::I128), 3 => Just(Ty::F64), 1 => Just(Ty::F32)];
    (ty, p, 0u8..11, any::<u8>(), special(), prop_oneof![9 => Just(false), 1 => Just(true)], any::<bool>(), any::<u64>())
        .prop_map(|(ty, (mut l, mut r), op, form, special, same, swap, vseed)| {
            if swap {
                std::mem::swap(&mut l, &mut r);
            }
            Single { ty, l, r, op, form, special, same, vseed }
        })
        .boxed()
}
fn strategy_single(_: Tier) -> BoxedStrategy<Single> {
    single_of(crate::c05::derive(shape0(6, 300)))
}
fn strategy_single_large(t: Tier) -> BoxedStrategy<Single> {
    single_of(crate::c05::derive(shape_big(8, if t == Tier::Quick { 20_000 } else { 100_000 })))
}
fn check_single(c: &Single) -> Check {
    fn go<T: El>(c: &Single) -> Check {
        let op = if c.op >= 8 && !T::REAL { c.op - 6 } else { c.op };
        let ls = c.l.clone();
        let mut rs = if c.same { ls.clone() } else { c.r.clone() };
        match op {
            2 | 3 => rs = ls.clone(),
            4 if !c.same => rs = vec![],
            4 => rs = ls.clone(),
            _ => {}
        }
        let unary = op >= 6;
        // an infinite gradient through a derivative that is zero by convention or by rounding is left open
        let soft = matches!(op, 8..=10);
        let l = operand::<T>(c.special, c.vseed, 1, &ls);
        let r = if c.same { l.clone() } else { operand::<T>(c.special, c.vseed, 2, &rs) };
        let rs = r.shape.clone();
        let out_shape = match op {
            3 => vec![1],
            6 => vec![],
            _ if unary => ls.clone(),
            _ => broadcast(&ls, &rs).ok_or("harness bug: not broadcastable")?,
        };
        let w = operand::<T>(c.special && !soft, c.vseed, 3, &out_shape);
        let (x, wl): (RcTensor<T>, RcTensor<T>) = (rc(&l), rc(&w));
        let y: RcTensor<T> = if c.same { x.clone() } else { rc(&r) };
        let out = match op {
            0 | 5 => &x + &y,
            1 => &x - &y,
            2 => &x * &y,
            3 => functional::dot(&x, &y),
            4 => if c.form & 4 == 0 { &x * &y } else { &y * &x },
            6 => x.sum(),
            7 => -&x,
            code => T::unary(10 - code, &x).ok_or("harness bug: no such operation")?,
        };
        let loss = match c.form % 3 {
            0 => (&out * &wl).sum(),
            1 => functional::dot(&out, &wl),
            _ => (&wl * &out).sum(),
        };
        loss.backward();
        let wide = |w: &Nd, s: &[usize]| Nd::zeros(s).add(w).unwrap();
        let (gl, gr) = match op {
            0 | 5 => (w.unbroadcast(&ls), w.unbroadcast(&rs)),
            1 => (w.unbroadcast(&ls), w.neg().unbroadcast(&rs)),
            2 => (w.mul(&r).unwrap(), w.mul(&l).unwrap()),
            3 => {
                let w = w.reshape(vec![]);
                (w.mul(&r).unwrap(), w.mul(&l).unwrap())
            }
            4 => (w.mul(&r).unwrap(), w.mul(&l).unwrap().unbroadcast(&rs)),
            6 => (wide(&w, &ls), Nd::zeros(&rs)),
            7 => (w.neg(), Nd::zeros(&rs)),
            code => {
                let d = l.map(
                    |x| match code {
                        8 => 1.0 - x.tanh().powi(2),
                        // at the kink and for NaN it is a matter of convention
                        _ if !(x.abs() > 0.0) => f64::NAN,
                        9 => (x > 0.0) as u8 as f64,
                        _ => x.signum(),
                    },
                    |_| 1.0,
                );
                (w.mul(&d).unwrap(), Nd::zeros(&rs))
            }
        };
        let mut kinks = 0;
        let what = |side: &str| format!("gradient of the {side} operand of operation {} on {ls:?} and {rs:?}", op);
        let mut check = |side: &str, t: &RcTensor<T>, g: &Nd| -> Result<(), String> {
            let lg = grad_of(t).ok_or(format!("{}: none", what(side)))?;
            if soft {
                expect_grad(&what(side), &lg, g, &mut kinks)
            } else {
                expect(&what(side), &lg, g)
            }
        };
        if c.same && !unary {
            let mut g = gl.clone();
            g.add_assign(&gr);
            check("only", &x, &g)?;
        } else {
            check("left", &x, &gl)?;
            if !unary {
                check("right", &y, &gr)?;
            }
        }
        Ok(Info::new(l.count() > 1 && w.count() > 0)
            .label(ls != rs && !unary && l.count() > 1 && r.count() > 1, "broadcast")
            .label(c.special && T::REAL, "special-values")
            .label(l.count() == 0 || w.count() == 0, "empty")
            .label(ls.len() > 4, "rank-over-4")
            .label(l.count() > 1000, "over-1000-elements"))
    }
    with_ty!(c.ty, go(c))
}

pub fn property() -> Property {
    Property {
        id: "C01",
        shards: 8,
        suites: vec![
            Box::new(S { name: "dag", rule: "at least two computed tensors lie strictly between the leaves and the result", cases: (250_000, 6_250_000), strategy, check }),
            Box::new(S { name: "dag-large", rule: "as dag, on tensors of up to 700 elements", cases: (10_000, 250_000), strategy: strategy_big, check: check_big }),
            Box::new(S { name: "temporaries", rule: "at least two intermediate tensors are handed over by value and not kept", cases: (120_000, 3_000_000), strategy, check: check_temporaries }),
            Box::new(S { name: "long", rule: "more than 40 tensors in a chain, or one tensor used again and again", cases: (3_000, 75_000), strategy: strategy_long, check: check_long }),
            Box::new(S { name: "deep", rule: "more than 100 operations in a chain", cases: (400, 4_000), strategy: strategy_deep, check: check_deep }),
            Box::new(S { name: "single", rule: "the left operand has more than one element and the result is not empty", cases: (150_000, 3_750_000), strategy: strategy_single, check: check_single }),
            Box::new(S { name: "single-large", rule: "as single, on tensors of up to 20000 elements (thorough: 100000)", cases: (2_000, 40_000), strategy: strategy_single_large, check: check_single }),
            crate::types::gradient(),
        ],
        assumptions: &[
            "elements at a kink of abs/relu whose derivative depends on the convention are not compared",
            "integer cases whose gradient magnitudes could overflow the element type are discarded (counted)",
            "floating comparisons allow 1e-11 (f64) / 4e-5 (f32) of the summed absolute contributions",
        ],
    }
}
