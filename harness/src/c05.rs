//! C05, C06, C07: forward semantics of the element-wise operations, over every operand kind.
use crate::framework::*;
use crate::gens::*;
use crate::lib_tensor::*;
use crate::model::*;
use crate::{ensure, on, ops, with_ty};
use proptest::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bcast {
    ty: Ty,
    l: Vec<usize>,
    r: Vec<usize>,
    lk: Kind,
    rk: Kind,
    form: u32,
    vseed: u64,
    #[serde(default)]
    special: bool,
    #[serde(default)]
    alias: u8,
}
/// two shapes that broadcast, both derived from a common one
fn pair(max_rank: usize, cap: usize) -> BoxedStrategy<(Vec<usize>, Vec<usize>)> {
    derive(shape0(max_rank, cap))
}
pub fn derive(s: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<(Vec<usize>, Vec<usize>)> {
    let mask = || (prop::collection::vec(prop_oneof![3 => Just(false), 1 => Just(true)], 8), prop_oneof![3 => Just(0usize), 1 => Just(1), 1 => Just(2), 1 => Just(9)]);
    (s, mask(), mask())
        .prop_map(|(s, a, b)| {
            let f = |(ones, drop): (Vec<bool>, usize)| -> Vec<usize> {
                let t: Vec<usize> = s.iter().zip(ones.iter().cycle()).map(|(&d, &o)| if o { 1 } else { d }).collect();
                t[drop.min(t.len())..].to_vec()
            };
            let (mut x, y) = (f(a), f(b));
            // keep one of them complete most of the time
            if x.len() < s.len() && y.len() < s.len() {
                x = s.clone();
            }
            (x, y)
        })
        .boxed()
}
fn bcast_with(max_rank: usize, cap: usize) -> BoxedStrategy<Bcast> {
    bcast_of(pair(max_rank, cap))
}
fn bcast_of(pair: BoxedStrategy<(Vec<usize>, Vec<usize>)>) -> BoxedStrategy<Bcast> {
    (ty(), pair, kind(), kind(), any::<bool>(), any::<u32>(), any::<u64>(), special(), alias())
        .prop_map(|(ty, (mut l, mut r), lk, rk, swap, form, vseed, special, alias)| {
            if swap {
                std::mem::swap(&mut l, &mut r);
            }
            Bcast { ty, l, r, lk, rk, form, vseed, special, alias }
        })
        .boxed()
}
fn bcast_huge(t: Tier) -> BoxedStrategy<Bcast> {
    bcast_of(derive(shape_big(8, if t == Tier::Quick { 150_000 } else { 400_000 })))
}
fn bcast(_: Tier) -> BoxedStrategy<Bcast> {
    bcast_with(5, 200)
}
fn bcast_large(_: Tier) -> BoxedStrategy<Bcast> {
    bcast_with(6, 5000)
}
fn bcast_check(c: &Bcast) -> Check {
    fn go<T: El>(c: &Bcast) -> Check {
        let l = operand::<T>(c.special, c.vseed, 1, &c.l);
        let mut r = operand::<T>(c.special, c.vseed, 2, &c.r);
        let (mut ll, mut rl): (Lib<T>, Lib<T>) = (build(&l, &c.lk), build(&r, &c.rk));
        let alias = (1..4).contains(&c.alias) && c.l == c.r;
        if c.alias == 4 {
            (ll, rl) = siblings(&l, &mut r, c.form >> 8);
        }
        if alias {
            (ll, rl) = aliased(ll, c.alias);
            r = l.clone();
        }
        let Some(sum) = l.add(&r) else { return Err("harness bug: not broadcastable".into()) };
        let yes = on!(&ll, x => on!(&rl, y => x.broadcastable(y.shape())));
        ensure!(yes, "{:?} and {:?} are reported as not broadcastable", c.l, c.r);
        expect_lib(&format!("{:?} + {:?}", c.l, c.r), &ops::add(&ll, &rl, c.form), &sum)?;
        expect_lib(&format!("{:?} - {:?}", c.l, c.r), &ops::sub(&ll, &rl, c.form), &l.sub(&r).unwrap())?;
        Ok(Info::new(c.l != c.r && sum.count() > 1)
            .label(sum.count() == 0, "empty")
            .label(alias, "same-tensor-twice")
            .label(c.alias == 4, "two-views-of-one-tensor")
            .label(c.special && T::REAL, "special-values")
            .label(sum.count() > 1000, "over-1000-elements")
            .label(sum.shape.len() > 6, "rank-over-6")
            .label(c.l.len() != c.r.len(), "rank-differs")
            .label(c.l != sum.shape && c.r != sum.shape, "both-expanded")
            .label(ll.is_view() || rl.is_view(), "view-operand"))
    }
    with_ty!(c.ty, go(c))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pred {
    l: Vec<usize>,
    r: Vec<usize>,
    lk: Kind,
}
fn pred(_: Tier) -> BoxedStrategy<Pred> {
    let d = || prop_oneof![4 => Just(1usize), 3 => Just(2), 3 => Just(3), 1 => Just(0), 1 => Just(5)];
    let s = move || prop::collection::vec(d(), 0..6);
    let free = (s(), s());
    // equal except at one position
    let near = (s(), any::<prop::sample::Index>(), d(), 0usize..3, any::<bool>()).prop_map(|(s, at, d, drop, swap)| {
        let mut t = s.clone();
        if !t.is_empty() {
            let i = at.index(t.len());
            t[i] = d;
        }
        let t = t[drop.min(t.len())..].to_vec();
        if swap {
            (t, s)
        } else {
            (s, t)
        }
    });
    (prop_oneof![free, near], kind()).prop_map(|((l, r), lk)| Pred { l, r, lk }).boxed()
}
fn pred_check(c: &Pred) -> Check {
    let l = Nd::new(c.l.clone(), values::<i64>(1, 1, count(&c.l)));
    let r = Nd::new(c.r.clone(), values::<i64>(1, 2, count(&c.r)));
    let ll: Lib<i64> = build(&l, &c.lk);
    let want = broadcast(&c.l, &c.r).is_some();
    let got = on!(&ll, x => x.broadcastable(&c.r));
    ensure!(got == want, "broadcastable({:?}, {:?}) = {got}, the rule says {want}", c.l, c.r);
    let back = RawTensor::new(vec![0i64; count(&c.r)], c.r.clone()).broadcastable(&c.l);
    ensure!(back == want, "broadcastable({:?}, {:?}) = {back}, the rule says {want}", c.r, c.l);
    // the operation agrees with the predicate
    let rl = Lib::Rc(rc::<i64>(&r));
    match guard(|| ops::add(&ll, &rl, 0)) {
        Ok(x) => match l.add(&r) {
            Some(m) => expect_lib("sum", &x, &m)?,
            None => return Err(format!("{:?} + {:?} is not refused", c.l, c.r)),
        },
        Err(e) => ensure!(!want, "{:?} + {:?} is refused: {e}", c.l, c.r),
    }
    Ok(Info::new(c.l != c.r && !c.l.is_empty() && !c.r.is_empty()).label(!want, "incompatible"))
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mul {
    ty: Ty,
    s: Vec<usize>,
    lk: Kind,
    rk: Kind,
    form: u32,
    vseed: u64,
    #[serde(default)]
    special: bool,
    #[serde(default)]
    alias: u8,
}
fn mul_with(cap: usize) -> BoxedStrategy<Mul> {
    mul_of(shape0(5, cap))
}
fn mul_of(s: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<Mul> {
    (ty(), s, kind(), kind(), any::<u32>(), any::<u64>(), special(), alias())
        .prop_map(|(ty, s, lk, rk, form, vseed, special, alias)| Mul { ty, s, lk, rk, form, vseed, special, alias })
        .boxed()
}
fn mul_huge(t: Tier) -> BoxedStrategy<Mul> {
    mul_of(shape_big(8, if t == Tier::Quick { 150_000 } else { 400_000 }))
}
fn mul_s(_: Tier) -> BoxedStrategy<Mul> {
    mul_with(200)
}
fn mul_large(_: Tier) -> BoxedStrategy<Mul> {
    mul_with(6000)
}
fn mul_check(c: &Mul) -> Check {
    fn go<T: El>(c: &Mul) -> Check {
        let n = count(&c.s);
        let l = operand::<T>(c.special, c.vseed, 1, &c.s);
        let mut r = operand::<T>(c.special, c.vseed, 2, &c.s);
        let s = operand::<T>(c.special, c.vseed, 3, &[]);
        let (mut ll, mut rl, sl): (Lib<T>, Lib<T>, Lib<T>) = (build(&l, &c.lk), build(&r, &c.rk), build(&s, &c.rk));
        if c.alias == 4 {
            (ll, rl) = siblings(&l, &mut r, c.form >> 8);
        } else if c.alias > 0 {
            (ll, rl) = aliased(ll, c.alias);
            r = l.clone();
        }
        let f = c.form;
        expect_lib(&format!("{:?} * {:?}", c.s, c.s), &ops::mul(&ll, &rl, f), &l.mul(&r).unwrap())?;
        expect_lib("element_wise_multiplication", &ops::ew_mul(&ll, &rl), &l.mul(&r).unwrap())?;
        let scaled = l.mul(&s).unwrap();
        expect_lib(&format!("scalar * {:?}", c.s), &ops::mul(&sl, &ll, f), &scaled)?;
        expect_lib(&format!("{:?} * scalar", c.s), &ops::mul(&ll, &sl, f), &scaled)?;
        let v = T::from_f(s.data[0]);
        expect_lib("left_scalar_multiplication", &ops::scale(&ll, v, true), &scaled)?;
        expect_lib("right_scalar_multiplication", &ops::scale(&ll, v, false), &scaled)?;
        let d = l.mul(&r).unwrap().sum();
        for (what, x) in [("dot", ops::dot(&ll, &rl, f)), ("dot, other operand order", ops::dot(&rl, &ll, f + 1))] {
            let got = on!(&x, t => {
                let shape = t.shape().to_vec();
                ensure!(t.count() == 1 && count(&shape) == 1, "{what} of {:?} has shape {shape:?}", c.s);
                *t.get(&vec![0; shape.len()]).map_err(|e| format!("{what}: {e}"))?
            });
            ensure!(same_num::<T>(got.to_f(), d.data[0], d.mag[0]), "{what} of two {:?} is {got:?}, expected {}", c.s, d.data[0]);
        }
        Ok(Info::new(n > 1 && !c.s.is_empty())
            .label((1..4).contains(&c.alias), "same-tensor-twice")
            .label(c.alias == 4, "two-views-of-one-tensor")
            .label(c.special && T::REAL, "special-values")
            .label(n > 1000, "over-1000-elements")
            .label(c.s.len() > 6, "rank-over-6")
            .label(n == 0, "empty").label(ll.is_view() || rl.is_view(), "view-operand").label(c.s.is_empty(), "scalar"))
    }
    with_ty!(c.ty, go(c))
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Map {
    ty: Ty,
    s: Vec<usize>,
    k: Kind,
    code: u8,
    special: bool,
    vseed: u64,
}
fn map_with(cap: usize) -> BoxedStrategy<Map> {
    map_of(shape0(5, cap))
}
fn map_huge(t: Tier) -> BoxedStrategy<Map> {
    map_of(shape_big(8, if t == Tier::Quick { 150_000 } else { 400_000 }))
}
fn map_of(s: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<Map> {
    (ty(), s, kind(), 0u8..4, any::<bool>(), any::<u64>()).prop_map(|(ty, s, k, code, special, vseed)| Map { ty, s, k, code, special, vseed }).boxed()
}
fn map_s(_: Tier) -> BoxedStrategy<Map> {
    map_with(200)
}
fn map_large(_: Tier) -> BoxedStrategy<Map> {
    map_with(3000)
}
const SPECIAL: [f64; 16] =
    [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-310, -1e-310, 1e300, -1e300, 0.5, 20.0, -20.0, 1e-8, f64::MIN_POSITIVE];
fn map_check(c: &Map) -> Check {
    fn go<T: El>(c: &Map) -> Check {
        let n = count(&c.s);
        let mut m = Nd::new(c.s.clone(), values::<T>(c.vseed, 1, n));
        let special = c.special && T::REAL;
        let l: Lib<T> = build(&m, &c.k);
        expect_lib(&format!("negation of {:?}", c.s), &ops::neg(&l), &m.neg())?;
        let (f, g, h) = ops::fun::<T>(c.code);
        expect_lib(&format!("function {} of {:?}", c.code, c.s), &ops::map(&l, f), &m.map(g, h))?;
        let s = ops::sum(&l);
        expect_lib(&format!("sum of {:?}", c.s), &s, &m.sum())?;
        let e = on!(&s, x => x.elem());
        ensure!(same_num::<T>(e.to_f(), m.sum().data[0], m.sum().mag[0]), "elem() of the sum is {e:?}");
        if T::REAL {
            if special {
                let pick = bits(c.vseed, 9, n);
                for i in 0..n {
                    m.data[i] = T::from_f(SPECIAL[pick[i] as usize % 16]).to_f();
                    m.mag[i] = m.data[i].abs();
                }
            }
            let t: RcTensor<T> = ops::to_rc(&build::<T>(&m, &c.k));
            for (code, name) in ["abs", "relu", "tanh"].iter().enumerate() {
                let out = T::unary(code as u8, &t).unwrap();
                ensure!(out.shape() == &c.s && out.count() == n, "{name} of {:?} has shape {:?}", c.s, out.shape());
                for p in 0..n {
                    let x = m.data[p];
                    let got = out.get(&unravel(p, &c.s)).map_err(|e| format!("{name}: {e}"))?.to_f();
                    let want = match code {
                        0 => x.abs(),
                        1 => x.max(0.0),
                        _ => x.tanh(),
                    };
                    // what a rectifier makes of a NaN is its own business
                    let ok = same_num::<T>(got, want, want.abs()) || (code == 1 && x.is_nan());
                    ensure!(ok, "{name} of {x} (position {p} of {:?}) is {got}, expected {want}", c.s);
                }
            }
            if special {
                // special values reach the caller's function and the sum too
                let l: Lib<T> = build(&m, &c.k);
                let id = ops::map(&l, |x| x);
                on!(&id, x => for p in 0..n {
                    let got = x.get(&unravel(p, &c.s)).map_err(|e| e.to_string())?.to_f();
                    ensure!(got.to_bits() == m.data[p].to_bits() || (got.is_nan() && m.data[p].is_nan()), "identity of {} is {got}", m.data[p]);
                });
                let s = on!(&ops::sum(&l), x => x.elem()).to_f();
                if m.data.iter().any(|x| x.is_nan()) {
                    ensure!(s.is_nan(), "the sum of elements with a NaN is {s}");
                }
            }
        }
        Ok(Info::new(n > 1).label(n == 0, "empty").label(special, "special-values").label(l.is_view(), "view-operand"))
    }
    with_ty!(c.ty, go(c))
}

pub fn property_c05() -> Property {
    Property {
        id: "C05",
        shards: 8,
        suites: vec![
            Box::new(S { name: "broadcast", rule: "the operand shapes differ and the result has more than one element", cases: (900_000, 22_500_000), strategy: bcast, check: bcast_check }),
            Box::new(S { name: "broadcast-large", rule: "as broadcast, up to 5000 elements and rank 6", cases: (100_000, 2_500_000), strategy: bcast_large, check: bcast_check }),
            Box::new(S { name: "broadcast-huge", rule: "as broadcast, up to 150000 (thorough: 400000) elements and up to 10 dimensions", cases: (2_000, 50_000), strategy: bcast_huge, check: bcast_check }),
            crate::types::broadcast(),
            Box::new(S { name: "predicate", rule: "two different shapes, neither a scalar", cases: (600_000, 15_000_000), strategy: pred, check: pred_check }),
        ],
        assumptions: &["a dimension of size 0 is compatible with 0 and 1 and gives 0, as in numpy"],
    }
}
pub fn property_c06() -> Property {
    Property {
        id: "C06",
        shards: 8,
        suites: vec![
            Box::new(S { name: "multiply", rule: "a non-scalar shape with more than one element", cases: (700_000, 17_500_000), strategy: mul_s, check: mul_check }),
            Box::new(S { name: "multiply-large", rule: "as multiply, up to 6000 elements", cases: (60_000, 1_500_000), strategy: mul_large, check: mul_check }),
            Box::new(S { name: "multiply-huge", rule: "as multiply, up to 150000 (thorough: 400000) elements and up to 10 dimensions", cases: (800, 20_000), strategy: mul_huge, check: mul_check }),
            crate::types::multiply(),
        ],
        assumptions: &[],
    }
}
pub fn property_c07() -> Property {
    Property {
        id: "C07",
        shards: 8,
        suites: vec![
            Box::new(S { name: "map-sum", rule: "more than one element", cases: (900_000, 22_500_000), strategy: map_s, check: map_check }),
            Box::new(S { name: "map-sum-large", rule: "as map-sum, up to 3000 elements", cases: (100_000, 2_500_000), strategy: map_large, check: map_check }),
            Box::new(S { name: "map-sum-huge", rule: "as map-sum, up to 150000 (thorough: 400000) elements and up to 10 dimensions", cases: (1_500, 37_500), strategy: map_huge, check: map_check }),
            crate::types::map_sum(),
        ],
        assumptions: &["relu of NaN is not compared; sums of infinities are only checked for NaN"],
    }
}
