//! C08, C09, C10, C11: indexing, views, operations on views, construction / enumeration / equality.
use crate::framework::*;
use crate::gens::*;
use crate::lib_tensor::*;
use crate::model::*;
use crate::{ensure, on, ops, with_ty};
use proptest::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tweak {
    /// set coordinate (from the end) to: 0 dim, 1 dim+1, 2 usize::MAX, 3 usize::MAX-1, 4 2^63, 5 dim-1, 6 0, 7 2^32
    Coord(u8, u8),
    Extra(Vec<u8>),
    Drop(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdxCase {
    s: Vec<usize>,
    k: Kind,
    at: Vec<(u16, Vec<Tweak>)>,
    vseed: u64,
}
fn idx_strategy(_: Tier) -> BoxedStrategy<IdxCase> {
    // dimensions of one are what the special rules are about
    let d = || prop_oneof![4 => Just(1usize), 2 => Just(2), 2 => Just(3), 1 => Just(5), 1 => dim(), 1 => edge_dim(70)];
    let s = prop_oneof![9 => prop::collection::vec(d(), 0..6).prop_map(|s| cap_shape(s, 300)), 3 => shape0(5, 200)];
    prop_oneof![
        40 => idx_of(s.boxed(), kind()),
        1 => idx_of(empty_huge(), prop_oneof![Just(Kind::Raw), Just(Kind::Rc), Just(Kind::View { pads: vec![(0, 0)], nest: 1, reshape: 0 })].boxed()),
    ]
    .boxed()
}
fn idx_big(t: Tier) -> BoxedStrategy<IdxCase> {
    idx_of(shape_big(8, if t == Tier::Quick { 150_000 } else { 500_000 }), kind())
}
/// shapes without elements whose other dimensions are enormous
fn empty_huge() -> BoxedStrategy<Vec<usize>> {
    let d = prop_oneof![2 => Just(1usize), 2 => 2usize..5, 1 => Just(1 << 31), 1 => Just(1 << 32), 1 => Just((1 << 40) + 1), 1 => Just(usize::MAX)];
    (prop::collection::vec(d, 1..5), any::<prop::sample::Index>())
        .prop_map(|(mut s, at)| {
            let i = at.index(s.len() + 1);
            s.insert(i, 0);
            s
        })
        .boxed()
}
fn idx_of(s: BoxedStrategy<Vec<usize>>, k: BoxedStrategy<Kind>) -> BoxedStrategy<IdxCase> {
    let tweak = prop_oneof![
        4 => (0u8..5, 0u8..8).prop_map(|(a, b)| Tweak::Coord(a, b)),
        2 => prop::collection::vec(0u8..4, 1..3).prop_map(Tweak::Extra),
        2 => (1u8..4).prop_map(Tweak::Drop),
    ];
    (s, k, prop::collection::vec((any::<u16>(), prop::collection::vec(tweak, 0..4)), 1..24), any::<u64>())
        .prop_map(|(s, k, at, vseed)| IdxCase { s, k, at, vseed })
        .boxed()
}
fn locate(shape: &[usize], idx: &[usize]) -> Option<usize> {
    let r = shape.len();
    if shape.contains(&0) {
        return None;
    }
    let mut p = 0;
    for d in 0..r {
        let x = if idx.len() + d >= r {
            let x = idx[idx.len() + d - r];
            if shape[d] == 1 {
                0
            } else {
                x
            }
        } else if shape[d] == 1 {
            0
        } else {
            return None;
        };
        if x >= shape[d] {
            return None;
        }
        p = p * shape[d] + x;
    }
    Some(p)
}
fn idx_check(c: &IdxCase) -> Check {
    let n = count(&c.s);
    // all elements distinct: reading the wrong one shows
    let m = Nd::new(c.s.clone(), (0..n).map(|i| 1e6 + i as f64).collect());
    let l: Lib<i64> = build(&m, &c.k);
    let (mut bad, mut good) = (0, 0);
    for (pos, tweaks) in &c.at {
        let mut idx = if n > 0 { unravel((*pos as usize * n / 65536).min(n - 1), &c.s) } else { vec![0; c.s.len()] };
        for t in tweaks {
            match t {
                Tweak::Coord(from_end, v) => {
                    let len = idx.len();
                    if (*from_end as usize) < len {
                        let d = if (*from_end as usize) < c.s.len() { c.s[c.s.len() - 1 - *from_end as usize] } else { 1 };
                        idx[len - 1 - *from_end as usize] = [d, d.saturating_add(1), usize::MAX, usize::MAX - 1, 1 << 63, d.max(1) - 1, 0, 1 << 32][*v as usize];
                    }
                }
                Tweak::Extra(v) => {
                    let extra = v.iter().map(|&x| [0, 1, 7, usize::MAX][x as usize]);
                    idx.splice(0..0, extra);
                }
                Tweak::Drop(k) => {
                    idx.drain(..(*k as usize).min(idx.len()));
                }
            }
        }
        let got = guard(|| on!(&l, x => x.get(&idx).copied()));
        match (locate(&c.s, &idx), got) {
            (Some(p), Ok(Ok(v))) => {
                good += (!tweaks.is_empty()) as u32;
                ensure!(v as f64 == m.data[p], "index {idx:?} of shape {:?} reads {v}, expected {}", c.s, m.data[p]);
                let v = guard(|| on!(&l, x => x[&idx])).map_err(|e| format!("operator [] at {idx:?} of {:?}: {e}", c.s))?;
                ensure!(v as f64 == m.data[p], "operator [] at {idx:?} of shape {:?} reads {v}, expected {}", c.s, m.data[p]);
            }
            (None, Ok(Err(_))) => {
                bad += 1;
                ensure!(refused(|| on!(&l, x => x[&idx])), "operator [] accepts the bad index {idx:?} of shape {:?}", c.s);
            }
            (Some(p), Ok(Err(e))) => return Err(format!("index {idx:?} of shape {:?} is refused ({e}), expected element {}", c.s, m.data[p])),
            (None, Ok(Ok(v))) => return Err(format!("the bad index {idx:?} of shape {:?} reads {v}", c.s)),
            (_, Err(e)) => return Err(format!("index {idx:?} of shape {:?} panics: {e}", c.s)),
        }
    }
    if n > 0 {
        let v = on!(&l, x => *x.get_first_elem());
        ensure!(v as f64 == m.data[0], "get_first_elem of {:?} is {v}", c.s);
    }
    Ok(Info::new(bad > 0 && good > 0).label(l.is_view(), "view").label(c.s.contains(&1), "size-1-dim").label(n == 0, "empty"))
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// per dimension: two positions (fractions of the dimension)
    Slice(Vec<(u8, u8)>),
    Reshape(u32),
    Copy,
    /// a range that reaches beyond dimension `.0` by `.1`
    Beyond(u8, u8),
    /// a reshape to another number of elements
    Misfit(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ViewCase {
    s: Vec<usize>,
    kind: u8,
    steps: Vec<Step>,
    vseed: u64,
}
fn view_strategy(_: Tier) -> BoxedStrategy<ViewCase> {
    views_of(prop_oneof![3 => shape0(5, 400), 1 => shape0(3, 3000)].boxed())
}
fn view_big(t: Tier) -> BoxedStrategy<ViewCase> {
    views_of(shape_big(8, if t == Tier::Quick { 20_000 } else { 100_000 }))
}
fn views_of(big: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<ViewCase> {
    let step = prop_oneof![
        5 => prop::collection::vec((any::<u8>(), any::<u8>()), 1..5).prop_map(Step::Slice),
        3 => any::<u32>().prop_map(Step::Reshape),
        1 => Just(Step::Copy),
        2 => (any::<u8>(), 0u8..4).prop_map(|(a, b)| Step::Beyond(a, b)),
        1 => any::<u16>().prop_map(Step::Misfit),
    ];
    (big, 0u8..3, prop::collection::vec(step, 1..7), any::<u64>()).prop_map(|(s, kind, steps, vseed)| ViewCase { s, kind, steps, vseed }).boxed()
}
/// a shape with the same element count, decided by `r`
fn refactor(n: usize, mut r: u32) -> Vec<usize> {
    let mut out = vec![];
    let mut n = n;
    while n > 1 && out.len() < 5 {
        let divs: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
        let d = divs[r as usize % divs.len()];
        r = r.wrapping_mul(1103515245).wrapping_add(12345) >> 1;
        out.push(d);
        n /= d;
    }
    if n != 1 || (out.is_empty() && r & 1 == 0) {
        out.push(n);
    }
    if n == 0 {
        let at = r as usize % 2;
        out.insert(at.min(out.len()), 2);
    }
    out
}
/// A shape with the wrong number of elements; the product of some of them wraps around to `n`.
fn misfit(n: usize, r: u16) -> Vec<usize> {
    let r = r as usize;
    let mut s = match r % 4 {
        0 => vec![n + 1],
        1 => vec![n.max(1) * 2, 1 + (r >> 2) % 3],
        2 if n > 0 => vec![n - 1, 1],
        _ => {
            // d * x = n modulo 2^64 for any odd d
            let d = 3 + 2 * ((r >> 2) % 40);
            let mut inv = 1usize;
            for _ in 0..6 {
                inv = inv.wrapping_mul(2usize.wrapping_sub(d.wrapping_mul(inv)));
            }
            if n == 0 || n % d == 0 {
                vec![1 << 32, n, 1 << 32, 1 << 63].into_iter().map(|x| if x == 0 { 2 } else { x }).collect()
            } else {
                vec![d, n.wrapping_mul(inv)]
            }
        }
    };
    if r & 0x400 != 0 {
        s.insert((r >> 11) % (s.len() + 1), 1);
    }
    if r & 0x800 != 0 {
        s.reverse();
    }
    s
}
fn full(what: &str, l: &Lib<i64>, m: &Nd) -> Result<(), String> {
    expect_lib(what, l, m)?;
    on!(l, x => {
        let copy = x.to_tensor();
        expect(&format!("{what}: to_tensor"), &copy, m)?;
        expect(&format!("{what}: deep_clone"), &x.deep_clone(), m)?;
        let s = x.sum();
        ensure!(s.elem() as f64 == m.sum().data[0], "{what}: sum is {:?}, expected {}", s.elem(), m.sum().data[0]);
        let idx: Vec<Vec<usize>> = x.iter_indices().collect();
        let want: Vec<Vec<usize>> = (0..m.count()).map(|p| unravel(p, &m.shape)).collect();
        ensure!(idx == want, "{what}: iter_indices over {:?} gives {idx:?}", m.shape);
    });
    if let Lib::View(v) = l {
        ensure!(*v == rc::<i64>(m), "{what}: view differs from a tensor with the same elements");
        ensure!(*v == raw::<i64>(m), "{what}: view differs from an owned tensor with the same elements");
        if m.count() > 0 {
            let mut other = m.clone();
            let n = other.count();
            for at in [n - 1, hash64(&what) as usize % n] {
                other.data[at] += 1.0;
                ensure!(*v != rc::<i64>(&other), "{what}: view equals a tensor with another element {at}");
                other.data[at] -= 1.0;
            }
        }
    }
    Ok(())
}
fn view_check(c: &ViewCase) -> Check {
    let n = count(&c.s);
    let mut m = Nd::new(c.s.clone(), (0..n).map(|i| 7.0 + i as f64).collect());
    let base: Lib<i64> = match c.kind {
        0 => Lib::Raw(raw(&m)),
        1 => Lib::Rc(rc(&m)),
        _ => build(&m, &Kind::View { pads: vec![(1, 2), (0, 1), (2, 0)], nest: 1, reshape: 0 }),
    };
    let mut l = base.clone();
    let m0 = m.clone();
    let (mut slices, mut reshapes, mut refusals) = (0, 0, 0);
    let mut trace = format!("{:?}", c.s);
    for (k, st) in c.steps.iter().enumerate() {
        match st {
            Step::Slice(f) => {
                if m.shape.is_empty() {
                    continue;
                }
                let ranges: Vec<(usize, usize)> = m
                    .shape
                    .iter()
                    .enumerate()
                    .map(|(d, &n)| {
                        let (a, b) = f[d % f.len()];
                        let (x, y) = (a as usize & 63, b as usize);
                        match a {
                            // all of it
                            0..110 => (0, n),
                            // a little off either end, so that several nested slices keep something
                            110..200 => {
                                let cut = |z: usize| if z < 4 { z.min(n / 2) } else { 0 };
                                let (lo, hi) = (cut(x & 7), cut(y & 7));
                                (lo, (n - hi).max(lo))
                            }
                            // anything
                            200..230 => {
                                let (p, q) = (x * (n + 1) / 64, y * (n + 1) / 256);
                                (p.min(q), p.max(q))
                            }
                            // one or two in the middle
                            _ => {
                                let p = y * n / 256;
                                (p, (p + 1 + (x & 1) + (x & 8) / 4).min(n))
                            }
                        }
                    })
                    .collect();
                trace += &format!(" slice{ranges:?}");
                l = ops::slice(&l, &ranges, k as u32 + c.kind as u32);
                m = m.slice(&ranges);
                slices += 1;
            }
            Step::Reshape(r) => {
                let s = refactor(m.count(), *r);
                trace += &format!(" reshape{s:?}");
                l = ops::reshape(&l, s.clone());
                m = m.reshape(s);
                reshapes += 1;
            }
            Step::Misfit(r) => {
                let s = misfit(m.count(), *r);
                if s.iter().try_fold(1usize, |n, &d| n.checked_mul(d)) != Some(m.count()) {
                    ensure!(refused(|| ops::reshape(&l, s.clone())), "{trace}: reshape to {s:?} is not refused");
                    refusals += 1;
                }
            }
            Step::Copy => {
                trace += " copy";
                l = on!(&l, x => Lib::Rc(x.to_tensor()));
            }
            Step::Beyond(d, by) => {
                if m.shape.is_empty() {
                    continue;
                }
                let d = *d as usize % m.shape.len();
                let mut ranges = ops::whole(&m.shape);
                let n = m.shape[d];
                ranges[d] = match by {
                    0 => (0, n + 1),
                    1 => (n + 1, n + 1),
                    2 => (n, n + 2),
                    _ => (n / 2, usize::MAX),
                };
                trace += &format!(" beyond{ranges:?}");
                ensure!(refused(|| ops::slice(&l, &ranges, k as u32)), "{trace}: not refused");
                ranges[d] = (n + 1, n);
                ensure!(refused(|| ops::slice(&l, &ranges, k as u32)), "{trace}: reversed range {ranges:?} is not refused");
                // one range too many, one too few
                for len in [m.shape.len() + 1, m.shape.len() - 1] {
                    let mut ranges = ops::whole(&m.shape);
                    ranges.resize(len, (0, (*by as usize) % 2));
                    ensure!(refused(|| ops::slice(&l, &ranges, k as u32)), "{trace}: {len} ranges {ranges:?} for a shape {:?} are not refused", m.shape);
                }
                refusals += 1;
            }
        }
        full(&trace, &l, &m)?;
    }
    full("the base", &base, &m0)?;
    Ok(Info::new(slices + reshapes >= 2 && m.count() > 1)
        .label(slices >= 2, "nested-slices")
        .label(slices >= 1 && reshapes >= 1, "slice-and-reshape")
        .label(refusals > 0, "refusal")
        .label(m.count() == 0, "empty"))
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OnView {
    ty: Ty,
    op: u8,
    s: Vec<usize>,
    other: u32,
    vk: Kind,
    ok: Kind,
    view_left: bool,
    vseed: u64,
    /// the other operand is a view of the same tensor
    #[serde(default)]
    sibling: bool,
}
fn onview_strategy(_: Tier) -> BoxedStrategy<OnView> {
    onview_of(prop_oneof![4 => shape(4, 150), 2 => (dim(), dim()).prop_map(|(a, b)| vec![a, b]), 1 => (dim(), dim(), dim()).prop_map(|(a, b, c)| vec![a, b, c])].boxed())
}
fn onview_big(t: Tier) -> BoxedStrategy<OnView> {
    let hi = if t == Tier::Quick { 12_000 } else { 100_000 };
    onview_of(prop_oneof![3 => shape_big(8, hi), 1 => shape_big(2, hi / 4)].boxed())
}
fn onview_of(s: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<OnView> {
    (ty(), 0u8..12, s, any::<u32>(), view_kind(), kind(), any::<bool>(), any::<u64>(), prop_oneof![5 => Just(false), 1 => Just(true)])
        .prop_map(|(ty, op, s, other, vk, ok, view_left, vseed, sibling)| OnView { ty, op, s, other, vk, ok, view_left, vseed, sibling })
        .boxed()
}
fn equal_libs<T: El>(what: &str, a: &Lib<T>, b: &Lib<T>) -> Result<(), String> {
    let dump = |l: &Lib<T>| -> Result<(Vec<usize>, Vec<f64>), String> {
        on!(l, x => {
            let s: Vec<usize> = x.shape().to_vec();
            let mut v = vec![];
            for p in 0..count(&s) {
                v.push(x.get(&unravel(p, &s)).map_err(|e| format!("{what}: {e}"))?.to_f());
            }
            Ok((s, v))
        })
    };
    let (x, y) = (dump(a)?, dump(b)?);
    ensure!(x.0 == y.0, "{what}: shape {:?} on the view, {:?} on the copy", x.0, y.0);
    for (p, (u, v)) in x.1.iter().zip(&y.1).enumerate() {
        ensure!(same_num::<T>(*u, *v, u.abs().max(v.abs()).max(1.0)), "{what}: element {p} is {u} on the view, {v} on the copy");
    }
    Ok(())
}
fn onview_check(c: &OnView) -> Check {
    fn go<T: El>(c: &OnView) -> Check {
        let n = count(&c.s);
        let m = Nd::new(c.s.clone(), values::<T>(c.vseed, 1, n));
        let mut v: Lib<T> = build(&m, &c.vk);
        let copy: Lib<T> = Lib::Rc(rc(&m));
        let o = c.other;
        // the other operand's shape
        let os: Vec<usize> = match c.op {
            0 => {
                let mut s: Vec<usize> = c.s.iter().enumerate().map(|(d, &x)| if (o >> d) & 1 == 1 { 1 } else { x }).collect();
                if o & 0x100 != 0 && !s.is_empty() {
                    s.remove(0);
                } else if o & 0x200 != 0 {
                    s.insert(0, 2);
                }
                s
            }
            2 if c.view_left => vec![],
            4 if c.s.len() == 2 || c.s.len() == 3 => {
                if c.view_left || c.s.len() == 3 {
                    vec![*c.s.last().unwrap(), 1 + (o as usize % 5)]
                } else {
                    vec![1 + (o as usize % 5), c.s[0]]
                }
            }
            4 => return Ok(Info::discard()),
            _ => c.s.clone(),
        };
        let mut om = Nd::new(os.clone(), values::<T>(c.vseed, 2, count(&os)));
        let mut other: Lib<T> = build(&om, &c.ok);
        if c.sibling {
            (v, other) = siblings(&m, &mut om, o >> 10);
        }
        let left = c.view_left || (c.op == 4 && c.s.len() == 3);
        // (operation with the view, the same with the copy)
        let both = |f: &dyn Fn(&Lib<T>, &Lib<T>) -> Lib<T>| if left { (f(&v, &other), f(&copy, &other)) } else { (f(&other, &v), f(&other, &copy)) };
        let what = format!("operation {} on a view of shape {:?} and a {os:?}", c.op, c.s);
        let (a, b) = match c.op {
            0 => {
                // an owned left operand accepts a view on its right
                let owned: Lib<T> = if c.sibling { Lib::Raw(ops::boxed_raw(&other)) } else { Lib::Raw(raw(&om)) };
                (ops::add(&owned, &v, o), ops::add(&owned, &copy, o))
            }
            1 => both(&|x, y| ops::mul(x, y, o)),
            2 => {
                let sc = Lib::Rc(RcTensor::scalar(T::from_f(3.0)));
                if o & 1 == 0 {
                    (ops::mul(&sc, &v, o), ops::mul(&sc, &copy, o))
                } else {
                    (ops::scale(&v, T::from_f(-2.0), o & 2 == 0), ops::scale(&copy, T::from_f(-2.0), o & 2 == 0))
                }
            }
            3 => both(&|x, y| ops::dot(x, y, o)),
            4 => both(&|x, y| ops::bmm(x, y, o)),
            5 => (ops::sum(&v), ops::sum(&copy)),
            6 => both(&|x, y| ops::ew_mul(x, y)),
            7 => {
                let f = ops::fun::<T>(o as u8).0;
                (ops::map(&v, f), ops::map(&copy, f))
            }
            8 => (v.clone(), copy.clone()),
            9 => {
                // a scalar view as the scalar operand of a multiplication
                let sm = Nd::new(vec![], values::<T>(c.vseed, 5, 1));
                let sv: Lib<T> = build(&sm, &c.vk);
                let sc: Lib<T> = Lib::Rc(rc(&sm));
                (ops::mul(&copy, &sv, o), ops::mul(&copy, &sc, o))
            }
            10 => {
                // a view of a view
                let r: Vec<(usize, usize)> = c.s.iter().map(|&d| (d / 3, d)).collect();
                (ops::slice(&v, &r, o), ops::slice(&copy, &r, o))
            }
            _ => {
                let s = refactor(n, o);
                (ops::reshape(&v, s.clone()), ops::reshape(&copy, s))
            }
        };
        equal_libs(&what, &a, &b)?;
        // comparison
        if let Lib::View(x) = &v {
            let same = rc::<T>(&m);
            ensure!(*x == same, "a view differs from a tensor built from its elements (shape {:?})", c.s);
            let mut d = m.clone();
            let p = o as usize % n;
            d.data[p] += 1.0;
            ensure!(*x != rc::<T>(&d), "a view of shape {:?} equals a tensor that differs at position {p}", c.s);
            ensure!(x.count() == n, "count of a view of shape {:?} is {}", c.s, x.count());
        }
        Ok(Info::new(n > 1).label(other.is_view(), "both-views").label(c.op == 4, "matmul").label(c.op == 3, "dot").label(c.op == 0, "add"))
    }
    with_ty!(c.ty, go(c))
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    ty: Ty,
    s: Vec<usize>,
    ragged: Option<(u8, u8, bool)>,
    vseed: u64,
}
fn build_strategy(_: Tier) -> BoxedStrategy<Build> {
    let nested = prop::collection::vec(prop_oneof![4 => 1usize..5, 1 => 5usize..40], 1..5).prop_map(|s| cap_shape(s, 600));
    build_of(prop_oneof![3 => nested, 1 => shape0(6, 400)].boxed())
}
fn build_big(t: Tier) -> BoxedStrategy<Build> {
    build_of(shape_big(6, if t == Tier::Quick { 150_000 } else { 500_000 }))
}
fn build_of(s: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<Build> {
    (ty(), s, prop::option::of((any::<u8>(), any::<u8>(), any::<bool>())), any::<u64>())
        .prop_map(|(ty, s, ragged, vseed)| Build { ty, s, ragged, vseed })
        .boxed()
}
fn chunk<X: Clone>(v: Vec<X>, n: usize) -> Vec<Vec<X>> {
    v.chunks(n).map(|c| c.to_vec()).collect()
}
fn build_check(c: &Build) -> Check {
    fn go<T: El>(c: &Build) -> Check {
        let n = count(&c.s);
        let m = Nd::new(c.s.clone(), values::<T>(c.vseed, 1, n));
        let flat: Vec<T> = conv(&m.data);
        let s = &c.s;
        expect("RawTensor::new", &RawTensor::new(flat.clone(), s.clone()), &m)?;
        let t = RcTensor::new(flat.clone(), s.clone());
        expect("RcTensor::new", &t, &m)?;
        for delta in [1isize, -1, 7] {
            let len = (n as isize + delta).max(0) as usize;
            if len != n {
                let bad: Vec<T> = (0..len).map(|_| T::one()).collect();
                ensure!(refused(|| RawTensor::new(bad.clone(), s.clone())), "RawTensor::new accepts {len} elements for shape {s:?}");
                ensure!(refused(|| RcTensor::new(bad.clone(), s.clone())), "RcTensor::new accepts {len} elements for shape {s:?}");
            }
        }
        // as many elements as the product of the shape modulo 2^64
        let w = misfit(n, (c.vseed as u16) | 3);
        if w.iter().try_fold(1usize, |n, &d| n.checked_mul(d)).is_none() {
            ensure!(refused(|| RawTensor::new(flat.clone(), w.clone())), "RawTensor::new accepts {n} elements for shape {w:?}");
            ensure!(refused(|| RcTensor::new(flat.clone(), w.clone())), "RcTensor::new accepts {n} elements for shape {w:?}");
            ensure!(refused(|| RawTensor::new_with_filler(w.clone(), T::one())), "RawTensor::new_with_filler accepts shape {w:?}");
            ensure!(refused(|| RcTensor::new_with_filler(w.clone(), T::one())), "RcTensor::new_with_filler accepts shape {w:?}");
        }
        let f = Nd::new(s.clone(), vec![T::from_f(-3.0).to_f(); n]);
        expect("RawTensor::new_with_filler", &RawTensor::new_with_filler(s.clone(), T::from_f(-3.0)), &f)?;
        expect("RcTensor::new_with_filler", &RcTensor::new_with_filler(s.clone(), T::from_f(-3.0)), &f)?;
        let sc = Nd::scalar(T::from_f(5.0).to_f());
        expect("RawTensor::scalar", &RawTensor::scalar(T::from_f(5.0)), &sc)?;
        expect("RcTensor::scalar", &RcTensor::scalar(T::from_f(5.0)), &sc)?;
        expect("RawTensor::from(scalar)", &<RawTensor<T> as From<T>>::from(T::from_f(5.0)), &sc)?;
        expect("RcTensor::from(scalar)", &<RcTensor<T> as From<T>>::from(T::from_f(5.0)), &sc)?;
        ensure!(RawTensor::scalar(T::one()).is_scalar() && RcTensor::scalar(T::one()).is_scalar(), "a scalar is not reported as one");
        ensure!(t.is_scalar() == s.is_empty(), "is_scalar of shape {s:?} is {}", t.is_scalar());
        if n < 500 {
            ensure!(format!("{t}") == format!("{flat:?}"), "a tensor of {flat:?} is shown as {t}");
        }
        let raw = RawTensor::new(flat.clone(), s.clone());
        ensure!(raw.is_scalar() == s.is_empty(), "is_scalar of a RawTensor of shape {s:?} is {}", raw.is_scalar());

        let mut it = t.iter_indices();
        let idx: Vec<Vec<usize>> = it.by_ref().collect();
        let want: Vec<Vec<usize>> = (0..n).map(|p| unravel(p, s)).collect();
        ensure!(idx == want, "iter_indices over {s:?} gives {idx:?}");
        ensure!(it.next().is_none() && it.next().is_none(), "iter_indices over {s:?} goes on after its end");

        // nested lists
        let mut ragged_tested = false;
        // without elements: as deep as the nesting can be seen
        if n == 0 && s.last() == Some(&0) && s.iter().filter(|&&d| d == 0).count() == 1 && s.len() <= 4 {
            let none = Vec::<T>::new();
            macro_rules! hollow {
                ($v:expr) => {{
                    let v = $v;
                    expect("RawTensor::from(lists without elements)", &RawTensor::from(v.clone()), &m)?;
                    expect("RcTensor::from(lists without elements)", &RcTensor::from(v), &m)?;
                }};
            }
            match s[..] {
                [_] => {
                    hollow!(none);
                    expect("RawTensor::from(array without elements)", &RawTensor::from([T::one(); 0]), &m)?;
                    expect("RcTensor::from(array without elements)", &RcTensor::from([T::one(); 0]), &m)?;
                }
                [a, _] => hollow!(vec![none; a]),
                [a, b, _] => hollow!(vec![vec![none; b]; a]),
                [a, b, c, _] => hollow!(vec![vec![vec![none; c]; b]; a]),
                _ => {}
            }
        }
        if n > 0 && (1..=4).contains(&s.len()) {
            let ok = |r: RawTensor<T>, q: RcTensor<T>| -> Result<(), String> {
                expect("RawTensor::from(nested list)", &r, &m)?;
                expect("RcTensor::from(nested list)", &q, &m)
            };
            // where to break the nesting: which list at which position loses or gains an element
            let brk = c.ragged;
            macro_rules! both {
                ($v:expr) => {{
                    let v = $v;
                    ok(RawTensor::from(v.clone()), RcTensor::from(v.clone()))?;
                }};
            }
            macro_rules! bad {
                ($v:expr) => {{
                    let v = $v;
                    let w = v.clone();
                    ensure!(refused(|| RawTensor::<T>::from(v)), "a ragged nesting is accepted (shape {s:?}, broken at {brk:?})");
                    ensure!(refused(|| RcTensor::<T>::from(w)), "a ragged nesting is accepted (shape {s:?}, broken at {brk:?})");
                    ragged_tested = true;
                }};
            }
            // grow or shrink one row, perhaps to nothing
            fn tweak<X: Clone>(r: &mut Vec<X>, grow: bool) {
                if grow {
                    let x = r[0].clone();
                    r.push(x);
                } else {
                    r.pop();
                }
            }
            match s.len() {
                1 => both!(flat.clone()),
                2 => {
                    let mut v = chunk(flat.clone(), s[1]);
                    both!(v.clone());
                    if let (Some((a, _, g)), true) = (brk, s[0] > 1) {
                        let i = a as usize % s[0];
                        tweak(&mut v[i], g);
                        bad!(v);
                    }
                }
                3 => {
                    let mut v = chunk(chunk(flat.clone(), s[2]), s[1]);
                    both!(v.clone());
                    // one item nested differently although it holds as many elements
                    if let (Some((a, _, _)), true) = (brk, s[0] > 1 && s[1] * s[2] > 1) {
                        let (i, n) = (a as usize % s[0], s[1] * s[2]);
                        let mut w = v.clone();
                        let other = if s[2] == 1 || s[1] != 1 && s[1] != s[2] { s[1] } else { 1 };
                        w[i] = chunk(v[i].concat(), other);
                        ensure!(w[i].len() * other == n && other != s[2], "harness bug");
                        bad!(w);
                    }
                    if let Some((a, b, g)) = brk {
                        let i = a as usize % s[0];
                        let j = (b as usize / 2) % s[1];
                        if b % 2 == 0 && s[0] > 1 {
                            tweak(&mut v[i], g);
                            bad!(v);
                        } else if b % 2 == 1 && s[0] * s[1] > 1 {
                            tweak(&mut v[i][j], g);
                            bad!(v);
                        }
                    }
                }
                _ => {
                    let mut v = chunk(chunk(chunk(flat.clone(), s[3]), s[2]), s[1]);
                    both!(v.clone());
                    if let (Some((a, b, _)), true) = (brk, s[0] > 1 && s[1] != s[2]) {
                        let i = a as usize % s[0];
                        let mut w = v.clone();
                        w[i] = chunk(v[i].concat(), s[1]);
                        bad!(w);
                        // all sublists of one item
                        if s[2] != s[3] {
                            let (i, j) = (a as usize % s[0], b as usize % s[1]);
                            let mut w = v.clone();
                            w[i][j] = chunk(v[i][j].concat(), s[2]);
                            bad!(w);
                        }
                    }
                    if let Some((a, b, g)) = brk {
                        let (i, j, k) = (a as usize % s[0], (b as usize / 3) % s[1], (a as usize / 7) % s[2]);
                        if b % 3 == 0 && s[0] > 1 {
                            tweak(&mut v[i], g);
                            bad!(v);
                        } else if b % 3 == 1 && s[0] * s[1] > 1 {
                            tweak(&mut v[i][j], g);
                            bad!(v);
                        } else if b % 3 == 2 && s[0] * s[1] * s[2] > 1 {
                            tweak(&mut v[i][j][k], g);
                            bad!(v);
                        }
                    }
                }
            }
            // arrays of fixed size
            let x = |i: usize| flat[i % n];
            let a1 = [x(0), x(1), x(2)];
            let d = |v: Vec<T>| v.into_iter().map(|e| e.to_f()).collect::<Vec<f64>>();
            expect("from([T; 3])", &RcTensor::from(a1), &Nd::new(vec![3], d(a1.to_vec())))?;
            let a2 = [[x(0), x(1), x(2)], [x(3), x(4), x(5)]];
            expect("from([[T; 3]; 2])", &RcTensor::from(a2), &Nd::new(vec![2, 3], d(a2.concat())))?;
            let a3 = [[[x(0), x(1)]], [[x(2), x(3)]], [[x(4), x(5)]]];
            let f3: Vec<T> = a3.iter().flat_map(|p| p.iter().flatten().copied()).collect();
            expect("from([[[T; 2]; 1]; 3])", &RawTensor::from(a3), &Nd::new(vec![3, 1, 2], d(f3)))?;
            let mixed = vec![[x(0), x(1)], [x(2), x(3)], [x(4), x(5)]];
            expect("from(Vec<[T; 2]>)", &RcTensor::from(mixed.clone()), &Nd::new(vec![3, 2], d(mixed.concat())))?;
        }
        Ok(Info::new(n > 1 && s.len() > 1).label(ragged_tested, "ragged").label(n == 0, "empty"))
    }
    match c.ty {
        Ty::I64 => go::<i64>(c),
        Ty::I32 => go::<i32>(c),
        Ty::I128 => go::<i128>(c),
        Ty::F64 => go::<f64>(c),
        Ty::F32 => go::<f32>(c),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Eq {
    s: Vec<usize>,
    /// 0 equal, 1 one element differs, 2 same elements under another shape, 3 one has a NaN, 4 same prefix but longer,
    /// 5 zeros of different signs, 6 two elements swapped, 7 several elements differ
    how: u8,
    at: u32,
    lk: Kind,
    rk: Kind,
    history: u8,
    vseed: u64,
    /// both are views of one tensor
    #[serde(default)]
    siblings: Option<u32>,
}
fn eq_strategy(_: Tier) -> BoxedStrategy<Eq> {
    eq_of(shape0(5, 200))
}
fn eq_big(t: Tier) -> BoxedStrategy<Eq> {
    eq_of(shape_big(7, if t == Tier::Quick { 150_000 } else { 500_000 }))
}
fn eq_of(s: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<Eq> {
    (s, 0u8..8, any::<u32>(), kind(), kind(), 0u8..8, any::<u64>(), prop_oneof![7 => Just(None), 1 => any::<u32>().prop_map(Some)])
        .prop_map(|(s, how, at, lk, rk, history, vseed, siblings)| Eq { s, how, at, lk, rk, history, vseed, siblings })
        .boxed()
}
fn eq_check(c: &Eq) -> Check {
    let n = count(&c.s);
    let l = Nd::new(c.s.clone(), values::<f64>(c.vseed, 1, n));
    let mut l2 = l.clone();
    let mut r = l.clone();
    let mut want = true;
    match c.how {
        1 if n > 0 => {
            let (p, x) = (c.at as usize % n, &mut r.data);
            let v = x[p];
            x[p] = match c.vseed % 8 {
                0 | 1 => v + 0.5,
                // the next number
                2 | 3 => f64::from_bits(v.to_bits() + 1),
                4 => v + v.abs() * 1e-9 + 1e-300,
                5 => f64::INFINITY,
                6 if v != 0.0 => -v,
                _ => v + 1e300,
            };
            want = false;
        }
        5 if n > 0 => {
            let p = c.at as usize % n;
            l2.data[p] = 0.0;
            r.data[p] = -0.0;
        }
        6 if n > 1 => {
            let (p, q) = (c.at as usize % n, (c.at as usize / n + 1 + c.at as usize) % n);
            r.data.swap(p, q);
            want = r.data == l.data;
        }
        7 if n > 0 => {
            for k in 0..1 + c.at as usize % 3 {
                let p = hash64(&(c.at, k)) as usize % n;
                r.data[p] += if k & 1 == 0 { 1.0 } else { -1.0 };
            }
            want = r.data == l.data;
        }
        2 => {
            let s = match c.at % 4 {
                0 => [&[1], &c.s[..]].concat(),
                1 => [&c.s[..], &[1]].concat(),
                2 => c.s.iter().rev().cloned().collect(),
                _ => refactor(n, c.at >> 3),
            };
            want = s == c.s;
            r = r.reshape(s);
        }
        3 if n > 0 => {
            let p = c.at as usize % n;
            l2.data[p] = f64::NAN;
            r.data[p] = f64::NAN;
            want = false;
        }
        4 if !c.s.is_empty() => {
            let mut s = c.s.clone();
            s[0] += 1;
            let mut d = r.data.clone();
            d.resize(count(&s), 1.0);
            want = false;
            r = Nd::new(s, d);
            if r.data.len() == n {
                // an empty trailing dimension: only the shape differs
                r.mag = vec![];
                r = Nd::new(r.shape, vec![]);
            }
        }
        _ => {}
    }
    let (ll, rl): (Lib<f64>, Lib<f64>) = match c.siblings {
        Some(form) => siblings(&l2, &mut r, form),
        None => (build(&l2, &c.lk), build(&r, &c.rk)),
    };
    if c.siblings.is_some() {
        // one of the forms changes the right one
        want = l2.shape == r.shape && l2.data == r.data;
    }
    // gradients and history must not matter
    let ll = match (ll, c.history & 3) {
        (Lib::Rc(t), 1) => {
            t.update_grad(rc(&l));
            Lib::Rc(t)
        }
        (Lib::Rc(t), 2) if n > 0 => Lib::Rc(&t + &RcTensor::scalar(0.0)),
        (Lib::Rc(t), 3) => Lib::Rc(t.deep_clone()),
        (x, _) => x,
    };
    if let (Lib::Rc(t), 4..) = (&rl, c.history) {
        t.update_grad(rc(&r.map(|_| 2.0, |_| 2.0)));
    }
    let got = match (&ll, &rl) {
        (Lib::Raw(a), Lib::Raw(b)) => a == b,
        (Lib::Rc(a), Lib::Rc(b)) => a == b,
        (Lib::View(a), _) => on!(&rl, b => a == b),
        (_, Lib::View(b)) => on!(&ll, a => b == a),
        (Lib::Raw(a), Lib::Rc(b)) => *a == **b,
        (Lib::Rc(a), Lib::Raw(b)) => **a == *b,
    };
    ensure!(got == want, "comparing shape {:?} with {:?} (mode {}) gives {got}, expected {want}", l2.shape, r.shape, c.how);
    // a not-a-number is unequal to everything, so a value that holds one is unequal even to itself
    let own = !l2.data.iter().any(|x| x.is_nan());
    let same = match &ll {
        Lib::Raw(a) => a == a,
        Lib::Rc(a) => *a == a.clone(),
        Lib::View(a) => *a == a.clone(),
    };
    ensure!(same == own, "comparing a value of shape {:?} with itself (mode {}) gives {same}, expected {own}", l2.shape, c.how);
    Ok(Info::new(n > 1).label(want, "equal").label(!want, "unequal").label(ll.is_view() || rl.is_view(), "view"))
}

pub fn property_c08() -> Property {
    Property {
        id: "C08",
        shards: 8,
        suites: vec![Box::new(S { name: "index", rule: "at least one refused and one accepted unusual index", cases: (1_000_000, 25_000_000), strategy: idx_strategy, check: idx_check }),
            Box::new(S { name: "index-large", rule: "as index, up to 150000 (thorough: 500000) elements and up to 10 dimensions", cases: (3_000, 75_000), strategy: idx_big, check: idx_check })],
        assumptions: &[],
    }
}
pub fn property_c09() -> Property {
    Property {
        id: "C09",
        shards: 8,
        suites: vec![
            Box::new(S { name: "chain", rule: "at least two slices or reshapes, with more than one element left", cases: (400_000, 10_000_000), strategy: view_strategy, check: view_check }),
            Box::new(S { name: "chain-large", rule: "as chain, up to 20000 (thorough: 100000) elements and up to 10 dimensions", cases: (2_000, 50_000), strategy: view_big, check: view_check }),
        ],
        assumptions: &[],
    }
}
pub fn property_c10() -> Property {
    Property {
        id: "C10",
        shards: 8,
        suites: vec![
            Box::new(S { name: "view-vs-copy", rule: "a view with more than one element", cases: (1_200_000, 30_000_000), strategy: onview_strategy, check: onview_check }),
            Box::new(S { name: "view-vs-copy-large", rule: "as view-vs-copy, up to 12000 (thorough: 100000) elements and up to 10 dimensions", cases: (6_000, 150_000), strategy: onview_big, check: onview_check }),
        ],
        assumptions: &["operations that do not accept views at compile time (Rc + view, negation of a view) are applied to a copy"],
    }
}
pub fn property_c11() -> Property {
    Property {
        id: "C11",
        shards: 8,
        suites: vec![
            Box::new(S { name: "construct", rule: "at least two dimensions and two elements", cases: (250_000, 6_250_000), strategy: build_strategy, check: build_check }),
            Box::new(S { name: "construct-large", rule: "as construct, up to 150000 (thorough: 500000) elements and up to 10 dimensions", cases: (1_500, 37_500), strategy: build_big, check: build_check }),
            Box::new(S { name: "equality", rule: "more than one element", cases: (1_000_000, 25_000_000), strategy: eq_strategy, check: eq_check }),
            Box::new(S { name: "equality-large", rule: "as equality, up to 150000 (thorough: 500000) elements and up to 10 dimensions", cases: (2_000, 50_000), strategy: eq_big, check: eq_check }),
        ],
        assumptions: &["empty nested lists are not constructed (their inner shape is unknown)"],
    }
}
