//! Library values of any kind (owned, shared, view) next to their model, and comparison with the model.
use crate::gens::*;
use crate::model::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};
use std::ops::Deref;

#[derive(Clone, Debug)]
pub enum Lib<T: Numeric> {
    Raw(RawTensor<T>),
    Rc(RcTensor<T>),
    View(TensorView<T>),
}
#[macro_export]
macro_rules! on {
    ($l:expr, $x:ident => $e:expr) => {
        match $l {
            $crate::lib_tensor::Lib::Raw($x) => $e,
            $crate::lib_tensor::Lib::Rc($x) => $e,
            $crate::lib_tensor::Lib::View($x) => $e,
        }
    };
}

pub fn same_num<T: El>(lib: f64, model: f64, mag: f64) -> bool {
    if lib == model || (lib.is_nan() && model.is_nan()) {
        return true;
    }
    T::EPS > 0.0 && (lib - model).abs() <= T::EPS * (mag + 1e-30)
}

/// Shape, element count and every element of `t` against the model.
pub fn expect<T: El, V: TensorLike<Elem = T>>(what: &str, t: &V, m: &Nd) -> Result<(), String> {
    let shape: Vec<usize> = t.shape().deref().clone();
    if shape != m.shape {
        return Err(format!("{what}: shape {:?}, expected {:?}", shape, m.shape));
    }
    if t.count() != m.count() {
        return Err(format!("{what}: element count {}, expected {} for shape {:?}", t.count(), m.count(), shape));
    }
    for p in 0..m.count() {
        let idx = unravel(p, &m.shape);
        match t.get(&idx) {
            Ok(v) => {
                if !same_num::<T>(v.to_f(), m.data[p], m.mag[p]) {
                    return Err(format!(
                        "{what}: element {:?} of shape {:?} is {:?}, expected {:?} (type {})",
                        idx, m.shape, v, m.data[p], T::NAME
                    ));
                }
            }
            Err(e) => return Err(format!("{what}: element {:?} of shape {:?} cannot be read: {e}", idx, m.shape)),
        }
    }
    Ok(())
}
pub fn expect_lib<T: El>(what: &str, l: &Lib<T>, m: &Nd) -> Result<(), String> {
    on!(l, x => expect::<T, _>(what, x, m))
}

pub fn rc<T: El>(m: &Nd) -> RcTensor<T> {
    RcTensor::new(conv::<T>(&m.data), m.shape.clone())
}
pub fn raw<T: El>(m: &Nd) -> RawTensor<T> {
    RawTensor::new(conv::<T>(&m.data), m.shape.clone())
}

/// How an operand with given contents is to be represented.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Raw,
    Rc,
    /// (before, after) padding per dimension (cycled), number of nested slices (1..), reshape mode: 0 none, 1 slice a flat tensor then reshape, 2 reshape first and slice then
    View { pads: Vec<(u8, u8)>, nest: u8, reshape: u8 },
}
pub fn kind() -> proptest::strategy::BoxedStrategy<Kind> {
    use proptest::prelude::*;
    prop_oneof![2 => Just(Kind::Raw), 3 => Just(Kind::Rc), 5 => view_kind()].boxed()
}
pub fn view_kind() -> proptest::strategy::BoxedStrategy<Kind> {
    use proptest::prelude::*;
    (prop::collection::vec((0u8..3, 0u8..3), 1..4), 1u8..4, prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)])
        .prop_map(|(pads, nest, reshape)| Kind::View { pads, nest, reshape })
        .boxed()
}

fn pad_of(pads: &[(u8, u8)], d: usize) -> (usize, usize) {
    let p = pads[d % pads.len()];
    (p.0 as usize, p.1 as usize)
}
/// A library view whose contents are exactly `m`, cut out of a larger tensor filled with other values.
pub fn embed<T: El>(m: &Nd, pads: &[(u8, u8)], nest: u8, reshape: u8) -> TensorView<T> {
    let target = m.shape.clone();
    let inner: Nd = match reshape {
        1 => m.reshape(vec![m.count()]),
        _ => m.clone(),
    };
    let r = inner.shape.len();
    let (mut base_shape, mut ranges) = (vec![], vec![]);
    // limit the padding so that high ranks stay small
    for d in 0..r {
        let (a, b) = if d < 4 { pad_of(pads, d) } else { (0, 0) };
        base_shape.push(a + inner.shape[d] + b);
        ranges.push((a, a + inner.shape[d]));
    }
    // the padding holds values that differ from everything generated, so reading it is visible
    let n = count(&base_shape);
    let mut base = Nd::new(base_shape.clone(), (0..n).map(|i| T::from_f(1000.0 + i as f64 % 977.0).to_f()).collect());
    for p in 0..inner.count() {
        let idx: Vec<usize> = unravel(p, &inner.shape).iter().zip(&ranges).map(|(i, r)| i + r.0).collect();
        let q = ravel(&idx, &base_shape);
        base.data[q] = inner.data[p];
    }
    let sr = |v: &[(usize, usize)]| v.iter().map(|r| SliceRange::new(r.0, r.1)).collect::<Vec<_>>();
    let mut view: TensorView<T> = if reshape == 2 {
        // a flat base, viewed whole, reshaped, and then sliced
        let flat = base.reshape(vec![base.count()]);
        let t: RcTensor<T> = rc(&flat);
        t.view(vec![SliceRange::new(0, flat.count())]).reshape(base_shape.clone())
    } else if nest % 2 == 0 {
        raw::<T>(&base).slice(sr(&base_shape.iter().map(|&d| (0, d)).collect::<Vec<_>>()))
    } else {
        rc::<T>(&base).view(sr(&base_shape.iter().map(|&d| (0, d)).collect::<Vec<_>>()))
    };
    // approach the target ranges in `nest` steps, each relative to the previous view
    let mut cur: Vec<(usize, usize)> = base_shape.iter().map(|&d| (0, d)).collect();
    for step in 0..nest.max(1) {
        let last = step + 1 == nest.max(1);
        let next: Vec<(usize, usize)> = cur
            .iter()
            .zip(&ranges)
            .map(|(c, t)| if last { *t } else { ((c.0 + t.0).div_ceil(2).min(t.0), (c.1 + t.1) / 2) })
            .map(|(a, b)| (a, b.max(a)))
            .collect();
        let rel: Vec<(usize, usize)> = next.iter().zip(&cur).map(|(n, c)| (n.0 - c.0, n.1 - c.0)).collect();
        view = view.slice(sr(&rel));
        cur = next;
    }
    if reshape == 1 {
        view = view.reshape(target);
    }
    view
}
pub fn build<T: El>(m: &Nd, k: &Kind) -> Lib<T> {
    match k {
        Kind::Raw => Lib::Raw(raw(m)),
        Kind::Rc => Lib::Rc(rc(m)),
        Kind::View { pads, nest, reshape } => Lib::View(embed(m, pads, *nest, *reshape)),
    }
}
impl<T: El> Lib<T> {
    pub fn is_view(&self) -> bool {
        matches!(self, Lib::View(_))
    }
}

/// Infinities, not-a-number, zeros of both signs and ordinary numbers: every element type rounds and combines these alike.
pub fn special_values(seed: u64, salt: u64, n: usize) -> Vec<f64> {
    const V: [f64; 10] = [0.0, -0.0, 1.0, -1.0, 2.0, -0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 20.0];
    let b = bits(seed, salt, n + 1);
    // most arrays hold only some of them
    let (from, len) = ((b[n] >> 8) as usize % 10, 2 + (b[n] >> 16) as usize % 9);
    b[..n].iter().map(|x| V[(from + *x as usize % len) % 10]).collect()
}
/// A second operand made from the very tensor of the first: 1 the same handle, 2 a view of all of it, 3 (left a view, right its base).
pub fn aliased<T: El>(l: Lib<T>, how: u8) -> (Lib<T>, Lib<T>) {
    let t: RcTensor<T> = match &l {
        Lib::Rc(t) => t.clone(),
        _ => return (l.clone(), l),
    };
    let whole = || Lib::View(t.view(t.shape().iter().map(|&d| SliceRange::new(0, d)).collect()));
    match how {
        2 => (Lib::Rc(t.clone()), whole()),
        3 => (whole(), Lib::Rc(t.clone())),
        _ => (Lib::Rc(t.clone()), Lib::Rc(t.clone())),
    }
}
/// Two different views of one tensor, with the contents of `l` and `r` (in the overlapping form, `r` changes).
pub fn siblings<T: El>(l: &Nd, r: &mut Nd, form: u32) -> (Lib<T>, Lib<T>) {
    let all = |s: &[usize]| s.iter().map(|&d| SliceRange::new(0, d)).collect::<Vec<_>>();
    let rank = l.shape.len();
    if form % 3 == 1 && rank > 0 && r.shape == l.shape && l.shape[0] > 0 {
        // the right one starts one further along the first dimension
        let row = l.count() / l.shape[0];
        let mut s = l.shape.clone();
        s[0] += 1;
        let mut d = l.data.clone();
        d.extend_from_slice(&r.data[r.count() - row..]);
        *r = Nd::new(r.shape.clone(), d[row..].to_vec());
        let t: RcTensor<T> = rc(&Nd::new(s.clone(), d));
        let (mut a, mut b) = (all(&s), all(&s));
        a[0] = SliceRange::new(0, s[0] - 1);
        b[0] = SliceRange::new(1, s[0]);
        return (Lib::View(t.view(a)), Lib::View(t.view(b)));
    }
    if form % 3 == 2 && rank > 0 && rank == r.shape.len() {
        // one after the other along a dimension, the smaller one padded
        let at = (form as usize / 3) % rank;
        let s: Vec<usize> = (0..rank).map(|d| if d == at { l.shape[d] + r.shape[d] } else { l.shape[d].max(r.shape[d]) }).collect();
        if count(&s) <= 4 * (l.count() + r.count()) + 64 {
            let mut base = Nd::new(s.clone(), vec![77.0; count(&s)]);
            for (m, off) in [(&*l, 0), (&*r, l.shape[at])] {
                for p in 0..m.count() {
                    let mut i = unravel(p, &m.shape);
                    i[at] += off;
                    let q = ravel(&i, &s);
                    base.data[q] = m.data[p];
                }
            }
            let t: RcTensor<T> = rc(&base);
            let (a, mut b) = (all(&l.shape), all(&r.shape));
            b[at] = SliceRange::new(l.shape[at], s[at]);
            return (Lib::View(t.view(a)), Lib::View(t.view(b)));
        }
    }
    // next to each other in a flat tensor
    let (n, k) = (l.count(), r.count());
    let gap = (form as usize / 3) % 3;
    let mut d = vec![77.0; gap];
    d.extend_from_slice(&l.data);
    d.extend(vec![78.0; gap / 2]);
    d.extend_from_slice(&r.data);
    let t: RcTensor<T> = rc(&Nd::new(vec![d.len()], d));
    let from = gap + n + gap / 2;
    let a = t.view(vec![SliceRange::new(gap, gap + n)]);
    let b = t.view(vec![SliceRange::new(from, from + k)]);
    let shaped = |v: TensorView<T>, s: &Vec<usize>| if s.len() == 1 { v } else { v.reshape(s.clone()) };
    (Lib::View(shaped(a, &l.shape)), Lib::View(shaped(b, &r.shape)))
}
pub fn alias() -> impl proptest::strategy::Strategy<Value = u8> {
    use proptest::prelude::*;
    prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)]
}
pub fn special() -> impl proptest::strategy::Strategy<Value = bool> {
    use proptest::prelude::*;
    prop_oneof![7 => Just(false), 1 => Just(true)]
}
/// operand values of a case
pub fn operand<T: El>(special: bool, seed: u64, salt: u64, shape: &[usize]) -> Nd {
    let n = count(shape);
    let v = if special && T::REAL { special_values(seed, salt, n) } else { values::<T>(seed, salt, n) };
    Nd::new(shape.to_vec(), v)
}
