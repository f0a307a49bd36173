//! The remaining element types: unsigned and small integers, which cannot be negated and overflow early.
use crate::ensure;
use crate::framework::*;
use crate::gens::*;
use crate::model::*;
use proptest::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};
use std::ops::Deref;

trait Tiny: Numeric + std::panic::UnwindSafe + std::panic::RefUnwindSafe + 'static {
    /// largest value results may reach
    const MAX: f64;
    const SIGNED: bool = false;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
macro_rules! tiny {
    ($($t:ty, $max:expr, $signed:expr);*) => {$(
        impl Tiny for $t {
            const MAX: f64 = $max;
            const SIGNED: bool = $signed;
            fn of(x: f64) -> Self { x as $t }
            fn f(self) -> f64 { self as f64 }
        }
    )*};
}
tiny!(u8, 255.0, false; u32, 4e9, false; u64, 1e15, false; u128, 1e15, false; usize, 1e15, false; i8, 127.0, true);

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum T2 {
    U8,
    U32,
    U64,
    U128,
    Usize,
    I8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: T2,
    l: Vec<usize>,
    r: Vec<usize>,
    kinds: (u8, u8),
    vseed: u64,
}
fn ty2() -> impl Strategy<Value = T2> {
    proptest::sample::select(vec![T2::U8, T2::U8, T2::U32, T2::U64, T2::U128, T2::Usize, T2::I8, T2::I8])
}
macro_rules! with_tiny {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            T2::U8 => $f::<u8>($($a),*),
            T2::U32 => $f::<u32>($($a),*),
            T2::U64 => $f::<u64>($($a),*),
            T2::U128 => $f::<u128>($($a),*),
            T2::Usize => $f::<usize>($($a),*),
            T2::I8 => $f::<i8>($($a),*),
        }
    };
}
/// Values whose sums of `terms` products of two stay inside the type; wide types get large ones.
fn vals<T: Tiny>(seed: u64, salt: u64, shape: &[usize], terms: usize) -> Nd {
    let top = (T::MAX / terms.max(1) as f64).sqrt().floor().clamp(1.0, 3e6);
    let sparse = top * top * terms as f64 > T::MAX;
    let n = count(shape);
    let d = bits(seed, salt, n)
        .into_iter()
        .enumerate()
        .map(|(i, h)| {
            let u = (h >> 11) as f64 / (1u64 << 53) as f64;
            let v = (u * (top + 1.0)).floor().min(top);
            let v = if T::SIGNED && h & 1 == 1 { -v } else { v };
            // more terms than the type can count: only a few that are not zero
            if sparse && i % (terms / 100 + 1) != 0 {
                0.0
            } else {
                v
            }
        })
        .collect();
    Nd::new(shape.to_vec(), d)
}
fn conv<T: Tiny>(m: &Nd) -> Vec<T> {
    m.data.iter().map(|&x| T::of(x)).collect()
}
fn rc<T: Tiny>(m: &Nd) -> RcTensor<T> {
    RcTensor::new(conv(m), m.shape.clone())
}
fn raw<T: Tiny>(m: &Nd) -> RawTensor<T> {
    RawTensor::new(conv(m), m.shape.clone())
}
/// a view on the inside of a larger tensor
fn view<T: Tiny>(m: &Nd) -> TensorView<T> {
    let big: Vec<usize> = m.shape.iter().map(|d| d + 2).collect();
    let ranges: Vec<(usize, usize)> = m.shape.iter().map(|&d| (1, d + 1)).collect();
    let mut v = vec![T::of(77.0); count(&big)];
    for p in 0..m.count() {
        let idx: Vec<usize> = unravel(p, &m.shape).iter().map(|i| i + 1).collect();
        v[ravel(&idx, &big)] = T::of(m.data[p]);
    }
    RcTensor::new(v, big).view(ranges.iter().map(|r| SliceRange::new(r.0, r.1)).collect())
}
fn expect<T: Tiny, V: TensorLike<Elem = T>>(what: &str, t: &V, m: &Nd) -> Result<(), String> {
    let shape: Vec<usize> = t.shape().deref().clone();
    ensure!(shape == m.shape, "{what}: shape {shape:?}, expected {:?}", m.shape);
    ensure!(t.count() == m.count(), "{what}: count {}, expected {}", t.count(), m.count());
    for p in 0..m.count() {
        let i = unravel(p, &m.shape);
        let v = *t.get(&i).map_err(|e| format!("{what}: {i:?} of {shape:?}: {e}"))?;
        ensure!(v.f() == m.data[p], "{what}: element {i:?} of {shape:?} is {v:?}, expected {}", m.data[p]);
    }
    Ok(())
}
fn too_big<T: Tiny>(m: &Nd) -> bool {
    // partial results in any order stay within the sum of magnitudes
    m.max_mag() > T::MAX
}
macro_rules! on_kind {
    ($k:expr, $m:expr, $x:ident => $e:expr) => {
        match $k % 3 {
            0 => { let $x = &raw::<T>($m); $e }
            1 => { let $x = &rc::<T>($m); $e }
            _ => { let $x = &view::<T>($m); $e }
        }
    };
}

// ---- matrix products (C03) and their gradients (C04)

fn mm_strategy(_: Tier) -> BoxedStrategy<Case> {
    let d = || prop_oneof![6 => dim().boxed(), 1 => edge_dim(70)];
    (ty2(), prop::option::of(dim()), d(), d(), d(), any::<(u8, u8)>(), any::<u64>())
        .prop_map(|(ty, b, m, k, n, kinds, vseed)| {
            let mut l = vec![m, k];
            if let Some(b) = b {
                l.insert(0, b);
            }
            Case { ty, l, r: vec![k, n], kinds, vseed }
        })
        .boxed()
}
fn mm_check(c: &Case) -> Check {
    fn go<T: Tiny>(c: &Case) -> Check {
        let k = c.r[0];
        let (l, r) = (vals::<T>(c.vseed, 1, &c.l, k), vals::<T>(c.vseed, 2, &c.r, k));
        let want = l.matmul(&r).unwrap();
        if too_big::<T>(&want) {
            return Ok(Info::discard());
        }
        on_kind!(c.kinds.0, &l, x => on_kind!(c.kinds.1, &r, y => {
            expect("matrix product", &x.bmm(y), &want)?;
            expect("matrix product (bmm_rc)", &x.bmm_rc(y), &want)?;
        }));
        Ok(Info::new(l.count() > 1 && r.count() > 1))
    }
    with_tiny!(c.ty, go(c))
}
fn mmg_check(c: &Case) -> Check {
    fn go<T: Tiny>(c: &Case) -> Check {
        let (k, n) = (c.r[0], c.r[1]);
        let rows = count(&c.l) / k;
        // products of three are summed over all of them
        let total = (k * rows * n) as f64;
        let terms = (T::MAX / (T::MAX / total).cbrt().powi(2)).max(1.0) as usize;
        let (l, r) = (vals::<T>(c.vseed, 1, &c.l, terms), vals::<T>(c.vseed, 2, &c.r, terms));
        let out = l.matmul(&r).unwrap();
        let w = vals::<T>(c.vseed, 3, &out.shape, terms);
        let loss = out.mul(&w).unwrap().sum();
        let w2 = w.reshape(vec![rows, n]);
        let gl = w2.matmul(&r.matrix_transpose()).unwrap().reshape(c.l.clone());
        let gr = l.reshape(vec![rows, k]).matrix_transpose().matmul(&w2).unwrap();
        let by_dot = c.kinds.0 & 1 == 1;
        // the plain sum is always in range of wide types only
        let (ll, rl, wl) = (rc::<T>(&l), rc::<T>(&r), rc::<T>(&w));
        if [&out, &loss, &gl, &gr].iter().any(|m| too_big::<T>(m)) {
            return Ok(Info::discard());
        }
        let y = ll.bmm(&rl);
        if by_dot {
            functional::dot(&y, &wl).backward();
        } else {
            (&y * &wl).sum().backward();
        }
        expect("gradient of the left operand", &ll.grad(), &gl)?;
        expect("gradient of the right operand", &rl.grad(), &gr)?;
        expect("gradient of the weights", &wl.grad(), &out)?;
        Ok(Info::new(l.count() > 1 && r.count() > 1))
    }
    with_tiny!(c.ty, go(c))
}

// ---- element-wise operations (C05, C06, C07)

fn ew_strategy(_: Tier) -> BoxedStrategy<Case> {
    (ty2(), shape0(5, 200), prop::collection::vec(prop_oneof![3 => Just(false), 1 => Just(true)], 6), 0usize..4, any::<(u8, u8)>(), any::<u64>())
        .prop_map(|(ty, l, ones, drop, kinds, vseed)| {
            let r: Vec<usize> = l.iter().zip(&ones).map(|(&d, &o)| if o { 1 } else { d }).collect();
            let r = if drop == 0 && !r.is_empty() { r[1..].to_vec() } else { r };
            Case { ty, l, r, kinds, vseed }
        })
        .boxed()
}
fn add_check(c: &Case) -> Check {
    fn go<T: Tiny>(c: &Case) -> Check {
        let (l, r) = (vals::<T>(c.vseed, 1, &c.l, 4), vals::<T>(c.vseed, 2, &c.r, 4));
        let want = l.add(&r).ok_or("harness bug")?;
        let (x, y) = (raw::<T>(&l), raw::<T>(&r));
        expect("sum of owned tensors", &(&x + &y), &want)?;
        expect("sum, other order", &(&y + &x), &want)?;
        expect("sum of shared tensors", &(&rc::<T>(&l) + &rc::<T>(&r)), &want)?;
        expect("sum of moved tensors", &(rc::<T>(&r) + rc::<T>(&l)), &want)?;
        expect("sum with a view", &(&x + &view::<T>(&r)), &want)?;
        expect("sum with a view, other order", &(&y + &view::<T>(&l)), &want)?;
        Ok(Info::new(c.l != c.r && want.count() > 1))
    }
    with_tiny!(c.ty, go(c))
}
fn mul_check(c: &Case) -> Check {
    fn go<T: Tiny>(c: &Case) -> Check {
        let n = count(&c.l);
        let (l, r) = (vals::<T>(c.vseed, 1, &c.l, n), vals::<T>(c.vseed, 2, &c.l, n));
        let s = vals::<T>(c.vseed, 3, &[], n);
        let want = l.mul(&r).unwrap();
        let scaled = l.mul(&s).unwrap();
        if too_big::<T>(&want.sum()) {
            return Ok(Info::discard());
        }
        let v = T::of(s.data[0]);
        on_kind!(c.kinds.0, &l, x => {
            expect("left scalar multiplication", &x.left_scalar_multiplication(&v), &scaled)?;
            expect("right scalar multiplication", &x.right_scalar_multiplication(&v), &scaled)?;
            on_kind!(c.kinds.1, &r, y => {
                expect("element-wise multiplication", &functional::element_wise_multiplication(x, y), &want)?;
                let d = functional::dot_no_derivative(x, y);
                ensure!(d.count() == 1 && d.get_first_elem().f() == want.sum().data[0], "dot product is {d:?}, expected {}", want.sum().data[0]);
            });
            expect("product with an owned tensor", &(&raw::<T>(&r) * x), &want)?;
            expect("product with a shared tensor", &(&rc::<T>(&r) * x), &want)?;
            expect("product with a scalar", &(&rc::<T>(&s) * x), &scaled)?;
        });
        expect("product with a scalar on the right", &(&rc::<T>(&l) * &rc::<T>(&s)), &scaled)?;
        Ok(Info::new(n > 1))
    }
    with_tiny!(c.ty, go(c))
}
fn map_check(c: &Case) -> Check {
    fn go<T: Tiny>(c: &Case) -> Check {
        let n = count(&c.l);
        let l = vals::<T>(c.vseed, 1, &c.l, n.max(4));
        let s = l.sum();
        on_kind!(c.kinds.0, &l, x => {
            if !too_big::<T>(&s) {
                let t = x.sum();
                expect("sum", &t, &s)?;
                ensure!(t.elem().f() == s.data[0], "elem() of the sum is {:?}", t.elem());
            }
            let half = functional::generic_unary_op(x, |v| if v < T::one() + T::one() { v } else { T::one() });
            expect("function", &half, &l.map(|v| if v < 2.0 { v } else { 1.0 }, |m| m))?;
            expect("copy", &x.to_tensor(), &l)?;
        });
        Ok(Info::new(n > 1))
    }
    with_tiny!(c.ty, go(c))
}
/// Products and sums of shared tensors: gradients of types that cannot be negated (C01).
fn grad_check(c: &Case) -> Check {
    fn go<T: Tiny>(c: &Case) -> Check {
        let n = count(&c.l).max(1);
        if n != count(&c.l) {
            return Ok(Info::discard());
        }
        // loss = sum((l + r) * w) with l + r broadcast
        let l = vals::<T>(c.vseed, 1, &c.l, 8 * n);
        let r = vals::<T>(c.vseed, 2, &c.r, 8 * n);
        let y = l.add(&r).unwrap();
        let w = vals::<T>(c.vseed, 3, &y.shape, 8 * n);
        let loss = y.mul(&w).unwrap().sum();
        let twice = c.kinds.0 & 1 == 1;
        let f = if twice { 2.0 } else { 1.0 };
        let scale = |m: Nd| m.map(|x| x * f, |x| x * f);
        let (gl, gr, gw) = (scale(w.unbroadcast(&c.l)), scale(w.unbroadcast(&c.r)), scale(y.clone()));
        if [&loss, &gl, &gr, &gw].iter().any(|m| too_big::<T>(m)) {
            return Ok(Info::discard());
        }
        let (ll, rl, wl) = (rc::<T>(&l), rc::<T>(&r), rc::<T>(&w));
        let loss = (&(&ll + &rl) * &wl).sum();
        loss.backward();
        if twice {
            loss.backward();
        }
        expect("gradient of the left addend", &ll.grad(), &gl)?;
        expect("gradient of the right addend", &rl.grad(), &gr)?;
        expect("gradient of the factor", &wl.grad(), &gw)?;
        Ok(Info::new(c.l != c.r))
    }
    with_tiny!(c.ty, go(c))
}

macro_rules! suite {
    ($f:ident, $name:expr, $rule:expr, $n:expr, $s:ident, $c:ident) => {
        pub fn $f() -> Box<dyn Suite> {
            Box::new(S { name: $name, rule: $rule, cases: ($n, $n * 25), strategy: $s, check: $c })
        }
    };
}
suite!(product, "product-types", "unsigned and small integers; both operands have more than one element", 20_000, mm_strategy, mm_check);
suite!(product_gradient, "gradient-types", "unsigned and small integers; both operands have more than one element", 15_000, mm_strategy, mmg_check);
suite!(broadcast, "broadcast-types", "unsigned and small integers; shapes differ", 40_000, ew_strategy, add_check);
suite!(multiply, "multiply-types", "unsigned and small integers; more than one element", 40_000, ew_strategy, mul_check);
suite!(map_sum, "map-sum-types", "unsigned and small integers; more than one element", 40_000, ew_strategy, map_check);
suite!(gradient, "gradient-types", "unsigned and small integers; shapes differ", 40_000, ew_strategy, grad_check);
