//! Shared generators (proptest strategies) and deterministic value streams.
use crate::model::count;
use proptest::prelude::*;
use rust_light::tensor::{Numeric, RcTensor};
use serde::{Deserialize, Serialize};

/// Element types the suites are instantiated with.
pub trait El: Numeric + std::panic::UnwindSafe + std::panic::RefUnwindSafe + 'static + std::ops::Neg<Output = Self> {
    /// relative error allowed per unit of magnitude; 0 means exact
    const EPS: f64;
    const NAME: &'static str;
    fn from_f(x: f64) -> Self;
    fn to_f(self) -> f64;
    /// abs / relu / tanh for types that have them
    fn unary(_code: u8, _t: &RcTensor<Self>) -> Option<RcTensor<Self>> {
        None
    }
    fn unary_owned(_code: u8, _t: RcTensor<Self>) -> Option<RcTensor<Self>> {
        None
    }
    const REAL: bool = false;
}
macro_rules! int_el {
    ($($t:ty),*) => {$(
        impl El for $t {
            const EPS: f64 = 0.0;
            const NAME: &'static str = stringify!($t);
            fn from_f(x: f64) -> Self { x as $t }
            fn to_f(self) -> f64 { self as f64 }
        }
    )*};
}
int_el!(i64, i32, i128);
macro_rules! real_el {
    ($($t:ty, $eps:expr);*) => {$(
        impl El for $t {
            const EPS: f64 = $eps;
            const NAME: &'static str = stringify!($t);
            const REAL: bool = true;
            fn from_f(x: f64) -> Self { x as $t }
            fn to_f(self) -> f64 { self as f64 }
            fn unary(code: u8, t: &RcTensor<Self>) -> Option<RcTensor<Self>> {
                Some(match code {
                    0 => t.abs(),
                    1 => rust_light::tensor::functional::relu(t.clone()),
                    _ => rust_light::tensor::functional::tanh(t.clone()),
                })
            }
            fn unary_owned(code: u8, t: RcTensor<Self>) -> Option<RcTensor<Self>> {
                Some(match code {
                    0 => t.abs(),
                    1 => rust_light::tensor::functional::relu(t),
                    _ => rust_light::tensor::functional::tanh(t),
                })
            }
        }
    )*};
}
real_el!(f64, 1e-11; f32, 4e-5);

/// Runs a generic function for the element type named by the case.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    I64,
    I32,
    I128,
    F64,
    F32,
}
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            $crate::gens::Ty::I64 => $f::<i64>($($a),*),
            $crate::gens::Ty::I32 => $f::<i32>($($a),*),
            $crate::gens::Ty::I128 => $f::<i128>($($a),*),
            $crate::gens::Ty::F64 => $f::<f64>($($a),*),
            $crate::gens::Ty::F32 => $f::<f32>($($a),*),
        }
    };
}
pub fn ty() -> impl Strategy<Value = Ty> {
    prop_oneof![5 => Just(Ty::I64), 1 => Just(Ty::I32), 1 => Just(Ty::I128), 4 => Just(Ty::F64), 1 => Just(Ty::F32)]
}
pub fn ty_exact() -> impl Strategy<Value = Ty> {
    prop_oneof![5 => Just(Ty::I64), 1 => Just(Ty::I32), 1 => Just(Ty::I128)]
}

fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn bits(seed: u64, salt: u64, n: usize) -> Vec<u64> {
    let base = splitmix(seed ^ splitmix(salt.wrapping_mul(0x51_7C_C1_B7)));
    (0..n as u64).map(|i| splitmix(base.wrapping_add(i))).collect()
}
/// n values that are a pure function of the case's value seed: small integers for exact types, irregular reals otherwise.
/// A quarter of the arrays are degenerate in some way: zeros, constants, runs, few distinct values, wide magnitudes, ...
pub fn values<T: El>(seed: u64, salt: u64, n: usize) -> Vec<f64> {
    let h = bits(seed, salt, n);
    let one = |h: u64| -> f64 {
        if T::REAL {
            let u = (h >> 11) as f64 / (1u64 << 53) as f64;
            let v = (0.05 + 1.7 * u) * if h & 1 == 0 { 1.0 } else { -1.0 };
            T::from_f(v).to_f()
        } else {
            ((h >> 7) % 19) as f64 - 9.0
        }
    };
    let base = splitmix(seed ^ splitmix(salt.wrapping_mul(0x51_7C_C1_B7)));
    let mode = (base >> 20) % 48;
    let c = one(base);
    let d = one(base.rotate_left(17));
    let side = (n as f64).sqrt().round() as usize;
    let square = side > 1 && side * side == n;
    let v: Vec<f64> = h
        .iter()
        .enumerate()
        .map(|(i, &h)| match mode {
            // half of them zero
            0 | 1 => if h >> 63 == 0 { 0.0 } else { one(h) },
            // all zero
            2 => 0.0,
            // constant
            3 => c,
            4 => 1.0,
            // only one element is not zero
            5 => if (base >> 30) as usize % n == i { c } else { 0.0 },
            // -1, 0, 1
            6 | 7 => ((h >> 40) % 3) as f64 - 1.0,
            // two values in runs
            8 => if (i >> ((base >> 33) % 4)) & 1 == 0 { c } else { d },
            // x, -x, x, -x: sums to (nearly) zero
            9 => if i & 1 == 0 { c } else { -c },
            // periodic rows
            10 => one(splitmix(base.wrapping_add(i as u64 % (1 + (base >> 33) % 5)))),
            // all of one sign
            11 => one(h).abs(),
            12 => -one(h).abs(),
            // ascending, descending
            13 => T::from_f(if T::REAL { 0.01 * i as f64 } else { (i % 10) as f64 }).to_f(),
            // magnitudes far apart
            14 if T::REAL => T::from_f(one(h) * [1e-4, 1.0, 300.0][(h >> 50) as usize % 3]).to_f(),
            // whole numbers held by a real type
            15 if T::REAL => ((h >> 7) % 19) as f64 - 9.0,
            // as a square matrix: the identity, diagonal, a permutation, triangular
            16 if square => (i % (side + 1) == 0) as u8 as f64,
            17 if square => if i % (side + 1) == 0 { one(h) } else { 0.0 },
            18 if square => ((i / side + (base >> 33) as usize) % side == i % side) as u8 as f64,
            19 if square => if (i / side < i % side) == (base >> 33 & 1 == 0) { 0.0 } else { one(h) },
            _ => one(h),
        })
        .collect();
    v
}
pub fn conv<T: El>(v: &[f64]) -> Vec<T> {
    v.iter().map(|&x| T::from_f(x)).collect()
}

pub fn dim() -> impl Strategy<Value = usize> {
    prop_oneof![
        5 => Just(1usize), 5 => Just(2), 5 => Just(3), 3 => Just(4), 2 => Just(5), 1 => Just(6), 1 => Just(7), 1 => Just(8), 1 => 9usize..14,
    ]
}
/// sizes around powers of two and block boundaries
pub fn edge_dim(max: usize) -> BoxedStrategy<usize> {
    let edges: Vec<usize> =
        [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 47, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]
            .into_iter()
            .filter(|&x| x <= max)
            .collect();
    prop_oneof![3 => proptest::sample::select(edges), 2 => 1..=max].boxed()
}
/// Shrinks later dimensions until the element count is at most `cap`.
pub fn cap_shape(mut s: Vec<usize>, cap: usize) -> Vec<usize> {
    while count(&s) > cap {
        let i = (0..s.len()).max_by_key(|&i| s[i]).unwrap();
        s[i] = (s[i] / 2).max(1);
    }
    s
}
/// many dimensions, or many elements: up to `hi` of them, spread over the orders of magnitude
pub fn shape_big(max_rank: usize, hi: usize) -> BoxedStrategy<Vec<usize>> {
    let big = (1usize..=max_rank, 0.0f64..1.0, any::<u64>(), 0usize..4).prop_map(move |(r, x, bits, exact)| {
        // split a target count over the dimensions
        let target = (40.0 * (hi as f64 / 40.0).powf(x)) as usize;
        let mut s = vec![1usize; r];
        let mut left = target.max(1);
        for d in 0..r {
            let h = (bits >> (8 * (d % 8))) as usize & 255;
            let at = (d + h) % r;
            let f = if d + 1 == r { left } else { ((left as f64).powf(h as f64 / 255.0)).round().max(1.0) as usize };
            s[at] *= f;
            left = (left / f).max(1);
        }
        // now and then a power of two, where blocks end
        if exact == 0 {
            for d in s.iter_mut() {
                *d = d.next_power_of_two();
            }
        }
        cap_shape(s, hi)
    });
    let deep = prop::collection::vec(prop_oneof![3 => Just(1usize), 3 => Just(2), 1 => Just(3)], 6..=10).prop_map(move |s| cap_shape(s, 700));
    prop_oneof![3 => big, 1 => deep].boxed()
}
/// shape with all dimensions at least 1
pub fn shape(max_rank: usize, cap: usize) -> BoxedStrategy<Vec<usize>> {
    let small = prop::collection::vec(dim(), 0..=max_rank).prop_map(move |s| cap_shape(s, cap));
    let long = (edge_dim(1100), prop::collection::vec(dim(), 0..=max_rank.saturating_sub(1)), any::<prop::sample::Index>())
        .prop_map(move |(d, mut s, at)| {
            let i = at.index(s.len() + 1);
            s.insert(i, d);
            cap_shape(s, cap)
        });
    prop_oneof![9 => small, 1 => long].boxed()
}
/// also with empty dimensions now and then
pub fn shape0(max_rank: usize, cap: usize) -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        9 => shape(max_rank, cap),
        1 => (shape(max_rank.max(1) - 1, cap), any::<prop::sample::Index>()).prop_map(|(mut s, at)| { let i = at.index(s.len() + 1); s.insert(i, 0); s }),
    ]
    .boxed()
}
