//! C03 / C04: matrix products and their gradients at every size.
use crate::framework::*;
use crate::gens::*;
use crate::lib_tensor::*;
use crate::model::*;
use crate::{on, with_ty};
use proptest::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dims {
    batch: Option<usize>,
    m: usize,
    k: usize,
    n: usize,
}
impl Dims {
    fn left(&self) -> Vec<usize> {
        match self.batch {
            Some(b) => vec![b, self.m, self.k],
            None => vec![self.m, self.k],
        }
    }
    fn work(&self) -> usize {
        self.batch.unwrap_or(1) * self.m * self.k * self.n
    }
    fn cap(mut self, cap: usize) -> Dims {
        while self.work() > cap {
            let b = self.batch.unwrap_or(0);
            let top = b.max(self.m).max(self.k).max(self.n);
            for d in [&mut self.m, &mut self.k, &mut self.n] {
                if *d == top {
                    *d = (*d / 2).max(1);
                    break;
                }
            }
            if b == top && self.work() > cap {
                self.batch = Some((b / 2).max(1));
            }
        }
        self
    }
}
fn dims(cap: usize, zero: bool) -> BoxedStrategy<Dims> {
    let d = || prop_oneof![5 => dim().boxed(), 2 => edge_dim(70), 1 => edge_dim(1100)];
    let base = (prop::option::of(prop_oneof![4 => dim().boxed(), 1 => edge_dim(100)]), d(), d(), d()).prop_map(move |(batch, m, k, n)| Dims { batch, m, k, n }.cap(cap));
    if !zero {
        return base.boxed();
    }
    prop_oneof![
        15 => base.clone(),
        1 => (base, 0u8..4).prop_map(|(mut d, z)| {
            match z {
                0 => d.m = 0,
                1 => d.k = 0,
                2 => d.n = 0,
                _ => d.batch = Some(0),
            }
            d
        }),
    ]
    .boxed()
}

/// one dimension from a thousand to tens of thousands, the others small
fn dims_long(cap: usize) -> BoxedStrategy<Dims> {
    let long = (0.0f64..1.0, 0usize..6, 0usize..5).prop_map(move |(x, exact, off)| {
        let n = (1000.0 * (cap as f64 / 1000.0).powf(x)) as usize;
        match exact {
            0 => (n.next_power_of_two() + off - 2).min(cap),
            1 => n / 64 * 64,
            _ => n,
        }
    });
    (long, prop::option::of(1usize..4), [1usize..6, 1usize..6, 1usize..6], prop_oneof![1 => Just(0usize), 2 => Just(1), 3 => Just(2), 2 => Just(3)], prop_oneof![24 => Just(false), 1 => Just(true)])
        .prop_map(move |(long, batch, [m, k, n], which, beyond)| {
            let mut d = Dims { batch, m, k, n };
            match which {
                0 => d.batch = Some(long),
                1 => d.m = long,
                2 => d.k = long,
                _ => d.n = long,
            }
            // now and then beyond what 16 bits can count
            if beyond {
                d = Dims { batch: d.batch.map(|_| 1 + which % 2), m: 1, k: 1, n: 1 };
                let far = 65_530 + long % 200;
                match which {
                    0 => d.m = far,
                    1 => (d.m, d.batch) = (far / 2 + 8, Some(2)),
                    2 => d.k = far,
                    _ => d.n = far,
                }
                return d;
            }
            // keep the long one
            while d.work() > 2 * cap {
                let top = [d.m, d.k, d.n].into_iter().filter(|&x| x != long).chain(d.batch.filter(|&b| b != long)).max().unwrap();
                for x in [&mut d.m, &mut d.k, &mut d.n].into_iter().chain(d.batch.as_mut()) {
                    if *x == top {
                        *x = (*x / 2).max(1);
                        break;
                    }
                }
            }
            d
        })
        .boxed()
}
fn ty_long() -> impl Strategy<Value = Ty> {
    prop_oneof![5 => Just(Ty::I64), 1 => Just(Ty::I128), 2 => Just(Ty::F64)]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fwd {
    ty: Ty,
    d: Dims,
    lk: Kind,
    rk: Kind,
    vseed: u64,
    #[serde(default)]
    special: bool,
    /// 1 the tensor with itself (square), 2 / 3 with a view of itself (square), 4 with a reshaped view of itself,
    /// 5 two views of one tensor
    #[serde(default)]
    alias: u8,
}
fn fwd_with(cap: usize) -> BoxedStrategy<Fwd> {
    (ty(), dims(cap, true), kind(), kind(), any::<u64>(), special(), prop_oneof![12 => Just(0u8), 2 => 1u8..5, 1 => Just(5u8)])
        .prop_map(|(ty, mut d, lk, rk, vseed, special, alias)| {
            if (1..5).contains(&alias) {
                d.batch = None;
                d.n = d.m;
                if alias < 4 {
                    d.k = d.m;
                }
                d = d.cap(60_000);
                d.n = d.m;
                if alias < 4 {
                    d.k = d.m;
                }
            }
            Fwd { ty, d, lk, rk, vseed, special, alias }
        })
        .boxed()
}
fn fwd_small(_: Tier) -> BoxedStrategy<Fwd> {
    fwd_with(1500)
}
fn fwd_large(t: Tier) -> BoxedStrategy<Fwd> {
    fwd_with(if t == Tier::Quick { 60_000 } else { 400_000 })
}
fn fwd_long(t: Tier) -> BoxedStrategy<Fwd> {
    (ty_long(), dims_long(if t == Tier::Quick { 20_000 } else { 150_000 }), kind(), kind(), any::<u64>())
        .prop_map(|(ty, d, lk, rk, vseed)| Fwd { ty, d, lk, rk, vseed, special: false, alias: 0 })
        .boxed()
}
fn fwd_check(c: &Fwd) -> Check {
    fn go<T: El>(c: &Fwd) -> Check {
        let ls = c.d.left();
        let rs = vec![c.d.k, c.d.n];
        let l = operand::<T>(c.special, c.vseed, 1, &ls);
        let mut r = operand::<T>(c.special, c.vseed, 2, &rs);
        let (mut ll, mut rl): (Lib<T>, Lib<T>) = (build(&l, &c.lk), build(&r, &c.rk));
        if c.alias == 5 {
            (ll, rl) = siblings(&l, &mut r, c.vseed as u32);
        } else if c.alias > 0 {
            (ll, rl) = aliased(ll, c.alias);
            if c.alias == 4 {
                rl = crate::ops::reshape(&rl, rs.clone());
            }
            r = l.reshape(rs.clone());
        }
        let want = l.matmul(&r).expect("compatible");
        let what = format!("product of {ls:?} and {rs:?}");
        on!(&ll, x => on!(&rl, y => {
            expect::<T, _>(&what, &x.bmm(y), &want)?;
            expect::<T, _>(&format!("{what} (bmm_rc)"), &x.bmm_rc(y), &want)?;
        }));
        let mut sizes = vec![c.d.m, c.d.k, c.d.n];
        sizes.sort();
        sizes.dedup();
        Ok(Info::new(c.d.work() > 0 && sizes.len() == 3)
            .label(c.alias > 0, "same-tensor-twice")
            .label(c.special && T::REAL, "special-values")
            .label(c.d.batch.is_some(), "batch")
            .label(c.d.work() == 0, "empty")
            .label(c.d.work() > 1000, "over-1000-products")
            .label(want.count() > 32, "over-32-elements")
            .label(ll.is_view() || rl.is_view(), "view-operand"))
    }
    with_ty!(c.ty, go(c))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bwd {
    ty: Ty,
    d: Dims,
    vseed: u64,
    /// how the incoming gradient is made
    how: u8,
    passes: u8,
    #[serde(default)]
    special: bool,
}
fn bwd_with(cap: usize) -> BoxedStrategy<Bwd> {
    (
        prop_oneof![6 => Just(Ty::I64), 1 => Just(Ty::I128), 1 => Just(Ty::F64), 1 => Just(Ty::F32)],
        dims(cap, true),
        any::<u64>(),
        0u8..7,
        prop_oneof![4 => Just(1u8), 1 => Just(2u8)],
        special(),
    )
        .prop_map(|(ty, d, vseed, how, passes, special)| Bwd { ty: if special { [Ty::F64, Ty::F64, Ty::F32][how as usize % 3] } else { ty }, d, vseed, how, passes, special })
        .boxed()
}
fn bwd_small(_: Tier) -> BoxedStrategy<Bwd> {
    bwd_with(700)
}
fn bwd_large(t: Tier) -> BoxedStrategy<Bwd> {
    bwd_with(if t == Tier::Quick { 30_000 } else { 200_000 })
}
fn bwd_long(t: Tier) -> BoxedStrategy<Bwd> {
    (ty_long(), dims_long(if t == Tier::Quick { 8_000 } else { 80_000 }), any::<u64>(), 0u8..6)
        .prop_map(|(ty, d, vseed, how)| Bwd { ty, d, vseed, how, passes: 1, special: false })
        .boxed()
}
fn bwd_check(c: &Bwd) -> Check {
    fn go<T: El>(c: &Bwd) -> Check {
        let ls = c.d.left();
        let rs = vec![c.d.k, c.d.n];
        let square = c.how == 6 && c.d.batch.is_none();
        let side = (c.d.work() as f64).cbrt().round() as usize;
        let rs = if square { vec![side, side] } else { rs };
        let ls = if square { rs.clone() } else { ls };
        let l = operand::<T>(c.special, c.vseed, 1, &ls);
        let r = if square { l.clone() } else { operand::<T>(c.special, c.vseed, 2, &rs) };
        let out = l.matmul(&r).expect("compatible");
        let mut w = operand::<T>(c.special, c.vseed, 3, &out.shape);
        let ll: RcTensor<T> = rc(&l);
        let rl: RcTensor<T> = if square { ll.clone() } else { rc(&r) };
        let y = ll.bmm(&rl);
        expect(&format!("product of {ls:?} and {rs:?}"), &y, &out)?;
        let wl: RcTensor<T> = rc(&w);
        let loss = match c.how {
            0 => (&y * &wl).sum(),
            1 => functional::dot(&wl, &y),
            2 => {
                // the product itself is the one-element result, or a plain sum
                w = w.map(|_| 1.0, |_| 1.0);
                if y.count() == 1 {
                    y.clone()
                } else {
                    y.sum()
                }
            }
            3 => {
                // broadcast against a smaller operand on the way
                let b: RcTensor<T> = rc(&Nd::new(vec![c.d.n], values::<T>(c.vseed, 4, c.d.n)));
                (&(&y + &b) * &wl).sum()
            }
            4 => (-&(&y * &wl)).sum() * RcTensor::scalar(T::from_f(-1.0)),
            5 => {
                // the product is used twice
                w = w.map(|x| 2.0 * x, |m| 2.0 * m);
                functional::dot(&(&y + &y), &wl)
            }
            _ => (&y * &wl).sum(),
        };
        for _ in 0..c.passes {
            loss.backward();
        }
        let w = w.map(|x| x * c.passes as f64, |m| m * c.passes as f64);
        let (k, n) = (rs[0], rs[1]);
        let rows = ls[..ls.len() - 1].iter().product();
        let w2 = w.reshape(vec![rows, n]);
        let mut gl = w2.matmul(&r.matrix_transpose()).unwrap().reshape(ls.clone());
        let gr = l.reshape(vec![rows, k]).matrix_transpose().matmul(&w2).unwrap();
        if square {
            gl.add_assign(&gr);
        } else {
            expect(&format!("gradient of the right operand of {ls:?} x {rs:?}"), &rl.grad(), &gr)?;
        }
        expect(&format!("gradient of the left operand of {ls:?} x {rs:?}"), &ll.grad(), &gl)?;
        Ok(Info::new(l.count() > 1 && r.count() > 1 && c.how != 2)
            .label(c.d.batch.is_some_and(|b| b > 1), "batch")
            .label(l.count() > 32 || r.count() > 32, "over-32-elements")
            .label(l.count() > 320 || r.count() > 320, "over-320-elements")
            .label(l.count() % 32 == 0 || r.count() % 32 == 0, "multiple-of-32")
            .label(c.special && T::REAL, "special-values")
            .label(c.d.work() == 0, "empty")
            .label(square, "same-operand-twice"))
    }
    with_ty!(c.ty, go(c))
}

pub fn property_c03() -> Property {
    Property {
        id: "C03",
        shards: 8,
        suites: vec![
            Box::new(S { name: "product", rule: "rows, inner size and columns all differ and nothing is empty", cases: (120_000, 3_000_000), strategy: fwd_small, check: fwd_check }),
            Box::new(S { name: "product-large", rule: "as product, up to 60000 (thorough: 400000) element products", cases: (10_000, 250_000), strategy: fwd_large, check: fwd_check }),
            Box::new(S { name: "product-long", rule: "as product, one dimension from 1000 to 20000 (thorough: 150000)", cases: (1_500, 25_000), strategy: fwd_long, check: fwd_check }),
            crate::types::product(),
        ],
        assumptions: &["batches are on the left operand only, as the library supports"],
    }
}
pub fn property_c04() -> Property {
    Property {
        id: "C04",
        shards: 8,
        suites: vec![
            Box::new(S { name: "gradient", rule: "both operands have more than one element and the incoming gradient is not uniform", cases: (70_000, 1_750_000), strategy: bwd_small, check: bwd_check }),
            Box::new(S { name: "gradient-large", rule: "as gradient, up to 30000 (thorough: 200000) contributions", cases: (6_000, 150_000), strategy: bwd_large, check: bwd_check }),
            Box::new(S { name: "gradient-long", rule: "as gradient, one dimension from 1000 to 8000 (thorough: 80000)", cases: (1_000, 15_000), strategy: bwd_long, check: bwd_check }),
            crate::types::product_gradient(),
        ],
        assumptions: &[],
    }
}
