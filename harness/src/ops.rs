//! One library operation applied to operands of any kind, through every public spelling that accepts those kinds.
use crate::gens::*;
use crate::lib_tensor::*;
use crate::on;
use rust_light::tensor::*;
use std::ops::Deref;

pub fn boxed_raw<T: El>(l: &Lib<T>) -> RawTensor<T> {
    match l {
        Lib::Raw(x) => x.clone(),
        Lib::Rc(x) => x.deref().clone(),
        Lib::View(x) => x.to_tensor().deref().clone(),
    }
}
pub fn to_rc<T: El>(l: &Lib<T>) -> RcTensor<T> {
    match l {
        Lib::Rc(x) => x.clone(),
        _ => on!(l, x => x.to_tensor()),
    }
}
/// a + b. Views are only accepted on the right of an owned tensor.
pub fn add<T: El>(a: &Lib<T>, b: &Lib<T>, form: u32) -> Lib<T> {
    match (a, b) {
        (Lib::Raw(x), _) => on!(b, y => Lib::Raw(x + y)),
        (Lib::Rc(x), Lib::Rc(y)) => match form % 4 {
            0 => Lib::Rc(x + y),
            1 => Lib::Rc(x.clone() + y.clone()),
            2 => Lib::Raw(x.deref() + y),
            _ => Lib::Raw(x.deref() + y.deref()),
        },
        (Lib::Rc(x), _) => on!(b, y => Lib::Raw(x.deref() + y)),
        (Lib::View(x), _) => on!(b, y => Lib::Raw(x.to_tensor().deref() + y)),
    }
}
pub fn sub<T: El>(a: &Lib<T>, b: &Lib<T>, form: u32) -> Lib<T> {
    match (a, b) {
        (Lib::Raw(x), Lib::Raw(y)) => Lib::Raw(x - y),
        (Lib::Raw(x), Lib::Rc(y)) => Lib::Raw(x - y),
        (Lib::Rc(x), Lib::Rc(y)) => match form % 5 {
            0 => Lib::Rc(x - y),
            1 => Lib::Rc(x.clone() - y.clone()),
            2 => Lib::Rc(x.clone() - y),
            3 => Lib::Raw(x.deref() - y),
            _ => Lib::Raw(x.deref() - y.deref()),
        },
        (Lib::Rc(x), Lib::Raw(y)) => Lib::Raw(x.deref() - y),
        // views cannot be negated: copy them first
        (Lib::Raw(x), Lib::View(y)) => Lib::Raw(x - &y.to_tensor()),
        (Lib::Rc(x), Lib::View(y)) => Lib::Rc(x - &y.to_tensor()),
        (Lib::View(x), _) => sub(&Lib::Rc(x.to_tensor()), b, form),
    }
}
pub fn mul<T: El>(a: &Lib<T>, b: &Lib<T>, form: u32) -> Lib<T> {
    match (a, b) {
        (Lib::Raw(x), Lib::Rc(y)) if form % 2 == 1 => Lib::Raw(x * y.clone()),
        (Lib::Raw(x), _) => on!(b, y => Lib::Raw(x * y)),
        (Lib::Rc(x), Lib::Rc(y)) if form % 3 == 1 => Lib::Rc(x.clone() * y.clone()),
        (Lib::Rc(x), Lib::Rc(y)) if form % 3 == 2 => Lib::Rc(x * y.clone()),
        (Lib::Rc(x), _) if form % 2 == 0 => on!(b, y => Lib::Rc(x * y)),
        (Lib::Rc(x), _) => on!(b, y => Lib::Rc(x.clone() * y)),
        (Lib::View(x), _) => on!(b, y => Lib::Raw(x.to_tensor().deref() * y)),
    }
}
/// same shape only
pub fn ew_mul<T: El>(a: &Lib<T>, b: &Lib<T>) -> Lib<T> {
    Lib::Raw(on!(a, x => on!(b, y => functional::element_wise_multiplication(x, y))))
}
pub fn dot<T: El>(a: &Lib<T>, b: &Lib<T>, form: u32) -> Lib<T> {
    match (a, b) {
        (Lib::Rc(x), Lib::Rc(y)) if form % 4 == 0 => Lib::Rc(functional::dot(x, y)),
        _ if form % 4 < 2 => Lib::Rc(on!(a, x => on!(b, y => x.dot(y)))),
        _ => Lib::Rc(on!(a, x => on!(b, y => functional::dot_no_derivative(x, y)))),
    }
}
pub fn bmm<T: El>(a: &Lib<T>, b: &Lib<T>, form: u32) -> Lib<T> {
    if form % 2 == 0 {
        return Lib::Rc(on!(a, x => on!(b, y => x.bmm_rc(y))));
    }
    match a {
        Lib::Raw(x) => Lib::Raw(on!(b, y => x.bmm(y))),
        Lib::Rc(x) => Lib::Rc(on!(b, y => x.bmm(y))),
        Lib::View(x) => Lib::Rc(on!(b, y => x.bmm(y))),
    }
}
pub fn scale<T: El>(a: &Lib<T>, s: T, left: bool) -> Lib<T> {
    Lib::Raw(on!(a, x => if left { x.left_scalar_multiplication(&s) } else { x.right_scalar_multiplication(&s) }))
}
pub fn neg<T: El>(a: &Lib<T>) -> Lib<T> {
    match a {
        Lib::Raw(x) => Lib::Raw(-x),
        Lib::Rc(x) => Lib::Rc(-x),
        Lib::View(x) => Lib::Rc(-&x.to_tensor()),
    }
}
pub fn sum<T: El>(a: &Lib<T>) -> Lib<T> {
    match a {
        Lib::Raw(x) => Lib::Raw(x.sum()),
        Lib::Rc(x) => Lib::Rc(x.sum()),
        Lib::View(x) => Lib::Rc(x.sum()),
    }
}
/// the caller-supplied functions used with generic_unary_op
pub fn fun<T: El>(code: u8) -> (fn(T) -> T, fn(f64) -> f64, fn(f64) -> f64) {
    match code % 4 {
        0 => (|x| x + x, |x| x + x, |m| 2.0 * m),
        1 => (|x| x * x, |x| x * x, |m| m * m),
        2 => (|x| if x < T::zero() { T::one() } else { x }, |x| if x < 0.0 { 1.0 } else { x }, |m| m.max(1.0)),
        _ => (|x| T::one() + T::one() + x * (T::one() + T::one() + T::one()), |x| 2.0 + 3.0 * x, |m| 2.0 + 3.0 * m),
    }
}
pub fn map<T: El>(a: &Lib<T>, f: fn(T) -> T) -> Lib<T> {
    Lib::Raw(on!(a, x => functional::generic_unary_op(x, f)))
}
pub fn slice<T: El>(a: &Lib<T>, r: &[(usize, usize)], form: u32) -> Lib<T> {
    let ranges: Vec<SliceRange> = r.iter().map(|x| SliceRange::new(x.0, x.1)).collect();
    match a {
        Lib::Rc(x) if form % 3 == 0 => Lib::View(x.view(ranges)),
        Lib::Rc(x) if form % 3 == 1 => Lib::View(TensorView::new(x.clone(), ranges)),
        _ => Lib::View(on!(a, x => x.slice(ranges))),
    }
}
pub fn whole(shape: &[usize]) -> Vec<(usize, usize)> {
    shape.iter().map(|&d| (0, d)).collect()
}
pub fn reshape<T: El>(a: &Lib<T>, shape: Vec<usize>) -> Lib<T> {
    let v = match a {
        Lib::View(x) => x.clone(),
        _ => {
            let w: Vec<SliceRange> = on!(a, x => x.shape().iter().map(|&d| SliceRange::new(0, d)).collect());
            on!(a, x => x.slice(w))
        }
    };
    Lib::View(v.reshape(shape))
}
