//! C17 (nothing that is read changes), C18 (refusals), C19 (programs against the reference).
use crate::framework::*;
use crate::gens::*;
use crate::graph::*;
use crate::lib_tensor::*;
use crate::model::*;
use crate::prog::*;
use crate::{ensure, on, ops, with_ty};
use proptest::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: Ty,
    ops: Vec<OpSpec>,
    vseed: u64,
}
fn case_with(codes: u8, lo: usize, hi: usize) -> BoxedStrategy<Case> {
    (ty(), prop::collection::vec(op_spec(codes), lo..hi), any::<u64>()).prop_map(|(ty, ops, vseed)| Case { ty, ops, vseed }).boxed()
}
fn prog_small(_: Tier) -> BoxedStrategy<Case> {
    case_with(CODES, 2, 14)
}
fn prog_long(t: Tier) -> BoxedStrategy<Case> {
    case_with(CODES, 14, if t == Tier::Quick { 60 } else { 150 })
}
fn prog_check_with<T: El>(c: &Case, elems: usize, owned: bool) -> Check {
    let mut p: Prog<T> = Prog::new(c.vseed, elems);
    let (mut done, mut deep, mut views, mut mm) = (0, 0, false, false);
    let mut depth: Vec<usize> = vec![];
    for op in &c.ops {
        let act = p.plan(op, false)?;
        depth.resize(p.vals.len(), 0);
        let Some(m) = p.model(&act) else { return Err(format!("harness bug: {act:?} is not defined")) };
        if !p.fits(&m) || p.undecided(&act) {
            continue;
        }
        let lib = p.run(&act).map_err(|e| format!("{act:?} on {:?} is refused: {e}", act.operands().iter().map(|&i| p.shape(i).clone()).collect::<Vec<_>>()))?;
        expect_lib(&format!("step {}: {act:?} on {:?}", p.vals.len(), act.operands().iter().map(|&i| p.shape(i).clone()).collect::<Vec<_>>()), &lib, &m)?;
        let d = 1 + act.operands().iter().map(|&i| depth[i]).max().unwrap_or(0);
        depth.push(d);
        deep = deep.max(d);
        done += 1;
        views |= lib.is_view() || act.operands().iter().any(|&i| p.vals[i].lib.is_view());
        mm |= matches!(act, Act::Mm(..));
        p.push(lib, m, act);
    }
    if owned {
        let mut moved = 0;
        for k in 0..2 {
            moved = p.replay(hash64(&(c.vseed, k)))?.max(moved);
        }
        return Ok(Info::new(done >= 4 && moved >= 3).label(views, "views").label(mm, "matmul").label(deep >= 8, "depth8+"));
    }
    // nothing produced on the way has changed its value since
    for (i, v) in p.vals.iter().enumerate() {
        expect_lib(&format!("value {i} ({:?}) at the end", v.act), &v.lib, &v.m)?;
    }
    Ok(Info::new(done >= 4 && deep >= 4).label(views, "views").label(mm, "matmul").label(deep >= 8, "depth8+").label(p.vals.iter().any(|v| v.m.count() == 0), "empty-tensor"))
}
fn prog_check(c: &Case) -> Check {
    fn go<T: El>(c: &Case) -> Check {
        prog_check_with::<T>(c, 150, false)
    }
    with_ty!(c.ty, go(c))
}
fn prog_check_owned(c: &Case) -> Check {
    fn go<T: El>(c: &Case) -> Check {
        prog_check_with::<T>(c, 150, true)
    }
    with_ty!(c.ty, go(c))
}
fn prog_check_big(c: &Case) -> Check {
    fn go<T: El>(c: &Case) -> Check {
        prog_check_with::<T>(c, 1500, false)
    }
    with_ty!(c.ty, go(c))
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    ty: Ty,
    start: Vec<(Vec<usize>, Kind, bool)>,
    /// (operation, wild)
    ops: Vec<(OpSpec, bool)>,
    vseed: u64,
}
fn hist_with(max: usize) -> BoxedStrategy<Hist> {
    let s = prop_oneof![3 => prop::collection::vec(1usize..4, 0..4), 1 => (1usize..5).prop_map(|n| vec![n, n])];
    (
        ty(),
        prop::collection::vec((s, kind(), any::<bool>()), 1..4),
        prop::collection::vec((op_spec(CODES + 8), prop_oneof![3 => Just(false), 2 => Just(true)]), 1..max),
        any::<u64>(),
    )
        .prop_map(|(ty, start, ops, vseed)| Hist { ty, start, ops, vseed })
        .boxed()
}
fn hist(_: Tier) -> BoxedStrategy<Hist> {
    hist_with(14)
}
fn hist_long(_: Tier) -> BoxedStrategy<Hist> {
    hist_with(50)
}
fn seed_grad<T: El>(l: &Lib<T>, m: &Nd, vseed: u64, salt: u64) {
    let g = Nd::new(m.shape.clone(), values::<T>(vseed, salt, m.count()));
    match l {
        Lib::Rc(x) => x.update_grad(rc(&g)),
        Lib::Raw(x) => x.update_grad(rc(&g)),
        Lib::View(_) => {}
    }
}
fn hist_check(c: &Hist) -> Check {
    fn go<T: El>(c: &Hist) -> Check {
        let mut p: Prog<T> = Prog::new(c.vseed, 60);
        for (k, (s, kind, grad)) in c.start.iter().enumerate() {
            let m = Nd::new(s.clone(), values::<T>(c.vseed, 500 + k as u64, count(s)));
            let lib: Lib<T> = build(&m, kind);
            if *grad {
                seed_grad(&lib, &m, c.vseed, 600 + k as u64);
            }
            p.push(lib, m, Act::New { how: 0, shape: s.clone(), salt: 0 });
        }
        let started = p.vals.len();
        let mut prints: Vec<Print> = vec![];
        let (mut failed, mut backwards, mut grads_seen, mut applied, mut alias) = (0, 0, false, 0, false);
        for (step, (op, wild)) in c.ops.iter().enumerate() {
            // planning may construct operands, so take the picture afterwards
            let special = op.code >= CODES;
            let act = if special { None } else { Some(p.plan(op, *wild)?) };
            while prints.len() < p.vals.len() {
                prints.push(print(&p.vals[prints.len()].lib));
            }
            grads_seen |= prints.iter().any(|x| x.grad.is_some());
            let what;
            let mut grads_fixed = true;
            let mut result = None;
            if let Some(act) = act {
                what = format!("step {step}: {act:?}");
                let model = p.model(&act);
                if model.as_ref().is_some_and(|m| !p.fits(m)) || p.undecided(&act) {
                    continue;
                }
                match p.run(&act) {
                    Ok(lib) => {
                        // again, right away
                        if op.aux & 1 == 1 {
                            match p.run(&act) {
                                Ok(again) => {
                                    let (x, y) = (print(&lib), print(&again));
                                    ensure!(close::<T>(&x, &y, model.as_ref()), "{what}: evaluated twice, {x:?} and then {y:?}");
                                }
                                Err(e) => return Err(format!("{what}: succeeded first and then failed: {e}")),
                            }
                        }
                        let o = act.operands();
                        alias |= o.len() == 2 && o[0] == o[1];
                        // keep values the model knows and that the rest of the program can use
                        if let Some(m) = model {
                            result = Some((lib, m, act));
                        }
                        applied += 1;
                    }
                    Err(_) => failed += 1,
                }
            } else {
                let i = (op.a as usize) % p.vals.len();
                match op.code - CODES {
                    0..=4 => {
                        // backward from anywhere: refused for several elements, and a leaf has nothing to do
                        let v = &p.vals[i];
                        what = format!("step {step}: backward from value {i} {:?} of shape {:?}", v.act, v.m.shape);
                        let Lib::Rc(t) = &v.lib else { continue };
                        if v.cost > 20_000.0 {
                            continue;
                        }
                        // mostly through a one-element result
                        let t = if op.aux & 3 != 0 && v.m.count() > 1 {
                            // (the dot product of large integers may overflow)
                            match guard(|| if op.aux & 4 == 0 { t.sum() } else { functional::dot(t, t) }) {
                                Ok(x) => x,
                                Err(_) => continue,
                            }
                        } else {
                            t.clone()
                        };
                        grads_fixed = t.count() != 1;
                        if guard(|| t.backward()).is_ok() {
                            backwards += 1;
                        } else {
                            failed += 1;
                        }
                    }
                    5 => {
                        what = format!("step {step}: gradient update of value {i}");
                        let v = &p.vals[i];
                        let _ = guard(|| seed_grad(&v.lib, &v.m, c.vseed, 700 + step as u64));
                        grads_fixed = false;
                    }
                    6 => {
                        what = format!("step {step}: equality and formatting of value {i}");
                        on!(&p.vals[i].lib, x => {
                            let _ = format!("{x:?}");
                            for v in &p.vals {
                                if let Lib::Rc(y) = &v.lib {
                                    let _ = guard(|| x.same_shape(&y));
                                }
                            }
                            let _ = x.iter_indices().count();
                        });
                    }
                    _ => {
                        what = format!("step {step}: reads of value {i}");
                        on!(&p.vals[i].lib, x => {
                            let _ = guard(|| x.elem());
                            let _ = guard(|| x.get(&vec![9; 3]).is_ok());
                            let _ = guard(|| x.tensor().count());
                        });
                    }
                }
            }
            for k in 0..prints.len() {
                let now = print(&p.vals[k].lib);
                if let Some(d) = changed(&prints[k], &now, grads_fixed) {
                    return Err(format!("{what} changed value {k} ({:?}): {d}", p.vals[k].act));
                }
                prints[k] = now;
            }
            if let Some((lib, m, act)) = result {
                p.push(lib, m, act);
            }
        }
        // every expression of the program evaluated again on its original operands
        for i in started..p.vals.len() {
            let act = p.vals[i].act.clone();
            let (old, new) = (print(&p.vals[i].lib), p.run(&act).map_err(|e| format!("value {i} ({act:?}) cannot be computed again: {e}"))?);
            let new = print(&new);
            ensure!(close::<T>(&old, &new, Some(&p.vals[i].m)), "value {i} ({act:?}) was {old:?}, computed again it is {new:?}");
        }
        Ok(Info::new(applied >= 2 && grads_seen)
            .label(failed > 0, "failing-operations")
            .label(backwards > 0, "backward")
            .label(alias, "same-operand-twice")
            .label(p.vals.iter().any(|v| v.lib.is_view()), "views"))
    }
    with_ty!(c.ty, go(c))
}
/// equal results: the same shape and elements (up to rounding)
fn close<T: El>(x: &Print, y: &Print, m: Option<&Nd>) -> bool {
    x.shape == y.shape
        && x.count == y.count
        && x.elems.iter().zip(&y.elems).enumerate().all(|(i, (a, b))| match (a, b) {
            (Some(a), Some(b)) => same_num::<T>(*a, *b, m.map_or(a.abs(), |m| m.mag[i])),
            (None, None) => true,
            _ => false,
        })
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bad {
    ty: Ty,
    call: u8,
    l: Vec<usize>,
    r: Vec<usize>,
    lk: Kind,
    rk: Kind,
    swap: bool,
    grads: bool,
    form: u32,
    at: u16,
    vseed: u64,
}
const CALLS: u8 = 14;
fn bad(_: Tier) -> BoxedStrategy<Bad> {
    let d = || prop_oneof![4 => Just(1usize), 3 => Just(2), 3 => Just(3), 1 => Just(4), 1 => Just(0), 1 => Just(6)];
    let s = move || prop::collection::vec(d(), 0..5);
    let free = (s(), s());
    // equal except at one place: a dimension changed, added, removed, two swapped, or split differently
    let near = (s(), any::<prop::sample::Index>(), any::<prop::sample::Index>(), d(), 0u8..6).prop_map(|(s, i, j, d, how)| {
        let mut t = s.clone();
        if t.is_empty() {
            t.push(d);
        } else {
            let (i, j) = (i.index(t.len()), j.index(t.len()));
            match how {
                0 => t[i] = d,
                1 => t.insert(i, d),
                2 => {
                    t.remove(i);
                }
                3 => t.swap(i, j),
                4 => t.push(1),
                _ => t[i] += 1,
            }
        }
        (s, t)
    });
    // matrices and batches whose sizes almost fit
    let mats = (prop::option::of(d()), d(), d(), d(), d(), 0u8..6).prop_map(|(b, m, k, k2, n, how)| {
        let mut l = vec![m, k];
        if let Some(b) = b {
            l.insert(0, b);
        }
        match how {
            0 | 1 => (l, vec![k2, n]),
            2 => (l, vec![n, k]),
            3 => (l.clone(), vec![l[0], k, n]),
            4 => (l, vec![k]),
            _ => (vec![k], vec![k, n]),
        }
    });
    (ty(), 0..CALLS, prop_oneof![free, near, mats], kind(), kind(), any::<bool>(), any::<bool>(), any::<u32>(), any::<u16>(), any::<u64>())
        .prop_map(|(ty, call, (l, r), lk, rk, swap, grads, form, at, vseed)| Bad { ty, call, l, r, lk, rk, swap, grads, form, at, vseed })
        .boxed()
}
fn bad_check(c: &Bad) -> Check {
    fn go<T: El>(c: &Bad) -> Check {
        let (ls, rs) = if c.swap { (&c.r, &c.l) } else { (&c.l, &c.r) };
        let l = Nd::new(ls.clone(), values::<T>(c.vseed, 1, count(ls)));
        let r = Nd::new(rs.clone(), values::<T>(c.vseed, 2, count(rs)));
        let (ll, rl): (Lib<T>, Lib<T>) = (build(&l, &c.lk), build(&r, &c.rk));
        if c.grads {
            seed_grad(&ll, &l, c.vseed, 3);
            seed_grad(&rl, &r, c.vseed, 4);
        }
        let (pl, pr) = (print(&ll), print(&rl));
        let rank0 = ls.is_empty() || rs.is_empty();
        let f = c.form;
        let call = c.call % CALLS;
        let mut extra: Vec<(Lib<T>, Print)> = vec![];
        let (invalid, name): (bool, &str) = match call {
            0 => (l.add(&r).is_none(), "addition"),
            1 => (l.add(&r).is_none(), "subtraction"),
            2 => (!rank0 && ls != rs, "multiplication"),
            3 => (!rank0 && ls != rs, "element-wise multiplication"),
            4 => (!rank0 && ls != rs, "dot product"),
            5 | 6 => (l.matmul(&r).is_none(), "matrix product"),
            7 => (l.count() != 1, "elem"),
            8 => (l.count() > 1, "backward"),
            9 | 10 => (!ls.is_empty(), "slice"),
            // a range too many or too few
            13 => (true, "slice with a wrong number of ranges"),
            // a gradient that cannot be added to the one that is there
            12 => (l.add(&r).is_none() && c.grads && !ll.is_view(), "gradient update"),
            _ => (l.add(&r).is_none(), "addition of a result"),
        };
        if !invalid {
            return Ok(Info::discard());
        }
        let sums = |m: &Nd| T::EPS == 0.0 || m.count() > 0;
        let refused = match call {
            0 => refused(|| ops::add(&ll, &rl, f)),
            1 => refused(|| ops::sub(&ll, &rl, f)),
            2 => refused(|| ops::mul(&ll, &rl, f)),
            3 => refused(|| ops::ew_mul(&ll, &rl)),
            4 => refused(|| ops::dot(&ll, &rl, f)),
            5 | 6 => refused(|| ops::bmm(&ll, &rl, f)),
            7 => refused(|| on!(&ll, x => x.elem())),
            8 => {
                // a differentiable result with several elements
                let t = ops::to_rc(&ll);
                let out = match f % 5 {
                    0 => &t + &t,
                    1 => -&t,
                    2 => &RcTensor::scalar(T::one()) * &t,
                    3 => &t - &RcTensor::scalar(T::one()),
                    _ if T::REAL => T::unary(f as u8 / 8 % 3, &t).unwrap(),
                    _ => &t * &t,
                };
                for x in [&t, &out] {
                    extra.push((Lib::Rc(x.clone()), print(&Lib::Rc(x.clone()))));
                }
                refused(|| out.backward())
            }
            9 | 10 => {
                let at = c.at as usize % ls.len();
                let ranges: Vec<(usize, usize)> = ls
                    .iter()
                    .enumerate()
                    .map(|(d, &n)| {
                        if d != at {
                            (0, n)
                        } else {
                            let end = n + 1 + (f as usize >> 4) % 3;
                            ([0, n.saturating_sub(1), n, end - 1][(f as usize >> 8) % 4].min(end), end)
                        }
                    })
                    .collect();
                refused(|| ops::slice(&ll, &ranges, f))
            }
            13 => {
                let n = ls.len() + if c.at & 1 == 0 && !ls.is_empty() { 0 } else { 2 } - 1;
                let mut ranges = ops::whole(ls);
                ranges.resize(n, (0, c.at as usize >> 1 & 1));
                if c.at & 4 == 4 {
                    // from the front
                    ranges.rotate_right(1.min(n));
                    ranges.iter_mut().zip(ls).for_each(|(r, &d)| r.1 = r.1.min(d));
                }
                refused(|| ops::slice(&ll, &ranges, f))
            }
            12 => {
                let d: RcTensor<T> = rc(&r);
                refused(|| match &ll {
                    Lib::Rc(t) => t.update_grad(d),
                    Lib::Raw(t) => t.update_grad(d),
                    Lib::View(_) => unreachable!(),
                })
            }
            _ => {
                // the operands are results of operations themselves
                let (x, y) = (ops::to_rc(&ll), ops::to_rc(&rl));
                let (a, b) = (-&x, &y + &y);
                for t in [&x, &y, &a, &b] {
                    extra.push((Lib::Rc(t.clone()), print(&Lib::Rc(t.clone()))));
                }
                refused(|| &a + &b) && refused(|| &b - &a)
            }
        };
        let shapes = format!("{name} of {ls:?} and {rs:?}");
        ensure!(refused, "{shapes} is not refused");
        // nothing changed
        for (what, lib, before) in [("left", &ll, &pl), ("right", &rl, &pr)].into_iter().chain(extra.iter().map(|(a, b)| ("intermediate", a, b))) {
            if let Some(d) = changed(before, &print(lib), true) {
                return Err(format!("after the refused {shapes}: {what} operand: {d}"));
            }
        }
        // everything still works
        for (what, lib, m, seeded, salt) in [("left", &ll, &l, c.grads, 3), ("right", &rl, &r, c.grads, 4)] {
            expect_lib(&format!("after the refused {shapes}: {what} operand plus itself"), &ops::add(lib, lib, f), &m.add(m).unwrap())?;
            if let Lib::Rc(t) = lib {
                seed_grad(lib, m, c.vseed, 5);
                let mut want = Nd::new(m.shape.clone(), values::<T>(c.vseed, 5, m.count()));
                if seeded {
                    want.add_assign(&Nd::new(m.shape.clone(), values::<T>(c.vseed, salt, m.count())));
                }
                let g = grad_of(t).ok_or(format!("after the refused {shapes}: the gradient of the {what} operand is gone"))?;
                expect(&format!("after the refused {shapes}: gradient of the {what} operand"), &g, &want)?;
                if m.count() > 0 && sums(m) {
                    t.zero_grad();
                    t.sum().backward();
                    let ones = m.map(|_| 1.0, |_| 1.0);
                    let g = grad_of(t).ok_or("no gradient after a later backward pass")?;
                    expect(&format!("after the refused {shapes}: later gradient of the {what} operand"), &g, &ones)?;
                }
            }
        }
        Ok(Info::new(true)
            .label(ll.is_view() || rl.is_view(), "view-operand")
            .label(c.grads, "pending-gradients")
            .label(call == 0 || call == 1, "add-sub")
            .label((2..=4).contains(&call), "mul-dot")
            .label(call == 5 || call == 6, "matmul")
            .label((2..=4).contains(&call) && count(ls) == count(rs), "mul-dot-same-count")
            .label(call == 9 || call == 10 || call == 13, "slice")
            .label(call == 8, "backward")
            .label(call == 12, "gradient-update"))
    }
    with_ty!(c.ty, go(c))
}

/// Refused gradient updates and refused operations in the middle of a program: what follows is unaffected.
fn wild(_: Tier) -> BoxedStrategy<Hist> {
    hist_with(20)
}
fn wild_check(c: &Hist) -> Check {
    fn go<T: El>(c: &Hist) -> Check {
        let mut p: Prog<T> = Prog::new(c.vseed, 60);
        for (k, (s, kind, grad)) in c.start.iter().enumerate() {
            let m = Nd::new(s.clone(), values::<T>(c.vseed, 500 + k as u64, count(s)));
            let lib: Lib<T> = build(&m, kind);
            if *grad {
                seed_grad(&lib, &m, c.vseed, 600 + k as u64);
            }
            p.push(lib, m, Act::New { how: 0, shape: s.clone(), salt: 0 });
        }
        let (mut bad, mut good) = (0, 0);
        for (op, wild) in &c.ops {
            if op.code >= CODES {
                continue;
            }
            let act = p.plan(op, *wild)?;
            let model = p.model(&act);
            let shapes = || act.operands().iter().map(|&i| p.shape(i).clone()).collect::<Vec<_>>();
            match model {
                Some(m) => {
                    if !p.fits(&m) || p.undecided(&act) {
                        continue;
                    }
                    // that allowed operations succeed is another property; here only what comes after matters
                    if let Ok(lib) = p.run(&act) {
                        good += 1;
                        p.push(lib, m, act);
                    }
                }
                None => {
                    let o = act.operands();
                    // dotting with a scalar is neither promised nor forbidden
                    if matches!(act, Act::Dot(..) | Act::EwMul(..)) && o.iter().any(|&i| p.shape(i).is_empty()) {
                        continue;
                    }
                    let before: Vec<Print> = o.iter().map(|&i| print(&p.vals[i].lib)).collect();
                    ensure!(p.run(&act).is_err(), "{act:?} on {:?} is not refused", shapes());
                    for (i, b) in o.iter().zip(&before) {
                        if let Some(d) = changed(b, &print(&p.vals[*i].lib), true) {
                            return Err(format!("the refused {act:?} on {:?} changed operand {i}: {d}", shapes()));
                        }
                    }
                    bad += 1;
                }
            }
        }
        Ok(Info::new(bad >= 1 && good >= 1).label(bad >= 3, "3+refusals"))
    }
    with_ty!(c.ty, go(c))
}

pub fn property_c17() -> Property {
    Property {
        id: "C17",
        shards: 8,
        suites: vec![
            Box::new(S { name: "history", rule: "at least two operations succeeded with a gradient pending somewhere", cases: (150_000, 3_750_000), strategy: hist, check: hist_check }),
            Box::new(S { name: "history-long", rule: "as history, up to 50 operations", cases: (10_000, 250_000), strategy: hist_long, check: hist_check }),
            crate::c12::frozen(),
        ],
        assumptions: &["an owned tensor's gradient is observed on a copy of it"],
    }
}
pub fn property_c18() -> Property {
    Property {
        id: "C18",
        shards: 8,
        suites: vec![
            Box::new(S { name: "refusal", rule: "the call is not allowed (allowed ones are discarded)", cases: (900_000, 22_500_000), strategy: bad, check: bad_check }),
            Box::new(S { name: "program", rule: "at least one operation was refused and one succeeded", cases: (250_000, 6_250_000), strategy: wild, check: wild_check }),
            crate::c12::misfits(),
        ],
        assumptions: &["refusal is a panic or an Err; a scalar is a tensor of rank 0", "multiplying or dotting with a scalar of a different shape is not judged here"],
    }
}
pub fn property_c19() -> Property {
    Property {
        id: "C19",
        shards: 8,
        suites: vec![
            Box::new(S { name: "program", rule: "at least four operations, four deep", cases: (400_000, 10_000_000), strategy: prog_small, check: prog_check }),
            Box::new(S { name: "program-long", rule: "as program, 14 to 60 (thorough: 150) operations", cases: (50_000, 1_250_000), strategy: prog_long, check: prog_check }),
            Box::new(S { name: "program-temporaries", rule: "as program, at least three operands handed over by value", cases: (150_000, 3_750_000), strategy: prog_small, check: prog_check_owned }),
            Box::new(S { name: "program-large", rule: "as program, tensors of up to 1500 elements", cases: (25_000, 625_000), strategy: prog_small, check: prog_check_big }),
        ],
        assumptions: &["integer magnitudes are kept below 1e9 (1e7 for i32): overflow is outside the property"],
    }
}
