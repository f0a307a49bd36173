//! C02: gradient bookkeeping over histories of passes, resets, hand-made updates, clones and deep clones.
use crate::framework::*;
use crate::gens::*;
use crate::graph::*;
use crate::lib_tensor::*;
use crate::model::*;
use crate::{ensure, with_ty};
use proptest::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Leaf(Vec<usize>),
    Op(OpSpec),
    Backward { at: u16, fin: u32 },
    /// backward again on a result on which it was run before
    Again(u16),
    Zero(u16),
    Update(u16),
    /// a tensor of the same shape, or a gradient read from one (also its own), is added by hand
    UpdateFrom { at: u16, from: u16, grad: bool },
    Clone(u16),
    DeepClone(u16),
    Snapshot(u16),
    /// a stored gradient (copied) becomes an operand
    UseGrad(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: Ty,
    cmds: Vec<Cmd>,
    vseed: u64,
}
fn cmd(elems: usize) -> impl Strategy<Value = Cmd> {
    let sel = any::<u16>;
    prop_oneof![
        2 => shape0(3, elems).prop_map(Cmd::Leaf),
        6 => op_spec(OPS).prop_map(Cmd::Op),
        4 => (sel(), any::<u32>()).prop_map(|(at, fin)| Cmd::Backward { at, fin }),
        2 => sel().prop_map(Cmd::Again),
        2 => sel().prop_map(Cmd::Zero),
        2 => sel().prop_map(Cmd::Update),
        2 => (sel(), sel(), any::<bool>()).prop_map(|(at, from, grad)| Cmd::UpdateFrom { at, from, grad }),
        2 => sel().prop_map(Cmd::Clone),
        2 => sel().prop_map(Cmd::DeepClone),
        2 => sel().prop_map(Cmd::Snapshot),
        1 => sel().prop_map(Cmd::UseGrad),
    ]
}
fn strategy(_: Tier) -> BoxedStrategy<Case> {
    (prop_oneof![6 => Just(Ty::I64), 1 => Just(Ty::I128), 1 => Just(Ty::F64)], prop::collection::vec(cmd(60), 2..26), any::<u64>())
        .prop_map(|(ty, cmds, vseed)| Case { ty, cmds, vseed })
        .boxed()
}
fn strategy_long(_: Tier) -> BoxedStrategy<Case> {
    (prop_oneof![6 => Just(Ty::I64), 1 => Just(Ty::F64)], prop::collection::vec(cmd(40), 60..160), any::<u64>())
        .prop_map(|(ty, cmds, vseed)| Case { ty, cmds, vseed })
        .boxed()
}

fn check(c: &Case) -> Check {
    fn go<T: El>(c: &Case) -> Check {
        run::<T>(c)
    }
    with_ty!(c.ty, go(c))
}

fn run<T: El>(c: &Case) -> Check {
    let mut g: Graph<T> = Graph::new(c.vseed, Limits { elems: 100, cost: 3_000.0, mag: 1e4 });
    // expected gradient per node
    let mut want: Vec<Option<Nd>> = vec![];
    // further handles to a node's tensor
    let mut handles: Vec<(usize, RcTensor<T>)> = vec![];
    // gradients read earlier, and what they were
    let mut snaps: Vec<(RcTensor<T>, Nd)> = vec![];
    let mut roots: Vec<usize> = vec![];
    let (mut passes, mut resets, mut overlap, mut dirty_reuse) = (0, 0, false, false);
    g.leaf(&[2]);
    for (step, cmd) in c.cmds.iter().enumerate() {
        if g.nodes.len() > 120 {
            break;
        }
        let at = |s: u16| s as usize % g.nodes.len();
        match cmd {
            Cmd::Leaf(s) => {
                g.leaf(s);
            }
            Cmd::Op(op) => {
                g.apply(op)?;
            }
            Cmd::Backward { at: s, fin } => {
                let i = at(*s);
                if let Some(root) = g.finish(i, *fin)? {
                    roots.push(root);
                    want.resize(g.nodes.len(), None);
                    pass(&mut g, &mut want, root, &mut passes, &mut overlap)?;
                }
            }
            Cmd::Again(s) => {
                if !roots.is_empty() {
                    let root = roots[*s as usize % roots.len()];
                    dirty_reuse = true;
                    want.resize(g.nodes.len(), None);
                    pass(&mut g, &mut want, root, &mut passes, &mut overlap)?;
                }
            }
            Cmd::Zero(s) => {
                let i = at(*s);
                g.nodes[i].lib.zero_grad();
                want.resize(g.nodes.len(), None);
                resets += want[i].is_some() as u32;
                want[i] = None;
            }
            Cmd::Update(s) => {
                let i = at(*s);
                let d = g.fresh_values(&g.nodes[i].val.shape.clone());
                g.nodes[i].lib.update_grad(rc(&d));
                want.resize(g.nodes.len(), None);
                match &mut want[i] {
                    Some(w) => w.add_assign(&d),
                    n => *n = Some(d),
                }
            }
            Cmd::UpdateFrom { at: s, from, grad } => {
                let i = at(*s);
                want.resize(g.nodes.len(), None);
                let of_shape = |j: &usize| g.nodes[*j].val.shape == g.nodes[i].val.shape && (!*grad || want[*j].is_some());
                // its own gradient in a third of the cases
                let j = match (0..g.nodes.len()).filter(of_shape).collect::<Vec<_>>() {
                    _ if *grad && from % 3 == 0 && want[i].is_some() => Some(i),
                    v if v.is_empty() => None,
                    v => Some(v[*from as usize % v.len()]),
                };
                let Some(j) = j else { continue };
                let d = if *grad { want[j].clone().unwrap() } else { g.nodes[j].val.clone() };
                if !(d.max_mag() < 1e5) || undecided(&[Some(d.clone())]) {
                    continue;
                }
                let given = if *grad { grad_of(&g.nodes[j].lib).ok_or("no gradient to read")? } else { g.nodes[j].lib.clone() };
                g.nodes[i].lib.update_grad(given.clone());
                snaps.push((given, d.clone()));
                match &mut want[i] {
                    Some(w) => w.add_assign(&d),
                    n => *n = Some(d),
                }
            }
            Cmd::Clone(s) => {
                let i = at(*s);
                let old = g.nodes[i].lib.clone();
                handles.push((i, std::mem::replace(&mut g.nodes[i].lib, old)));
            }
            Cmd::DeepClone(s) => {
                let i = at(*s);
                let lib = g.nodes[i].lib.deep_clone();
                let val = g.nodes[i].val.clone();
                expect("deep clone", &lib, &val)?;
                g.nodes.push(Node { lib, val, rule: Rule::Leaf, cost: 0.0 });
            }
            Cmd::Snapshot(s) => {
                let i = at(*s);
                if let Some(l) = grad_of(&g.nodes[i].lib) {
                    want.resize(g.nodes.len(), None);
                    match &want[i] {
                        Some(w) => snaps.push((l, w.clone())),
                        None => return Err(format!("step {step}: node {i} has a gradient although nothing contributed to it")),
                    }
                }
            }
            Cmd::UseGrad(s) => {
                let i = at(*s);
                if let Some(l) = grad_of(&g.nodes[i].lib) {
                    want.resize(g.nodes.len(), None);
                    if let Some(w) = want[i].clone().filter(|w| w.max_mag() < 1e4) {
                        g.nodes.push(Node { lib: l.deep_clone(), val: w, rule: Rule::Leaf, cost: 0.0 });
                    }
                }
            }
        }
        want.resize(g.nodes.len(), None);
        let all = g.nodes.iter().map(|n| &n.lib).enumerate().chain(handles.iter().map(|h| (h.0, &h.1)));
        for (i, lib) in all {
            let name = format!("after step {step} ({cmd:?}): gradient of node {i} ({:?})", g.nodes[i].rule);
            match (grad_of(lib), &want[i]) {
                (None, None) => {}
                (Some(l), Some(w)) => expect(&name, &l, w)?,
                (Some(_), None) => return Err(format!("{name} exists although nothing contributed to it since its last reset")),
                (None, Some(_)) => return Err(format!("{name} is missing")),
            }
        }
        for (k, (l, w)) in snaps.iter().enumerate() {
            expect(&format!("after step {step} ({cmd:?}): gradient {k} read earlier"), l, w)?;
        }
    }
    for (i, n) in g.nodes.iter().enumerate() {
        expect(&format!("value of node {i} at the end"), &n.lib, &n.val)?;
    }
    ensure!(want.len() == g.nodes.len(), "harness bug");
    Ok(Info::new(passes >= 2 && overlap)
        .label(passes >= 4, "4+passes")
        .label(resets > 0, "reset-nonempty")
        .label(overlap, "overlapping-passes")
        .label(dirty_reuse, "repeated-backward")
        .label(!snaps.is_empty(), "snapshot"))
}

fn pass<T: El>(g: &mut Graph<T>, want: &mut [Option<Nd>], root: usize, passes: &mut u32, overlap: &mut bool) -> Result<(), String> {
    let adj = g.adjoints(root);
    if undecided(&adj) || Graph::<T>::adjoint_mag(&adj) > 1e9 {
        return Ok(());
    }
    if adj.iter().zip(want.iter()).any(|(a, w)| a.is_some() && w.as_ref().is_some_and(|w| w.max_mag() > 1e12)) {
        return Ok(());
    }
    g.nodes[root].lib.backward();
    *passes += 1;
    for (w, a) in want.iter_mut().zip(adj) {
        if let Some(a) = a {
            match w {
                Some(w) => {
                    *overlap = true;
                    w.add_assign(&a)
                }
                n => *n = Some(a),
            }
        }
    }
    Ok(())
}

// ---- owned tensors keep a gradient of their own, visible through copies made of them

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCase {
    ty: Ty,
    shape: Vec<usize>,
    /// 0 zero, 1 update, 2 copy, 3 deep clone
    cmds: Vec<u8>,
    vseed: u64,
}
fn raw_strategy(_: Tier) -> BoxedStrategy<RawCase> {
    (ty_exact(), shape(3, 50), prop::collection::vec(0u8..4, 1..12), any::<u64>())
        .prop_map(|(ty, shape, cmds, vseed)| RawCase { ty, shape, cmds, vseed })
        .boxed()
}
fn raw_check(c: &RawCase) -> Check {
    fn go<T: El>(c: &RawCase) -> Check {
        let n = count(&c.shape);
        let m = Nd::new(c.shape.clone(), values::<T>(c.vseed, 0, n));
        let t: RawTensor<T> = raw(&m);
        let mut want: Option<Nd> = None;
        let mut copies: Vec<(RcTensor<T>, Option<Nd>)> = vec![];
        let mut updates = 0;
        for (k, cmd) in c.cmds.iter().enumerate() {
            match cmd {
                0 => {
                    t.zero_grad();
                    want = None;
                }
                1 => {
                    let d = Nd::new(c.shape.clone(), values::<T>(c.vseed, 1 + k as u64, n));
                    t.update_grad(rc(&d));
                    updates += 1;
                    match &mut want {
                        Some(w) => w.add_assign(&d),
                        w => *w = Some(d),
                    }
                }
                2 => copies.push((t.to_tensor(), want.clone())),
                _ => copies.push((t.deep_clone(), None)),
            }
            for (l, w) in copies.iter().chain([(t.to_tensor(), want.clone())].iter()) {
                expect("copy of an owned tensor", l, &m)?;
                match (grad_of(l), w) {
                    (None, None) => {}
                    (Some(g), Some(w)) => expect(&format!("after command {k}: gradient of an owned tensor"), &g, w)?,
                    (a, b) => return Err(format!("after command {k}: gradient present: {}, expected: {}", a.is_some(), b.is_some())),
                }
            }
        }
        Ok(Info::new(updates >= 2))
    }
    with_ty!(c.ty, go(c))
}

// ---- very many accumulations into one tensor

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyCase {
    len: usize,
    passes: u32,
    by_hand: bool,
    vseed: u64,
}
fn many_strategy(t: Tier) -> BoxedStrategy<ManyCase> {
    let hi = if t == Tier::Quick { 30_000 } else { 300_000 };
    (1usize..5, 1_000u32..hi, any::<bool>(), any::<u64>()).prop_map(|(len, passes, by_hand, vseed)| ManyCase { len, passes, by_hand, vseed }).boxed()
}
fn many_check(c: &ManyCase) -> Check {
    let c = c.clone();
    // a small stack, so that anything whose depth grows with the number of passes shows
    std::thread::Builder::new()
        .stack_size(512 * 1024)
        .spawn(move || {
            let v = values::<i64>(c.vseed, 0, c.len);
            let x: RcTensor<i64> = rc(&Nd::new(vec![c.len], v));
            let w = Nd::new(vec![c.len], values::<i64>(c.vseed, 1, c.len));
            let wl: RcTensor<i64> = rc(&w);
            for _ in 0..c.passes {
                if c.by_hand {
                    x.update_grad(wl.clone());
                } else {
                    functional::dot(&x, &wl).backward();
                }
            }
            let want = w.map(|a| a * c.passes as f64, |m| m);
            expect(&format!("gradient after {} contributions", c.passes), &x.grad(), &want)?;
            x.zero_grad();
            ensure!(grad_of(&x).is_none(), "gradient survives a reset");
            Ok(Info::new(c.passes > 5000))
        })
        .unwrap()
        .join()
        .map_err(|_| "panicked".to_string())?
}

// ---- one result, backward run on it very often, with resets in between

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RepeatCase {
    leaves: Vec<Vec<usize>>,
    ops: Vec<OpSpec>,
    fin: u32,
    passes: u16,
    /// which tensors are reset at which pass
    resets: Vec<(u16, u16)>,
    vseed: u64,
}
fn repeat_strategy(t: Tier) -> BoxedStrategy<RepeatCase> {
    let hi = if t == Tier::Quick { 700 } else { 5_000 };
    (
        prop::collection::vec(shape(3, 30), 1..3),
        prop::collection::vec(op_spec(OPS), 1..6),
        any::<u32>(),
        20u16..hi,
        prop::collection::vec((any::<u16>(), any::<u16>()), 0..6),
        any::<u64>(),
    )
        .prop_map(|(leaves, ops, fin, passes, resets, vseed)| RepeatCase { leaves, ops, fin, passes, resets, vseed })
        .boxed()
}
fn repeat_check(c: &RepeatCase) -> Check {
    let mut g: Graph<i64> = Graph::new(c.vseed, Limits { elems: 60, cost: 400.0, mag: 1e5 });
    for s in &c.leaves {
        g.leaf(s);
    }
    let mut last = 0;
    for op in &c.ops {
        if let Some(i) = g.apply(op)? {
            last = i;
        }
    }
    let Some(root) = g.finish(last, c.fin)? else { return Ok(Info::discard()) };
    let adj = g.adjoints(root);
    if Graph::<i64>::adjoint_mag(&adj) > 1e10 {
        return Ok(Info::discard());
    }
    let mut times = vec![0u32; g.nodes.len()];
    for p in 0..c.passes {
        g.nodes[root].lib.backward();
        times.iter_mut().for_each(|t| *t += 1);
        for (i, at) in &c.resets {
            if *at % c.passes == p {
                let i = *i as usize % g.nodes.len();
                g.nodes[i].lib.zero_grad();
                times[i] = 0;
            }
        }
        // at powers of two (and around them) and at the end
        if (p + 1).is_power_of_two() || (p + 2).is_power_of_two() || p.is_power_of_two() || p + 1 == c.passes {
            for (i, n) in g.nodes.iter().enumerate() {
                match (grad_of(&n.lib), &adj[i]) {
                    (Some(l), Some(a)) if times[i] > 0 => {
                        let t = times[i] as f64;
                        expect(&format!("gradient of node {i} ({:?}) after {} passes since its reset", n.rule, times[i]), &l, &a.map(|x| x * t, |m| m * t))?
                    }
                    (None, Some(_)) if times[i] == 0 => {}
                    (None, None) => {}
                    (l, a) => return Err(format!("gradient of node {i} ({:?}) after {} passes since its reset: present {}, expected {}", n.rule, times[i], l.is_some(), a.is_some())),
                }
            }
        }
    }
    Ok(Info::new(c.passes > 100 && adj.iter().flatten().count() > 2).label(c.passes > 512, "over-512-passes").label(!c.resets.is_empty(), "resets"))
}

pub fn property() -> Property {
    Property {
        id: "C02",
        shards: 8,
        suites: vec![
            Box::new(S { name: "history", rule: "at least two passes were run and one added to a gradient that was already there", cases: (50_000, 1_250_000), strategy, check }),
            Box::new(S { name: "history-long", rule: "as history, 60-160 commands", cases: (3_000, 75_000), strategy: strategy_long, check }),
            Box::new(S { name: "owned", rule: "at least two updates of an owned tensor's gradient", cases: (8_000, 80_000), strategy: raw_strategy, check: raw_check }),
            Box::new(S { name: "repeat", rule: "more than 100 passes over one graph with more than two tensors", cases: (1_500, 37_500), strategy: repeat_strategy, check: repeat_check }),
            Box::new(S { name: "many", rule: "more than 5000 contributions to one tensor", cases: (16, 160), strategy: many_strategy, check: many_check }),
        ],
        assumptions: &["passes whose gradients depend on a kink convention or could overflow are skipped (the pass is not run)"],
    }
}
