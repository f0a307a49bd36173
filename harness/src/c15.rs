//! C15: the same computations in every pool and calling context. C16: concurrent accumulation.
use crate::c01;
use crate::ensure;
use crate::framework::*;
use crate::gens::*;
use crate::graph::*;
use crate::lib_tensor::*;
use crate::model::*;
use proptest::prelude::*;
use rayon::prelude::*;
use rust_light::tensor::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    /// any expression, forward and backward, against the reference
    Dag(c01::Case),
    /// a larger matrix product, forward and backward
    Mm { ty: Ty, batch: Option<usize>, m: usize, k: usize, n: usize, vseed: u64 },
    /// only a forward product of operands shared by all jobs of the case
    Shared,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ctx {
    /// ordinary thread (the global pool works)
    Outside,
    /// one ordinary thread per job
    OsThreads,
    /// inside a worker, one job after the other
    Install,
    /// binary tree of rayon::join inside a worker
    Join,
    /// one spawned task per job inside a worker
    Spawn,
    ParIter,
    /// a worker of another pool enters this one
    OtherPool,
    /// ordinary threads that each enter the pool at the same time
    OsInstall,
}
const CTX: [Ctx; 8] = [Ctx::Outside, Ctx::OsThreads, Ctx::Install, Ctx::Join, Ctx::Spawn, Ctx::ParIter, Ctx::OtherPool, Ctx::OsInstall];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pools {
    threads: usize,
    ctx: Ctx,
    jobs: Vec<Job>,
    vseed: u64,
}
fn job(elems: usize, work: usize) -> BoxedStrategy<Job> {
    let d = || prop_oneof![3 => dim().boxed(), 2 => edge_dim(66)];
    let mm = (ty(), prop::option::of(dim()), d(), d(), d(), any::<u64>()).prop_map(move |(ty, batch, mut m, mut k, mut n, vseed)| {
        while batch.unwrap_or(1) * m * k * n > work {
            let top = m.max(k).max(n);
            for x in [&mut m, &mut k, &mut n] {
                if *x == top {
                    *x = (*x / 2).max(1);
                    break;
                }
            }
        }
        Job::Mm { ty, batch, m, k, n, vseed }
    });
    prop_oneof![4 => c01::strategy_with(3, elems, 8).prop_map(Job::Dag), 4 => mm, 1 => Just(Job::Shared)].boxed()
}
fn pools_with(elems: usize, work: usize, jobs: usize) -> BoxedStrategy<Pools> {
    (prop_oneof![3 => Just(1usize), 3 => Just(2), 1 => 3usize..9], proptest::sample::select(CTX.to_vec()), prop::collection::vec(job(elems, work), 1..jobs), any::<u64>())
        .prop_map(|(threads, ctx, jobs, vseed)| Pools { threads, ctx, jobs, vseed })
        .boxed()
}
fn pools(_: Tier) -> BoxedStrategy<Pools> {
    pools_with(60, 600, 7)
}
fn pools_large(t: Tier) -> BoxedStrategy<Pools> {
    pools_with(150, if t == Tier::Quick { 12_000 } else { 60_000 }, 6)
}
fn mm_job<T: El>(batch: Option<usize>, m: usize, k: usize, n: usize, vseed: u64) -> Result<(), String> {
    let mut ls = vec![m, k];
    if let Some(b) = batch {
        ls.insert(0, b);
    }
    let rs = vec![k, n];
    let l = Nd::new(ls.clone(), values::<T>(vseed, 1, count(&ls)));
    let r = Nd::new(rs.clone(), values::<T>(vseed, 2, count(&rs)));
    let out = l.matmul(&r).unwrap();
    let w = Nd::new(out.shape.clone(), values::<T>(vseed, 3, out.count()));
    let (ll, rl, wl): (RcTensor<T>, RcTensor<T>, RcTensor<T>) = (rc(&l), rc(&r), rc(&w));
    let y = ll.bmm(&rl);
    expect(&format!("product of {ls:?} and {rs:?}"), &y, &out)?;
    functional::dot(&y, &wl).backward();
    let rows = l.count() / k;
    let w2 = w.reshape(vec![rows, n]);
    let gl = w2.matmul(&r.matrix_transpose()).unwrap().reshape(ls.clone());
    let gr = l.reshape(vec![rows, k]).matrix_transpose().matmul(&w2).unwrap();
    expect(&format!("gradient of the left operand of {ls:?} x {rs:?}"), &ll.grad(), &gl)?;
    expect(&format!("gradient of the right operand of {ls:?} x {rs:?}"), &rl.grad(), &gr)
}
struct SharedOps {
    l: RcTensor<i64>,
    r: RcTensor<i64>,
    want: Nd,
    sum: Nd,
}
fn run_job(j: &Job, s: &SharedOps) -> Result<bool, String> {
    // panics of the code under test become failures of the case, not of the pool
    guard(|| match j {
        Job::Dag(c) => {
            fn go<T: El>(c: &c01::Case) -> Check {
                c01::run::<T>(c, Limits::default())
            }
            crate::with_ty!(c.ty, go(c)).map(|i| i.nontrivial)
        }
        Job::Mm { ty, batch, m, k, n, vseed } => crate::with_ty!(ty, mm_job(*batch, *m, *k, *n, *vseed)).map(|_| true),
        Job::Shared => {
            for _ in 0..3 {
                expect("product of operands shared by several jobs", &s.l.bmm(&s.r), &s.want)?;
                expect("sum of operands shared by several jobs", &(&s.l + &s.l), &s.sum)?;
            }
            Ok(true)
        }
    })
    .unwrap_or_else(Err)
}
fn pools_check(c: &Pools) -> Check {
    let l = Nd::new(vec![3, 5], values::<i64>(c.vseed, 1, 15));
    let r = Nd::new(vec![5, 4], values::<i64>(c.vseed, 2, 20));
    let s = SharedOps { l: rc(&l), r: rc(&r), want: l.matmul(&r).unwrap(), sum: l.add(&l).unwrap() };
    let s = &s;
    let build = |n: usize| rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
    fn tree(jobs: &[Job], s: &SharedOps) -> Vec<Result<bool, String>> {
        match jobs {
            [] => vec![],
            [j] => vec![run_job(j, s)],
            _ => {
                let (a, b) = jobs.split_at(jobs.len() / 2);
                let (mut x, y) = rayon::join(|| tree(a, s), || tree(b, s));
                x.extend(y);
                x
            }
        }
    }
    let jobs = &c.jobs[..];
    let results: Vec<Result<bool, String>> = match c.ctx {
        Ctx::Outside => jobs.iter().map(|j| run_job(j, s)).collect(),
        Ctx::OsThreads => std::thread::scope(|sc| {
            let h: Vec<_> = jobs.iter().map(|j| sc.spawn(move || run_job(j, s))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        }),
        Ctx::Install => build(c.threads).install(|| jobs.iter().map(|j| run_job(j, s)).collect()),
        Ctx::Join => build(c.threads).install(|| tree(jobs, s)),
        Ctx::Spawn => {
            let out = Mutex::new(vec![]);
            build(c.threads).scope(|sc| {
                for j in jobs {
                    let out = &out;
                    sc.spawn(move |_| {
                        let r = run_job(j, s);
                        out.lock().unwrap().push(r);
                    });
                }
            });
            out.into_inner().unwrap()
        }
        Ctx::ParIter => build(c.threads).install(|| jobs.par_iter().map(|j| run_job(j, s)).collect()),
        Ctx::OtherPool => {
            let (a, b) = (build(1), build(c.threads));
            a.install(|| jobs.par_iter().map(|j| b.install(|| run_job(j, s))).collect())
        }
        Ctx::OsInstall => {
            let p = build(c.threads);
            let p = &p;
            std::thread::scope(|sc| {
                let h: Vec<_> = jobs.iter().map(|j| sc.spawn(move || p.install(|| run_job(j, s)))).collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
    };
    ensure!(results.len() == jobs.len(), "{} results of {} jobs", results.len(), jobs.len());
    let mut nt = 0;
    for (i, r) in results.into_iter().enumerate() {
        nt += r.map_err(|e| format!("job {i}, {:?} with {} threads: {e}", c.ctx, c.threads))? as usize;
    }
    let inside = !matches!(c.ctx, Ctx::Outside | Ctx::OsThreads);
    Ok(Info::new(nt >= 1 && (inside || c.ctx == Ctx::OsThreads && nt >= 2))
        .label(inside, "inside-a-worker")
        .label(inside && c.threads == 1, "single-worker")
        .label(nt >= 2 && !matches!(c.ctx, Ctx::Outside | Ctx::Install), "concurrent")
        .label(c.jobs.iter().any(|j| matches!(j, Job::Mm { .. })), "matmul-job"))
}

// ------------------------------------------------------------------ C16

/// An integer whose addition can be made to wait for an addition in another thread, or to take a random time.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Num(i64);
static MODE: AtomicU32 = AtomicU32::new(0);
static WAITING: AtomicUsize = AtomicUsize::new(0);
static MEETINGS: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    /// remaining additions of this thread that wait
    static METERED: Cell<u32> = const { Cell::new(0) };
    static NOISE: Cell<u64> = const { Cell::new(1) };
}
fn meet() {
    match MODE.load(Relaxed) {
        1 => {
            let left = METERED.with(|m| m.get());
            if left == 0 {
                return;
            }
            METERED.with(|m| m.set(left - 1));
            // wait until another thread is in the middle of an addition, but not for long: a library that lets only one
            // thread add at a time is just as right
            let before = MEETINGS.load(SeqCst);
            if WAITING.fetch_add(1, SeqCst) > 0 {
                MEETINGS.fetch_add(1, SeqCst);
            }
            let t = Instant::now();
            while MEETINGS.load(SeqCst) == before && t.elapsed() < Duration::from_micros(300) {
                std::thread::yield_now();
            }
            WAITING.fetch_sub(1, SeqCst);
        }
        2 => {
            let x = NOISE.with(|n| {
                let mut x = n.get();
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                n.set(x);
                x
            });
            match x >> 60 {
                0 => std::thread::yield_now(),
                1..=3 => (0..(x >> 50) & 255).for_each(|_| std::hint::spin_loop()),
                _ => {}
            }
        }
        _ => {}
    }
}
impl std::ops::Add for Num {
    type Output = Num;
    fn add(self, o: Num) -> Num {
        meet();
        Num(self.0 + o.0)
    }
}
impl std::ops::AddAssign for Num {
    fn add_assign(&mut self, o: Num) {
        *self = *self + o;
    }
}
impl std::ops::Sub for Num {
    type Output = Num;
    fn sub(self, o: Num) -> Num {
        Num(self.0 - o.0)
    }
}
impl std::ops::SubAssign for Num {
    fn sub_assign(&mut self, o: Num) {
        *self = *self - o;
    }
}
impl std::ops::Mul for Num {
    type Output = Num;
    fn mul(self, o: Num) -> Num {
        Num(self.0 * o.0)
    }
}
impl std::ops::Neg for Num {
    type Output = Num;
    fn neg(self) -> Num {
        Num(-self.0)
    }
}
impl num::Zero for Num {
    fn zero() -> Num {
        Num(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num::One for Num {
    fn one() -> Num {
        Num(1)
    }
}
impl Numeric for Num {}
impl El for Num {
    const EPS: f64 = 0.0;
    const NAME: &'static str = "Num";
    fn from_f(x: f64) -> Self {
        Num(x as i64)
    }
    fn to_f(self) -> f64 {
        self.0 as f64
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    threads: usize,
    per_thread: usize,
    shape: Vec<usize>,
    /// 0 native integers, 1 additions wait for each other, 2 additions take random time
    mode: u8,
    /// a gradient is there before the threads start
    seeded: bool,
    rounds: u32,
    /// threads are workers of one pool instead of ordinary threads
    pool: bool,
    vseed: u64,
}
/// Runs `f(thread)` in `n` threads that start together, `rounds` times in the same threads. `before`/`after` run in
/// between, alone.
fn together(n: usize, rounds: u32, pool: bool, before: impl Fn(u32) + Sync, f: impl Fn(u32, usize) + Sync, after: impl Fn(u32) -> Result<(), String> + Sync) -> Result<(), String> {
    let gate = Barrier::new(n);
    let ready = AtomicUsize::new(0);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let body = |t: usize| {
        NOISE.with(|x| x.set(0x9E3779B97F4A7C15u64.wrapping_mul(t as u64 + 1)));
        for r in 0..rounds {
            if t == 0 {
                ready.store(0, SeqCst);
                if let Err(e) = guard(|| before(r)) {
                    err.lock().unwrap().get_or_insert(e);
                    stop.store(true, SeqCst);
                }
            }
            gate.wait();
            if stop.load(SeqCst) {
                break;
            }
            // a spinning start line: threads leave within nanoseconds of each other
            ready.fetch_add(1, SeqCst);
            let mut spins = 0u32;
            while ready.load(SeqCst) < n {
                spins += 1;
                if spins % 2000 == 0 {
                    std::thread::yield_now();
                }
                std::hint::spin_loop();
            }
            if let Err(e) = guard(|| f(r, t)) {
                err.lock().unwrap().get_or_insert(format!("thread {t}: {e}"));
                stop.store(true, SeqCst);
            }
            gate.wait();
            if t == 0 && !stop.load(SeqCst) {
                let x = guard(|| after(r)).unwrap_or_else(Err);
                if let Err(e) = x {
                    err.lock().unwrap().get_or_insert(format!("round {r}: {e}"));
                    stop.store(true, SeqCst);
                }
            }
            gate.wait();
            if stop.load(SeqCst) {
                break;
            }
        }
    };
    let body = &body;
    if pool {
        let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
        p.broadcast(|b| body(b.index()));
    } else {
        std::thread::scope(|s| {
            for t in 0..n {
                s.spawn(move || body(t));
            }
        });
    }
    match err.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
fn race_with(rounds: (u32, u32), modes: Vec<u8>) -> BoxedStrategy<Race> {
    (
        prop_oneof![3 => Just(2usize), 2 => Just(3), 2 => Just(4), 1 => Just(8)],
        prop_oneof![3 => Just(1usize), 2 => 2usize..5, 1 => 5usize..30],
        prop_oneof![4 => shape(3, 12), 2 => shape(3, 300), 1 => Just(vec![20_000])],
        proptest::sample::select(modes),
        any::<bool>(),
        rounds.0..rounds.1,
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|(threads, per_thread, shape, mode, seeded, rounds, pool, vseed)| {
            // keep one case's work bounded
            let n = count(&shape);
            let rounds = if n > 5000 { rounds.min(6) } else if n > 100 { rounds.min(60) } else { rounds };
            let per_thread = if n > 5000 { per_thread.min(4) } else { per_thread };
            let (rounds, per_thread) = if mode == 1 { (rounds.min(4), per_thread.min(3)) } else { (rounds, per_thread) };
            Race { threads, per_thread, shape, mode, seeded, rounds, pool, vseed }
        })
        .boxed()
}
fn race(_: Tier) -> BoxedStrategy<Race> {
    race_with((20, 400), vec![0, 0, 0, 1, 2])
}
fn race_check(c: &Race) -> Check {
    MODE.store(c.mode as u32, SeqCst);
    let r = if c.mode == 0 { race_run::<i64>(c) } else { race_run::<Num>(c) };
    MODE.store(0, SeqCst);
    r
}
fn race_run<T: El>(c: &Race) -> Check {
    let n = count(&c.shape);
    let part = |t: usize, j: usize| Nd::new(c.shape.clone(), values::<i64>(c.vseed, (t * 1000 + j) as u64, n));
    let zero = Nd::new(c.shape.clone(), values::<i64>(c.vseed, 999_999, n));
    let mut want = if c.seeded { zero.clone() } else { Nd::zeros(&c.shape) };
    for t in 0..c.threads {
        for j in 0..c.per_thread {
            want.add_assign(&part(t, j));
        }
    }
    let contributions: Vec<Vec<Vec<T>>> = (0..c.threads).map(|t| (0..c.per_thread).map(|j| conv::<T>(&part(t, j).data)).collect()).collect();
    let tensor: RcTensor<T> = RcTensor::new_with_filler(c.shape.clone(), T::one());
    together(
        c.threads,
        c.rounds,
        c.pool,
        |_| {
            METERED.with(|m| m.set(0));
            tensor.zero_grad();
            if c.seeded {
                tensor.update_grad(rc(&zero));
            }
        },
        |_, t| {
            METERED.with(|m| m.set(6));
            let mine: Vec<RcTensor<T>> = contributions[t].iter().map(|v| RcTensor::new(v.clone(), c.shape.clone())).collect();
            for g in mine {
                tensor.update_grad(g);
            }
            METERED.with(|m| m.set(0));
        },
        |_| {
            let g = grad_of(&tensor).ok_or("no gradient after concurrent updates")?;
            expect(&format!("sum of {} contributions of each of {} threads", c.per_thread, c.threads), &g, &want)
        },
    )?;
    Ok(Info::new(true).label(c.mode == 1, "rendezvous").label(!c.seeded, "first-contribution").label(c.pool, "pool-workers").label(n > 32, "over-32-elements"))
}

/// Backward passes that share leaves and intermediate results.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Passes {
    leaves: Vec<Vec<usize>>,
    ops: Vec<OpSpec>,
    fins: Vec<(u16, u32)>,
    /// per thread: which result
    threads: Vec<u8>,
    per_thread: u8,
    mode: u8,
    rounds: u32,
    pool: bool,
    vseed: u64,
}
fn passes(_: Tier) -> BoxedStrategy<Passes> {
    (
        prop::collection::vec(shape(3, 40), 1..3),
        prop::collection::vec(op_spec(OPS), 1..7),
        prop::collection::vec((any::<u16>(), any::<u32>()), 1..4),
        prop::collection::vec(0u8..4, 2..6),
        1u8..4,
        proptest::sample::select(vec![0u8, 0, 0, 1, 2]),
        2u32..60,
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|(leaves, ops, fins, threads, per_thread, mode, rounds, pool, vseed)| Passes {
            leaves,
            ops,
            fins,
            threads,
            per_thread,
            mode,
            rounds: if mode == 1 { rounds.min(4) } else { rounds },
            pool,
            vseed,
        })
        .boxed()
}
fn passes_check(c: &Passes) -> Check {
    MODE.store(c.mode as u32, SeqCst);
    let r = if c.mode == 0 { passes_run::<i64>(c) } else { passes_run::<Num>(c) };
    MODE.store(0, SeqCst);
    r
}
fn passes_run<T: El>(c: &Passes) -> Check {
    METERED.with(|m| m.set(0));
    let mut g: Graph<T> = Graph::new(c.vseed, Limits { elems: 200, cost: 6_000.0, mag: 1e5 });
    for s in &c.leaves {
        g.leaf(s);
    }
    for op in &c.ops {
        g.apply(op)?;
    }
    let body = g.nodes.len();
    let mut roots = vec![];
    for (at, fin) in &c.fins {
        if let Some(r) = g.finish(*at as usize % body, *fin)? {
            roots.push(r);
        }
    }
    if roots.is_empty() {
        return Ok(Info::discard());
    }
    // what every tensor must have received in the end
    let mut want: Vec<Option<Nd>> = vec![None; g.nodes.len()];
    let mut receivers = vec![0; g.nodes.len()];
    let mut reached: Vec<Vec<usize>> = vec![];
    let mine: Vec<usize> = c.threads.iter().map(|&k| roots[k as usize % roots.len()]).collect();
    for &r in &mine {
        let a = g.adjoints(r);
        if Graph::<T>::adjoint_mag(&a) > 1e13 {
            return Ok(Info::discard());
        }
        reached.push((0..a.len()).filter(|&i| a[i].is_some()).collect());
        for (i, d) in a.into_iter().enumerate() {
            if let Some(d) = d {
                receivers[i] += 1;
                let d = d.map(|x| x * c.per_thread as f64, |m| m * c.per_thread as f64);
                match &mut want[i] {
                    Some(w) => w.add_assign(&d),
                    w => *w = Some(d),
                }
            }
        }
    }
    together(
        mine.len(),
        c.rounds,
        c.pool,
        |_| {
            METERED.with(|m| m.set(0));
            g.nodes.iter().for_each(|n| n.lib.zero_grad())
        },
        |_, t| {
            METERED.with(|m| m.set(8));
            for _ in 0..c.per_thread {
                g.nodes[mine[t]].lib.backward();
            }
            METERED.with(|m| m.set(0));
            // what nobody else contributes to is complete the moment the passes return
            for &i in reached[t].iter().filter(|&&i| receivers[i] == 1) {
                let what = format!("gradient of node {i}, which only this thread reaches, right after its passes");
                let x = grad_of(&g.nodes[i].lib).unwrap_or_else(|| panic!("{what}: none"));
                expect(&what, &x, want[i].as_ref().unwrap()).unwrap_or_else(|e| panic!("{e}"));
            }
        },
        |_| {
            for (i, w) in want.iter().enumerate() {
                let n = &g.nodes[i];
                match (grad_of(&n.lib), w) {
                    (Some(x), Some(w)) => expect(&format!("gradient of node {i} ({:?}) after {} threads x {} backward passes", n.rule, mine.len(), c.per_thread), &x, w)?,
                    (None, None) => {}
                    // the roots themselves may or may not keep a gradient of their own
                    (x, w) if !roots.contains(&i) => return Err(format!("gradient of node {i} ({:?}): present {}, expected {}", n.rule, x.is_some(), w.is_some())),
                    _ => {}
                }
            }
            Ok(())
        },
    )?;
    Ok(Info::new(receivers.iter().any(|&r| r >= 2))
        .label(c.mode == 1, "rendezvous")
        .label(g.nodes.iter().zip(&receivers).any(|(n, &r)| r >= 2 && n.rule != Rule::Leaf), "shared-intermediate")
        .label(c.pool, "pool-workers"))
}

/// Contributions, resets and reads of one tensor at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mixed {
    /// per writing thread: how many contributions, and whether they come from backward passes
    writers: Vec<(u8, bool)>,
    /// how often the resetting thread resets; no such thread if 0
    resets: u8,
    readers: u8,
    shape: Vec<usize>,
    mode: u8,
    rounds: u32,
    vseed: u64,
}
fn mixed(_: Tier) -> BoxedStrategy<Mixed> {
    (
        prop::collection::vec((1u8..12, prop_oneof![3 => Just(false), 1 => Just(true)]), 1..4),
        prop_oneof![2 => Just(0u8), 2 => Just(1), 1 => 2u8..6],
        0u8..3,
        prop_oneof![4 => shape(3, 12), 2 => shape(3, 300), 1 => Just(vec![5_000])],
        prop_oneof![3 => Just(0u8), 1 => Just(2)],
        20u32..200,
        any::<u64>(),
    )
        .prop_map(|(mut writers, resets, mut readers, shape, mode, rounds, vseed)| {
            if writers.len() as u8 + resets + readers < 2 {
                readers = 1;
            }
            let n = count(&shape);
            if n > 100 {
                writers.iter_mut().for_each(|w| w.0 = w.0.min(6));
            }
            let rounds = if n > 1000 { rounds.min(8) } else if n > 100 { rounds.min(40) } else { rounds };
            Mixed { writers, resets, readers, shape, mode, rounds, vseed }
        })
        .boxed()
}
fn mixed_check(c: &Mixed) -> Check {
    MODE.store(c.mode as u32, SeqCst);
    let r = if c.mode == 0 { mixed_run::<i64>(c) } else { mixed_run::<Num>(c) };
    MODE.store(0, SeqCst);
    r
}
fn mixed_run<T: El>(c: &Mixed) -> Check {
    const BASE: i64 = 13;
    let n = count(&c.shape);
    // every contribution of thread t is BASE^t times this, so the number kept of each thread can be told from the sum
    let pattern: Vec<i64> = bits(c.vseed, 5, n).iter().map(|h| 1 + (h >> 9) as i64 % 5).collect();
    let given: Vec<Vec<T>> = (0..c.writers.len()).map(|t| pattern.iter().map(|&p| T::from_f((p * BASE.pow(t as u32)) as f64)).collect()).collect();
    let tensor: RcTensor<T> = RcTensor::new_with_filler(c.shape.clone(), T::one());
    let clock = AtomicU64::new(0);
    let tick = || clock.fetch_add(1, SeqCst);
    let w = c.writers.len();
    let threads = w + (c.resets > 0) as usize + c.readers as usize;
    let working = AtomicUsize::new(0);
    // (start, end) of every contribution per thread and of every reset; (start, end, elements) of every read
    let wrote: Vec<Mutex<Vec<(u64, u64)>>> = (0..w).map(|_| Default::default()).collect();
    let reset: Mutex<Vec<(u64, u64)>> = Default::default();
    let read: Mutex<Vec<(u64, u64, Option<Vec<i64>>)>> = Default::default();
    let elements = |g: &RcTensor<T>| -> Vec<i64> { (0..n).map(|i| g[&unravel(i, g.shape())].to_f() as i64).collect() };
    let overlaps = AtomicUsize::new(0);
    let judge = |(start, end, got): &(u64, u64, Option<Vec<i64>>), wrote: &[Vec<(u64, u64)>], reset: &[(u64, u64)]| -> Result<(), String> {
        let sum = match got {
            None => 0,
            Some(v) => {
                let s = v[0] / pattern[0];
                for i in 0..n {
                    ensure!(v[i] == s * pattern[i], "a gradient read while contributions are made is not a sum of whole contributions: element 0 is {} times its share, element {i} is {} of {}", s, v[i], pattern[i]);
                }
                ensure!(s > 0, "a gradient of {s} was read, expected none or a positive one");
                s
            }
        };
        // the last reset that has surely happened, and the last that may have
        let sure = reset.iter().filter(|r| r.1 < *start).map(|r| r.0).max();
        let maybe = reset.iter().filter(|r| r.0 < *end).map(|r| r.1).max();
        let mut rest = sum;
        for (t, list) in wrote.iter().enumerate() {
            let kept = rest % BASE;
            rest /= BASE;
            let least = list.iter().filter(|x| x.1 < *start && maybe.is_none_or(|m| x.0 > m)).count() as i64;
            let most = list.iter().filter(|x| x.0 < *end && sure.is_none_or(|s| x.1 > s)).count() as i64;
            ensure!(
                (least..=most).contains(&kept),
                "the gradient holds {kept} contributions of thread {t}, expected {least} to {most} ({} made, {} resets)",
                list.len(),
                reset.len()
            );
        }
        ensure!(rest == 0, "the gradient holds more than was contributed: {sum}");
        Ok(())
    };
    together(
        threads,
        c.rounds,
        false,
        |_| {
            METERED.with(|m| m.set(0));
            tensor.zero_grad();
            clock.store(1, SeqCst);
            working.store(w, SeqCst);
            wrote.iter().for_each(|x| x.lock().unwrap().clear());
            reset.lock().unwrap().clear();
            read.lock().unwrap().clear();
        },
        |r, t| {
            if t < w {
                let (times, pass) = c.writers[t];
                let grads: Vec<RcTensor<T>> = (0..times).map(|_| RcTensor::new(given[t].clone(), c.shape.clone())).collect();
                let mut log = Vec::with_capacity(times as usize);
                let losses: Vec<RcTensor<T>> = if pass { grads.iter().map(|g| (&tensor * g).sum()).collect() } else { vec![] };
                METERED.with(|m| m.set(4));
                for (j, g) in grads.into_iter().enumerate() {
                    let a = tick();
                    if pass {
                        losses[j].backward();
                    } else {
                        tensor.update_grad(g);
                    }
                    log.push((a, tick()));
                }
                METERED.with(|m| m.set(0));
                *wrote[t].lock().unwrap() = log;
                working.fetch_sub(1, SeqCst);
            } else if c.resets > 0 && t == w {
                let mut log = vec![];
                for k in 0..c.resets as u64 {
                    for _ in 0..bits(c.vseed, 77 + r as u64, 8)[k as usize % 8] % 400 {
                        std::hint::spin_loop();
                    }
                    let a = tick();
                    tensor.zero_grad();
                    log.push((a, tick()));
                }
                *reset.lock().unwrap() = log;
            } else {
                let mut log = vec![];
                while working.load(SeqCst) > 0 && log.len() < 60 {
                    let a = tick();
                    let g = grad_of(&tensor);
                    let b = tick();
                    log.push((a, b, g));
                }
                read.lock().unwrap().extend(log.into_iter().map(|(a, b, g)| (a, b, g.map(|g| elements(&g)))));
            }
        },
        |_| {
            let wrote: Vec<Vec<(u64, u64)>> = wrote.iter().map(|x| x.lock().unwrap().clone()).collect();
            let reset = reset.lock().unwrap().clone();
            let mut all = read.lock().unwrap().clone();
            if all.iter().any(|x| wrote.iter().flatten().any(|y| x.0 < y.1 && y.0 < x.1)) || reset.iter().any(|x| wrote.iter().flatten().any(|y| x.0 < y.1 && y.0 < x.1)) {
                overlaps.fetch_add(1, SeqCst);
            }
            let now = tick();
            all.push((now, tick(), grad_of(&tensor).map(|g| elements(&g))));
            for x in &all {
                judge(x, &wrote, &reset)?;
            }
            Ok(())
        },
    )?;
    Ok(Info::new(overlaps.load(SeqCst) > 0).label(c.resets > 0, "resets").label(c.readers > 0, "readers").label(c.writers.iter().any(|w| w.1), "backward-passes").label(n > 32, "over-32-elements"))
}

pub fn property_c15() -> Property {
    Property {
        id: "C15",
        shards: 8,
        suites: vec![
            Box::new(S { name: "context", rule: "a non-trivial job ran inside a pool worker, or two of them at the same time", cases: (30_000, 750_000), strategy: pools, check: pools_check }),
            Box::new(S { name: "context-large", rule: "as context, products of up to 12000 (thorough: 60000) contributions", cases: (4_000, 100_000), strategy: pools_large, check: pools_check }),
        ],
        assumptions: &[
            "not completing is decided by every thread of the process sleeping without using CPU for 20 s, confirmed by replaying the case alone",
            "the global pool has 1, 2, 3, 4 or 8 threads, depending on the shard",
        ],
    }
}
pub fn property_c16() -> Property {
    Property {
        id: "C16",
        // the suites are multi-threaded themselves
        shards: 3,
        suites: vec![
            Box::new(S { name: "updates", rule: "every case (two or more threads)", cases: (700, 8_400), strategy: race, check: race_check }),
            Box::new(S { name: "backward", rule: "a tensor received contributions from two or more threads", cases: (2_000, 50_000), strategy: passes, check: passes_check }),
            Box::new(S { name: "resets-and-reads", rule: "a reset or a read ran at the same time as a contribution", cases: (1_000, 25_000), strategy: mixed, check: mixed_check }),
        ],
        assumptions: &["schedules are sampled: spinning start lines, additions that wait for one another, additions of random duration"],
    }
}
