//! Suites, the proptest driver, statistics, replay files, and the parent process that shards the work and
//! attributes crashes and deadlocks of the code under test to the case that was being executed.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a check says about a case on which the property held.
#[derive(Default, Debug)]
pub struct Info {
    pub nontrivial: bool,
    /// The oracle does not apply (a kink, an integer magnitude that could overflow): counted, never a violation.
    pub discarded: bool,
    pub labels: Vec<&'static str>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info { nontrivial, ..Default::default() }
    }
    pub fn discard() -> Info {
        Info { discarded: true, ..Default::default() }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Info {
        if on {
            self.labels.push(l);
        }
        self
    }
}
pub type Check = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

pub trait Suite {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, seed: u64, tier: Tier, shards: u32, stats: &mut Stats, prog: &Progress) -> Option<Failure>;
    fn replay(&self, case: &Value) -> Result<(), String>;
}

pub struct S<C: 'static> {
    pub name: &'static str,
    pub rule: &'static str,
    /// total cases over all shards: (quick, thorough)
    pub cases: (u32, u32),
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C) -> Check,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Failure {
    pub suite: String,
    pub case: Value,
    pub message: String,
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct Stats {
    pub evaluations: u64,
    pub discarded: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    #[serde(skip)]
    pub hashes: HashSet<u64>,
}

/// Case in flight, readable by the parent after a crash.
pub struct Progress {
    file: Option<File>,
    counter: std::cell::Cell<u64>,
}
impl Progress {
    pub fn open(path: Option<&Path>) -> Progress {
        Progress {
            file: path.map(|p| File::create(p).expect("progress file")),
            counter: Default::default(),
        }
    }
    fn note(&self, suite: &str, case: &str) {
        if let Some(f) = &self.file {
            self.counter.set(self.counter.get() + 1);
            let s = format!("{}\n{}\n{}\n\0", self.counter.get(), suite, case);
            f.write_all_at(s.as_bytes(), 0).expect("progress");
        }
    }
}
fn read_progress(path: &Path) -> Option<(u64, String, Value)> {
    let b = fs::read(path).ok()?;
    let end = b.iter().position(|&c| c == 0)?;
    let s = std::str::from_utf8(&b[..end]).ok()?;
    let mut it = s.splitn(3, '\n');
    let n = it.next()?.parse().ok()?;
    let suite = it.next()?.to_string();
    let case = serde_json::from_str(it.next()?.trim()).ok()?;
    Some((n, suite, case))
}

pub fn hash64<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new(); // fixed keys: deterministic
    h.hash(&mut s);
    s.finish()
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
static ANY_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("panicked at {loc}: {msg}");
        LAST_PANIC.with(|l| *l.borrow_mut() = s.clone());
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = s;
        }
    }));
}
/// Runs `f`; a panic (in this thread, or propagated from a worker) is returned as its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let own = LAST_PANIC.with(|l| l.borrow().clone());
        if own.is_empty() {
            ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
        } else {
            own
        }
    })
}
pub fn refused<R>(f: impl FnOnce() -> R) -> bool {
    guard(f).is_err()
}

impl<C> Suite for S<C>
where
    C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn run(&self, seed: u64, tier: Tier, shards: u32, stats: &mut Stats, prog: &Progress) -> Option<Failure> {
        let total = if tier == Tier::Quick { self.cases.0 } else { self.cases.1 };
        // a smaller search for experiments such as mutation testing; no registered command sets it
        let percent = std::env::var("VH_PERCENT").ok().and_then(|p| p.parse::<u64>().ok()).unwrap_or(100);
        let cases = (total as u64 * percent).div_ceil(100 * shards as u64) as u32;
        if cases == 0 {
            return None;
        }
        let config = Config {
            cases,
            failure_persistence: None,
            source_file: None,
            max_shrink_iters: 3000,
            max_shrink_time: 90_000,
            rng_seed: RngSeed::Fixed(hash64(&(seed, self.name))),
            ..Config::default()
        };
        let mut runner = TestRunner::new(config);
        let strategy = (self.strategy)(tier);
        let cell = RefCell::new((stats, false, 0u32));
        let result = runner.run(&strategy, |case| {
            let js = serde_json::to_string(&case).expect("serialise");
            prog.note(self.name, &js);
            let outcome = match guard(|| (self.check)(&case)) {
                Ok(r) => r,
                Err(p) => Err(p),
            };
            let mut c = cell.borrow_mut();
            let failed = outcome.is_err();
            if !c.1 {
                // statistics only over the generated cases, not over shrinking steps
                c.0.evaluations += 1;
                if let Ok(info) = &outcome {
                    if info.discarded {
                        c.0.discarded += 1;
                    }
                    if info.nontrivial && !info.discarded && c.0.hashes.insert(hash64(&(self.name, &js))) {
                        c.0.nontrivial += 1;
                        c.2 += 1;
                        if (c.2 == 1 || c.2 == 200) && js.len() < 3000 {
                            let v: Value = serde_json::from_str(&js).unwrap();
                            c.0.samples.push(json!({"suite": self.name, "case": v}));
                        }
                    }
                    for l in &info.labels {
                        *c.0.labels.entry(format!("{}:{}", self.name, l)).or_default() += 1;
                    }
                    let key = format!("{}:cases", self.name);
                    *c.0.labels.entry(key).or_default() += 1;
                }
            }
            if failed {
                c.1 = true;
            }
            outcome.map(|_| ()).map_err(TestCaseError::fail)
        });
        match result {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => Some(Failure {
                suite: self.name.to_string(),
                case: serde_json::to_value(&case).unwrap(),
                message: reason.message().to_string(),
            }),
            Err(TestError::Abort(r)) => panic!("proptest aborted: {r}"),
        }
    }
    fn replay(&self, case: &Value) -> Result<(), String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("BAD-REPLAY {e}"))?;
        match guard(|| (self.check)(&case)) {
            Ok(r) => r.map(|_| ()),
            Err(p) => Err(p),
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub shards: u32,
    pub suites: Vec<Box<dyn Suite>>,
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- child side

#[derive(Serialize, Deserialize)]
struct ShardResult {
    stats: Stats,
    failure: Option<Failure>,
}

pub fn child_run(p: &Property, seed: u64, tier: Tier, shard: u32, work: &Path, only: Option<&str>) {
    silence_panics();
    let prog = Progress::open(Some(&work.join(format!("progress-{shard}"))));
    let mut stats = Stats::default();
    let mut failure = None;
    for s in &p.suites {
        if only.is_some_and(|o| !s.name().contains(o)) {
            continue;
        }
        let t = Instant::now();
        failure = s.run(hash64(&(seed, shard)), tier, p.shards, &mut stats, &prog);
        if std::env::var("VH_TIMES").is_ok() {
            eprintln!("shard {shard} {} {:?}", s.name(), t.elapsed());
        }
        if failure.is_some() {
            break;
        }
    }
    let hashes: Vec<u8> = stats.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    fs::write(work.join(format!("hashes-{shard}")), hashes).unwrap();
    let r = ShardResult { stats, failure };
    let tmp = work.join(format!("result-{shard}.tmp"));
    fs::write(&tmp, serde_json::to_vec(&r).unwrap()).unwrap();
    fs::rename(&tmp, work.join(format!("result-{shard}.json"))).unwrap();
}

/// Replays one case in this process. Exit code 0: holds, 1: fails (message on stdout), 2: unusable.
pub fn child_replay(p: &Property, path: &Path) -> i32 {
    silence_panics();
    let v: Value = match fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            println!("unreadable replay file {}", path.display());
            return 2;
        }
    };
    let suite = v["suite"].as_str().unwrap_or("");
    let Some(s) = p.suites.iter().find(|s| s.name() == suite) else {
        println!("no suite {suite}");
        return 2;
    };
    match s.replay(&v["case"]) {
        Ok(()) => 0,
        Err(m) if m.starts_with("BAD-REPLAY") => {
            println!("{m}");
            2
        }
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

// ---------------------------------------------------------------- parent side

/// How a monitored child ended.
#[derive(Debug)]
enum End {
    Exit(i32),
    Signal(i32),
    /// every thread asleep and no CPU time used for a long time
    Deadlock,
    /// one single case burnt an absurd amount of CPU time
    Spin,
}
const IDLE_LIMIT: Duration = Duration::from_secs(20);
const CASE_CPU_LIMIT_S: f64 = 100.0;
/// how long the other shards may go on after one has met a failure
const AFTER_FAILURE: Duration = Duration::from_secs(180);
/// how the message of a replay that crashed or hung begins
const ENDINGS: [&str; 3] = ["the process died", "deadlock", "does not terminate"];

/// (cpu seconds used, any thread runnable or in uninterruptible sleep) of our own child
fn proc_state(pid: u32) -> Option<(f64, bool)> {
    let mut cpu = 0.0;
    let mut busy = false;
    for t in fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let t = t.ok()?;
        let Ok(s) = fs::read_to_string(t.path().join("stat")) else { continue };
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        if f[0] != "S" {
            busy = true;
        }
        cpu += (f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / 100.0;
    }
    Some((cpu, busy))
}

struct Monitor {
    child: Child,
    progress: PathBuf,
    last_cpu: f64,
    idle_since: Instant,
    /// polls since then: a paused machine must not look like an idle child
    idle_polls: u32,
    last_case: u64,
    cpu_at_case: f64,
}
impl Monitor {
    fn new(child: Child, progress: PathBuf) -> Monitor {
        Monitor { child, progress, last_cpu: -1.0, idle_since: Instant::now(), idle_polls: 0, last_case: 0, cpu_at_case: 0.0 }
    }
    fn poll(&mut self) -> Option<End> {
        if let Some(st) = self.child.try_wait().expect("wait") {
            return Some(match st.signal() {
                Some(s) => End::Signal(s),
                None => End::Exit(st.code().unwrap_or(99)),
            });
        }
        let (cpu, busy) = proc_state(self.child.id())?;
        let mut active = busy || cpu != self.last_cpu;
        // threads may have ended, so the sum can also go down
        if cpu < self.last_cpu {
            self.cpu_at_case = self.cpu_at_case.min(cpu);
        }
        self.last_cpu = cpu;
        let n = read_progress(&self.progress).map(|p| p.0).unwrap_or(0);
        if n != self.last_case {
            self.last_case = n;
            self.cpu_at_case = cpu;
            active = true;
        }
        if active {
            self.idle_since = Instant::now();
            self.idle_polls = 0;
        } else {
            self.idle_polls += 1;
        }
        if self.idle_since.elapsed() > IDLE_LIMIT && self.idle_polls > 100 {
            self.kill();
            return Some(End::Deadlock);
        }
        if cpu - self.cpu_at_case > CASE_CPU_LIMIT_S {
            self.kill();
            return Some(End::Spin);
        }
        None
    }
    fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    fn wait(mut self) -> End {
        loop {
            if let Some(e) = self.poll() {
                return e;
            }
            std::thread::sleep(Duration::from_millis(100));
        }
    }
}

pub fn limit_memory() {
    // Protects the sandbox from a runaway allocation in the code under test.
    let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

const THREADS: [&str; 8] = ["2", "1", "3", "4", "2", "8", "3", "2"];

/// which shards run the build without debug assertions and overflow checks
const PLAIN: [bool; 8] = [false, true, false, true, true, false, true, false];

fn replay_in_child(id: &str, file: &Path, threads: &str, plain: bool, work: &Path) -> (End, String) {
    let out = work.join("replay-out");
    let child = Command::new(program(plain))
        .args(["replay-child", id])
        .arg(file)
        .env("RAYON_NUM_THREADS", threads)
        .stdout(File::create(&out).unwrap())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    let end = Monitor::new(child, work.join("no-progress")).wait();
    (end, fs::read_to_string(&out).unwrap_or_default().trim().to_string())
}

/// The replay command: the case alone, then (if the file names one) the shard that met it.
pub fn replay_file(id: &str, file: &Path, work: &Path) -> Result<Option<String>, String> {
    let r = replay(id, file, work, 8)?;
    if r.is_some() {
        return Ok(r);
    }
    let v: Value = fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
    match serde_json::from_value::<History>(v["history"].clone()) {
        Ok(h) => Ok(rerun(id, &h, work)),
        Err(_) => Ok(None),
    }
}

/// Replays `file` (with several thread counts); a description of the failure if it fails.
pub fn replay(id: &str, file: &Path, work: &Path, tries: usize) -> Result<Option<String>, String> {
    for i in 0..tries {
        let (end, msg) = replay_in_child(id, file, THREADS[i % THREADS.len()], PLAIN[i % PLAIN.len()], work);
        match end {
            End::Exit(0) => {}
            End::Exit(1) => return Ok(Some(msg)),
            End::Exit(c) => return Err(format!("replay exited with {c}: {msg}")),
            End::Signal(9) => return Err("replay was killed (out of memory?)".into()),
            End::Signal(s) => return Ok(Some(format!("the process died from signal {s} (crash or stack overflow) on this case"))),
            End::Deadlock => {
                return Ok(Some(format!(
                    "deadlock: every thread asleep and no CPU time used for {}s on this single case",
                    IDLE_LIMIT.as_secs()
                )))
            }
            End::Spin => return Ok(Some(format!("does not terminate: more than {CASE_CPU_LIMIT_S} CPU seconds on this single small case"))),
        }
    }
    Ok(None)
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// One line of known_findings.jsonl: {"property":..., "suite":..., "signature": substring of the message, "what":...} or {"fixed": "..."}
fn known_findings(id: &str) -> Vec<(String, String, String)> {
    let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.jsonl")) else { return vec![] };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["property"] == id && v["status"] == "open")
        .map(|v| {
            let g = |k: &str| v[k].as_str().unwrap_or("\u{0}").to_string();
            (g("suite"), g("signature"), g("what"))
        })
        .collect()
}

/// Which shard of which run met a failure: enough to repeat everything the process had done before it.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct History {
    seed: u64,
    tier: String,
    shard: u32,
    only: Option<String>,
}
/// This program, or its twin built like a user's release build (no debug assertions, no overflow checks).
fn program(plain: bool) -> PathBuf {
    let me = std::env::current_exe().unwrap();
    let target = me.parent().and_then(|p| p.parent()).unwrap_or(Path::new("/nowhere"));
    let twin = target.join("p/plain/vh");
    if plain && twin.exists() {
        twin
    } else {
        me
    }
}
fn spawn_shard(id: &str, h: &History, work: &Path) -> Monitor {
    let k = h.shard;
    let mut c = Command::new(program(PLAIN[k as usize % PLAIN.len()]));
    c.args(["run-child", id, &h.seed.to_string(), &h.tier, &k.to_string()]).arg(work);
    if let Some(o) = &h.only {
        c.arg(o);
    }
    let child = c.env("RAYON_NUM_THREADS", THREADS[k as usize % THREADS.len()]).spawn().expect("spawn");
    Monitor::new(child, work.join(format!("progress-{k}")))
}
fn shard_result(k: u32, work: &Path) -> Option<ShardResult> {
    fs::read(work.join(format!("result-{k}.json"))).ok().and_then(|b| serde_json::from_slice(&b).ok())
}
/// Repeats a whole shard; a description of its failure if it fails again.
fn rerun(id: &str, h: &History, work: &Path) -> Option<String> {
    let work = work.join("rerun");
    fs::create_dir_all(&work).unwrap();
    let end = spawn_shard(id, h, &work).wait();
    let result = shard_result(h.shard, &work);
    let progress = read_progress(&work.join(format!("progress-{}", h.shard)));
    let _ = fs::remove_dir_all(&work);
    match (end, result) {
        (End::Exit(0), Some(r)) => r.failure.map(|f| f.message),
        (End::Exit(_) | End::Signal(9), _) => None,
        (end, _) => Some(format!("{end:?} again, now in {:?}", progress.map(|p| (p.1, p.2)))),
    }
}

fn report_history(id: &str, f: &Failure, h: &History) -> PathBuf {
    let path = report(id, f);
    let mut v: Value = serde_json::from_slice(&fs::read(&path).unwrap()).unwrap();
    v["history"] = serde_json::to_value(h).unwrap();
    v["note"] = json!("the case alone need not fail: what the process did before it (or the schedule) matters, so the replay repeats the whole shard");
    fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    path
}

fn report(id: &str, f: &Failure) -> PathBuf {
    let dir = verif_dir().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let v = json!({"property": id, "suite": f.suite, "case": f.case, "message": f.message});
    let path = dir.join(format!("{id}-{:016x}.json", hash64(&(f.suite.as_str(), f.case.to_string()))));
    fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    path
}

pub fn check(p: &Property, seed: u64, tier: Tier, only: Option<&str>) -> i32 {
    let start = Instant::now();
    let id = p.id;
    let work = std::env::temp_dir().join(format!("vh-{id}-{}", std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let code = check_in(p, seed, tier, only, &work, start);
    let _ = fs::remove_dir_all(&work);
    code
}

fn check_in(p: &Property, seed: u64, tier: Tier, only: Option<&str>, work: &Path, start: Instant) -> i32 {
    let id = p.id;
    let mut violations: Vec<(PathBuf, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut known_hits: Vec<String> = vec![];
    let hung = |v: &(PathBuf, String)| ENDINGS.iter().any(|e| v.1.starts_with(e));
    let known = known_findings(id);
    let matching = |f: &Failure| known.iter().find(|(s, sig, _)| *s == f.suite && f.message.contains(sig.as_str()));
    let is_known = |f: &Failure| matching(f).is_some();

    // 1. committed regression inputs (minimal reproductions of defects found and repaired earlier)
    let mut regressions = 0u64;
    let mut files: Vec<PathBuf> = fs::read_dir(verif_dir().join("regressions").join(id))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|f| f.extension().is_some_and(|x| x == "json")).collect())
        .unwrap_or_default();
    files.sort();
    if only.is_some() {
        files.clear();
    }
    for f in files {
        if violations.iter().any(hung) {
            break; // each may take the whole CPU limit
        }
        regressions += 1;
        match replay(id, &f, work, 2) {
            Ok(None) => {}
            Ok(Some(m)) => violations.push((f, m)),
            Err(e) => errors.push(e),
        }
    }

    // 2. sharded generated search; pointless (and slow) when a known case already crashes or hangs the process
    let shards = if violations.iter().any(hung) { 0 } else { p.shards };
    let mut monitors: Vec<(u32, Option<Monitor>)> = (0..shards)
        .map(|k| {
            let h = History { seed, tier: tier.name().to_string(), shard: k, only: only.map(|o| o.to_string()) };
            (k, Some(spawn_shard(id, &h, work)))
        })
        .collect();
    let mut ends: Vec<(u32, End)> = vec![];
    let mut failed_at: Option<Instant> = None;
    while monitors.iter().any(|m| m.1.is_some()) {
        for (k, m) in monitors.iter_mut() {
            if let Some(mon) = m {
                if let Some(e) = mon.poll() {
                    if failed_at.is_none() && (!matches!(e, End::Exit(0)) || shard_result(*k, work).and_then(|r| r.failure).is_some_and(|f| !is_known(&f))) {
                        failed_at = Some(Instant::now());
                    }
                    ends.push((*k, e));
                    *m = None;
                }
            }
        }
        std::thread::sleep(Duration::from_millis(50));
        if failed_at.is_some_and(|t| t.elapsed() > AFTER_FAILURE) {
            // one shard has its failure: the others, perhaps slowed down by the same defect, are not needed
            for (_, m) in monitors.iter_mut() {
                if let Some(mut mon) = m.take() {
                    mon.kill();
                }
            }
        }
    }
    // shards that finished first: what they report needs the least confirmation
    ends.sort_by_key(|e| (!matches!(e.1, End::Exit(0)), e.0));
    let mut stats = Stats::default();
    for (k, end) in ends {
        let history = History { seed, tier: tier.name().to_string(), shard: k, only: only.map(|o| o.to_string()) };
        let result = shard_result(k, work);
        if let (Some(r), End::Exit(0)) = (result, &end) {
            stats.evaluations += r.stats.evaluations;
            stats.discarded += r.stats.discarded;
            for (l, n) in r.stats.labels {
                *stats.labels.entry(l).or_default() += n;
            }
            stats.samples.extend(r.stats.samples);
            let hb = fs::read(work.join(format!("hashes-{k}"))).unwrap_or_default();
            for c in hb.chunks_exact(8) {
                stats.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            if let Some(f) = r.failure {
                match matching(&f) {
                    Some((_, _, what)) => known_hits.push(what.clone()),
                    None => {
                        let path = report(id, &f);
                        // does the case fail on its own?
                        let alone = violations.len() >= 2 || matches!(replay(id, &path, work, 2), Ok(Some(_)));
                        violations.push((if alone { path } else { report_history(id, &f, &history) }, f.message));
                    }
                }
            }
            continue;
        }
        // the child did not finish: attribute to the case in flight and confirm it in a fresh process
        let Some((_, suite, case)) = read_progress(&work.join(format!("progress-{k}"))) else {
            errors.push(format!("shard {k} ended with {end:?} before any case"));
            continue;
        };
        if let End::Signal(9) | End::Exit(_) = end {
            errors.push(format!("shard {k} ended with {end:?}"));
            continue;
        }
        if !violations.is_empty() {
            continue; // the violation is established; confirming this one could take minutes
        }
        let f = Failure { suite, case, message: format!("{end:?}") };
        let path = report(id, &f);
        match replay(id, &path, work, 8) {
            Ok(Some(m)) => {
                let f = Failure { message: m.clone(), ..f };
                violations.push((report(id, &f), m));
            }
            Ok(None) => {
                let _ = fs::remove_file(path);
                match rerun(id, &history, work) {
                    Some(m) => violations.push((report_history(id, &f, &history), format!("{}: {m}", f.message))),
                    None => errors.push(format!("shard {k} ended with {end:?}, reproduced neither by its last case {} nor by the whole shard", f.case)),
                }
            }
            Err(e) => errors.push(e),
        }
    }
    stats.nontrivial = stats.hashes.len() as u64;
    stats.samples.truncate(12);

    let rule: Vec<String> = p.suites.iter().map(|s| format!("{}: {}", s.name(), s.rule())).collect();
    let ev = json!({
        "property": id, "tier": tier.name(), "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations + regressions,
            "distinct_nontrivial": stats.nontrivial,
            "discarded": stats.discarded,
            "regression_replays": regressions,
            "rule": format!("Cases are drawn by proptest strategies from VERIF_SEED; a case counts once per distinct serialised form. Non-trivial, per suite - {}", rule.join("; ")),
            "distribution": stats.labels,
            "samples": stats.samples,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = verif_dir().join("evidence");
    fs::create_dir_all(&evdir).unwrap();
    if only.is_none() {
        fs::write(evdir.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    }

    println!(
        "{id} {}: {} cases, {} distinct non-trivial, {} discarded, {} regressions, {:.1}s",
        tier.name(), stats.evaluations, stats.nontrivial, stats.discarded, regressions, start.elapsed().as_secs_f64()
    );
    if only.is_some() || std::env::var("VH_TIMES").is_ok() {
        for (l, n) in &stats.labels {
            println!("    {l} {n}");
        }
    }
    known_hits.sort();
    known_hits.dedup();
    for k in known_hits {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    for e in &errors {
        println!("ERROR {id}: {e}");
    }
    for (path, m) in &violations {
        let short: String = m.chars().take(1500).collect();
        println!("  {}", short.replace('\n', "\n  "));
        println!("VIOLATION property={id} replay={}", path.display());
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}
