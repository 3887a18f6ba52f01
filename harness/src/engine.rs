//! Property-check engine: fixed-work proptest campaigns over serialisable
//! cases, with shrinking, replay files, counters and evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use proptest::strategy::{BoxedStrategy, ValueTree as _};

use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub const WORKERS: usize = 8;

/// What a check reports about one case.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// human-readable rendering of the case (kept for a few samples)
    pub note: Option<String>,
    /// extra counters (e.g. compared cycles)
    pub counts: Vec<(&'static str, u64)>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        self.counts.push((k, n));
    }
}

pub type Verdict = Result<(), String>;

pub struct Part<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub cases: u64,
    pub shrink_iters: u32,
    pub workers: usize,
    pub strategy: Box<dyn Fn() -> BoxedStrategy<C> + Sync>,
    pub check: Box<dyn Fn(&C, &mut Obs) -> Verdict + Sync>,
}

#[derive(Default, Clone)]
pub struct Report {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<(serde_json::Value, String)>,
    pub wall_s: f64,
    /// known findings reproduced in this part
    pub known: Vec<String>,
}

pub trait DynPart: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> Report;
    fn replay(&self, case: &serde_json::Value) -> Result<Verdict, String>;
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    /// multiplies the number of cases (thorough tier)
    pub factor: u64,
}

impl Ctx {
    pub fn cases(&self, quick: u64) -> u64 {
        (quick * self.factor).max(1)
    }
}

pub static INTERNAL: Mutex<Option<String>> = Mutex::new(None);
static PANICS_QUIET: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn internal_error(msg: String) {
    let mut g = INTERNAL.lock().unwrap();
    if g.is_none() {
        *g = Some(msg);
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        if !PANICS_QUIET.load(Ordering::Relaxed) {
            eprintln!("{s}");
        }
    }));
    PANICS_QUIET.store(std::env::var_os("VH_LOUD").is_none(), Ordering::Relaxed);
}

/// Run code under test; a panic in it becomes an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().replace('\n', " ")))
}

fn seed_bytes(seed: u64, part: &str, worker: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        // FNV-1a over (seed, part, worker, i)
        let mut h: u64 = 0xcbf29ce484222325;
        let mut eat = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        };
        seed.to_le_bytes().iter().for_each(|b| eat(*b));
        part.bytes().for_each(&mut eat);
        eat(worker as u8);
        eat(i as u8);
        for _ in 0..8 {
            eat(0);
        }
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub part: String,
    pub message: String,
    pub case: serde_json::Value,
    #[serde(default)]
    pub rendered: String,
}

struct WorkerOut {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    failure: Option<(serde_json::Value, String)>,
}

// ------------------------------------------------- cases that do not come back

/// The case a thread is working on.
struct Slot {
    tid: i32,
    part: &'static str,
    since: Instant,
    case: Box<dyn Fn() -> serde_json::Value + Send>,
}
static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(Vec::new());
static CRASHED: AtomicI32 = AtomicI32::new(0);
static SIGNAL: AtomicI32 = AtomicI32::new(0);

/// While it lives the watcher knows what this thread works on.
struct Working(usize);

impl Working {
    fn on<C: Serialize>(part: &'static str, case: &C) -> Working {
        struct Shared<C>(*const C);
        // the case is only read, and stays where it is while the slot is taken
        unsafe impl<C> Send for Shared<C> {}
        let p = Shared(case as *const C);
        let case = move || {
            let p = &p;
            serde_json::to_value(unsafe { &*p.0 }).unwrap_or_default()
        };
        let case: Box<dyn Fn() -> serde_json::Value + Send + '_> = Box::new(case);
        // gone before the case is: `Working` takes it out of its slot
        let case: Box<dyn Fn() -> serde_json::Value + Send> = unsafe { std::mem::transmute(case) };
        let slot = Slot { tid: unsafe { libc::gettid() }, part, since: Instant::now(), case };
        let mut g = SLOTS.lock().unwrap();
        let i = g.iter().position(|s| s.is_none()).unwrap_or_else(|| {
            g.push(None);
            g.len() - 1
        });
        g[i] = Some(slot);
        Working(i)
    }
}
impl Drop for Working {
    fn drop(&mut self) {
        SLOTS.lock().unwrap()[self.0] = None;
    }
}

extern "C" fn crashed(sig: libc::c_int) {
    // a healthy thread reports it
    SIGNAL.store(sig, Ordering::SeqCst);
    CRASHED.store(unsafe { libc::gettid() }, Ordering::SeqCst);
    loop {
        unsafe { libc::sleep(1000) };
    }
}

/// resident memory in bytes
fn resident() -> u64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split(' ').nth(1).and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) * 4096
}

/// Reports a case whose check crashes the process (stack overflow, abort),
/// does not end, or takes all the memory: no case does on a correct tree.
pub fn watch_cases(property: String, file: std::path::PathBuf, out: std::fs::File) {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = crashed as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let tid = CRASHED.load(Ordering::SeqCst);
        let g = SLOTS.lock().unwrap();
        let longest = || g.iter().flatten().min_by_key(|s| s.since);
        let (slot, what) = if tid != 0 {
            (g.iter().flatten().find(|s| s.tid == tid).or(longest()), format!("the code under test crashes (signal {})", SIGNAL.load(Ordering::SeqCst)))
        } else if resident() > 14 << 30 {
            (longest(), "the code under test takes more than 14 GB of memory".to_string())
        } else {
            (longest().filter(|s| s.since.elapsed().as_secs() > 240), "the code under test does not come back within 240 s".to_string())
        };
        let Some(s) = slot else {
            if tid != 0 {
                unsafe { libc::_exit(3) }
            }
            continue;
        };
        let r = Replay { property: property.clone(), part: s.part.into(), message: what.clone(), case: (s.case)(), rendered: String::new() };
        if let Some(d) = file.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        let _ = std::fs::write(&file, serde_json::to_string_pretty(&r).unwrap_or_default());
        let _ = writeln!(&out, "{property} [{}]: {what}: {}\nVIOLATION property={property} replay={}", s.part, trunc(&r.case.to_string(), 2000), file.display());
        unsafe { libc::_exit(1) }
    });
}

/// cases of a part that does not run them one after another
pub fn generate<C: std::fmt::Debug>(ctx: &Ctx, part: &str, st: impl proptest::strategy::Strategy<Value = C>, n: usize) -> Vec<C> {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx.seed, &format!("{}/{part}", ctx.id), 0));
    let mut runner = TestRunner::new_with_rng(Config::default(), rng);
    (0..n).filter_map(|_| st.new_tree(&mut runner).ok().map(|t| t.current())).collect()
}

impl<C> DynPart for Part<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, ctx: &Ctx) -> Report {
        let t0 = Instant::now();
        let workers = self.workers.max(1).min(self.cases.max(1) as usize);
        let per = self.cases.div_ceil(workers as u64);
        let outs: Vec<WorkerOut> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..workers)
                .map(|w| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || self.worker(ctx, w, per))
                        .unwrap()
                })
                .collect();
            hs.into_iter()
                .filter_map(|h| match h.join() {
                    Ok(o) => Some(o),
                    Err(_) => {
                        internal_error(format!("worker of part {} panicked", self.name));
                        None
                    }
                })
                .collect()
        });
        let mut r = Report { name: self.name.into(), rule: self.rule.into(), ..Default::default() };
        let mut nt = HashSet::new();
        for o in outs {
            r.evaluations += o.evals;
            nt.extend(o.nontrivial);
            for (k, v) in o.labels {
                *r.labels.entry(k).or_default() += v;
            }
            for (k, v) in o.counts {
                *r.counts.entry(k).or_default() += v;
            }
            if r.samples.len() < 2 {
                r.samples.extend(o.samples.into_iter().take(1));
            }
            if r.failure.is_none() {
                r.failure = o.failure;
            }
        }
        r.distinct_nontrivial = nt.len() as u64;
        r.wall_s = t0.elapsed().as_secs_f64();
        r
    }

    fn replay(&self, case: &serde_json::Value) -> Result<Verdict, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay case: {e}"))?;
        let mut obs = Obs::default();
        let _working = Working::on(self.name, &c);
        catch_unwind(AssertUnwindSafe(|| (self.check)(&c, &mut obs)))
            .map_err(|_| format!("harness panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
    }
}

impl<C> Part<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn worker(&self, ctx: &Ctx, w: usize, per: u64) -> WorkerOut {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx.seed, &format!("{}/{}", ctx.id, self.name), w));
        let cfg = Config {
            cases: per as u32,
            max_shrink_iters: self.shrink_iters,
            max_shrink_time: 90_000,
            failure_persistence: None,
            max_global_rejects: 1_000_000,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = (self.strategy)();
        let out = RefCell::new(WorkerOut {
            evals: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            counts: BTreeMap::new(),
            samples: vec![],
            failure: None,
        });
        let failed = RefCell::new(false);
        let last_message = RefCell::new(String::new());
        let res = runner.run(&strat, |case: C| {
            let mut obs = Obs::default();
            let working = Working::on(self.name, &case);
            let v = catch_unwind(AssertUnwindSafe(|| (self.check)(&case, &mut obs)));
            drop(working);
            let v = match v {
                Ok(v) => v,
                Err(_) => {
                    internal_error(format!(
                        "harness panic in {}: {} on {:?}",
                        self.name,
                        LAST_PANIC.with(|p| p.borrow().clone()),
                        case
                    ));
                    Ok(())
                }
            };
            if !*failed.borrow() {
                let mut o = out.borrow_mut();
                o.evals += 1;
                for l in &obs.labels {
                    *o.labels.entry(l.to_string()).or_default() += 1;
                }
                for (k, n) in &obs.counts {
                    *o.counts.entry(k.to_string()).or_default() += n;
                }
                if obs.nontrivial {
                    let js = serde_json::to_string(&case).unwrap_or_default();
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    js.hash(&mut h);
                    o.nontrivial.insert(h.finish());
                    if o.samples.is_empty() {
                        let v = match obs.note.take() {
                            Some(n) => serde_json::json!({"part": self.name, "case": trunc(&n, 3000)}),
                            None if js.len() < 3000 => {
                                serde_json::json!({"part": self.name, "case": serde_json::from_str::<serde_json::Value>(&js).unwrap_or_default()})
                            }
                            None => serde_json::json!({"part": self.name, "case": trunc(&js, 3000)}),
                        };
                        o.samples.push(v);
                    }
                }
            }
            match v {
                Ok(()) => Ok(()),
                Err(m) => {
                    *failed.borrow_mut() = true;
                    *last_message.borrow_mut() = m.clone();
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut o = out.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, case)) => {
                // message of the shrunk case, recomputed
                let mut obs = Obs::default();
                let m = match catch_unwind(AssertUnwindSafe(|| (self.check)(&case, &mut obs))) {
                    Ok(Err(m)) => m,
                    Ok(Ok(())) => format!("(not on every run) {}", last_message.borrow()),
                    Err(_) => "harness panic".to_string(),
                };
                let note = obs.note.take().unwrap_or_default();
                let m = if note.is_empty() { m } else { format!("{m}\n{note}") };
                o.failure = Some((serde_json::to_value(&case).unwrap_or_default(), m));
            }
            Err(TestError::Abort(r)) => internal_error(format!("part {} aborted: {r}", self.name)),
        }
        o
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes in all)", &s[..e], s.len())
}

/// A check whose cases do not come from a proptest strategy run in-process
/// (batches that need compilation, for example).
pub struct Custom {
    pub name: &'static str,
    pub run: Box<dyn Fn(&Ctx) -> Report + Sync>,
    pub replay: Box<dyn Fn(&serde_json::Value) -> Result<Verdict, String> + Sync>,
}

impl DynPart for Custom {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ctx: &Ctx) -> Report {
        let t0 = Instant::now();
        let mut r = (self.run)(ctx);
        r.name = self.name.into();
        r.wall_s = t0.elapsed().as_secs_f64();
        r
    }
    fn replay(&self, case: &serde_json::Value) -> Result<Verdict, String> {
        (self.replay)(case)
    }
}

pub struct Out {
    fd: std::fs::File,
}

impl Out {
    /// Keep the real stdout for verdicts and send everything the code under
    /// test prints to /dev/null.
    pub fn capture() -> Self {
        use std::os::fd::FromRawFd;
        unsafe {
            let saved = libc::dup(1);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::close(null);
            libc::fcntl(saved, libc::F_SETFD, libc::FD_CLOEXEC);
            Out { fd: std::fs::File::from_raw_fd(saved) }
        }
    }
    pub fn dup(&self) -> std::fs::File {
        self.fd.try_clone().unwrap()
    }
    pub fn line(&mut self, s: &str) {
        let _ = writeln!(self.fd, "{}", s.replace('\0', "\\0"));
    }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VH_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

/// Run all parts of a property, write evidence, print the verdict.
/// text of the known finding listed for this property under this id
pub fn known_finding(property: &str, id: &str) -> Option<String> {
    let txt = std::fs::read_to_string(verif_dir().join("known_findings.txt")).ok()?;
    let head = format!("known: property={property} id={id} ");
    txt.lines().find_map(|l| l.strip_prefix(&head).map(|r| r.to_string()))
}

pub fn run_property(ctx: &Ctx, parts: &[Box<dyn DynPart>], assumptions: &[&str], out: &mut Out) -> i32 {
    let t0 = Instant::now();
    let dir = verif_dir();
    watch_cases(ctx.id.clone(), dir.join("replays").join(format!("{}.json", ctx.id)), out.dup());
    let mut reports: Vec<Report> = vec![];
    let only = std::env::var("VH_PART").ok();
    let mut violation = None;
    for p in parts {
        if let Some(o) = &only {
            if o != p.name() {
                continue;
            }
        }
        let r = p.run(ctx);
        if std::env::var_os("VH_STATS").is_some() {
            eprintln!(
                "{} {}: {} cases, {} non-trivial, {:.1}s, {} MB, labels {:?} counts {:?}",
                ctx.id, r.name, r.evaluations, r.distinct_nontrivial, r.wall_s, resident() >> 20, r.labels, r.counts
            );
        }
        for k in &r.known {
            out.line(&format!("KNOWN-FINDING: property={} {}", ctx.id, k));
        }
        let fail = r.failure.clone();
        reports.push(r);
        if let Some((case, msg)) = fail {
            violation = Some((p.name().to_string(), case, msg));
            break;
        }
        if INTERNAL.lock().unwrap().is_some() {
            break;
        }
    }
    let internal = INTERNAL.lock().unwrap().clone();
    let evals: u64 = reports.iter().map(|r| r.evaluations).sum();
    let nt: u64 = reports.iter().map(|r| r.distinct_nontrivial).sum();
    let mut parts_json = serde_json::Map::new();
    for r in &reports {
        parts_json.insert(
            r.name.clone(),
            serde_json::json!({"evaluations": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial,
                "rule": r.rule, "labels": r.labels, "counts": r.counts, "wall_s": (r.wall_s * 10.0).round() / 10.0}),
        );
    }
    let samples: Vec<_> = reports.iter().flat_map(|r| r.samples.iter().take(2).cloned()).collect();
    let rule = reports.iter().map(|r| format!("[{}] {}", r.name, r.rule)).collect::<Vec<_>>().join(" ");
    let ev = serde_json::json!({
        "property": ctx.id,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": nt, "rule": rule, "samples": samples, "parts": parts_json},
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    if let Err(e) = std::fs::write(dir.join(format!("evidence/{}.json", ctx.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    if let Some((part, case, msg)) = violation {
        let _ = std::fs::create_dir_all(dir.join("replays"));
        let (m, rendered) = match msg.split_once('\n') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (msg.clone(), String::new()),
        };
        let rp = Replay { property: ctx.id.clone(), part, message: m.clone(), case, rendered: rendered.clone() };
        let path = dir.join(format!("replays/{}.json", ctx.id));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap());
        out.line(&format!("{} [{}]: {}", ctx.id, rp.part, m));
        if !rendered.is_empty() {
            out.line(&trunc(&rendered, 2500));
        }
        out.line(&format!("VIOLATION property={} replay={}", ctx.id, path.display()));
        return 1;
    }
    if let Some(m) = internal {
        eprintln!("internal error of the check: {m}");
        return 3;
    }
    out.line(&format!("{}: held on {} generated cases ({} distinct non-trivial), {:.1}s", ctx.id, evals, nt, t0.elapsed().as_secs_f64()));
    0
}
