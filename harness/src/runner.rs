//! Sharded property runner: generation, shrinking, replay, evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;
/// CPU seconds one case may take before it counts as not terminating.
const CASE_CPU: u64 = 90;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: Cell<bool> = const { Cell::new(false) };
}

fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    crate::content::mix(h)
}

/// A directory that disappears when dropped.
#[derive(Debug)]
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let k = N.fetch_add(1, Ordering::Relaxed);
        let p = scratch_root().join(format!("c{k}"));
        std::fs::create_dir_all(&p).expect("harness: scratch");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn join(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
}
impl Default for Scratch {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch_base() -> PathBuf {
    if let Ok(s) = std::env::var("XV_SCRATCH") {
        return PathBuf::from(s);
    }
    unsafe {
        let mut s: libc::statvfs = std::mem::zeroed();
        if libc::statvfs(c"/dev/shm".as_ptr(), &mut s) == 0 && s.f_bavail * s.f_frsize > 6 << 30 {
            return PathBuf::from("/dev/shm");
        }
    }
    PathBuf::from("/tmp")
}

/// One directory per process, removed at exit.
pub fn scratch_root() -> PathBuf {
    scratch_base().join(format!("xv-{}", std::process::id()))
}

#[derive(Default)]
struct Cov {
    evaluations: u64,
    cases: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

/// Per-case context: labels, extra evaluations, non-triviality.
#[derive(Default)]
pub struct Cx {
    labels: Vec<String>,
    evals: u64,
    nontrivial: bool,
    pub thorough: bool,
    scratch: RefCell<Vec<Scratch>>,
}
impl Cx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.into());
        }
    }
    /// Count `n` further executions (fault points, ranges, operations) within this case.
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// A deviation that is listed in known_findings.txt under this key; otherwise it is a violation.
    pub fn known(&mut self, key: &str, msg: &str) -> Outcome {
        if known_findings().iter().any(|(k, _)| k == key) {
            self.labels.push(format!("known finding {key}"));
            return Ok(());
        }
        Err(msg.to_string())
    }
    pub fn scratch(&self) -> PathBuf {
        let s = Scratch::new();
        let p = s.0.clone();
        self.scratch.borrow_mut().push(s);
        p
    }
}

pub type Outcome = Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    rule: String,
    assumptions: Vec<String>,
    pub seed: u64,
    pub thorough: bool,
    scale: f64,
    replay: Option<(String, Value)>,
    replayed: bool,
    only: Option<String>,
    cov: Cov,
    parts: BTreeMap<String, Value>,
    start: Instant,
    root: PathBuf,
}

/// Lines `known: property=<id> key=<key> <text>` of known_findings.txt.
fn known_findings() -> &'static Vec<(String, String)> {
    static K: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let t = std::fs::read_to_string(verif_root().join("known_findings.txt")).unwrap_or_default();
        t.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (_, l) = l.split_once(" key=")?;
                let (k, text) = l.split_once(' ')?;
                Some((k.to_string(), text.to_string()))
            })
            .collect()
    })
}

pub fn verif_root() -> PathBuf {
    std::env::var("XV_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn case_file(dir: &Path, shard: usize) -> PathBuf {
    dir.join(format!("case-{shard}"))
}

fn tripped(msg: &str) -> bool {
    msg.contains("harness:")
}

/// Run one case, turning panics into failures.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    let old = CATCHING.with(|c| c.replace(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(old));
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let txt = format!("panic at {loc}: {m}");
        if CATCHING.with(|c| c.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(txt));
        } else {
            eprintln!("{txt}");
        }
    }));
}

impl Check {
    pub fn new(id: &'static str, level: &'static str, rule: &str) -> Check {
        let args: Vec<String> = std::env::args().collect();
        let mut replay = None;
        let mut only = std::env::var("XV_PART").ok();
        let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "--replay" => {
                    let f = &args[i + 1];
                    let v: Value = std::fs::read(f)
                        .map_err(|e| e.to_string())
                        .and_then(|b| parse(&b))
                        .unwrap_or_else(|e| die(&format!("cannot read replay file {f}: {e}")));
                    let part = v["part"].as_str().unwrap_or("").to_string();
                    replay = Some((part, v["case"].clone()));
                    i += 1;
                }
                "--tier" => {
                    tier = args[i + 1].clone();
                    i += 1;
                }
                "--part" => {
                    only = Some(args[i + 1].clone());
                    i += 1;
                }
                a => die(&format!("unknown argument {a}")),
            }
            i += 1;
        }
        if std::env::var_os("XV_CHILD").is_none() {
            supervise(id, &args, replay.is_some());
        }
        install_hook();
        let thorough = tier == "thorough";
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let scale = std::env::var("XV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let root = scratch_root();
        std::fs::create_dir_all(&root).unwrap_or_else(|e| die(&format!("scratch: {e}")));
        Check {
            id,
            level,
            rule: rule.split_whitespace().collect::<Vec<_>>().join(" "),
            assumptions: vec![],
            seed,
            thorough,
            scale,
            replay,
            replayed: false,
            only,
            cov: Cov::default(),
            parts: BTreeMap::new(),
            start: Instant::now(),
            root,
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.split_whitespace().collect::<Vec<_>>().join(" "));
    }

    pub fn part<T>(
        &mut self,
        name: &str,
        quick: u64,
        thorough: u64,
        strat: impl Fn() -> BoxedStrategy<T> + Sync,
        f: impl Fn(&T, &mut Cx) -> Outcome + Sync,
    ) where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + 'static,
    {
        if let Some((p, v)) = &self.replay {
            if p != name {
                return;
            }
            self.replayed = true;
            let case: T = serde_json::from_value(v.clone()).unwrap_or_else(|e| die(&format!("replay file does not fit {name}: {e}")));
            let json = serde_json::to_string(&case).unwrap();
            let dir = case_dir();
            let _ = std::fs::write(case_file(&dir, 0), format!("{}\n{name}\n{json}", self.id));
            let mut cx = Cx { thorough: self.thorough, ..Default::default() };
            let (id, n2) = (self.id, name.to_string());
            let wd = Watch::new(move |_, j| hang(id, &n2, j));
            wd.enter(0, &json);
            let r = guarded(|| f(&case, &mut cx));
            wd.leave(0);
            drop(cx);
            match r {
                Ok(()) => println!("replay: property={} part={name}: holds on this case", self.id),
                Err(m) => self.fail(name, &serde_json::to_value(&case).unwrap(), &m),
            }
            return;
        }
        if self.only.as_ref().is_some_and(|o| o != name) {
            return;
        }
        let t0 = Instant::now();
        let n = if self.thorough { thorough } else { quick };
        let n = ((n as f64 * self.scale).ceil() as u64).max(1);
        let stop = AtomicBool::new(false);
        let fail: Mutex<Option<(Value, String)>> = Mutex::new(None);
        let cov = Mutex::new(Cov::default());
        let dir = case_dir();
        let (id, n2) = (self.id, name.to_string());
        let wd = Watch::new(move |_, j| hang(id, &n2, j));

        // committed regression cases first
        for (file, v) in regressions(self.id, name) {
            let case: T = serde_json::from_value(v["case"].clone()).unwrap_or_else(|e| die(&format!("{file:?} does not fit {name}: {e}")));
            let json = serde_json::to_string(&case).unwrap();
            let _ = std::fs::write(case_file(&dir, 0), format!("{}\n{name}\n{json}", self.id));
            let mut cx = Cx { thorough: self.thorough, ..Default::default() };
            wd.enter(0, &json);
            let r = guarded(|| f(&case, &mut cx));
            wd.leave(0);
            cx.label("regression case");
            absorb(&cov, &json, cx, name);
            if let Err(m) = r {
                self.fail(name, &serde_json::to_value(&case).unwrap(), &m);
            }
        }

        let shards = SHARDS.min(n as usize);
        let next = AtomicUsize::new(0);
        let thorough = self.thorough;
        std::thread::scope(|s| {
            for _ in 0..shards {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || {
                        let shard = next.fetch_add(1, Ordering::SeqCst);
                        let cases = n / shards as u64 + if (shard as u64) < n % shards as u64 { 1 } else { 0 };
                        let mut sd = [0u8; 32];
                        for (i, c) in sd.chunks_mut(8).enumerate() {
                            let k = format!("{}/{}/{name}/{shard}/{i}", self.seed, self.id);
                            c.copy_from_slice(&hash(k.as_bytes()).to_le_bytes());
                        }
                        let cfg = Config {
                            cases: cases as u32,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 40_000,
                            max_global_rejects: 1 << 20,
                            ..Config::default()
                        };
                        let mut tr = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &sd));
                        let mine = Cell::new(false);
                        let strat = strat();
                        let res = tr.run(&strat, |case| {
                            if stop.load(Ordering::Relaxed) && !mine.get() {
                                return Ok(());
                            }
                            let json = serde_json::to_string(&case).unwrap();
                            let _ = std::fs::write(case_file(&dir, shard), format!("{}\n{name}\n{json}", self.id));
                            let mut cx = Cx { thorough, ..Default::default() };
                            wd.enter(shard, &json);
                            let r = guarded(|| f(&case, &mut cx));
                            wd.leave(shard);
                            if !mine.get() {
                                absorb(&cov, &json, cx, name);
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(m) => {
                                    if tripped(&m) {
                                        // keep the message through shrinking
                                        return Err(TestCaseError::fail(m));
                                    }
                                    mine.set(true);
                                    stop.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                let v = serde_json::to_value(&case).unwrap();
                                let mut f = fail.lock().unwrap();
                                let better = match &*f {
                                    None => true,
                                    Some((_, m)) => tripped(m) && !tripped(reason.message()),
                                };
                                if better {
                                    *f = Some((v, reason.message().to_string()));
                                }
                            }
                            Err(TestError::Abort(r)) => {
                                let mut f = fail.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((Value::Null, format!("harness: generator gave up: {r}")));
                                }
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        let c = cov.into_inner().unwrap();
        self.cov.evaluations += c.evaluations;
        self.cov.cases += c.cases;
        self.parts.insert(
            name.into(),
            json!({"cases": c.cases, "evaluations": c.evaluations, "distinct_nontrivial": c.nontrivial.len(), "wall_s": t0.elapsed().as_secs_f64()}),
        );
        self.cov.nontrivial.extend(c.nontrivial);
        for (k, v) in c.labels {
            *self.cov.labels.entry(k).or_default() += v;
        }
        self.cov.samples.extend(c.samples);
        if let Some((v, m)) = fail.into_inner().unwrap() {
            self.fail(name, &v, &m);
        }
    }

    fn evidence(&self, violations: u64) {
        let e = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.cov.evaluations,
                "distinct_nontrivial": self.cov.nontrivial.len(),
                "rule": self.rule,
                "samples": self.cov.samples,
                "cases": self.cov.cases,
                "labels": self.cov.labels,
                "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let d = verif_root().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        let f = d.join(format!("{}.json", self.id));
        if std::fs::write(&f, serde_json::to_vec_pretty(&e).unwrap()).is_err() {
            die("cannot write evidence");
        }
    }

    fn fail(&self, part: &str, case: &Value, msg: &str) -> ! {
        if self.replay.is_none() {
            self.evidence(1);
        }
        let _ = std::fs::remove_dir_all(&self.root);
        if tripped(msg) {
            eprintln!("harness error in {} part {part}: {msg}\ncase: {case}", self.id);
            std::process::exit(2);
        }
        report(self.id, part, case, msg);
        std::process::exit(1);
    }

    /// For facts that are decided outside of `part`.
    pub fn violation(&self, part: &str, case: Value, msg: &str) -> ! {
        self.fail(part, &case, msg)
    }

    pub fn finish(self) -> ! {
        let _ = std::fs::remove_dir_all(&self.root);
        if self.replay.is_some() {
            if !self.replayed {
                die("replay file names no part of this check");
            }
            std::process::exit(0);
        }
        self.evidence(0);
        for (k, text) in known_findings() {
            if self.cov.labels.contains_key(&format!("known finding {k}")) {
                println!("KNOWN-FINDING: property={} {text}", self.id);
            }
        }
        println!(
            "{}: held on {} evaluations in {} cases ({} distinct non-trivial), {:.1}s",
            self.id,
            self.cov.evaluations,
            self.cov.cases,
            self.cov.nontrivial.len(),
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
}

fn absorb(cov: &Mutex<Cov>, json: &str, cx: Cx, part: &str) {
    let mut c = cov.lock().unwrap();
    c.cases += 1;
    c.evaluations += 1 + cx.evals;
    for l in cx.labels {
        *c.labels.entry(l).or_default() += 1;
    }
    if cx.nontrivial {
        let fresh = c.nontrivial.insert(hash(json.as_bytes()) ^ hash(part.as_bytes()));
        if fresh && c.samples.len() < 3 && json.len() < 4000 {
            c.samples.push(json!({"part": part, "case": parse::<Value>(json.as_bytes()).unwrap()}));
        } else if fresh && c.samples.is_empty() {
            let s: String = json.chars().take(1500).collect();
            c.samples.push(json!({"part": part, "case_truncated": s}));
        }
    }
}

fn regressions(id: &str, part: &str) -> Vec<(PathBuf, Value)> {
    let mut out = vec![];
    let d = verif_root().join("regress");
    let Ok(rd) = std::fs::read_dir(&d) else { return out };
    let mut files: Vec<PathBuf> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
    files.sort();
    for f in files {
        let Some(n) = f.file_name().and_then(|n| n.to_str()) else { continue };
        if !n.starts_with(&format!("{id}-")) || !n.ends_with(".json") {
            continue;
        }
        let v: Value = parse(&std::fs::read(&f).unwrap()).unwrap_or_else(|e| die(&format!("{f:?}: {e}")));
        if v["part"] == part {
            out.push((f, v));
        }
    }
    out
}

fn report(id: &str, part: &str, case: &Value, msg: &str) {
    let d = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let body = json!({"property": id, "part": part, "message": msg, "case": case});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let f = d.join(format!("{id}-{}-{:016x}.json", part.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), hash(serde_json::to_string(case).unwrap().as_bytes())));
    let _ = std::fs::write(&f, text);
    let short: String = msg.chars().take(2000).collect();
    println!("{id} part {part}: {short}");
    println!("VIOLATION property={id} replay={}", f.display());
    let _ = std::io::stdout().flush();
}

pub fn die(m: &str) -> ! {
    eprintln!("harness: {m}");
    let _ = std::fs::remove_dir_all(scratch_root());
    std::process::exit(2)
}

fn case_dir() -> PathBuf {
    std::env::var("XV_CASES").map(PathBuf::from).unwrap_or_else(|_| scratch_root())
}

fn hang(id: &'static str, part: &str, json: &str) {
    let case: Value = parse(json.as_bytes()).unwrap_or(Value::Null);
    report(id, part, &case, &format!("no result after {CASE_CPU} s of CPU time"));
    let _ = std::fs::remove_dir_all(scratch_root());
    std::process::exit(1);
}

/// Watches the CPU time each shard spends in one case.
struct Watch {
    slots: Arc<Vec<Mutex<Option<Slot>>>>,
    done: Arc<AtomicBool>,
}
struct Slot {
    clock: libc::clockid_t,
    start: f64,
    json: String,
}
fn clock(c: libc::clockid_t) -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(c, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}
impl Watch {
    fn new(on_hang: impl Fn(usize, &str) + Send + 'static) -> Watch {
        let slots: Arc<Vec<Mutex<Option<Slot>>>> = Arc::new((0..SHARDS).map(|_| Mutex::new(None)).collect());
        let done = Arc::new(AtomicBool::new(false));
        let (s2, d2) = (slots.clone(), done.clone());
        std::thread::spawn(move || {
            while !d2.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(500));
                for (i, s) in s2.iter().enumerate() {
                    let g = s.lock().unwrap();
                    if let Some(s) = &*g {
                        if clock(s.clock) - s.start > CASE_CPU as f64 {
                            on_hang(i, &s.json);
                        }
                    }
                }
            }
        });
        Watch { slots, done }
    }
    fn enter(&self, shard: usize, json: &str) {
        let mut id: libc::clockid_t = 0;
        unsafe {
            libc::pthread_getcpuclockid(libc::pthread_self(), &mut id);
        }
        *self.slots[shard].lock().unwrap() = Some(Slot { clock: id, start: clock(id), json: json.to_string() });
    }
    fn leave(&self, shard: usize) {
        *self.slots[shard].lock().unwrap() = None;
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        self.done.store(true, Ordering::Relaxed);
    }
}

/// Run the check in a child process, so that a crash of the code under test (stack overflow, abort)
/// becomes a violation with the case that caused it.
fn supervise(id: &'static str, args: &[String], replaying: bool) -> ! {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let dir = scratch_root();
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("scratch: {e}")));
    let exe = std::env::current_exe().unwrap();
    let run = |a: &[String], gib: u64| {
        let mut c = std::process::Command::new(&exe);
        // code that grows without end is stopped before the sandbox runs out of memory
        unsafe {
            c.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: gib << 30, rlim_max: libc::RLIM_INFINITY };
                libc::setrlimit(libc::RLIMIT_DATA, &l);
                Ok(())
            });
        }
        let mut c = c
            .args(a)
            .env("XV_CHILD", "1")
            .env("XV_CASES", &dir)
            .spawn()
            .unwrap_or_else(|e| die(&format!("spawn: {e}")));
        let pid = c.id();
        let st = c.wait().unwrap_or_else(|e| die(&format!("wait: {e}")));
        let _ = std::fs::remove_dir_all(scratch_base().join(format!("xv-{pid}")));
        st
    };
    let st = run(&args[1..], 22);
    if let Some(c) = st.code() {
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("{id}: check process ended by signal {sig}; looking for the case");
    for shard in 0..SHARDS {
        let Ok(t) = std::fs::read_to_string(case_file(&dir, shard)) else { continue };
        let mut it = t.splitn(3, '\n');
        let (Some(_), Some(part), Some(json)) = (it.next(), it.next(), it.next()) else { continue };
        let Ok(case) = parse::<Value>(json.as_bytes()) else { continue };
        let crash = if replaying {
            Some(sig)
        } else {
            let f = dir.join(format!("probe-{shard}.json"));
            let _ = std::fs::write(&f, serde_json::to_vec(&json!({"part": part, "case": case})).unwrap());
            let st = run(&["--replay".into(), f.to_string_lossy().into()], 14);
            if st.code() == Some(1) {
                let _ = std::fs::remove_dir_all(&dir);
                std::process::exit(1);
            }
            st.signal()
        };
        if let Some(s) = crash {
            report(id, part, &case, &format!("the process was ended by signal {s}"));
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(1);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    die("check process crashed, but no single case reproduces it")
}

/// Cases nest as deep as their trees.
fn parse<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    T::deserialize(&mut d).map_err(|e| e.to_string())
}
