//! Generated-input search: runs a property's check over generated cases, shrinks a failure,
//! writes the replay file and the evidence file.
//!
//! `run` supervises a worker process, so that a case which aborts or hangs the process is
//! still reported, with that case as the replay.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a passing case contributed.
#[derive(Default)]
pub struct Cov {
    pub nontrivial: bool,
    pub classes: Vec<String>,
}
impl Cov {
    pub fn new(nontrivial: bool) -> Self {
        Cov { nontrivial, classes: vec![] }
    }
    pub fn class(mut self, c: impl Into<String>) -> Self {
        self.classes.push(c.into());
        self
    }
    pub fn class_if(self, b: bool, c: &str) -> Self {
        if b {
            self.class(c)
        } else {
            self
        }
    }
}
pub type Check = Result<Cov, String>;

pub struct Prop<C> {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Cases per run at the quick tier; thorough multiplies it.
    pub quick: u32,
    pub thorough_factor: u32,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C) -> Check,
}

pub trait AnyProp: Send + Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> &'static [&'static str];
    fn cases(&self, tier: &str) -> u32;
    fn work(&self, opt: &Opt) -> WorkResult;
    /// Runs the check on a serialised case.
    fn replay(&self, case: &Value) -> Result<(), String>;
    /// Runs the check on a case drawn from the given random bytes; the case if it fails.
    fn from_bytes(&self, data: &[u8]) -> Result<(), (Value, String)>;
}

/// Key of a list of cases to be run at the same time.
const BESIDE: &str = "$beside";

/// What a spawned thread gets by default.
const STACK: usize = 2 << 20;

#[derive(Clone, Debug)]
pub struct Opt {
    pub tier: String,
    pub seed: u64,
    pub dir: PathBuf,
    pub regress: PathBuf,
    pub cases: Option<u32>,
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct WorkResult {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub regress: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, String)>,
}

pub const SHARDS: u64 = 16;
const HANG_SECS: u64 = 120;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static OP: Cell<&'static str> = const { Cell::new("") };
}
/// Names the library operation about to run (for failure messages).
pub fn op(name: &'static str) {
    OP.with(|o| o.set(name));
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}
/// Runs `f`; a panic becomes its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
fn guarded<C>(check: fn(&C) -> Check, c: &C) -> Check {
    op("");
    match catch(|| check(c)) {
        Ok(r) => r,
        Err(p) => {
            let o = OP.with(|o| o.get());
            Err(if o.is_empty() { p } else { format!("{o}: {p}") })
        }
    }
}

fn fnv(data: &[u8]) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    h.write(data);
    h.finish()
}
fn seed_bytes(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut s = [0u8; 32];
    let mut x = seed ^ fnv(id.as_bytes()).rotate_left(17) ^ shard.wrapping_mul(0x9E3779B97F4A7C15);
    for chunk in s.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    s
}

impl<C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static> AnyProp for Prop<C> {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn assumptions(&self) -> &'static [&'static str] {
        self.assumptions
    }
    fn cases(&self, tier: &str) -> u32 {
        if tier == "thorough" {
            self.quick.saturating_mul(self.thorough_factor)
        } else {
            self.quick
        }
    }
    fn replay(&self, case: &Value) -> Result<(), String> {
        if let Some(all) = case.get(BESIDE).and_then(|v| v.as_array()) {
            // These cases at the same time, several times over.
            return std::thread::scope(|sc| {
                let hs: Vec<_> = all.iter().map(|c| sc.spawn(move || (0..30).try_for_each(|_| self.replay(c)))).collect();
                hs.into_iter().try_for_each(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
            });
        }
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("unreadable case: {e}"))?;
        let check = self.check;
        // With the stack of a worker thread.
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || guarded(check, &c).map(|_| ()))
                .expect("thread")
                .join()
                .expect("replay thread")
        })
    }
    fn from_bytes(&self, data: &[u8]) -> Result<(), (Value, String)> {
        use proptest::strategy::{Strategy, ValueTree};
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::PassThrough, data),
        );
        thread_local! { static STRATS: RefCell<BTreeMap<&'static str, Box<dyn std::any::Any>>> = const { RefCell::new(BTreeMap::new()) }; }
        let c = STRATS.with(|m| {
            let mut m = m.borrow_mut();
            let s = m.entry(self.id).or_insert_with(|| Box::new((self.strategy)()));
            let s = s.downcast_ref::<BoxedStrategy<C>>().expect("strategy");
            s.new_tree(&mut runner).map(|t| t.current())
        });
        let c = match c {
            Ok(c) => c,
            Err(_) => return Ok(()),
        };
        guarded(self.check, &c).map(|_| ()).map_err(|e| (serde_json::to_value(&c).unwrap(), e))
    }
    fn work(&self, opt: &Opt) -> WorkResult {
        install_hook();
        let mut res = WorkResult::default();
        let t0 = Instant::now();
        // One slot per shard and one for the regression cases: when its current case began.
        let started: std::sync::Arc<Vec<AtomicU64>> = std::sync::Arc::new((0..=SHARDS).map(|_| AtomicU64::new(0)).collect());
        {
            // A case that does not come back is left as its in-flight file; the supervisor takes over.
            let (started, dir) = (started.clone(), opt.dir.clone());
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(100));
                for (i, s) in started.iter().enumerate() {
                    let at = s.load(Ordering::SeqCst);
                    if at != 0 && (t0.elapsed().as_millis() as u64).saturating_sub(at) > HANG_SECS * 1000 {
                        let _ = std::fs::write(dir.join("hang"), format!("{i}"));
                        std::process::exit(77);
                    }
                }
            });
        }
        // Committed regression cases first.
        if let Ok(rd) = std::fs::read_dir(opt.regress.join(self.id)) {
            let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            files.sort();
            for f in files {
                if f.extension().map_or(true, |e| e != "json") {
                    continue;
                }
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("regress file")).expect("regress json");
                let case = v["case"].clone();
                let _ = std::fs::write(opt.dir.join(format!("inflight-{SHARDS}.json")), case.to_string());
                started[SHARDS as usize].store((t0.elapsed().as_millis() as u64).max(1), Ordering::SeqCst);
                res.regress += 1;
                res.evaluations += 1;
                if let Err(e) = self.replay(&case) {
                    res.failure = Some((case, format!("{e} (regression case {})", f.display())));
                    return res;
                }
            }
            let _ = std::fs::remove_file(opt.dir.join(format!("inflight-{SHARDS}.json")));
        }
        started[SHARDS as usize].store(0, Ordering::SeqCst);
        let total = opt.cases.unwrap_or_else(|| self.cases(&opt.tier)) as u64;
        let next = AtomicUsize::new(0);
        let lowest_fail = AtomicU64::new(u64::MAX);
        let out: Mutex<Vec<(u64, ShardOut)>> = Mutex::new(vec![]);
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let (next, lowest_fail, out, started) = (&next, &lowest_fail, &out, &started);
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(sc, move || loop {
                            let shard = next.fetch_add(1, Ordering::SeqCst) as u64;
                            if shard >= SHARDS {
                                break;
                            }
                            let n = (total / SHARDS + u64::from(shard < total % SHARDS)) as u32;
                            let so = self.shard(opt, shard, n, lowest_fail, &started[shard as usize], t0);
                            started[shard as usize].store(0, Ordering::SeqCst);
                            out.lock().unwrap().push((shard, so));
                        })
                        .expect("thread")
                })
                .collect();
            for h in hs {
                h.join().expect("worker thread");
            }
        });
        let mut out = out.into_inner().unwrap();
        out.sort_by_key(|o| o.0);
        let mut distinct = HashSet::new();
        for (_, so) in &mut out {
            res.evaluations += so.evals;
            distinct.extend(so.hashes.drain());
            for (k, v) in &so.classes {
                *res.classes.entry(k.clone()).or_default() += v;
            }
            for s in so.samples.drain(..) {
                if res.samples.len() < 6 {
                    res.samples.push(s);
                }
            }
            if res.failure.is_none() {
                res.failure = so.failure.take();
            }
        }
        res.distinct_nontrivial = distinct.len() as u64;
        res
    }
}

#[derive(Default)]
struct ShardOut {
    evals: u64,
    hashes: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failure: Option<(Value, String)>,
}

impl<C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static> Prop<C> {
    fn shard(&self, opt: &Opt, shard: u64, n: u32, lowest: &AtomicU64, started: &AtomicU64, t0: Instant) -> ShardOut {
        let so = RefCell::new(ShardOut::default());
        let failed = Cell::new(false);
        let inflight = opt.dir.join(format!("inflight-{shard}.json"));
        let strat = (self.strategy)();
        let mut runner = TestRunner::new_with_rng(
            Config {
                cases: n,
                failure_persistence: None,
                max_shrink_iters: 20_000,
                max_shrink_time: 45_000,
                ..Config::default()
            },
            TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(opt.seed, self.id, shard)),
        );
        let r = runner.run(&strat, |c| {
            if lowest.load(Ordering::SeqCst) < shard && !failed.get() {
                return Ok(());
            }
            let js = serde_json::to_vec(&c).expect("serialise");
            let _ = std::fs::write(&inflight, &js);
            started.store((t0.elapsed().as_millis() as u64).max(1), Ordering::SeqCst);
            let r = guarded(self.check, &c);
            match r {
                Ok(cov) => {
                    if !failed.get() {
                        let mut so = so.borrow_mut();
                        so.evals += 1;
                        for k in cov.classes {
                            *so.classes.entry(k).or_default() += 1;
                        }
                        if cov.nontrivial {
                            let fresh = so.hashes.insert(fnv(&js));
                            if fresh && js.len() < 1500 && js.len() > 150 && so.samples.len() < 2 {
                                so.samples.push(serde_json::from_slice(&js).unwrap());
                            }
                        }
                    }
                    Ok(())
                }
                Err(e) => {
                    if !failed.get() {
                        failed.set(true);
                        so.borrow_mut().evals += 1;
                        lowest.fetch_min(shard, Ordering::SeqCst);
                    }
                    Err(TestCaseError::fail(e))
                }
            }
        });
        let _ = std::fs::remove_file(&inflight);
        let mut so = so.into_inner();
        if let Err(e) = r {
            so.failure = Some(match e {
                TestError::Fail(reason, c) => (serde_json::to_value(&c).unwrap(), reason.to_string()),
                TestError::Abort(reason) => (Value::Null, format!("harness: {reason}")),
            });
        }
        so
    }
}

// ---- supervisor ----

pub fn scratch(tag: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("pbt-{tag}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

enum Ran {
    Pass,
    Fail(String),
    Unclear(String),
}
/// Runs one case in a process of its own.
fn isolated(id: &str, file: &Path) -> Ran {
    let mut ch = match std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["replay-case", id])
        .arg(file)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Ran::Unclear(format!("cannot start: {e}")),
    };
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                let mut s = String::new();
                use std::io::Read;
                let _ = ch.stdout.take().map(|mut o| o.read_to_string(&mut s));
                return match st.code() {
                    Some(0) => Ran::Pass,
                    Some(1) => Ran::Fail(s.trim().to_string()),
                    Some(c) => Ran::Unclear(format!("exit {c}")),
                    None => Ran::Fail(format!("the process was ended by a signal ({st})")),
                };
            }
            Ok(None) if t0.elapsed().as_secs() > HANG_SECS => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Ran::Fail(format!("no result within {HANG_SECS} s"));
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            Err(e) => return Ran::Unclear(e.to_string()),
        }
    }
}

/// The whole check: worker, verdict, replay file, evidence. Returns the exit code.
pub fn supervise(p: &dyn AnyProp, verif: &Path, tier: &str, seed: u64, cases: Option<u32>) -> i32 {
    let t0 = Instant::now();
    let dir = scratch(p.id());
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("own path"));
    cmd.args(["worker", p.id(), tier, &seed.to_string()])
        .arg(&dir)
        .arg(verif.join("regress"))
        .arg(cases.map_or("-".into(), |c| c.to_string()));
    let st = cmd.status();
    let mut failure: Option<(Value, String)> = None;
    let mut trouble: Option<String> = None;
    let mut res = WorkResult::default();
    match st.as_ref().map(|s| s.code()) {
        Ok(Some(0)) => match std::fs::read(dir.join("result.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(r) => {
                res = r;
                failure = res.failure.take();
            }
            None => trouble = Some("worker left no result".into()),
        },
        other => {
            // The worker died: try the cases it was in, each in its own process.
            let what = format!("{other:?}");
            let mut files: Vec<_> = std::fs::read_dir(&dir)
                .map(|rd| rd.filter_map(|e| e.ok()).map(|e| e.path()).collect())
                .unwrap_or_default();
            files.retain(|f: &PathBuf| f.file_name().map_or(false, |n| n.to_string_lossy().starts_with("inflight-")));
            files.sort();
            if let Ok(h) = std::fs::read_to_string(dir.join("hang")) {
                let first = dir.join(format!("inflight-{h}.json"));
                files.sort_by_key(|f| *f != first);
            }
            trouble = Some(format!("worker ended with {what}"));
            use std::os::unix::process::ExitStatusExt;
            let signal = st.as_ref().ok().and_then(|s| s.signal());
            for f in files.iter().chain(&files) {
                if let Ran::Fail(m) = isolated(p.id(), f) {
                    if let Some(v) = std::fs::read(f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                        failure = Some((v, m));
                        trouble = None;
                        break;
                    }
                }
            }
            // A crash (SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV) that no case causes by itself: the
            // cases that were under way together.
            if failure.is_none() && matches!(signal, Some(4 | 6 | 7 | 8 | 11)) && !files.is_empty() {
                let all: Vec<Value> = files
                    .iter()
                    .filter_map(|f| std::fs::read(f).ok().and_then(|b| serde_json::from_slice(&b).ok()))
                    .collect();
                failure = Some((json!({ BESIDE: all }), format!("the process ended with signal {} while these cases ran at the same time", signal.unwrap())));
                trouble = None;
            }
        }
    }
    let mut replay = None;
    if let Some((case, msg)) = &failure {
        if case.is_null() {
            trouble = Some(msg.clone());
            failure = None;
        } else {
            let body = json!({"property": p.id(), "case": case, "failure": msg});
            let rd = verif.join("replays");
            let _ = std::fs::create_dir_all(&rd);
            let f = rd.join(format!("{}-{:016x}.json", p.id(), fnv(case.to_string().as_bytes())));
            if let Err(e) = std::fs::write(&f, serde_json::to_string(&body).unwrap()) {
                trouble = Some(format!("cannot write the replay file: {e}"));
                failure = None;
            } else {
                // The replay file should fail by itself; results may depend on a hash seed or a
                // random starting vector, hence several attempts.
                let cf = dir.join("confirm.json");
                let _ = std::fs::write(&cf, case.to_string());
                let mut again = false;
                for _ in 0..20 {
                    match isolated(p.id(), &cf) {
                        Ran::Fail(_) => {
                            again = true;
                            break;
                        }
                        Ran::Pass => {}
                        Ran::Unclear(m) => {
                            println!("note: replay unclear: {m}");
                            break;
                        }
                    }
                }
                if !again {
                    println!("note: the failure depends on more than the case; it did not recur in 20 runs of the replay");
                }
                replay = Some(f);
            }
        }
    }
    let ev = json!({
        "property": p.id(),
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": res.distinct_nontrivial,
            "rule": p.rule(),
            "samples": res.samples,
            "classes": res.classes,
            "regression_cases": res.regress,
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": i32::from(failure.is_some()),
    });
    let ed = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    if let Err(e) = std::fs::write(ed.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()) {
        trouble.get_or_insert(format!("cannot write evidence: {e}"));
    }
    let _ = std::fs::remove_dir_all(&dir);
    if let (Some(f), Some((_, msg))) = (replay, failure) {
        println!("{}", msg.lines().take(20).collect::<Vec<_>>().join("\n"));
        println!("VIOLATION property={} replay={}", p.id(), f.display());
        return 1;
    }
    if let Some(t) = trouble {
        println!("INCONCLUSIVE property={} {t}", p.id());
        return 3;
    }
    println!(
        "OK property={} cases={} distinct non-trivial={} regression cases={} wall={:.1}s",
        p.id(), res.evaluations, res.distinct_nontrivial, res.regress, t0.elapsed().as_secs_f64()
    );
    0
}
