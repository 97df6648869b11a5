//! Property runner: one parent process, N worker processes (shards). Every random choice comes from proptest's
//! ChaCha RNG seeded with (VERIF_SEED, property, arm, shard); the amount of work per tier is fixed.
use crate::sut;
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check reports about one case besides its verdict.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}

impl Obs {
    pub fn label(&mut self, s: &str) {
        self.labels.push(s.to_string());
    }
    pub fn when(&mut self, c: bool, s: &str) {
        if c {
            self.label(s)
        }
    }
}

pub type Verdict = Result<(), String>;

pub trait ArmDyn: Sync + Send {
    fn name(&self) -> &'static str;
    fn run_shard(&self, ctx: &ShardCtx) -> ShardOut;
    fn replay(&self, case: &Value) -> Verdict;
}

pub struct Arm<C: 'static> {
    pub name: &'static str,
    /// total number of generated cases for (quick, thorough)
    pub cases: (u32, u32),
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Verdict,
    /// cases always run (sample corpus, regressions, boundary values)
    pub fixed: fn(Tier) -> Vec<C>,
}

pub fn none<C>(_: Tier) -> Vec<C> {
    vec![]
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub arms: Vec<Box<dyn ArmDyn>>,
}

pub struct ShardCtx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: u32,
    pub shards: u32,
    pub root: PathBuf,
    /// where the case about to run is written (second pass after a crash)
    pub trace: Option<PathBuf>,
}

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct ShardOut {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub arm: String,
    pub message: String,
    pub case: Value,
}

fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn rng_for(ctx: &ShardCtx, arm: &str) -> TestRng {
    let mut seed = [0u8; 32];
    for i in 0..4u64 {
        let v = hash64(&(ctx.seed, ctx.prop.as_str(), arm, ctx.shard, i));
        seed[i as usize * 8..i as usize * 8 + 8].copy_from_slice(&v.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &seed)
}

const SAMPLE_BYTES: usize = 3000;

impl<C> ArmDyn for Arm<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run_shard(&self, ctx: &ShardCtx) -> ShardOut {
        let out = RefCell::new(ShardOut::default());
        let counting = std::cell::Cell::new(true);
        let one = |c: &C| -> Verdict {
            let text = serde_json::to_string(c).expect("case serialises");
            *CURRENT.lock().unwrap() = (self.name.to_string(), text.clone());
            CASE.fetch_add(1, Ordering::SeqCst);
            if let Some(p) = &ctx.trace {
                let v = json!({"property": ctx.prop, "arm": self.name, "message": "the process died while running this case", "case": serde_json::to_value(c).unwrap()});
                std::fs::write(p, serde_json::to_string_pretty(&v).unwrap()).expect("trace");
            }
            let mut obs = Obs::default();
            let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.check)(c, &mut obs))) {
                Ok(r) => r,
                Err(_) => {
                    // a panic outside the code under test is a defect of this harness
                    eprintln!("harness panic on case {}", text);
                    std::process::exit(3)
                }
            };
            if counting.get() {
                let mut o = out.borrow_mut();
                o.evaluations += 1;
                for l in obs.labels {
                    *o.labels.entry(format!("{}: {}", self.name, l)).or_default() += 1;
                }
                if obs.nontrivial {
                    *o.labels.entry(format!("{}: nontrivial", self.name)).or_default() += 1;
                    o.nontrivial.insert(hash64(&(self.name, &text)));
                    if o.samples.len() < 2 && text.len() < SAMPLE_BYTES {
                        o.samples.push(json!({"arm": self.name, "case": serde_json::from_str::<Value>(&text).unwrap()}));
                    }
                }
                if r.is_err() {
                    counting.set(false);
                }
            }
            r
        };
        let saved = ctx.root.join("regress");
        let prefix = format!("{}-{}-", ctx.prop, self.name);
        let mut files: Vec<PathBuf> = std::fs::read_dir(&saved).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        files.retain(|f| f.file_name().unwrap().to_string_lossy().starts_with(&prefix));
        files.sort();
        let regress = files.iter().map(|f| {
            let v: Value = serde_json::from_slice(&std::fs::read(f).expect("saved case")).expect("saved case");
            serde_json::from_value::<C>(v["case"].clone()).expect("saved case")
        });
        for (i, c) in regress.chain((self.fixed)(ctx.tier)).enumerate() {
            if i as u32 % ctx.shards != ctx.shard {
                continue;
            }
            if let Err(m) = one(&c) {
                out.borrow_mut().failure =
                    Some(Failure { arm: self.name.into(), message: m, case: serde_json::to_value(&c).unwrap() });
                return out.into_inner();
            }
        }
        let total = if ctx.tier == Tier::Quick { self.cases.0 } else { self.cases.1 };
        let n = total / ctx.shards + u32::from(ctx.shard < total % ctx.shards);
        if n == 0 {
            return out.into_inner();
        }
        let config = Config {
            cases: n,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 90_000,
            max_global_rejects: 100_000,
            source_file: None,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng_for(ctx, self.name));
        let res = runner.run(&(self.strategy)(ctx.tier), |c| one(&c).map_err(TestCaseError::fail));
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => {
                // the message of the minimal case, not of the first one
                counting.set(false);
                let m = one(&c).err().unwrap_or_else(|| "failed once, not on the minimal case".into());
                out.borrow_mut().failure =
                    Some(Failure { arm: self.name.into(), message: m, case: serde_json::to_value(&c).unwrap() });
            }
            Err(TestError::Abort(r)) => {
                eprintln!("generator gave up: {}", r);
                std::process::exit(3);
            }
        }
        out.into_inner()
    }

    fn replay(&self, case: &Value) -> Verdict {
        let c: C = serde_json::from_value(case.clone()).unwrap_or_else(|e| {
            eprintln!("bad replay file: {}", e);
            std::process::exit(2)
        });
        let mut obs = Obs::default();
        (self.check)(&c, &mut obs)
    }
}

fn merge(a: &mut ShardOut, b: ShardOut) {
    a.evaluations += b.evaluations;
    a.nontrivial.extend(b.nontrivial);
    for (k, v) in b.labels {
        *a.labels.entry(k).or_default() += v;
    }
    for s in b.samples {
        if a.samples.len() < 6 {
            a.samples.push(s);
        }
    }
    let size = |f: &Failure| serde_json::to_string(&f.case).unwrap().len();
    match (&a.failure, b.failure) {
        (None, f) => a.failure = f,
        (Some(x), Some(y)) if size(&y) < size(x) => a.failure = Some(y),
        _ => {}
    }
}

/// Serial number of the case being run, and the case itself (arm, JSON), for the watchdog.
static CASE: AtomicU64 = AtomicU64::new(0);
static CURRENT: std::sync::Mutex<(String, String)> = std::sync::Mutex::new((String::new(), String::new()));
/// Cases take milliseconds; one that needs this much processor time does not end.
const CASE_CPU_SECONDS: u64 = 60;
/// Cases need some megabytes.
const CASE_BYTES: u64 = 2_500_000_000;

fn cpu_seconds() -> u64 {
    let mut u: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut u) };
    (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as u64
}

fn resident_bytes() -> u64 {
    let text = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    text.split(' ').nth(1).and_then(|p| p.parse::<u64>().ok()).unwrap_or(0) * 4096
}

/// Ends this process through `report` if a case does not end or eats the memory.
fn watchdog(report: impl Fn(Failure) + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let (case, cpu) = (CASE.load(Ordering::SeqCst), cpu_seconds());
            let message = if case != last.0 {
                last = (case, cpu);
                continue;
            } else if cpu > last.1 + CASE_CPU_SECONDS {
                format!("this case does not end: it has taken {} seconds of processor time", cpu - last.1)
            } else if resident_bytes() > CASE_BYTES {
                format!("this case takes more than {} bytes of memory", CASE_BYTES)
            } else {
                continue;
            };
            let (arm, text) = CURRENT.lock().unwrap().clone();
            report(Failure { arm, message, case: serde_json::from_str(&text).unwrap_or(Value::Null) });
        }
    });
}

pub fn worker(p: &Property, ctx: &ShardCtx, out: &Path, only: Option<&str>) {
    let mut all = ShardOut::default();
    for arm in &p.arms {
        if only.map_or(false, |o| o != arm.name()) {
            continue;
        }
        let t = Instant::now();
        let r = arm.run_shard(ctx);
        if std::env::var_os("VH_TIMING").is_some() {
            eprintln!("{} shard {} arm {}: {:.1}s", p.id, ctx.shard, arm.name(), t.elapsed().as_secs_f64());
        }
        let failed = r.failure.is_some();
        // keep samples from every arm
        let mut r = r;
        r.samples.truncate(1);
        merge(&mut all, r);
        if failed {
            break;
        }
    }
    std::fs::write(out, serde_json::to_vec(&all).unwrap()).expect("worker result");
}

struct Child {
    proc: std::process::Child,
    shard: u32,
    out: PathBuf,
    pid: u32,
}

fn spawn(p: &str, tier: Tier, seed: u64, shard: u32, shards: u32, dir: &Path, trace: Option<&Path>, only: Option<&str>) -> Child {
    let out = dir.join(format!("shard{}.json", shard));
    let log = std::fs::File::create(dir.join(format!("shard{}.log", shard))).expect("log");
    let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
    c.arg("worker").arg(p).arg(if tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg(seed.to_string()).arg(shard.to_string()).arg(shards.to_string()).arg(&out);
    c.arg(trace.map_or("-".into(), |t| t.display().to_string()));
    c.arg(only.unwrap_or("-"));
    c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(log);
    let proc = c.spawn().expect("spawn worker");
    let pid = proc.id();
    Child { proc, shard, out, pid }
}

fn clean(pid: u32) {
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vharness-{}", pid)));
}

enum End {
    Done(ShardOut),
    Signal(i32),
    Error(String),
}

fn wait_all(children: Vec<Child>, limit: Duration) -> Vec<(u32, End)> {
    let t0 = Instant::now();
    let mut res = vec![];
    let mut live = children;
    // once one shard has failed the others get a little time to shrink theirs
    let mut grace: Option<Instant> = None;
    while !live.is_empty() {
        let mut next = vec![];
        for mut c in live {
            match c.proc.try_wait().expect("wait") {
                Some(st) => {
                    clean(c.pid);
                    use std::os::unix::process::ExitStatusExt;
                    let end = if let Some(sig) = st.signal() {
                        End::Signal(sig)
                    } else if !st.success() {
                        let log = std::fs::read_to_string(c.out.with_extension("log")).unwrap_or_default();
                        End::Error(format!("shard {} exited with {:?}: {}", c.shard, st.code(), log))
                    } else {
                        match std::fs::read(&c.out).map_err(|e| e.to_string()).and_then(|d| serde_json::from_slice(&d).map_err(|e| e.to_string())) {
                            Ok(o) => {
                                let o: ShardOut = o;
                                if o.failure.is_some() && grace.is_none() {
                                    grace = Some(Instant::now());
                                }
                                End::Done(o)
                            }
                            Err(e) => End::Error(format!("shard {}: no result: {}", c.shard, e)),
                        }
                    };
                    if std::env::var_os("VH_TIMING").is_some() {
                        eprint!("{}", std::fs::read_to_string(c.out.with_extension("log")).unwrap_or_default());
                    }
                    res.push((c.shard, end));
                }
                None => {
                    let stop = grace.map_or(false, |g| g.elapsed() > Duration::from_secs(90));
                    if stop || t0.elapsed() > limit {
                        let _ = c.proc.kill();
                        let _ = c.proc.wait();
                        clean(c.pid);
                        res.push((c.shard, End::Error(format!("shard {} ran out of time (inconclusive)", c.shard))));
                    } else {
                        next.push(c);
                    }
                }
            }
        }
        live = next;
        std::thread::sleep(Duration::from_millis(20));
    }
    res.sort_by_key(|r| r.0);
    res
}

fn write_replay(dir: &Path, id: &str, f: &Failure) -> PathBuf {
    let p = dir.join(format!("replay-{}-{}.json", id, f.arm));
    let v = json!({"property": id, "arm": f.arm, "message": f.message, "case": f.case});
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    p
}

/// Known findings: lines "known: property=<id> case=<file under /verif> <what fails>".
fn known(root: &Path, id: &str) -> Vec<(PathBuf, String)> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={} case=", id)) {
            let (f, what) = rest.split_once(' ').expect("known finding line");
            v.push((root.join(f), what.to_string()));
        }
    }
    v
}

pub fn check(p: &Property, tier: Tier, seed: u64, root: &Path, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let ev = root.join("evidence");
    std::fs::create_dir_all(&ev).expect("evidence dir");
    let shards = 8;
    let dir = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let limit = Duration::from_secs(if tier == Tier::Quick { 700 } else { 6 * 3600 });
    let children = (0..shards).map(|s| spawn(p.id, tier, seed, s, shards, &dir, None, only)).collect();
    let mut all = ShardOut::default();
    let mut errors = vec![];
    for (shard, end) in wait_all(children, limit) {
        match end {
            End::Done(o) => merge(&mut all, o),
            End::Signal(sig) if [4, 6, 7, 8, 11].contains(&sig) => {
                // the code under test took the process down: find the case, same seed, traced
                let tr = dir.join(format!("trace{}.json", shard));
                let c = spawn(p.id, tier, seed, shard, shards, &dir, Some(&tr), only);
                match wait_all(vec![c], limit).pop() {
                    Some((_, End::Signal(s2))) => match std::fs::read(&tr).ok().and_then(|d| serde_json::from_slice::<Value>(&d).ok()) {
                        Some(v) => {
                            let f = Failure {
                                arm: v["arm"].as_str().unwrap_or("?").into(),
                                message: format!("converting this case crashes or does not end (signal {})", s2),
                                case: v["case"].clone(),
                            };
                            merge(&mut all, ShardOut { failure: Some(f), ..Default::default() });
                        }
                        None => errors.push(format!("shard {} died with signal {} and left no trace", shard, sig)),
                    },
                    _ => errors.push(format!("shard {} died with signal {} once", shard, sig)),
                }
            }
            End::Signal(sig) => errors.push(format!("shard {} was ended by signal {}", shard, sig)),
            End::Error(e) => errors.push(e),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut known_lines = 0;
    for (file, what) in known(root, p.id) {
        let v: Value = serde_json::from_slice(&std::fs::read(&file).expect("known finding case")).expect("known finding case");
        let arm = p.arms.iter().find(|a| a.name() == v["arm"].as_str().unwrap_or("")).expect("known finding arm");
        if let Err(m) = arm.replay(&v["case"]) {
            let _ = m;
            println!("KNOWN-FINDING: property={} {}", p.id, what);
            known_lines += 1;
        }
    }
    clean(std::process::id());
    let evidence = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evaluations,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": p.rule,
            "samples": all.samples,
            "classes": all.labels,
            "shards": shards,
            "known_findings_reproduced": known_lines,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": usize::from(all.failure.is_some()),
    });
    std::fs::write(ev.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    if let Some(f) = &all.failure {
        let r = write_replay(&ev, p.id, f);
        println!("{}", f.message);
        println!("\nVIOLATION property={} replay={}", p.id, r.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {}", e);
        }
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial), seed {}, {:.1}s",
        p.id,
        all.evaluations,
        all.nontrivial.len(),
        seed,
        t0.elapsed().as_secs_f64()
    );
    0
}

pub fn main(props: Vec<Property>) {
    sut::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {}", id);
        std::process::exit(2)
    });
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let usage = || -> ! {
        eprintln!("usage: vharness check ID TIER SEED [ARM] | replay FILE | list");
        std::process::exit(2)
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}: {}", p.id, p.arms.iter().map(|a| a.name()).collect::<Vec<_>>().join(", "));
            }
            0
        }
        Some("check") if a.len() >= 5 => check(find(&a[2]), tier(&a[3]), a[4].parse().unwrap_or(1), &root, a.get(5).map(|s| s.as_str())),
        Some("worker") if a.len() == 10 => {
            let ctx = ShardCtx {
                prop: a[2].clone(),
                tier: tier(&a[3]),
                seed: a[4].parse().unwrap(),
                shard: a[5].parse().unwrap(),
                shards: a[6].parse().unwrap(),
                root: root.clone(),
                trace: if a[8] == "-" { None } else { Some(PathBuf::from(&a[8])) },
            };
            let out = PathBuf::from(&a[7]);
            watchdog(move |f| {
                let r = ShardOut { failure: Some(f), ..Default::default() };
                std::fs::write(&out, serde_json::to_vec(&r).unwrap()).expect("worker result");
                std::process::exit(0);
            });
            worker(find(&a[2]), &ctx, Path::new(&a[7]), if a[9] == "-" { None } else { Some(&a[9]) });
            0
        }
        Some("replay") if a.len() == 3 => {
            let v: Value = serde_json::from_slice(&std::fs::read(&a[2]).expect("replay file")).expect("replay file");
            let p = find(v["property"].as_str().unwrap_or(""));
            let arm = p.arms.iter().find(|x| x.name() == v["arm"].as_str().unwrap_or("")).unwrap_or_else(|| usage());
            *CURRENT.lock().unwrap() = (arm.name().to_string(), v["case"].to_string());
            let file = a[2].clone();
            let id = p.id;
            watchdog(move |f| {
                clean(std::process::id());
                eprintln!("{}", f.message);
                eprintln!("\nVIOLATION property={} replay={}", id, file);
                std::process::exit(1);
            });
            let r = arm.replay(&v["case"]);
            clean(std::process::id());
            match r {
                Ok(()) => {
                    eprintln!("holds");
                    0
                }
                Err(m) => {
                    eprintln!("{}", m);
                    eprintln!("\nVIOLATION property={} replay={}", p.id, a[2]);
                    1
                }
            }
        }
        _ => usage(),
    };
    std::process::exit(code);
}
