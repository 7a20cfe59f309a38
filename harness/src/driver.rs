//! Runs the generated cases of a property in fixed, seeded shards, shrinks the first failure and writes
//! evidence and replay files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub fail: Option<String>,
    pub nontrivial: bool,
    pub classes: Vec<(&'static str, u64)>,
}

#[derive(Default)]
pub struct PartStats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<&'static str, (u64, u64)>,
    pub samples: Vec<String>,
}
pub struct Failure {
    pub shard: usize,
    pub message: String,
    pub case: String,
    pub shrinks: u32,
}

/// A case takes milliseconds, the largest ones seconds.
const HANG: Duration = Duration::from_secs(200);

/// A case that does not end. For the properties that promise bounded work this is a violation, for the
/// others it means that there is no answer.
fn hung(id: &str, part: &str, case: &str, seed: u64) -> ! {
    println!("part {part}: a case does not end: {case}");
    if id != "C21" && id != "C26" {
        std::process::exit(3);
    }
    let dir = format!("{}/replays", crate::verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.json");
    let body = serde_json::json!({"property": id, "part": part, "case": case, "message": "the case does not end", "seed": seed, "shrink_steps": 0});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    println!("VIOLATION property={id} replay={path}");
    std::process::exit(1);
}

/// At most some thousand characters of it.
fn clipped(s: &str) -> String {
    if s.len() <= 6000 {
        return s.to_string();
    }
    s.chars().take(4000).chain(" ... ".chars()).collect()
}

pub trait Part: Sync + Send {
    fn name(&self) -> &'static str;
    fn run(&self, id: &str, seed: u64, thorough: bool) -> (PartStats, Option<Failure>);
    fn replay(&self, id: &str, case: &str) -> Result<Outcome, String>;
}

pub struct P<C: 'static> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub gen: BoxedGen<C>,
    pub check: Box<dyn Fn(&C) -> Outcome + Sync + Send>,
}
pub type BoxedGen<C> = Box<dyn Fn() -> BoxedStrategy<C> + Sync + Send>;

pub fn part<C, S, G, F>(name: &'static str, quick: u32, thorough: u32, gen: G, check: F) -> Box<dyn Part>
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
    S: Strategy<Value = C> + 'static,
    G: Fn() -> S + Sync + Send + 'static,
    F: Fn(&C) -> Outcome + Sync + Send + 'static,
{
    Box::new(P {
        name,
        quick,
        thorough,
        gen: Box::new(move || gen().boxed()),
        check: Box::new(check),
    })
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn runner(tag: &str) -> TestRunner {
    let mut seed = [0u8; 32];
    for i in 0..4 {
        let h = hash(&format!("{i}/{tag}"));
        seed[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    let cfg = Config {
        failure_persistence: None,
        ..Config::default()
    };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

thread_local! {
    /// what this thread is working on, for the case that the process is aborted (failed allocation, stack overflow)
    static CURRENT: RefCell<Option<(String, &'static str, Box<dyn Fn() -> String>)>> = const { RefCell::new(None) };
}
extern "C" {
    fn signal(n: i32, f: extern "C" fn(i32)) -> usize;
}
const SIGABRT: i32 = 6;
extern "C" fn aborted(_: i32) {
    let r = CURRENT.try_with(|c| {
        let c = c.try_borrow().ok()?;
        let (id, part, case) = c.as_ref()?;
        Some((id.clone(), *part, case()))
    });
    if let Ok(Some((id, part, case))) = r {
        let dir = format!("{}/replays", crate::verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}.json");
        let body = serde_json::json!({"property": id, "part": part, "case": case,
            "message": "the contract aborts the process", "seed": 0, "shrink_steps": 0});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap_or_default());
        println!("part {part}: the contract aborts the process (out of memory or stack) in case {case}");
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    }
    std::process::exit(4);
}
pub fn catch_aborts() {
    unsafe {
        signal(SIGABRT, aborted);
    }
}

impl<C> P<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
{
    fn guarded(&self, id: &str, c: &C) -> Outcome {
        let keep = c.clone();
        CURRENT.with(|x| {
            *x.borrow_mut() = Some((id.to_string(), self.name, Box::new(move || serde_json::to_string(&keep).unwrap_or_default())))
        });
        let o = self.guarded_(c);
        CURRENT.with(|x| *x.borrow_mut() = None);
        o
    }
    fn guarded_(&self, c: &C) -> Outcome {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.check)(c))) {
            Ok(o) => o,
            Err(e) => {
                // a panic outside the contract is a fault of the harness, never a verdict
                eprintln!(
                    "harness fault in part {}: {}\ncase {}",
                    self.name,
                    crate::chain::panic_text(e),
                    serde_json::to_string(c).unwrap_or_default()
                );
                std::process::exit(4);
            }
        }
    }
}

impl<C> Part for P<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, id: &str, seed: u64, thorough: bool) -> (PartStats, Option<Failure>) {
        let total = if thorough { self.thorough } else { self.quick } as usize;
        let total = match std::env::var("OB_CASES").ok().and_then(|x| x.parse::<f64>().ok()) {
            Some(f) => (total as f64 * f) as usize,
            None => total,
        };
        let first_bad = AtomicUsize::new(usize::MAX);
        let stats = Mutex::new(PartStats::default());
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        // what each shard is working on, for the watchdog
        let now: Vec<Mutex<Option<(Instant, C)>>> = (0..SHARDS).map(|_| Mutex::new(None)).collect();
        let left = AtomicUsize::new(SHARDS);
        std::thread::scope(|s| {
            let (now, left) = (&now, &left);
            s.spawn(move || {
                while left.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(50));
                    for x in now {
                        if let Some((t, c)) = &*x.lock().unwrap() {
                            if t.elapsed() > HANG {
                                hung(id, self.name, &serde_json::to_string(c).unwrap_or_default(), seed);
                            }
                        }
                    }
                }
            });
            for shard in 0..SHARDS {
                let (first_bad, stats, failure) = (&first_bad, &stats, &failure);
                let n = total / SHARDS + usize::from(shard < total % SHARDS);
                std::thread::Builder::new()
                    .stack_size(2 << 30)
                    .spawn_scoped(s, move || {
                        let mut r = runner(&format!("{id}/{}/{seed}/{shard}", self.name));
                        let strat = (self.gen)();
                        let mut local = PartStats::default();
                        for _ in 0..n {
                            if first_bad.load(Ordering::SeqCst) < shard {
                                break;
                            }
                            let mut tree = strat.new_tree(&mut r).expect("generator");
                            let c = tree.current();
                            *now[shard].lock().unwrap() = Some((Instant::now(), c.clone()));
                            let o = self.guarded(id, &c);
                            *now[shard].lock().unwrap() = None;
                            local.evaluations += 1;
                            for (k, v) in &o.classes {
                                let e = local.classes.entry(k).or_insert((0, 0));
                                e.0 += 1;
                                e.1 += v;
                            }
                            if o.nontrivial {
                                let js = serde_json::to_string(&c).unwrap_or_else(|e| {
                                    eprintln!("cannot serialise case: {e}");
                                    std::process::exit(4)
                                });
                                if local.nontrivial.insert(hash(&js))
                                    && js.len() < 1500
                                    && local.samples.len() < 1
                                {
                                    local.samples.push(js);
                                }
                            }
                            if let Some(msg) = o.fail {
                                first_bad.fetch_min(shard, Ordering::SeqCst);
                                let (best, msg, shrinks) = self.shrink(id, &mut tree, c, msg);
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map_or(true, |x| shard < x.shard) {
                                    *f = Some(Failure {
                                        shard,
                                        message: msg,
                                        case: serde_json::to_string(&best).unwrap(),
                                        shrinks,
                                    });
                                }
                                break;
                            }
                        }
                        left.fetch_sub(1, Ordering::SeqCst);
                        let mut g = stats.lock().unwrap();
                        g.evaluations += local.evaluations;
                        g.nontrivial.extend(local.nontrivial);
                        for (k, (a, b)) in local.classes {
                            let e = g.classes.entry(k).or_insert((0, 0));
                            e.0 += a;
                            e.1 += b;
                        }
                        g.samples.extend(local.samples);
                    })
                    .expect("thread");
            }
        });
        let mut st = stats.into_inner().unwrap();
        st.samples.sort_by_key(|s| s.len());
        st.samples.truncate(3);
        (st, failure.into_inner().unwrap())
    }

    fn replay(&self, id: &str, case: &str) -> Result<Outcome, String> {
        let c: C = serde_json::from_str(case).map_err(|e| e.to_string())?;
        Ok(self.guarded(id, &c))
    }
}

impl<C> P<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
{
    fn shrink(&self, id: &str, tree: &mut Box<dyn ValueTree<Value = C>>, first: C, msg: String) -> (C, String, u32) {
        let mut best = (first, msg);
        let start = Instant::now();
        let mut steps = 0u32;
        if !tree.simplify() {
            return (best.0, best.1, 0);
        }
        while steps < 4000 && start.elapsed() < Duration::from_secs(45) {
            steps += 1;
            let c = tree.current();
            let o = self.guarded(id, &c);
            if let Some(m) = o.fail {
                best = (c, m);
                if !tree.simplify() {
                    break;
                }
            } else if !tree.complicate() {
                break;
            }
        }
        (best.0, best.1, steps)
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub parts: Vec<Box<dyn Part>>,
}

pub fn run(p: &Property, verif: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut evals = 0;
    let mut nontriv = 0;
    let mut samples = vec![];
    let mut parts = serde_json::Map::new();
    let mut failure: Option<(&'static str, Failure)> = None;
    for part in &p.parts {
        let t = Instant::now();
        let (st, f) = part.run(p.id, seed, thorough);
        evals += st.evaluations;
        nontriv += st.nontrivial.len() as u64;
        samples.extend(st.samples.iter().map(|s| {
            serde_json::json!({"part": part.name(), "case": serde_json::from_str::<serde_json::Value>(s).unwrap_or(serde_json::json!(s))})
        }));
        let mut cl = serde_json::Map::new();
        for (k, (a, b)) in &st.classes {
            cl.insert(
                k.to_string(),
                serde_json::json!({"cases_with": a, "occurrences": b}),
            );
        }
        parts.insert(
            part.name().to_string(),
            serde_json::json!({"cases": st.evaluations, "non_trivial": st.nontrivial.len(),
                "seconds": (t.elapsed().as_secs_f64() * 10.0).round() / 10.0, "classes": cl}),
        );
        if let Some(f) = f {
            failure = Some((part.name(), f));
            break;
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((part, f)) = failure {
        let dir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.json", p.id);
        let body = serde_json::json!({"property": p.id, "part": part, "case": f.case,
            "message": f.message, "seed": seed, "shrink_steps": f.shrinks});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("replay file");
        println!("part {part}, after {} shrink steps: {}", f.shrinks, clipped(&f.message));
        println!("case {}", clipped(&f.case.to_string()));
        println!("replay with: {verif}/run.sh {} {path}", p.id);
        println!("VIOLATION property={} replay={path}", p.id);
        violations = 1;
        code = 1;
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontriv,
            "rule": p.rule,
            "samples": samples,
            "parts": parts,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(
        format!("{verif}/evidence/{}.json", p.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("evidence file");
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s, {}",
        p.id,
        evals,
        nontriv,
        t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "BROKEN" }
    );
    code
}

pub fn replay(p: &Property, file: &str) -> i32 {
    let v: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("JSON");
    let name = v["part"].as_str().unwrap_or("");
    let Some(part) = p.parts.iter().find(|x| x.name() == name) else {
        eprintln!("no part {name}");
        return 2;
    };
    let case = v["case"].as_str().unwrap_or("").to_string();
    let o = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 30)
            .spawn_scoped(s, || part.replay(p.id, &case))
            .unwrap()
            .join()
            .unwrap()
    });
    match o {
        Err(e) => {
            eprintln!("cannot read the case: {e}");
            2
        }
        Ok(o) => match o.fail {
            None => {
                println!("the property holds on this case");
                0
            }
            Some(m) => {
                println!("{m}");
                println!("VIOLATION property={} replay={file}", p.id);
                1
            }
        },
    }
}
