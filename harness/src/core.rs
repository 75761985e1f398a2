//! Check runner: generated-input search with shrinking, replay files, evidence.
//!
//! A *check* owns one property and registers several *sub-checks*. A sub-check is a generator
//! (a proptest strategy, or an explicit finite enumeration) plus an oracle closure. All random
//! choices are made by proptest's deterministic ChaCha generator seeded from VERIF_SEED and the
//! sub-check's name, so a run is a pure function of the code under test and VERIF_SEED.

use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::Serialize;
use serde::de::DeserializeOwned;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one evaluated case amounted to.
#[derive(Clone, Debug, Default)]
pub struct Seen {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}

pub fn seen(nontrivial: bool) -> Outcome {
    Ok(Seen {
        nontrivial,
        labels: vec![],
    })
}
pub fn seen_as(nontrivial: bool, label: impl Into<String>) -> Outcome {
    Ok(Seen {
        nontrivial,
        labels: vec![label.into()],
    })
}

/// A failed case. `sig` is the exact signature a known-findings entry is keyed on.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail {
            sig: None,
            msg: msg.to_string(),
        }
    }
}
pub fn known(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
    Fail {
        sig: Some(sig.into()),
        msg: msg.into(),
    }
}

pub type Outcome = Result<Seen, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::core::Fail::from(format!($($t)*))); } };
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}").replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}

/// Run `f`, turning a panic of the code under test into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|l| l.borrow().clone())),
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub per_check: BTreeMap<String, (u64, u64)>,
    pub samples: BTreeMap<String, Vec<serde_json::Value>>,
    pub known: BTreeMap<String, (u64, String)>,
    pub violations: Vec<(String, String, String)>, // (check, message, input json)
}

pub struct KnownFindings {
    sigs: HashSet<(String, String)>,
}
impl KnownFindings {
    pub fn load(path: &str) -> Self {
        let mut sigs = HashSet::new();
        if let Ok(s) = std::fs::read_to_string(path) {
            for line in s.lines() {
                let line = line.trim();
                if line.is_empty() || line.starts_with('#') || line.starts_with("fixed:") {
                    continue;
                }
                // finding: property=<id> sig=<signature> :: description
                if let Some(rest) = line.strip_prefix("finding: property=") {
                    let mut it = rest.splitn(2, ' ');
                    let id = it.next().unwrap_or("").to_string();
                    let rest = it.next().unwrap_or("");
                    if let Some(r) = rest.strip_prefix("sig=") {
                        let sig = r.split(" :: ").next().unwrap_or("").trim().to_string();
                        sigs.insert((id, sig));
                    }
                }
            }
        }
        KnownFindings { sigs }
    }
}

/// What a worker is evaluating, so that a case that never ends can be named.
struct Slot {
    name: String,
    /// Milliseconds (of `epoch`) at which the running case began; 0 when idle.
    since: AtomicU64,
    index: AtomicU64,
    regen: Box<dyn Fn(u64) -> String + Send + Sync>,
}
impl Slot {
    fn begin(&self, index: u64) {
        self.index.store(index, Ordering::Relaxed);
        self.since.store(epoch_ms(), Ordering::Relaxed);
    }
    fn end(&self) {
        self.since.store(0, Ordering::Relaxed);
    }
}
fn epoch_ms() -> u64 {
    static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// Resident memory in bytes.
fn resident() -> u64 {
    let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()));
    pages.unwrap_or(0) * 4096
}

pub struct Suite {
    board: Arc<Mutex<Vec<Arc<Slot>>>>,
    pub pid: String,
    pub tier: Tier,
    pub seed: u64,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub replay: Option<(String, serde_json::Value)>,
    pub stats: Arc<Mutex<Stats>>,
    pub known: Arc<KnownFindings>,
    jobs: Vec<Box<dyn FnOnce() + Send>>,
    pub only: Option<String>,
    pub exhaustive: bool,
    pub replay_failed: Arc<Mutex<Vec<String>>>,
    pub scale: f64,
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

struct Local {
    evaluations: u64,
    distinct: HashSet<u64>,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, (u64, String)>,
}
impl Local {
    fn new() -> Self {
        Local {
            evaluations: 0,
            distinct: HashSet::new(),
            nontrivial: 0,
            labels: BTreeMap::new(),
            samples: vec![],
            known: BTreeMap::new(),
        }
    }
    fn flush(self, name: &str, stats: &Mutex<Stats>) {
        let mut s = stats.lock().unwrap();
        s.evaluations += self.evaluations;
        s.distinct.extend(self.distinct);
        for (k, v) in self.labels {
            *s.labels.entry(format!("{name}: {k}")).or_default() += v;
        }
        let e = s.per_check.entry(name.to_string()).or_default();
        e.0 += self.evaluations;
        e.1 += self.nontrivial;
        let sm = s.samples.entry(name.to_string()).or_default();
        for x in self.samples {
            if sm.len() < 2 {
                sm.push(x);
            }
        }
        for (k, (n, d)) in self.known {
            let e = s.known.entry(k).or_insert((0, d));
            e.0 += n;
        }
    }
}

impl Suite {
    pub fn new(pid: &str, tier: Tier, seed: u64, known: KnownFindings) -> Self {
        Suite {
            board: Default::default(),
            pid: pid.into(),
            tier,
            seed,
            rule: String::new(),
            assumptions: vec![],
            replay: None,
            stats: Default::default(),
            known: Arc::new(known),
            jobs: vec![],
            only: None,
            exhaustive: false,
            replay_failed: Default::default(),
            scale: 1.0,
        }
    }

    pub fn rule(&mut self, r: &str) {
        self.rule = r.to_string();
    }
    pub fn assume(&mut self, a: &str) {
        self.assumptions.push(a.to_string());
    }

    /// Generated search: `quick` cases in the quick tier, `thorough` in the thorough one.
    pub fn prop<S, M, F>(&mut self, name: &str, quick: u32, thorough: u32, make: M, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + std::fmt::Debug,
        M: Fn() -> S + Send + Sync + 'static,
        F: Fn(&S::Value) -> Outcome + Send + Sync + 'static,
    {
        if let Some(o) = &self.only
            && !name.contains(o.as_str())
        {
            return;
        }
        if let Some((c, v)) = &self.replay {
            if c == name {
                let val: S::Value = match serde_json::from_value(v.clone()) {
                    Ok(v) => v,
                    Err(e) => {
                        eprintln!("replay file does not decode for {name}: {e}");
                        std::process::exit(2);
                    }
                };
                self.replay_one(name, || test(&val));
            }
            return;
        }
        let total = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        let total = ((total as f64) * self.scale).ceil() as u32;
        let shards = if total >= 512 {
            8
        } else if total >= 8 {
            8.min(total / 4).max(1)
        } else {
            total.max(1)
        };
        let make = Arc::new(make);
        let test = Arc::new(test);
        let stop = Arc::new(AtomicBool::new(false));
        for sh in 0..shards {
            let cases = total / shards + u32::from(sh < total % shards);
            if cases == 0 {
                continue;
            }
            let name = name.to_string();
            let seed = self.seed;
            let pid = self.pid.clone();
            let make = make.clone();
            let test = test.clone();
            let stats = self.stats.clone();
            let knowns = self.known.clone();
            let stop = stop.clone();
            let board = self.board.clone();
            self.jobs.push(Box::new(move || {
                let mut sb = [0u8; 32];
                let h = fnv(&format!("{pid}/{name}/{sh}"));
                sb[..8].copy_from_slice(&seed.to_le_bytes());
                sb[8..16].copy_from_slice(&h.to_le_bytes());
                sb[16..24].copy_from_slice(&(sh as u64).to_le_bytes());
                let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &sb);
                let mut cfg = Config {
                    cases,
                    max_shrink_iters: 4000,
                    max_shrink_time: 60_000,
                    max_global_rejects: 1_000_000,
                    failure_persistence: None,
                    ..Config::default()
                };
                cfg.max_local_rejects = 1_000_000;
                let slot = Arc::new(Slot {
                    name: name.clone(),
                    since: AtomicU64::new(0),
                    index: AtomicU64::new(0),
                    regen: {
                        let (cfg, rng, make) = (cfg.clone(), rng.clone(), make.clone());
                        Box::new(move |k| {
                            // the same stream of cases, without evaluating them
                            let mut runner = TestRunner::new_with_rng(Config { max_shrink_iters: 0, ..cfg.clone() }, rng.clone());
                            let (at, out) = (std::cell::Cell::new(0), std::cell::RefCell::new(String::new()));
                            let _ = runner.run(&(make)(), |v: S::Value| {
                                at.set(at.get() + 1);
                                if at.get() <= k {
                                    return Ok(());
                                }
                                if at.get() == k + 1 {
                                    *out.borrow_mut() = serde_json::to_string(&v).unwrap_or_default();
                                }
                                Err(TestCaseError::fail(""))
                            });
                            let js = out.into_inner();
                            js
                        })
                    },
                });
                board.lock().unwrap().push(slot.clone());
                let mut runner = TestRunner::new_with_rng(cfg, rng);
                let local = std::cell::RefCell::new(Local::new());
                let shrinking = std::cell::Cell::new(false);
                let last = std::cell::RefCell::new(String::new());
                let strat = (make)();
                let r = runner.run(&strat, |v: S::Value| {
                    if stop.load(Ordering::Relaxed) && !shrinking.get() {
                        return Ok(());
                    }
                    slot.begin(local.borrow().evaluations - u64::from(shrinking.get()));
                    let out = match guarded(|| (test)(&v)) {
                        Ok(o) => o,
                        Err(p) => Err(Fail::from(format!("panicked: {p}"))),
                    };
                    slot.end();
                    let mut l = local.borrow_mut();
                    if !shrinking.get() {
                        l.evaluations += 1;
                    }
                    match out {
                        Ok(sn) => {
                            if !shrinking.get() {
                                if sn.nontrivial {
                                    let js = serde_json::to_string(&v).unwrap_or_default();
                                    l.nontrivial += 1;
                                    l.distinct.insert(fnv(&format!("{name}|{js}")));
                                    if l.samples.len() < 2 {
                                        let mut js = js;
                                        if js.len() > 1500 {
                                            js.truncate(1500);
                                        }
                                        l.samples.push(
                                            serde_json::from_str(&js)
                                                .unwrap_or(serde_json::Value::String(js)),
                                        );
                                    }
                                }
                                for lb in sn.labels {
                                    *l.labels.entry(lb).or_default() += 1;
                                }
                            }
                            Ok(())
                        }
                        Err(f) => {
                            if let Some(sig) = &f.sig
                                && knowns.sigs.contains(&(pid.clone(), sig.clone()))
                            {
                                if !shrinking.get() {
                                    let e = l
                                        .known
                                        .entry(sig.clone())
                                        .or_insert((0, f.msg.clone()));
                                    e.0 += 1;
                                }
                                return Ok(());
                            }
                            shrinking.set(true);
                            *last.borrow_mut() = f.msg.clone();
                            Err(TestCaseError::fail(f.msg))
                        }
                    }
                });
                match r {
                    Ok(()) => {}
                    Err(TestError::Fail(reason, v)) => {
                        stop.store(true, Ordering::Relaxed);
                        let js = serde_json::to_string(&v).unwrap_or_else(|_| format!("{v:?}"));
                        let mut s = stats.lock().unwrap();
                        s.violations
                            .push((name.clone(), format!("{reason}"), js));
                    }
                    Err(TestError::Abort(reason)) => {
                        eprintln!("{pid}/{name}: generator aborted: {reason}");
                        std::process::exit(2);
                    }
                }
                local.into_inner().flush(&name, &stats);
            }));
        }
    }

    /// Complete enumeration of an explicit finite list of cases (sharded over threads).
    pub fn enumerate<T, F>(&mut self, name: &str, items: Vec<T>, test: F)
    where
        T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync + 'static,
        F: Fn(&T) -> Outcome + Send + Sync + 'static,
    {
        if let Some(o) = &self.only
            && !name.contains(o.as_str())
        {
            return;
        }
        if let Some((c, v)) = &self.replay {
            if c == name {
                let val: T = match serde_json::from_value(v.clone()) {
                    Ok(v) => v,
                    Err(e) => {
                        eprintln!("replay file does not decode for {name}: {e}");
                        std::process::exit(2);
                    }
                };
                self.replay_one(name, || test(&val));
            }
            return;
        }
        let items = Arc::new(items);
        let test = Arc::new(test);
        let n = items.len();
        let shards = n.clamp(1, 16);
        for sh in 0..shards {
            let items = items.clone();
            let test = test.clone();
            let name = name.to_string();
            let pid = self.pid.clone();
            let stats = self.stats.clone();
            let knowns = self.known.clone();
            let board = self.board.clone();
            self.jobs.push(Box::new(move || {
                let mut l = Local::new();
                let slot = Arc::new(Slot {
                    name: name.clone(),
                    since: AtomicU64::new(0),
                    index: AtomicU64::new(0),
                    regen: {
                        let items = items.clone();
                        Box::new(move |k| serde_json::to_string(&items[k as usize]).unwrap_or_default())
                    },
                });
                board.lock().unwrap().push(slot.clone());
                let mut i = sh;
                while i < items.len() {
                    let v = &items[i];
                    slot.begin(i as u64);
                    i += shards;
                    l.evaluations += 1;
                    let out = match guarded(|| (test)(v)) {
                        Ok(o) => o,
                        Err(p) => Err(Fail::from(format!("panicked: {p}"))),
                    };
                    slot.end();
                    match out {
                        Ok(sn) => {
                            if sn.nontrivial {
                                l.nontrivial += 1;
                                let js = serde_json::to_string(v).unwrap_or_default();
                                l.distinct.insert(fnv(&format!("{name}|{js}")));
                                if l.samples.is_empty() {
                                    l.samples
                                        .push(serde_json::to_value(v).unwrap_or_default());
                                }
                            }
                            for lb in sn.labels {
                                *l.labels.entry(lb).or_default() += 1;
                            }
                        }
                        Err(f) => {
                            if let Some(sig) = &f.sig
                                && knowns.sigs.contains(&(pid.clone(), sig.clone()))
                            {
                                let e = l.known.entry(sig.clone()).or_insert((0, f.msg.clone()));
                                e.0 += 1;
                                continue;
                            }
                            let js = serde_json::to_string(v).unwrap_or_default();
                            let mut s = stats.lock().unwrap();
                            s.violations.push((name.clone(), f.msg, js));
                            break;
                        }
                    }
                }
                l.flush(&name, &stats);
            }));
        }
    }

    fn replay_one(&self, name: &str, f: impl FnOnce() -> Outcome) {
        let out = match guarded(f) {
            Ok(o) => o,
            Err(p) => Err(Fail::from(format!("panicked: {p}"))),
        };
        match out {
            Ok(_) => println!("replay {name}: holds"),
            Err(f) => {
                println!("replay {name}: FAILS: {}", f.msg);
                self.replay_failed.lock().unwrap().push(f.msg);
            }
        }
    }

    pub fn execute(&mut self) {
        let jobs: Vec<_> = std::mem::take(&mut self.jobs);
        let queue = Arc::new(Mutex::new(jobs.into_iter().collect::<std::collections::VecDeque<_>>()));
        let n = std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(4)
            .min(8);
        let mut hs = vec![];
        for _ in 0..n {
            let q = queue.clone();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        loop {
                            let j = q.lock().unwrap().pop_front();
                            match j {
                                Some(j) => j(),
                                None => break,
                            }
                        }
                    })
                    .unwrap(),
            );
        }
        // A case that never ends, or fills the memory, is a violation with that case as its input.
        let (patience, memory) = (if self.tier == Tier::Quick { 150_000 } else { 900_000 }, 20u64 << 30);
        let mut round = 0u64;
        while hs.iter().any(|h| !h.is_finished()) {
            std::thread::sleep(std::time::Duration::from_millis(if round < 50 { 5 } else { 50 }));
            round += 1;
            if round % 10 != 0 {
                continue;
            }
            let full = resident() > memory;
            let now = epoch_ms();
            let oldest = self.board.lock().unwrap().iter().filter(|s| s.since.load(Ordering::Relaxed) > 0).min_by_key(|s| s.since.load(Ordering::Relaxed)).cloned();
            if let Some(slot) = oldest
                && (full || now.saturating_sub(slot.since.load(Ordering::Relaxed)) > patience)
            {
                let js = (slot.regen)(slot.index.load(Ordering::Relaxed));
                let what = if full { "memory runs away while this case is evaluated" } else { "this case does not finish" };
                self.stats.lock().unwrap().violations.push((slot.name.clone(), what.into(), js));
                return;
            }
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness thread died: {}", "internal error");
                std::process::exit(2);
            }
        }
    }
}

pub fn finish(s: &Suite, started: Instant, verif: &str) -> i32 {
    let st = s.stats.lock().unwrap();
    let tier = if s.tier == Tier::Quick { "quick" } else { "thorough" };
    for (sig, (n, d)) in &st.known {
        println!("KNOWN-FINDING: property={} {sig} ({n} generated cases; {d})", s.pid);
    }
    let mut viol = st.violations.clone();
    viol.sort();
    let rdir = format!("{verif}/replays");
    let mut per = serde_json::Map::new();
    for (k, (a, b)) in &st.per_check {
        per.insert(k.clone(), serde_json::json!({"cases": a, "nontrivial": b}));
    }
    let mut samples = vec![];
    for (k, v) in &st.samples {
        for x in v {
            samples.push(serde_json::json!({"check": k, "input": x}));
        }
    }
    let ev = serde_json::json!({
        "property": s.pid, "tier": tier, "seed": s.seed, "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": s.rule,
            "samples": samples,
            "per_check": per,
            "labels": st.labels,
            "known_findings_hit": st.known.iter().map(|(k,(n,_))| (k.clone(), *n)).collect::<BTreeMap<_,_>>(),
        },
        "assumptions": s.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": viol.len(),
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if let Err(e) = std::fs::write(
        format!("{verif}/evidence/{}.json", s.pid),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if viol.is_empty() {
        println!(
            "{} {tier}: held on {} cases ({} distinct non-trivial), {:.1}s",
            s.pid,
            st.evaluations,
            st.distinct.len(),
            started.elapsed().as_secs_f64()
        );
        return 0;
    }
    let _ = std::fs::create_dir_all(&rdir);
    let mut shown = HashSet::new();
    for (check, msg, js) in viol.iter() {
        if !shown.insert(check.clone()) {
            continue;
        }
        let safe: String = check
            .chars()
            .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })
            .collect();
        let path = format!("{rdir}/{}-{safe}.json", s.pid);
        let input: serde_json::Value =
            serde_json::from_str(js).unwrap_or(serde_json::Value::String(js.clone()));
        let body = serde_json::json!({"property": s.pid, "check": check, "input": input, "message": msg});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        let mut m = msg.clone();
        if m.len() > 1200 {
            let mut k = 1200;
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            m.truncate(k);
        }
        println!("  {check}: {m}\n    input: {}", &js.chars().take(800).collect::<String>());
        println!("VIOLATION property={} replay={}", s.pid, path);
    }
    1
}

// ---------------------------------------------------------------- numeric helpers

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub fn near(what: &str, a: f64, b: f64, rel: f64, abs: f64) -> Result<(), Fail> {
    if close(a, b, rel, abs) {
        Ok(())
    } else {
        Err(Fail::from(format!(
            "{what}: got {a:.15e}, expected {b:.15e} (diff {:.3e}, rel tol {rel:.1e}, abs tol {abs:.1e})",
            a - b
        )))
    }
}
