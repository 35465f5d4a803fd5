//! Exploration runtime: case journal, panic capture, watchdog, verdicts and
//! evidence. Nothing in here knows about TreeLDR.
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub const WORKERS: usize = 8;
fn max_reported() -> usize {
    std::env::var("MC_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(5)
}

struct Slot {
    started: AtomicU64, // ms since ctx start, 0 = idle
    key: Mutex<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<String>,
    pub seed: u64,
    pub verif: String,
    start: Instant,
    case_limit: Duration,
    /// distinct model states / configurations (layout x data) visited
    pub states: AtomicU64,
    /// executions of the real code
    pub transitions: AtomicU64,
    /// reference predictions compared against the real code
    pub traces: AtomicU64,
    pub counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<J>>,
    violations: AtomicU64,
    reported: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, String>>,
    slots: Vec<Slot>,
    journal_dir: Option<String>,
    pub assumptions: Mutex<Vec<String>>,
    done: AtomicBool,
}

thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(0) };
    static JOURNAL: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, only: Option<String>) -> Self {
        let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
        let known = std::fs::read_to_string(format!("{verif}/known-findings.json"))
            .ok()
            .map(|s| serde_json::from_str::<J>(&s).expect("known-findings.json is not JSON"))
            .and_then(|j| j.get("findings").cloned())
            .and_then(|j| j.as_array().cloned())
            .unwrap_or_default()
            .into_iter()
            .filter(|f| f["property"].as_str() == Some(prop))
            .map(|f| {
                (
                    f["key"].as_str().expect("finding key").to_owned(),
                    f["what"].as_str().expect("finding what").to_owned(),
                )
            })
            .collect();
        Self {
            prop: prop.into(),
            tier,
            only,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            verif,
            start: Instant::now(),
            case_limit: Duration::from_secs(
                std::env::var("MC_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20),
            ),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            violations: AtomicU64::new(0),
            reported: Mutex::new(Vec::new()),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            slots: (0..WORKERS + 1)
                .map(|_| Slot { started: AtomicU64::new(0), key: Mutex::new(String::new()) })
                .collect(),
            journal_dir: std::env::var("MC_JOURNAL").ok(),
            assumptions: Mutex::new(Vec::new()),
            done: AtomicBool::new(false),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Picks a bound by tier.
    pub fn bound<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_owned()).or_default() += n;
    }

    pub fn state(&self) {
        self.states.fetch_add(1, Ordering::Relaxed);
    }
    pub fn step(&self) {
        self.transitions.fetch_add(1, Ordering::Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
    }

    pub fn sample(&self, f: impl FnOnce() -> J) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(f());
        }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// Opens a case. Returns false when the case is filtered out (replay mode).
    pub fn begin(&self, key: &str) -> bool {
        if let Some(o) = &self.only {
            if o != key {
                return false;
            }
        }
        let w = WORKER.with(|w| w.get());
        let slot = &self.slots[w];
        {
            let mut k = slot.key.lock().unwrap();
            k.clear();
            k.push_str(key);
        }
        slot.started.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::Release);
        if let Some(dir) = &self.journal_dir {
            JOURNAL.with(|j| {
                let mut j = j.borrow_mut();
                if j.is_none() {
                    *j = std::fs::File::create(format!("{dir}/w{w}")).ok();
                }
                if let Some(f) = j.as_ref() {
                    let mut line = key.as_bytes().to_vec();
                    line.push(b'\n');
                    let _ = f.write_at(&line, 0);
                }
            });
        }
        true
    }

    pub fn end(&self) {
        let w = WORKER.with(|w| w.get());
        self.slots[w].started.store(0, Ordering::Release);
    }

    /// Runs `f` on the real code, turning a panic into `Err(message)`.
    pub fn guarded<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.step();
        QUIET.with(|q| q.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        QUIET.with(|q| q.set(false));
        r.map_err(|_| LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
    }

    /// Reports a violation for the case `key`; `sig` identifies the finding
    /// (defaults to the case key).
    pub fn violate(&self, key: &str, what: &str, detail: J) {
        self.violate_sig(key, key, what, detail)
    }

    pub fn violate_sig(&self, key: &str, sig: &str, what: &str, detail: J) {
        if let Some((k, w)) = self.known.iter().find(|(k, _)| k == sig) {
            self.known_hit.lock().unwrap().insert(k.clone(), w.clone());
            return;
        }
        let n = self.violations.fetch_add(1, Ordering::SeqCst);
        let mut rep = self.reported.lock().unwrap();
        if rep.len() >= max_reported() {
            return;
        }
        let dir = format!("{}/replay", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.json", self.prop, n);
        let doc = json!({
            "property": self.prop, "case": key, "signature": sig, "what": what, "detail": detail,
            "replay": format!("./check {} {} --only '{}'", self.prop, if self.quick() {"quick"} else {"thorough"}, key),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
        println!("VIOLATION property={} replay={}", self.prop, path);
        println!("  case {key}: {what}");
        let d = serde_json::to_string(&doc["detail"]).unwrap();
        println!("  {}", d.chars().take(std::env::var("MC_CHARS").ok().and_then(|c| c.parse().ok()).unwrap_or(1500)).collect::<String>());
        let _ = std::io::stdout().flush();
        rep.push((key.into(), path));
    }

    pub fn violation_count(&self) -> u64 {
        self.violations.load(Ordering::SeqCst)
    }

    /// Enough violations reported: stop early.
    pub fn saturated(&self) -> bool {
        self.violations.load(Ordering::Relaxed) >= max_reported() as u64
    }

    /// Runs `f` over all items on the worker pool.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(usize, &T) + Sync) {
        let next = AtomicUsize::new(0);
        self.end();
        std::thread::scope(|s| {
            for w in 1..=WORKERS {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .name(format!("w{w}"))
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        WORKER.with(|x| x.set(w));
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= items.len() || self.saturated() {
                                break;
                            }
                            f(i, &items[i]);
                            self.end();
                        }
                    })
                    .unwrap();
            }
        });
    }

    fn watchdog(&self) {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            if self.done.load(Ordering::Acquire) {
                return;
            }
            let now = self.start.elapsed().as_millis() as u64;
            for s in &self.slots {
                let t = s.started.load(Ordering::Acquire);
                if t != 0 && now.saturating_sub(t) > self.case_limit.as_millis() as u64 {
                    let key = s.key.lock().unwrap().clone();
                    self.violate(
                        &key,
                        "the call did not return within the per-case time limit",
                        json!({"limit_s": self.case_limit.as_secs()}),
                    );
                    // A known non-terminating case must be skipped by the
                    // check itself; here the thread cannot be recovered.
                    self.finish_and_exit(1);
                }
            }
        }
    }

    fn finish_and_exit(&self, code: i32) -> ! {
        self.write_evidence();
        std::process::exit(code)
    }

    fn write_evidence(&self) {
        let samples = self.samples.lock().unwrap().clone();
        let counters = self.counters.lock().unwrap().clone();
        let mut cov = json!({
            "states": self.states.load(Ordering::SeqCst),
            "transitions": self.transitions.load(Ordering::SeqCst),
            "traces_validated_against_impl": self.traces.load(Ordering::SeqCst),
            "samples": samples,
            "exhaustive": self.only.is_none() && self.violation_count() == 0,
        });
        for (k, v) in counters {
            cov[k] = json!(v);
        }
        let doc = json!({
            "property": self.prop,
            "tier": if self.quick() {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violation_count(),
        });
        let dir = format!("{}/evidence", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            format!("{dir}/{}.json", self.prop),
            serde_json::to_string_pretty(&doc).unwrap(),
        )
        .expect("write evidence");
    }

    pub fn run(&self, f: impl FnOnce(&Ctx)) -> i32 {
        std::panic::set_hook(Box::new(|info| {
            let msg = info.to_string();
            if QUIET.with(|q| q.get()) {
                LAST_PANIC.with(|p| *p.borrow_mut() = msg);
            } else {
                eprintln!("{msg}");
            }
        }));
        std::thread::scope(|s| {
            s.spawn(|| self.watchdog());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
            self.end();
            self.done.store(true, Ordering::Release);
            if r.is_err() {
                eprintln!("internal error of the checker");
                std::process::exit(3);
            }
        });
        self.write_evidence();
        for (k, w) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} [{}] {}", self.prop, k, w);
        }
        for (k, _) in &self.known {
            if !self.known_hit.lock().unwrap().contains_key(k) && self.only.is_none() {
                println!("note: listed finding not observed in this run: [{k}]");
            }
        }
        println!(
            "{} {:?}: states={} transitions={} validated={} violations={} wall={:.1}s",
            self.prop,
            self.tier,
            self.states.load(Ordering::SeqCst),
            self.transitions.load(Ordering::SeqCst),
            self.traces.load(Ordering::SeqCst),
            self.violation_count(),
            self.start.elapsed().as_secs_f64()
        );
        if self.violation_count() > 0 {
            1
        } else {
            0
        }
    }
}

/// Parent process: runs the exploration in a child so that an abort (stack
/// overflow, double panic) of the code under test becomes a verdict.
pub fn supervise(prop: &str, args: &[String]) -> i32 {
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let dir = std::env::temp_dir().join(format!("mc-journal-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("journal dir");
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("MC_CHILD", "1")
        .env("MC_JOURNAL", &dir)
        .stderr(std::process::Stdio::piped())
        .output()
        .expect("spawn child");
    std::io::stdout().write_all(&out.stdout).unwrap();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    std::io::stderr().write_all(out.stderr.as_slice()).unwrap();
    let code = match out.status.code() {
        Some(c) => c,
        None => {
            // killed by a signal
            let mut cases = BTreeMap::new();
            if let Ok(rd) = std::fs::read_dir(&dir) {
                for e in rd.flatten() {
                    let s = std::fs::read_to_string(e.path()).unwrap_or_default();
                    cases.insert(
                        e.file_name().to_string_lossy().to_string(),
                        s.lines().next().unwrap_or("").to_owned(),
                    );
                }
            }
            use std::os::unix::process::ExitStatusExt;
            let sig = out.status.signal().unwrap_or(0);
            if sig == 9 || sig == 15 || sig == 2 {
                eprintln!("child ended by signal {sig}: no verdict");
                let _ = std::fs::remove_dir_all(&dir);
                return 4;
            }
            let culprit = cases
                .iter()
                .find(|(w, _)| err.contains(&format!("thread '{w}'")))
                .map(|(_, c)| c.clone());
            let _ = std::fs::create_dir_all(format!("{verif}/replay"));
            let path = format!("{verif}/replay/{prop}-abort.json");
            std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({"property": prop, "what": format!("the process aborted (signal {sig}) while running the code under test"),
                    "case": culprit, "in_flight": cases, "stderr": err.chars().take(2000).collect::<String>()}))
                .unwrap(),
            )
            .unwrap();
            println!("VIOLATION property={prop} replay={path}");
            println!("  aborted by signal {sig}; case {culprit:?}; in flight: {cases:?}");
            let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
            std::fs::write(
                format!("{verif}/evidence/{prop}.json"),
                serde_json::to_string_pretty(&json!({"property": prop, "tier": if args.iter().any(|a| a == "thorough") {"thorough"} else {"quick"},
                    "seed": 1, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [cases], "exhaustive": false},
                    "wall_s": 0.0, "violations": 1}))
                .unwrap(),
            )
            .unwrap();
            1
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Entry point shared by the checkers: `<bin> <property> [quick|thorough] [--only KEY]`.
pub fn main(check: fn(&str) -> Option<fn(&Ctx)>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let run = args.first().and_then(|p| check(p));
    let (Some(prop), Some(run)) = (args.first().cloned(), run) else {
        eprintln!("usage: <property> [quick|thorough] [--only KEY]");
        std::process::exit(2);
    };
    if std::env::var("MC_CHILD").is_err() {
        std::process::exit(supervise(&prop, &args));
    }
    let tier = match args.get(1).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).cloned();
    std::process::exit(Ctx::new(&prop, tier, only).run(run));
}
