//! Shared run context: counters, samples, violations, known findings, evidence, hang watchdog.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = env!("CARGO_MANIFEST_DIR");

const SLOTS: usize = 256;
struct Slot {
    /// 0 when idle, otherwise ms since start + 1
    since: AtomicU64,
    idx: [AtomicU64; 4],
    /// calls into the code under test begun on this thread; nesting; the thread's CPU clock
    calls: AtomicU64,
    depth: AtomicU64,
    clock: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    since: AtomicU64::new(0),
    idx: [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)],
    calls: AtomicU64::new(0),
    depth: AtomicU64::new(0),
    clock: AtomicU64::new(0),
};
static SLOT: [Slot; SLOTS] = [SLOT0; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

static ANY_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String {
    ANY_PANIC.lock().unwrap().clone()
}
thread_local! {
    static MY_SLOT: usize = {
        let n = NEXT_SLOT.fetch_add(1, Relaxed);
        let mut c: libc::clockid_t = 0;
        let ok = n < SLOTS && unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) } == 0;
        SLOT[n % SLOTS].clock.store(if ok { (1 << 40) | c as u32 as u64 } else { 0 }, Relaxed);
        n % SLOTS
    };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: i64,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub stop: AtomicBool,
    pub capped: Mutex<BTreeSet<String>>,
    samples: Mutex<Vec<Value>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<BTreeMap<String, Value>>,
    violations: Mutex<Vec<(String, Value)>>,
    known_hit: Mutex<BTreeMap<String, (String, u64)>>,
    known: Vec<(String, String)>,
    /// Nothing is reported: only the cases are of interest.
    mute: bool,
    pub only: Option<String>,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| {
        std::path::Path::new(VERIF).parent().unwrap().to_string_lossy().into_owned()
    })
}

impl Ctx {
    pub fn new(id: &str) -> &'static Ctx {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough".to_string() } else { "quick".to_string() };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let known = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir()))
            .ok()
            .map(|s| serde_json::from_str::<Value>(&s).expect("known_findings.json"))
            .and_then(|v| v.get("findings").cloned())
            .and_then(|v| v.as_array().cloned())
            .unwrap_or_default()
            .into_iter()
            .filter(|v| v["property"] == id)
            .map(|v| {
                (
                    v["key"].as_str().unwrap_or("").to_string(),
                    v["what"].as_str().unwrap_or("").to_string(),
                )
            })
            .collect();
        std::panic::set_hook(Box::new(|info| {
            let msg = info.to_string();
            LAST_PANIC.with(|p| *p.borrow_mut() = msg.clone());
            *ANY_PANIC.lock().unwrap() = msg.clone();
            if QUIET.with(|q| q.get()) == 0 {
                eprintln!("{msg}");
            }
        }));
        let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
            id: id.to_string(),
            tier,
            seed,
            start: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            stop: false.into(),
            capped: Default::default(),
            samples: Default::default(),
            outcomes: Default::default(),
            notes: Default::default(),
            violations: Default::default(),
            known_hit: Default::default(),
            known,
            mute: false,
            only: None,
        }));
        ctx.watchdog();
        ctx
    }
    /// A context to run another property's exploration in for the sake of its cases.
    pub fn muted(tier: &str, only: Option<&str>) -> &'static Ctx {
        Box::leak(Box::new(Ctx {
            id: "-".into(),
            tier: tier.into(),
            seed: 1,
            start: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            stop: false.into(),
            capped: Default::default(),
            samples: Default::default(),
            outcomes: Default::default(),
            notes: Default::default(),
            violations: Default::default(),
            known_hit: Default::default(),
            known: vec![],
            mute: true,
            only: only.map(|s| s.into()),
        }))
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Pick a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.notes.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn outcome(&self, k: &str) {
        self.outcome_n(k, 1)
    }
    pub fn outcome_n(&self, k: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn outcomes_merge(&self, m: &BTreeMap<String, u64>) {
        let mut o = self.outcomes.lock().unwrap();
        for (k, v) in m {
            *o.entry(k.clone()).or_default() += v;
        }
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(v());
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// Wall budget in seconds; when hit, the caller stops and the cap is reported.
    pub fn expired(&self, what: &str, secs: u64) -> bool {
        if self.start.elapsed() > Duration::from_secs(secs) {
            self.capped.lock().unwrap().insert(what.to_string());
            true
        } else {
            false
        }
    }
    /// Report a violation. `key` identifies the specific failing input/history.
    pub fn fail(&self, key: &str, detail: Value) {
        if self.mute {
            return;
        }
        if let Some((k, what)) = self.known.iter().find(|(k, _)| k == key) {
            let mut h = self.known_hit.lock().unwrap();
            h.entry(k.clone()).or_insert((what.clone(), 0)).1 += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 8 {
            v.push((key.to_string(), detail));
        }
        if v.len() >= 4 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn check(&self, ok: bool, key: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok {
            self.fail(key, detail());
        }
        ok
    }
    /// Mark the case this thread is working on (for the hang watchdog).
    pub fn mark(&self, a: u64, b: u64, c: u64, d: u64) {
        MY_SLOT.with(|s| {
            let s = &SLOT[*s];
            s.idx[0].store(a, Relaxed);
            s.idx[1].store(b, Relaxed);
            s.idx[2].store(c, Relaxed);
            s.idx[3].store(d, Relaxed);
            s.since.store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
        });
    }
    pub fn idle(&self) {
        MY_SLOT.with(|s| SLOT[*s].since.store(0, Relaxed));
    }
    fn watchdog(&'static self) {
        let limit = 45_000u64;
        let cpu_limit = self.pick(120.0, 1500.0);
        let mut seen = vec![(0u64, 0.0f64); SLOTS];
        let (mut ticks, mut last, mut idle) = (0u64, 0.0f64, 0);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            ticks += 1;
            // one call into the code under test that does not end
            if ticks % 10 == 0 {
                for (i, s) in SLOT.iter().enumerate() {
                    let (n, clock) = (s.calls.load(Relaxed), s.clock.load(Relaxed));
                    let Some(t) = (clock != 0 && s.depth.load(Relaxed) > 0).then(|| cpu(clock as u32 as libc::clockid_t)).flatten() else {
                        seen[i] = (0, 0.0);
                        continue;
                    };
                    if seen[i].0 != n {
                        seen[i] = (n, t);
                    } else if t - seen[i].1 > cpu_limit {
                        self.fail("hang", json!({"kind": "a call does not end", "cpu_seconds": t - seen[i].1}));
                        std::process::exit(self.finish_inner());
                    }
                }
            }
            // nothing runs at all: a deadlock (C28 waits for other processes)
            if ticks % 30 == 0 && self.id != "C28" {
                let t = cpu(libc::CLOCK_PROCESS_CPUTIME_ID).unwrap_or(f64::MAX);
                idle = if t - last < 0.3 { idle + 1 } else { 0 };
                last = t;
                if idle == 4 {
                    self.fail("hang", json!({"kind": "all threads are blocked"}));
                    std::process::exit(self.finish_inner());
                }
            }
            let now = self.start.elapsed().as_millis() as u64;
            for s in SLOT.iter() {
                let since = s.since.load(Relaxed);
                if since != 0 && now > since + limit {
                    let idx: Vec<u64> = s.idx.iter().map(|x| x.load(Relaxed)).collect();
                    self.fail("hang", json!({"kind":"no termination","case_index":idx,"limit_ms":limit}));
                    std::process::exit(self.finish_inner());
                }
            }
        });
    }
    /// Run code under test: a panic is turned into Err(message).
    pub fn catch<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        catch(f)
    }
    /// As `catch`, but a panic is reported as a violation under `key`.
    pub fn guard<T>(&self, key: &str, detail: impl FnOnce() -> Value, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.fail(key, json!({"panic": p, "case": detail()}));
                None
            }
        }
    }
    fn finish_inner(&self) -> i32 {
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        let viol = self.violations.lock().unwrap();
        let known = self.known_hit.lock().unwrap();
        let mut cov = json!({
            "states": self.states.load(Relaxed),
            "transitions": self.transitions.load(Relaxed),
            "traces_validated_against_impl": self.traces.load(Relaxed),
            "samples": *self.samples.lock().unwrap(),
            "outcomes": *self.outcomes.lock().unwrap(),
            "capped": *self.capped.lock().unwrap(),
            "exhaustive_within_bounds": self.capped.lock().unwrap().is_empty() && !self.stopped(),
            "known_findings_seen": known.iter().map(|(k,(w,n))| json!({"key":k,"what":w,"count":n})).collect::<Vec<_>>(),
            "violations": viol.len(),
        });
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov[k] = v.clone();
        }
        let ev = json!({
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(
            format!("{dir}/evidence/{}.json", self.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
        for (k, (what, n)) in known.iter() {
            println!("KNOWN-FINDING: property={} {} [{} ×{}]", self.id, what, k, n);
        }
        if viol.is_empty() {
            println!(
                "OK property={} tier={} states={} transitions={} traces={} wall={:.1}s",
                self.id,
                self.tier,
                self.states.load(Relaxed),
                self.transitions.load(Relaxed),
                self.traces.load(Relaxed),
                self.start.elapsed().as_secs_f64()
            );
            return 0;
        }
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        for (i, (k, d)) in viol.iter().enumerate() {
            let path = format!("{dir}/replays/{}-{}.json", self.id, i);
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({"property": self.id, "key": k, "detail": d})).unwrap(),
            );
            println!("VIOLATION property={} replay={}", self.id, path);
            let mut s = d.to_string();
            if s.len() > 1500 {
                let mut e = 1500;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
            }
            println!("  key={k} {s}");
        }
        1
    }
    pub fn finish(&self) -> ! {
        let c = self.finish_inner();
        std::process::exit(c)
    }
}

fn cpu(clock: libc::clockid_t) -> Option<f64> {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    (unsafe { libc::clock_gettime(clock, &mut t) } == 0).then(|| t.tv_sec as f64 + t.tv_nsec as f64 / 1e9)
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let s = MY_SLOT.with(|s| &SLOT[*s]);
    s.calls.fetch_add(1, Relaxed);
    s.depth.fetch_add(1, Relaxed);
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    s.calls.fetch_add(1, Relaxed);
    s.depth.fetch_sub(1, Relaxed);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
