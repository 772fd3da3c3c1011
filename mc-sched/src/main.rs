//! C04, second half: all interleavings of concurrent verifications of the real code, and
//! histories which fill the cache, with an ideal signature scheme in place of BLS.
#![allow(dead_code)]
#[path = "../../mc/src/crypt.rs"]
mod crypt;
#[path = "../../mc/src/tree.rs"]
mod tree;
mod ctx {
    pub fn hx(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
}
use crypt::*;
use ic_cbor::CertificateToCbor;
use ic_certificate_verification::VerifyCertificate;

use parking_lot::sched;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::Instant;
use tree::*;

const KINDS: [(&str, bool); 13] = [
    ("valid", true),
    ("signature of another message", false),
    ("signed by another key", false),
    ("right signature, another root key", false),
    ("valid under another root key", true),
    ("damaged signature", false),
    ("valid but expired", false),
    ("valid delegation", true),
    ("delegation not signed by the root", false),
    ("delegation, but signed by the root itself", false),
    ("signed by the subnet without delegation", false),
    ("no signature", false),
    ("delegation for other canisters", false),
];
struct Job {
    cert: Certificate,
    root: u8,
    now: u128,
    ok: bool,
}
use ic_certification::Certificate;

const SUB: &[u8] = &[0x11; 29];
fn job(kind: usize, m: u64) -> Job {
    let data = [&m.to_be_bytes()[..], &[9; 24]].concat();
    let t = state_tree(CANISTER, &data, NOW);
    let sg = |k: u8, t: &T| {
        let mut s = vec![0; 48];
        use miracl_core_bls12381::bls12381::bls;
        bls::core_sign(&mut s, &msg(&t.digest()), &key(k).sk);
        s
    };
    let deleg = |signer: u8, lo: &[u8], hi: &[u8]| {
        let d = f(
            l("subnet", l(SUB, f(l("canister_ranges", v(ranges_cbor(&[(lo, hi)]))), l("public_key", v(der(&key(2).pk)))))),
            // the number keeps delegations of different rounds apart
            l("time", v(leb(NOW + m as u128))),
        );
        Deleg { subnet: SUB.to_vec(), cert: cert_cbor(&d, &sg(signer, &d), None) }
    };
    let (mut sig, mut d, mut root, mut now) = (sg(0, &t), None, 0, NOW);
    match kind {
        0 => {}
        1 => sig = sg(0, &state_tree(CANISTER, &[&m.to_be_bytes()[..], &[8; 24]].concat(), NOW)),
        2 => sig = sg(1, &t),
        3 => root = 1,
        4 => (sig, root) = (sg(1, &t), 1),
        5 => sig[47] ^= 1,
        6 => now = NOW + 2 * OFFSET,
        7 => (sig, d) = (sg(2, &t), Some(deleg(0, CANISTER, CANISTER))),
        8 => (sig, d) = (sg(2, &t), Some(deleg(1, CANISTER, CANISTER))),
        9 => d = Some(deleg(0, CANISTER, CANISTER)),
        10 => sig = sg(2, &t),
        11 => sig = vec![],
        _ => (sig, d) = (sg(2, &t), Some(deleg(0, &[9; 10], &[9; 10]))),
    }
    Job { cert: Certificate::from_cbor(&cert_cbor(&t, &sig, d.as_ref())).expect("certificate"), root, now, ok: KINDS[kind].1 }
}
impl Job {
    /// None if the verdict is right.
    fn run(&self) -> Option<String> {
        let root = der(&key(self.root).pk);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.cert.verify(CANISTER, &root, &self.now, &OFFSET)));
        match r {
            Err(_) => Some("panic".into()),
            Ok(r) if r.is_ok() == self.ok => None,
            Ok(r) => Some(format!("expected {}, got {:?}", if self.ok { "acceptance" } else { "rejection" }, r.map_err(|e| e.to_string()))),
        }
    }
}

struct W {
    fresh: u64,
    schedules: u64,
    steps: u64,
    runs: u64,
    lost: u64,
    capped: bool,
}
impl W {
    fn report(&self, kind: &str, detail: Value) -> ! {
        println!("{}", json!({"violation": kind, "detail": detail}));
        self.done();
        std::process::exit(0)
    }
    fn done(&self) {
        println!("{}", json!({"schedules": self.schedules, "steps": self.steps, "runs": self.runs, "lost": self.lost, "capped": self.capped}));
    }
    /// All schedules of the given thread programs with at most `bound` preemptions.
    fn explore(&mut self, progs: &[Vec<usize>], bound: usize, what: &str) {
        let mut script = Some(vec![]);
        while let Some(s) = script {
            self.fresh += 1;
            let m = self.fresh;
            let jobs: Vec<Vec<Job>> = progs.iter().map(|p| p.iter().map(|k| job(*k, m)).collect()).collect();
            let bad: Mutex<Vec<Value>> = Default::default();
            let out = std::thread::scope(|sc| {
                for (i, js) in jobs.iter().enumerate() {
                    let bad = &bad;
                    let pi = &progs[i];
                    sc.spawn(move || {
                        sched::run_managed(i, || {
                            for (n, j) in js.iter().enumerate() {
                                if let Some(e) = j.run() {
                                    bad.lock().unwrap().push(json!({"thread": i, "verification": n, "kind": KINDS[pi[n]].0, "result": e}));
                                }
                            }
                        })
                    });
                }
                let out = sched::control(progs.len(), &s, bound);
                if let Some(e) = &out.stuck {
                    // the threads cannot be brought back
                    self.report("stuck", self.detail(progs, what, &out, json!(e)));
                }
                out
            });
            self.schedules += 1;
            self.steps += out.steps.len() as u64;
            self.runs += progs.iter().map(|p| p.len() as u64).sum::<u64>();
            self.lost += out.lost;
            let b = bad.into_inner().unwrap();
            if !b.is_empty() {
                self.report("verdict", self.detail(progs, what, &out, json!(b)));
            }
            if self.lost > 20 {
                // locks that the scheduler cannot see are held across a signature check
                self.capped = true;
                return;
            }
            script = sched::next(out.steps);
        }
    }
    fn detail(&self, progs: &[Vec<usize>], what: &str, out: &sched::Outcome, e: Value) -> Value {
        let p: Vec<Vec<&str>> = progs.iter().map(|p| p.iter().map(|k| KINDS[*k].0).collect()).collect();
        json!({"phase": what, "threads": p, "schedule (choice among the threads able to go on, current one first)": out.steps.iter().map(|x| x.0).collect::<Vec<_>>(), "found": e})
    }
    fn history(&mut self, h: &[usize], what: &str) {
        self.fresh += 1;
        for (i, k) in h.iter().enumerate() {
            self.runs += 1;
            if let Some(e) = job(*k, self.fresh).run() {
                let p: Vec<&str> = h.iter().map(|k| KINDS[*k].0).collect();
                self.report("verdict", json!({"phase": what, "history": p, "verification": i, "found": e}));
            }
        }
    }
}

fn worker(w: usize, n: usize, thorough: bool) {
    unsafe {
        let mut set: [u64; 16] = [0; 16];
        let cpus = std::thread::available_parallelism().map_or(1, |x| x.get());
        set[0] = 1 << (w % cpus.min(64));
        extern "C" {
            fn sched_setaffinity(pid: i32, len: usize, set: *const u64) -> i32;
        }
        sched_setaffinity(0, 128, set.as_ptr());
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut x = W { fresh: (w as u64) << 40, schedules: 0, steps: 0, runs: 0, lost: 0, capped: false };
    // lazily built parts are built before anything is scheduled
    x.history(&[0, 7], "first");
    let k = KINDS.len();
    let mut idx = 0usize;
    let mut mine = || {
        idx += 1;
        idx % n == w
    };
    // two threads, one verification each: every interleaving
    for a in 0..k {
        for b in a..k {
            if mine() {
                x.explore(&[vec![a], vec![b]], usize::MAX, "2 threads x 1");
            }
        }
    }
    // two threads, two verifications each
    let few = [0usize, 1, 3, 4, 5, 7];
    let pairs: Vec<Vec<usize>> = few.iter().flat_map(|a| few.iter().map(move |b| vec![*a, *b])).collect();
    for (i, a) in pairs.iter().enumerate() {
        for b in &pairs[i..] {
            if mine() {
                x.explore(&[a.clone(), b.clone()], if thorough { 4 } else { 2 }, "2 threads x 2");
            }
        }
    }
    // three threads
    for (i, a) in few.iter().enumerate() {
        for (j, b) in few.iter().enumerate().skip(i) {
            for c in few.iter().skip(j) {
                if mine() {
                    x.explore(&[vec![*a], vec![*b], vec![*c]], if thorough { 5 } else { 2 }, "3 threads x 1");
                }
            }
        }
    }
    // histories
    let len = if thorough { 5 } else { 4 };
    for n in 0..k.pow(len) {
        if mine() {
            let h: Vec<usize> = (0..len).map(|i| n / k.pow(i) % k).collect();
            x.history(&h, "histories");
        }
    }
    // a full cache
    if w < 2 || thorough {
        let first = x.fresh + 1;
        let n = 100_100 + if thorough { 50_000 } else { 0 };
        for _ in 0..n {
            x.history(&[0], "filling the cache");
        }
        let last = x.fresh;
        for m in (first..first + 300).chain(last - 300..=last) {
            for k in 0..k {
                x.runs += 1;
                if let Some(e) = job(k, m).run() {
                    x.report("verdict", json!({"phase": "full cache", "kind": KINDS[k].0, "message": m - first, "found": e}));
                }
            }
        }
        for a in 0..k {
            for b in a..k {
                x.explore(&[vec![a], vec![b]], 2, "2 threads x 1, full cache");
            }
        }
        for n in 0..k.pow(3) {
            let h: Vec<usize> = (0..3).map(|i| n / k.pow(i) % k).collect();
            x.history(&h, "histories, full cache");
        }
    }
    x.done();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    if a.get(2).is_some_and(|x| x == "worker") {
        return worker(a[3].parse().unwrap(), a[4].parse().unwrap(), thorough);
    }
    let dir = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let t = Instant::now();
    let n = 8;
    let kids: Vec<_> = (0..n)
        .map(|w| {
            Command::new(std::env::current_exe().unwrap())
                .args(["C04", "worker", &w.to_string(), &n.to_string()])
                .stdout(Stdio::piped())
                .spawn()
                .expect("worker")
        })
        .collect();
    let readers: Vec<_> = kids
        .into_iter()
        .map(|mut k| {
            std::thread::spawn(move || {
                let ls: Vec<Value> = BufReader::new(k.stdout.take().unwrap()).lines().map_while(Result::ok).filter_map(|l| serde_json::from_str(&l).ok()).collect();
                (ls, k.wait().expect("wait"))
            })
        })
        .collect();
    let (mut viol, mut sum, mut capped, mut broken) = (vec![], [0u64; 4], false, false);
    for r in readers {
        let (ls, st) = r.join().unwrap();
        use std::os::unix::process::ExitStatusExt;
        if let Some(s) = st.signal() {
            if [4, 6, 7, 8, 11].contains(&s) {
                viol.push(json!({"violation": "crash", "detail": {"signal": s}}));
            } else {
                broken = true;
            }
        } else if !st.success() {
            broken = true;
        }
        for l in ls {
            if l.get("violation").is_some() {
                viol.push(l);
            } else {
                for (i, k) in ["schedules", "steps", "runs", "lost"].iter().enumerate() {
                    sum[i] += l[*k].as_u64().unwrap_or(0);
                }
                capped |= l["capped"] == true;
            }
        }
    }
    if broken && viol.is_empty() {
        eprintln!("a worker failed");
        std::process::exit(3);
    }
    let path = format!("{dir}/evidence/C04.json");
    if let Some(mut e) = std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
        let c = &mut e["coverage"];
        for (k, x) in [("states", sum[0]), ("transitions", sum[1]), ("traces_validated_against_impl", sum[2])] {
            c[k] = json!(c[k].as_u64().unwrap_or(0) + x);
        }
        c["threads"] = json!({"schedules": sum[0], "scheduling steps": sum[1], "verifications": sum[2], "steps lost to unknown locks": sum[3], "wall_s": t.elapsed().as_secs_f64(),
            "bound": format!("2 threads x 1 verification: all interleavings for all pairs of {} kinds; 2 x 2 over 6 kinds: at most {} preemptions; 3 x 1 over 6 kinds: at most {} preemptions; all histories of {}; the same on a full cache",
                KINDS.len(), if thorough { 4 } else { 2 }, if thorough { 5 } else { 2 }, if thorough { 5 } else { 4 })});
        if capped {
            c["capped"].as_array_mut().unwrap().push(json!("threads: locks unknown to the scheduler"));
            c["exhaustive_within_bounds"] = json!(false);
        }
        c["violations"] = json!(c["violations"].as_u64().unwrap_or(0) + viol.len() as u64);
        e["wall_s"] = json!(e["wall_s"].as_f64().unwrap_or(0.0) + t.elapsed().as_secs_f64());
        std::fs::write(&path, serde_json::to_string_pretty(&e).unwrap()).expect("write evidence");
    }
    for (i, v) in viol.iter().enumerate().take(8) {
        let p = format!("{dir}/replays/C04-t{i}.json");
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": "C04", "key": v["violation"], "detail": v["detail"]})).unwrap());
        println!("VIOLATION property=C04 replay={p}");
        println!("  {}", v);
    }
    if viol.is_empty() {
        println!("OK property=C04 threads schedules={} steps={} verifications={} lost={} wall={:.1}s", sum[0], sum[1], sum[2], sum[3], t.elapsed().as_secs_f64());
    }
    std::process::exit(!viol.is_empty() as i32)
}
