//! Everything that the checks give to the native library can also be given to its WebAssembly build
//! behind the JavaScript bindings, under node: the verdicts have to be the same.
use crate::ctx::Ctx;
use base64::{engine::general_purpose::STANDARD as B64, Engine as _};
use ic_http_certification::{HttpRequest, HttpResponse};
use ic_response_verification::{types::VerificationInfo, ResponseVerificationError};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};

const BATCH: u64 = 400;
struct Worker {
    child: Child,
    to: BufWriter<ChildStdin>,
    from: BufReader<ChildStdout>,
    pending: u64,
}
pub struct Pool {
    c: &'static Ctx,
    workers: Vec<Mutex<Worker>>,
    next: AtomicU64,
    pub sent: AtomicU64,
    pub kinds: Mutex<BTreeMap<String, u64>>,
    pub info: Mutex<Value>,
    /// Take one in so many of the decoder's cases (1: all of them).
    pub phase: Mutex<&'static str>,
}
static POOL: OnceLock<Pool> = OnceLock::new();

pub fn start(c: &'static Ctx) -> &'static Pool {
    let js = format!("{}/../js/replay.js", crate::ctx::VERIF);
    let module = format!("{}/../mc-wasm/target/js/mc_wasm.js", crate::ctx::VERIF);
    let workers = (0..8)
        .map(|_| {
            let mut child = Command::new("node").arg("--stack-size=900").arg(&js).arg(&module).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("node");
            let (to, from) = (BufWriter::with_capacity(1 << 20, child.stdin.take().unwrap()), BufReader::new(child.stdout.take().unwrap()));
            Mutex::new(Worker { child, to, from, pending: 0 })
        })
        .collect();
    let p = Pool { c, workers, next: 0.into(), sent: 0.into(), kinds: Default::default(), info: Default::default(), phase: Mutex::new("") };
    assert!(POOL.set(p).is_ok());
    POOL.get().unwrap()
}
impl Worker {
    fn report(&mut self, p: &Pool) {
        self.pending = 0;
        let mut line = String::new();
        if writeln!(self.to).and_then(|_| self.to.flush()).is_err() || !matches!(self.from.read_line(&mut line), Ok(n) if n > 0) {
            p.c.fail("process", json!({"what": "the process running the bindings ended", "status": format!("{:?}", self.child.try_wait())}));
            return;
        }
        let v: Value = serde_json::from_str(&line).expect("report");
        p.c.trace(v["n"].as_u64().unwrap());
        for x in v["first"].as_array().unwrap() {
            let mut y = x.clone();
            if let Some(s) = x["case"].as_str() {
                y["case"] = serde_json::from_str(s).unwrap_or(json!(s));
            }
            p.c.fail(x["key"].as_str().unwrap_or("verdict"), y);
        }
        *p.info.lock().unwrap() = v;
    }
}
impl Pool {
    pub fn put(&self, v: &Value) {
        self.sent.fetch_add(1, Relaxed);
        let i = rayon::current_thread_index().map_or_else(|| self.next.fetch_add(1, Relaxed), |i| i as u64);
        let mut w = self.workers[i as usize % self.workers.len()].lock().unwrap();
        let s = serde_json::to_string(v).unwrap();
        if writeln!(w.to, "{s}").is_err() {
            w.pending = BATCH;
        }
        w.pending += 1;
        if w.pending >= BATCH {
            w.report(self);
        }
    }
    pub fn flush(&self) {
        for w in &self.workers {
            w.lock().unwrap().report(self);
        }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn case(&self, q: &HttpRequest, r: &HttpResponse, can: &[u8], now: u128, off: u128, pk: &[u8], min: u8, out: &Result<VerificationInfo, ResponseVerificationError>, form: u64) {
        let (Ok(n), Ok(o)) = (u64::try_from(now), u64::try_from(off)) else { return };
        let w = match out {
            Ok(i) => {
                let r = i.response.as_ref().map(|x| {
                    let b = if x.body == r.body() { json!(1) } else { json!(B64.encode(&x.body)) };
                    let h = if x.headers == r.headers() { json!(1) } else { json!(x.headers) };
                    json!({"s": x.status_code, "h": h, "b": b})
                });
                json!({"v": i.verification_version, "r": r})
            }
            Err(e) => json!({"e": kind(e), "t": e.to_string()}),
        };
        *self.kinds.lock().unwrap().entry(w["e"].as_str().map_or("accepted".into(), |s| s.to_string())).or_default() += 1;
        self.put(&json!({
            "m": q.method().as_str(), "u": q.url(), "h": q.headers(), "b": B64.encode(q.body()),
            "s": r.status_code().as_u16(), "rh": r.headers(), "rb": B64.encode(r.body()),
            "c": B64.encode(can), "n": n.to_string(), "o": o.to_string(), "k": B64.encode(pk), "v": min, "f": form, "w": w,
        }));
    }
}
/// The name of the kind of error.
pub fn kind(e: &ResponseVerificationError) -> String {
    format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect()
}
/// The native library, and the other one if it is there.
pub fn verify(q: HttpRequest, r: HttpResponse, can: &[u8], now: u128, off: u128, pk: &[u8], min: u8) -> Result<VerificationInfo, ResponseVerificationError> {
    let Some(p) = POOL.get() else {
        return ic_response_verification::verify_request_response_pair(q, r, can, now, off, pk, min);
    };
    if r.body().len() > 100_000 {
        return ic_response_verification::verify_request_response_pair(q, r, can, now, off, pk, min);
    }
    let out = ic_response_verification::verify_request_response_pair(q.clone(), r.clone(), can, now, off, pk, min);
    let form = p.next.fetch_add(1, Relaxed);
    p.case(&q, &r, can, now, off, pk, min, &out, form);
    out
}
pub fn decode(b: &[u8]) {
    if let Some(p) = POOL.get() {
        use ic_cbor::{CertificateToCbor, HashTreeToCbor};
        let r = crate::ctx::catch(|| {
            let item = ic_cbor::parse_cbor(b).map(|v| dump(&v)).unwrap_or_default();
            let strings = ic_cbor::parse_cbor_string_array(b).map(|v| format!("{v:?}")).unwrap_or_default();
            let tree = ic_certification::HashTree::from_cbor(b).map(|t| format!("{:?}", t.digest())).unwrap_or_default();
            let cert = ic_certification::Certificate::from_cbor(b).map(|c| format!("{c:?}")).unwrap_or_default();
            [item, strings, tree, cert].join("\u{1}")
        });
        if let Ok(x) = r {
            p.put(&json!({"d": B64.encode(b), "x": x}));
        }
    }
}

/// An item as text, maps in order.
fn dump(v: &ic_cbor::CborValue) -> String {
    use ic_cbor::CborValue::*;
    match v {
        Array(a) => format!("[{}]", a.iter().map(dump).collect::<Vec<_>>().join(" ")),
        Map(m) => {
            let mut e: Vec<_> = m.iter().map(|(k, v)| format!("{k:?}:{}", dump(v))).collect();
            e.sort();
            format!("{{{}}}", e.join(" "))
        }
        x => format!("{x:?}"),
    }
}
