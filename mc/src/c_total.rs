//! C12: nothing an untrusted party sends makes verification, decoding or serving panic, hang, or
//! use stack or memory out of proportion.
use crate::crypt::*;
use crate::ctx::{catch, hx, Ctx};
use crate::http::*;
use crate::tree::{bytes, f, head, l, text, v, T};
use ic_asset_certification::{Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetRedirectKind, AssetRouter};
use ic_cbor::{parse_cbor, parse_cbor_principals_array, parse_cbor_string_array, CertificateToCbor, HashTreeToCbor};
use ic_certificate_verification::VerifyCertificate;
use ic_certification::{Certificate, HashTree};
use ic_http_certification as ihc;
use rayon::prelude::*;
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Counts, per thread, the bytes allocated at one time.
pub struct Counting;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = CUR.try_with(|c| {
        let x = c.get() + n;
        c.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, y: Layout) -> *mut u8 {
        add(y.size() as i64);
        System.alloc(y)
    }
    unsafe fn alloc_zeroed(&self, y: Layout) -> *mut u8 {
        add(y.size() as i64);
        System.alloc_zeroed(y)
    }
    unsafe fn dealloc(&self, p: *mut u8, y: Layout) {
        add(-(y.size() as i64));
        System.dealloc(p, y)
    }
    unsafe fn realloc(&self, p: *mut u8, y: Layout, n: usize) -> *mut u8 {
        add(n as i64 - y.size() as i64);
        System.realloc(p, y, n)
    }
}
fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

static MAX_CPU_PER_BYTE: AtomicU64 = AtomicU64::new(0);
static MAX_CPU: AtomicU64 = AtomicU64::new(0);
static MAX_PEAK: AtomicU64 = AtomicU64::new(0);

/// Processor time allowed for an input of `n` bytes: a constant and far more per byte than any of
/// the linear algorithms need.
fn cpu_limit(n: usize) -> u64 {
    1_500_000_000 + n as u64 * 10_000
}
/// Memory allowed at one time: a constant for the bounded preallocation per nesting level (64 KiB
/// each), and a factor for decoding (the ratio of a decompressed to a compressed body is about 1030).
fn mem_limit(key: &str, n: usize) -> i64 {
    (64 << 20) + n as i64 * if key.starts_with("body") { 4096 } else { 512 }
}
/// Run one case of `n` input bytes, with panics, time and memory monitored.
fn watch<X>(c: &Ctx, key: &str, n: usize, case: impl Fn() -> serde_json::Value, g: impl FnOnce() -> X) -> Option<X> {
    CUR.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
    let t0 = cpu();
    let r = catch(g);
    let t = cpu() - t0;
    let p = PEAK.with(|x| x.get());
    c.trans(1);
    c.trace(1);
    MAX_CPU.fetch_max(t, Relaxed);
    MAX_PEAK.fetch_max(p.max(0) as u64, Relaxed);
    if n >= 16 << 10 {
        MAX_CPU_PER_BYTE.fetch_max(t / n as u64, Relaxed);
    }
    c.check(t <= cpu_limit(n), &format!("{key}: time"), || json!({"input_bytes": n, "cpu_ns": t, "limit_ns": cpu_limit(n), "case": case()}));
    c.check(p <= mem_limit(key, n), &format!("{key}: memory"), || json!({"input_bytes": n, "peak_bytes": p, "limit_bytes": mem_limit(key, n), "case": case()}));
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            c.fail(&format!("{key}: panic"), json!({"panic": e, "case": case()}));
            None
        }
    }
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
fn hcut(b: &[u8]) -> String {
    hx(&b[..b.len().min(200)])
}

/// Every decoder on one byte string. Returns how many accepted it.
fn decoders(c: &Ctx, key: &str, b: &[u8]) -> u32 {
    crate::tap::decode(b);
    let n = b.len();
    let case = || json!({"bytes": hcut(b), "len": n});
    let mut ok = 0;
    watch(c, key, n, case, || {
        ok += parse_cbor(b).map(|x| x.to_string()).is_ok() as u32;
        ok += parse_cbor_string_array(b).is_ok() as u32;
        ok += parse_cbor_principals_array(b).is_ok() as u32;
        if let Ok(t) = HashTree::from_cbor(b) {
            ok += 1;
            let _ = t.digest();
            let _ = t.list_paths();
            let _ = t.lookup_path(["a", "b"]);
            let _ = t.lookup_subtree(["a", "b"]);
            let _ = serde_cbor::to_vec(&t);
            let _ = format!("{t:?}");
            let u = t.clone();
            assert!(u == t);
        }
        if let Ok(t) = Certificate::from_cbor(b) {
            ok += 1;
            let _ = serde_cbor::to_vec(&t);
            let _ = format!("{t:?}");
        }
        ok += serde_cbor::from_slice::<HashTree>(b).is_ok() as u32;
        ok += serde_cbor::from_slice::<Certificate>(b).is_ok() as u32;
    });
    ok
}

struct Good {
    tree: T,
    expr: Vec<String>,
    cert: Vec<u8>,
    cel: Cel,
}
fn good() -> Good {
    let cel = Cel::Resp(RH::Certified(vec!["x"]));
    let r = Resp { status: 200, headers: hd(&[("X", "1"), ("IC-CertificateExpression", &cel.text())]), body: b"body".to_vec() };
    let q = Req::get("/a");
    let mut p: Vec<Vec<u8>> = vec![b"http_expr".to_vec(), b"a".to_vec(), b"<*>".to_vec()];
    p.extend(cert_path(&cel, &q, &r));
    let tree = canonical(&[p]);
    Good { cert: simple_cert(CANISTER, &tree.digest()), tree, expr: vec!["http_expr".into(), "a".into(), "<*>".into()], cel }
}
fn with_deleg(good: &Good) -> Vec<u8> {
    let rt = f(l("subnet", l(b"sub", f(l("canister_ranges", v(ranges_cbor(&[(&[0u8; 10], &[0xffu8; 10])]))), l("public_key", v(der(&key(1).pk)))))), l("time", v(leb(NOW))));
    let dc = cert_cbor(&rt, &sign(0, &rt), None);
    let t = state_tree(CANISTER, &good.tree.digest(), NOW);
    cert_cbor(&t, &sign(1, &t), Some(&Deleg { subnet: b"sub".to_vec(), cert: dc }))
}
fn response(h: &str, cel: &str, body: &[u8]) -> Resp {
    Resp { status: 200, headers: hd(&[("X", "1"), ("IC-CertificateExpression", cel), ("IC-Certificate", h)]), body: body.to_vec() }
}
fn verify(c: &Ctx, key: &str, n: usize, q: &Req, r: &Resp, pk: &[u8], min: u8) -> Option<Verdict> {
    let show = || json!({"url": cut(&q.url), "url_len": q.url.len(), "headers": r.headers.iter().take(8).map(|(k, v)| format!("{}: {}", cut(k), cut(v))).collect::<Vec<_>>(), "body_len": r.body.len(), "root_key": hcut(pk)});
    let (ql, rl) = (q.lib(), r.lib());
    watch(c, key, n, show, move || match crate::tap::verify(ql, rl, CANISTER, NOW, OFFSET, pk, min) {
        Ok(i) => match i.response {
            None => Verdict::Skipped,
            Some(v) => Verdict::Verified(v.status_code.unwrap_or(0), v.headers, v.body),
        },
        Err(e) => {
            let _ = e.to_string();
            Verdict::Reject
        }
    })
}

/// All strings over the tokens of length 1..=n, in parallel over the first token.
fn seqs(c: &Ctx, toks: usize, n: usize, g: impl Fn(&[usize]) + Sync) {
    (0..toks).into_par_iter().for_each(|a| {
        let mut cur = vec![a];
        fn rec(c: &Ctx, toks: usize, n: usize, cur: &mut Vec<usize>, g: &impl Fn(&[usize])) {
            if c.stopped() {
                return;
            }
            c.state(1);
            g(cur);
            if cur.len() < n {
                for t in 0..toks {
                    cur.push(t);
                    rec(c, toks, n, cur, g);
                    cur.pop();
                }
            }
        }
        rec(c, toks, n, &mut cur, &g);
    });
}

pub fn c12(c: &'static Ctx) {
    let g = good();
    let pk = root_pk();
    let gh = v2_header(&g.cert, &g.tree, &g.expr);
    assert!(matches!(verify(c, "good", 0, &Req::get("/a/x"), &response(&gh, &g.cel.text(), b"body"), &pk, 2), Some(Verdict::Verified(..))));
    let only = std::env::var("MC_PHASE").ok().or(c.only.clone());
    let phase = |p: &str, run: &dyn Fn()| {
        if only.as_deref().map_or(true, |o| o.split(',').any(|x| x == p)) && !c.stopped() {
            let t = std::time::Instant::now();
            let (a, b) = (c.transitions.load(Relaxed), c.states.load(Relaxed));
            run();
            c.note(&format!("phase {p}"), json!({"cases": c.transitions.load(Relaxed) - a, "states": c.states.load(Relaxed) - b, "s": t.elapsed().as_secs_f64()}));
        }
    };
    phase("short", &|| short_bytes(c));
    phase("edits", &|| edits(c, &g));
    phase("nesting", &|| nesting(c, &g));
    phase("lengths", &|| lengths(c, &g));
    phase("texts", &|| texts(c, &g));
    phase("bodies", &|| bodies(c, &g));
    phase("keys", &|| keys(c, &g));
    phase("growth", &|| growth(c, &g));
    phase("router", &|| router(c));
    c.note("max cpu ns per input byte (inputs of 16 KiB and more)", MAX_CPU_PER_BYTE.load(Relaxed));
    c.note("max cpu ns", MAX_CPU.load(Relaxed));
    c.note("max peak bytes", MAX_PEAK.load(Relaxed));
}

fn short_bytes(c: &Ctx) {
    let acc = AtomicU64::new(0);
    let run = |b: &[u8]| {
        acc.fetch_add((decoders(c, "decoder", b) > 0) as u64, Relaxed);
    };
    run(&[]);
    // every byte string up to length 2 (3)
    let all = c.pick(2, 3);
    seqs(c, 256, all, |s| run(&s.iter().map(|x| *x as u8).collect::<Vec<_>>()));
    // longer strings over the initial bytes that matter
    let alpha: Vec<u8> = vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x18, 0x20, 0x38, 0x3b, 0x40, 0x41, 0x58, 0x5b, 0x61, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x9b, 0x9f, 0xa1, 0xbb, 0xbf, 0xc0, 0xd9, 0xe0, 0xf6, 0xff];
    let k = c.pick(17, alpha.len());
    let quick: Vec<u8> = vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x3b, 0x41, 0x5b, 0x61, 0x81, 0x82, 0x83, 0x9b, 0xa1, 0xbb, 0xd9, 0xff];
    let al: &[u8] = if c.thorough() { &alpha } else { &quick };
    seqs(c, k, c.pick(4, 5), |s| run(&s.iter().map(|x| al[*x]).collect::<Vec<_>>()));
    c.outcome_n("short byte strings accepted by a decoder", acc.load(Relaxed));
}

fn edits(c: &Ctx, g: &Good) {
    let pk = root_pk();
    let cel = g.cel.text();
    let dcert = with_deleg(g);
    let parts: Vec<(&str, Vec<u8>)> = vec![("cert", g.cert.clone()), ("delegated", dcert), ("tree", g.tree.cbor()), ("expr", expr_cbor(&g.expr)), ("ranges", ranges_cbor(&[(&[0u8; 10], &[0xffu8; 10])]))];
    for (name, b) in &parts {
        let mut vals: Vec<u8> = if c.thorough() || *name == "tree" || *name == "expr" || *name == "ranges" { (0..=255).collect() } else { vec![0, 1, 2, 0x18, 0x1b, 0x3b, 0x40, 0x5b, 0x80, 0x9b, 0x9f, 0xbb, 0xbf, 0xc0, 0xe0, 0xff] };
        vals.dedup();
        let mut cases: Vec<Vec<u8>> = vec![];
        for i in 0..b.len() {
            for x in &vals {
                if b[i] != *x {
                    let mut d = b.clone();
                    d[i] = *x;
                    cases.push(d);
                }
            }
            cases.push(b[..i].to_vec());
            cases.push([&b[..i], &b[i + 1..]].concat());
            for x in [0u8, 0x9b, 0xff] {
                cases.push([&b[..i], &[x], &b[i..]].concat());
            }
        }
        c.state(cases.len() as u64);
        cases.par_iter().for_each(|d| {
            if c.stopped() {
                return;
            }
            decoders(c, "edited bytes", d);
            if *name == "ranges" {
                return;
            }
            let (ct, tr, ex): (&[u8], Vec<u8>, Vec<u8>) = match *name {
                "cert" | "delegated" => (d, g.tree.cbor(), expr_cbor(&g.expr)),
                "tree" => (&g.cert, d.clone(), expr_cbor(&g.expr)),
                _ => (&g.cert, g.tree.cbor(), d.clone()),
            };
            let h = v2_header_raw(ct, &tr, &ex);
            let r = verify(c, "edited", h.len(), &Req::get("/a/x"), &response(&h, &cel, b"body"), &pk, 2);
            c.outcome(match r {
                Some(Verdict::Reject) => "edited: rejected",
                Some(_) => "edited: accepted",
                None => "edited: panic",
            });
        });
    }
}

/// On a thread with the usual 2 MiB of stack.
fn on_stack(g: impl FnOnce() + Send) {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, g).unwrap();
        let _ = h.join();
    });
}

fn nesting(c: &Ctx, g: &Good) {
    let pk = root_pk();
    let cel = g.cel.text();
    let mut depths: Vec<usize> = (1..=c.pick(40, 700)).collect();
    depths.extend([63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500]);
    depths.extend(505..=520);
    depths.extend([600, 1000, 1023, 1024, 1025, 2048, 4096, 10_000, 65_536, 100_000, 300_000]);
    if c.thorough() {
        depths.extend([1_000_000, 3_000_000]);
    }
    depths.sort();
    depths.dedup();
    let rep = |a: &[u8], n: usize, z: &[u8], b: &[u8]| -> Vec<u8> {
        let mut o = a.repeat(n);
        o.extend_from_slice(z);
        for _ in 0..if b.is_empty() { 0 } else { n } {
            o.extend_from_slice(b);
        }
        o
    };
    // openers, innermost, closers
    type O = (&'static str, Vec<u8>, Vec<u8>, Vec<u8>);
    let mut shapes: Vec<O> = vec![];
    let openers: Vec<(&str, Vec<u8>)> = vec![
        ("array", vec![0x81]), ("array of 2", vec![0x82]), ("long array", vec![0x9b, 0, 0, 0, 0, 0, 0, 0, 1]), ("huge array", vec![0x9b, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
        ("indefinite array", vec![0x9f]), ("map", vec![0xa1, 0x61, b'a']), ("map in key", vec![0xa1]), ("tag", vec![0xc0]), ("wide tag", vec![0xd9, 0xd9, 0xf7]), ("simple", vec![0xe0]), ("float", vec![0xfb, 0, 0, 0, 0, 0, 0, 0, 0]),
        ("indefinite map", vec![0xbf]), ("indefinite string", vec![0x5f]),
        ("label", vec![0x83, 0x02, 0x41, b'a']), ("empty label", vec![0x83, 0x02, 0x40]), ("left fork", vec![0x83, 0x01]), ("right fork", vec![0x83, 0x01, 0x81, 0x00]), ("leaf", vec![0x82, 0x03]),
    ];
    for (n, o) in &openers {
        for (zn, z) in [("nothing", vec![]), ("empty node", vec![0x81, 0x00]), ("leaf", vec![0x82, 0x03, 0x40]), ("string", vec![0x40]), ("pruned", [&[0x82, 0x04, 0x58, 0x20][..], &[7; 32]].concat())] {
            let close = match *n {
                "left fork" => vec![0x81, 0x00],
                "array of 2" => vec![0x40],
                "map in key" => vec![0x40],
                _ => vec![],
            };
            shapes.push((Box::leak(format!("{n} around {zn}").into_boxed_str()), o.clone(), z, close));
        }
    }
    for (a, oa) in &openers {
        for (b, ob) in &openers {
            if a != b {
                shapes.push((Box::leak(format!("{a}, {b} in turn").into_boxed_str()), [&oa[..], &ob[..]].concat(), vec![0x81, 0x00], vec![]));
            }
        }
    }
    let deep_ok = AtomicU64::new(0);
    shapes.par_iter().for_each(|(n, a, z, b)| {
        for d in &depths {
            if c.stopped() || (a.len() > 4 && *d > 100_000) || (n.contains("in turn") && *d > 40 && ![64, 128, 256, 257, 512, 513, 1000, 10_000, 100_000].contains(d)) {
                continue;
            }
            c.state(1);
            let x = rep(a, *d, z, b);
            eprintln_last(n, *d);
            on_stack(|| {
                let k = decoders(c, "nesting", &x);
                deep_ok.fetch_add((k > 0) as u64, Relaxed);
                // as each of the three values of a header, and inside a certificate
                let wrap = |field: &str| {
                    let mut o = vec![0xa2];
                    text("tree", &mut o);
                    if field == "tree" {
                        o.extend_from_slice(&x)
                    } else {
                        T::E.enc(&mut o)
                    };
                    text("signature", &mut o);
                    bytes(&[0; 48], &mut o);
                    if field == "delegation" || field == "cert" {
                        o[0] = 0xa3;
                        text("delegation", &mut o);
                        if field == "delegation" {
                            o.extend_from_slice(&x);
                        } else {
                            head(5, 2, &mut o);
                            text("subnet_id", &mut o);
                            bytes(b"s", &mut o);
                            text("certificate", &mut o);
                            bytes(&x, &mut o);
                        }
                    }
                    o
                };
                for h in [
                    v2_header_raw(&wrap("tree"), &g.tree.cbor(), &expr_cbor(&g.expr)),
                    v2_header_raw(&wrap("delegation"), &g.tree.cbor(), &expr_cbor(&g.expr)),
                    v2_header_raw(&wrap("cert"), &g.tree.cbor(), &expr_cbor(&g.expr)),
                    v2_header_raw(&x, &g.tree.cbor(), &expr_cbor(&g.expr)),
                    v2_header_raw(&g.cert, &x, &expr_cbor(&g.expr)),
                    v2_header_raw(&g.cert, &g.tree.cbor(), &x),
                ] {
                    verify(c, "nesting", h.len(), &Req::get("/a/x"), &response(&h, &cel, b"body"), &pk, 1);
                }
            });
        }
    });
    // genuinely certified deep trees: the verifier walks them
    for d in [1usize, 10, 100, 120, 200, 300, 500] {
        for kind in 0..3 {
            let mut t = g.tree.clone();
            for i in 0..d {
                t = match kind {
                    0 => f(t, T::E),
                    1 => f(T::E, t),
                    _ => f(t, l(format!("x{i:05}"), v(""))),
                };
            }
            let h = v2_header(&simple_cert(CANISTER, &t.digest()), &t, &g.expr);
            on_stack(|| {
                verify(c, "deep tree", h.len(), &Req::get("/a/x"), &response(&h, &cel, b"body"), &pk, 2);
            });
        }
    }
    // delegations inside delegations
    let mut ct = g.cert.clone();
    for d in 0..c.pick(200usize, 2000) {
        let t = state_tree(CANISTER, &g.tree.digest(), NOW);
        ct = cert_cbor(&t, &[0x80; 48], Some(&Deleg { subnet: b"s".to_vec(), cert: ct }));
        if d < 20 || d % 50 == 0 {
            let h = v2_header(&ct, &g.tree, &g.expr);
            on_stack(|| {
                verify(c, "delegations", h.len(), &Req::get("/a/x"), &response(&h, &cel, b"body"), &pk, 2);
                decoders(c, "delegations", &ct);
            });
        }
    }
    // expressions
    let gh = v2_header(&g.cert, &g.tree, &g.expr);
    let co: Vec<(&str, &str)> = vec![("f(", ")"), ("O{a:", "}"), ("[", "]"), ("(", ")"), ("{", "}"), ("{:", "}"), ("\"", "\""), (" ", " "), ("f ( ", " ) "), ("[[],", "]"), ("\\", ""), ("f(f(),", ")"), ("\"\\\"", "\"")];
    let mut cs: Vec<(String, String)> = co.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for (a, x) in &co {
        for (b, y) in &co {
            cs.push((format!("{a}{b}"), format!("{y}{x}")));
        }
    }
    cs.par_iter().for_each(|(a, b)| {
        for d in &depths {
            if c.stopped() || *d > 300_000 || (*d > 80 && *d < 1000 && *d != 200) {
                continue;
            }
            for closed in [true, false] {
                for z in ["", "\"x\"", "x"] {
                    for pre in ["", "default_certification(ValidationArgs{certification:Certification{no_request_certification:Empty{},response_certification:ResponseCertification{certified_response_headers:ResponseHeaderList{headers:"] {
                        let s = format!("{pre}{}{z}{}", a.repeat(*d), if closed { b.repeat(*d) } else { String::new() });
                        c.state(1);
                        eprintln_last(a, *d);
                        on_stack(|| {
                            verify(c, "expression nesting", s.len(), &Req::get("/a/x"), &response(&gh, &s, b"body"), &pk, 2);
                        });
                        if *d > 10_000 && !z.is_empty() {
                            break;
                        }
                    }
                }
            }
        }
    });
    c.outcome_n("nested inputs accepted by a decoder", deep_ok.load(Relaxed));
}
/// With MC_TRACE set, the last case is known if the process dies of a stack overflow.
fn eprintln_last(what: &str, d: usize) {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *ON.get_or_init(|| std::env::var("MC_TRACE").is_ok()) {
        eprintln!("{what} x {d}");
    }
}

fn lengths(c: &Ctx, g: &Good) {
    let pk = root_pk();
    let cel = g.cel.text();
    let mut lens: Vec<u64> = vec![0, 1, 2, 3, 23, 24, 255, 256, 65535, 65536];
    for k in 17..64 {
        lens.extend([1u64 << k, (1 << k) - 1]);
    }
    lens.extend([u64::MAX, u64::MAX - 1, u64::MAX / 8, u64::MAX / 16, u64::MAX / 24 + 1, u64::MAX / 32 + 1, u64::MAX / 40 + 1, u64::MAX / 56 + 1, isize::MAX as u64, isize::MAX as u64 + 1]);
    lens.sort();
    lens.dedup();
    let mut cases: Vec<Vec<u8>> = vec![];
    for major in 0..8u8 {
        for n in &lens {
            let mut hs: Vec<Vec<u8>> = vec![];
            let mut o = vec![];
            head(major, *n, &mut o);
            hs.push(o);
            hs.push([vec![major << 5 | 27], n.to_be_bytes().to_vec()].concat());
            if *n <= u32::MAX as u64 {
                hs.push([vec![major << 5 | 26], (*n as u32).to_be_bytes().to_vec()].concat());
            }
            hs.dedup();
            for h in hs {
                let items: [&[u8]; 8] = [&[], &[0x40], &[0x61, b'a'], &[0x61, b'a', 0x40], &[0x81, 0x00], &[0x82, 0x40, 0x40], &[0x01, 0x81, 0x00, 0x81, 0x00], &[0x02, 0x41, 0x61, 0x81, 0x00]];
                for it in items {
                    let x = [&h[..], it].concat();
                    // alone, and as a part of every structure that the decoders know
                    for (pre, post) in [(&[][..], &[][..]), (&[0x81], &[]), (&[0x82, 0x40], &[]), (&[0xa1, 0x61, b'a'], &[]), (&[0xa1], &[0x40]), (&[0x83, 0x01], &[0x81, 0x00]), (&[0x83, 0x02, 0x41, b'a'], &[]), (&[0x83, 0x02], &[0x81, 0x00]), (&[0x82, 0x03], &[]), (&[0x82, 0x04], &[]), (&[0xd9, 0xd9, 0xf7], &[]), (b"\xa1\x64tree", &[]), (b"\xa2\x64tree\x81\x00\x69signature", &[]), (b"\xa3\x64tree\x81\x00\x69signature\x40\x6adelegation", &[]), (b"\xa3\x64tree\x81\x00\x69signature\x40\x6adelegation\xa1\x69subnet_id", &[]), (&[0x81, 0x82], &[0x40]), (&[0x81, 0x82, 0x40], &[])] {
                        cases.push([pre, &x, post].concat());
                    }
                }
            }
        }
    }
    c.state(cases.len() as u64);
    cases.par_iter().enumerate().for_each(|(i, x)| {
        if c.stopped() {
            return;
        }
        let k = decoders(c, "declared length", x);
        if k > 0 {
            c.outcome("declared lengths: accepted by a decoder");
        }
        if i % 7 == 0 || c.thorough() {
            for h in [v2_header_raw(x, &g.tree.cbor(), &expr_cbor(&g.expr)), v2_header_raw(&g.cert, x, &expr_cbor(&g.expr)), v2_header_raw(&g.cert, &g.tree.cbor(), x)] {
                verify(c, "declared length", h.len(), &Req::get("/a/x"), &response(&h, &cel, b"body"), &pk, 1);
            }
        }
    });
}

fn texts(c: &Ctx, g: &Good) {
    let pk = root_pk();
    let cel = g.cel.text();
    let gh = v2_header(&g.cert, &g.tree, &g.expr);
    // the certificate header
    let (cb, tb, eb) = (b64(&g.cert), b64(&g.tree.cbor()), b64(&expr_cbor(&g.expr)));
    let ht: Vec<String> = vec![
        format!("certificate=:{cb}:"), format!("tree=:{tb}:"), format!("expr_path=:{eb}:"), "version=2".into(), "version=1".into(), ",".into(), "=".into(), ":".into(), " ".into(), "certificate".into(), "tree".into(), "version".into(), "expr_path=".into(),
        "é".into(), "\u{0}".into(), "::".into(), "🦀".into(), "version=256".into(), "version=-1".into(), "version=99999999999999999999".into(), "\u{301}".into(), "=:=:".into(), "tree=:é:".into(), "certificate=:A:".into(), "expr_path=:/w==:".into(), "\u{a0}".into(), "\r\n".into(),
    ];
    seqs(c, c.pick(18, ht.len()), c.pick(4, 5), |s| {
        let h: String = s.iter().map(|i| ht[*i].as_str()).collect();
        let r = verify(c, "header", h.len(), &Req::get("/a/x"), &response(&h, &cel, b"body"), &pk, 1);
        if matches!(r, Some(Verdict::Verified(..))) {
            c.outcome("header sequences accepted");
        }
    });
    // the expression
    let ct: Vec<&str> = vec![
        "default_certification", "(", ")", "{", "}", "[", "]", ",", ":", "\"", "\\", "ValidationArgs", "certification", "Empty", " ", "é", "\"x\"", "no_certification", "_", "🦀", "\u{0}", "\n", "headers", "0",
    ];
    seqs(c, c.pick(17, ct.len()), c.pick(4, 5), |s| {
        let e: String = s.iter().map(|i| ct[*i]).collect();
        verify(c, "expression", e.len(), &Req::get("/a/x"), &response(&gh, &e, b"body"), &pk, 2);
    });
    // every token put in place of, before or after every token of valid expressions
    let full = Cel::Full(vec!["a", "b"], vec!["q"], RH::Excluded(vec!["y"])).text();
    for base in [cel.clone(), full.clone(), Cel::Skip.text()] {
        let mut toks: Vec<String> = vec![];
        for ch in base.chars() {
            match toks.last_mut() {
                Some(t) if (ch.is_alphanumeric() || ch == '_') && t.chars().all(|x| x.is_alphanumeric() || x == '_') => t.push(ch),
                _ => toks.push(ch.to_string()),
            }
        }
        (0..toks.len()).into_par_iter().for_each(|i| {
            for x in &ct {
                for how in 0..4 {
                    let mut t = toks.clone();
                    match how {
                        0 => t[i] = x.to_string(),
                        1 => t.insert(i, x.to_string()),
                        2 => {
                            t.remove(i);
                        }
                        _ => t.truncate(i),
                    }
                    let e = t.concat();
                    c.state(1);
                    verify(c, "expression", e.len(), &Req::get("/a/x?q=1"), &response(&gh, &e, b"body"), &pk, 2);
                }
            }
        });
    }
    // URLs
    let ut: Vec<&str> = vec!["/", "a", "%", "4", "1", "F", "?", "#", "&", "=", ":", "@", "[", "]", ".", "é", " ", "*", "<*>", "<$>", "http_expr", "http://", "%FF", "%C3", "\u{0}", "\\", "\u{7f}", "🦀"];
    let certs: Vec<(T, Vec<String>)> = vec![
        (g.tree.clone(), g.expr.clone()),
        (canonical(&[vec![b"http_expr".to_vec(), b"<*>".to_vec(), b"x".to_vec()]]), vec!["http_expr".into(), "<*>".into()]),
        (canonical(&[vec![b"http_expr".to_vec(), b"".to_vec(), b"<$>".to_vec(), b"x".to_vec()]]), vec!["http_expr".into(), "".into(), "<$>".into()]),
    ];
    let hs: Vec<String> = certs.iter().map(|(t, e)| v2_header(&simple_cert(CANISTER, &t.digest()), t, e)).collect();
    let h1 = format!("certificate=:{cb}:, tree=:{tb}:");
    seqs(c, c.pick(21, ut.len()), c.pick(4, 5), |s| {
        let u: String = s.iter().map(|i| ut[*i]).collect();
        let k = s.iter().sum::<usize>() % hs.len();
        let r = Resp { status: 200, headers: hd(&[("IC-CertificateExpression", &full), ("IC-Certificate", &hs[k])]), body: vec![] };
        verify(c, "url", u.len(), &Req::get(&u), &r, &pk, 2);
        if s.len() <= 3 {
            let q = Req::get(&u);
            verify(c, "url v1", u.len(), &q, &response(&h1, "", b""), &pk, 1);
            watch(c, "url", u.len(), || json!(u), || {
                let q = q.lib();
                let _ = (q.get_path(), q.get_query());
                let up: ihc::HttpUpdateRequest = q.into();
                let _ = (up.get_path(), up.get_query());
                let p = ihc::HttpCertificationPath::exact(u.clone());
                let w = ihc::HttpCertificationPath::wildcard(u.clone());
                let mut t = ihc::HttpCertificationTree::default();
                for p in [p, w] {
                    let e = ihc::HttpCertificationTreeEntry::new(p, ihc::HttpCertification::skip());
                    t.insert(&e);
                    let _ = t.witness(&e, &u);
                    let _ = t.witness(&e, "/a");
                    t.delete(&e);
                }
            });
        }
    });
    // expression paths of any segments
    let st: Vec<&str> = vec!["http_expr", "", "a", "<*>", "<$>", "x", "é", "http_assets"];
    seqs(c, st.len(), c.pick(5, 6), |s| {
        let e: Vec<String> = s.iter().map(|i| st[*i].to_string()).collect();
        let h = v2_header(&g.cert, &g.tree, &e);
        let u = ["/a/x", "/", "/a", "/a/x/", "//"][s.len() % 5];
        verify(c, "expression path", h.len(), &Req::get(u), &response(&h, &cel, b"body"), &pk, 2);
    });
    let h = v2_header(&g.cert, &g.tree, &[]);
    verify(c, "expression path", h.len(), &Req::get("/a"), &response(&h, &cel, b"body"), &pk, 2);
    // header names and values, of request and response
    let odd = ["", " ", "é", "IC-Certificate", "ic-CERTIFICATE", "IC-CertificateExpression", "content-encoding", "\u{0}", "İ", "ß", "ſ", "K", "x"];
    for a in odd {
        for b in odd {
            for va in ["", "gzip", &gh, "é\u{0}", &cel] {
                let r = Resp { status: 200, headers: hd(&[(a, va), (b, &gh), ("IC-CertificateExpression", &full)]), body: vec![] };
                let q = Req { method: "GET", url: "/a/x?é".into(), headers: hd(&[(a, va), (b, va)]), body: vec![] };
                c.state(1);
                verify(c, "headers", 0, &q, &r, &pk, 1);
            }
        }
    }
}

fn bodies(c: &Ctx, g: &Good) {
    let pk = root_pk();
    let h1 = format!("certificate=:{}:, tree=:{}:", b64(&g.cert), b64(&g.tree.cbor()));
    let run = |b: &[u8], e: &str| {
        let r = Resp { status: 200, headers: hd(&[("Content-Encoding", e), ("IC-Certificate", &h1)]), body: b.to_vec() };
        verify(c, "body", b.len(), &Req::get("/a"), &r, &pk, 1);
    };
    // every short body, raw and behind a gzip header
    seqs(c, 256, 2, |s| {
        let b: Vec<u8> = s.iter().map(|x| *x as u8).collect();
        run(&b, "deflate");
        run(&[&[0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3][..], &b].concat(), "gzip");
        run(&[&[0x1f, 0x8b], &b[..]].concat(), "gzip");
    });
    if c.thorough() {
        seqs(c, 64, 4, |s| {
            let b: Vec<u8> = s.iter().map(|x| (*x * 4 + *x / 13 % 4) as u8).collect();
            run(&b, "deflate");
        });
    }
    // every change of a byte of compressed bodies
    use std::io::Write;
    for n in [0usize, 5, 300, 5000] {
        let raw: Vec<u8> = (0..n).map(|i| (i * i % 251) as u8).collect();
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(6));
        e.write_all(&raw).unwrap();
        let z = e.finish().unwrap();
        let lim = z.len().min(c.pick(200, 1000));
        (0..lim).into_par_iter().for_each(|i| {
            for x in 0..=255u8 {
                if n > 300 && !c.thorough() && x.count_ones() > 1 {
                    continue;
                }
                let mut d = z.clone();
                d[i] ^= x;
                c.state(1);
                run(&d, "gzip");
                run(&d[10..], "deflate");
                run(&d[..i], "gzip");
            }
        });
    }
    // highly compressed bodies
    for n in [1usize << 20, 10 << 20, c.pick(40, 400) << 20] {
        for (k, e) in ["gzip", "deflate"].iter().enumerate() {
            let raw = vec![0u8; n];
            let z = if k == 0 {
                let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::best());
                w.write_all(&raw).unwrap();
                w.finish().unwrap()
            } else {
                let mut w = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::best());
                w.write_all(&raw).unwrap();
                w.finish().unwrap()
            };
            drop(raw);
            c.state(1);
            run(&z, e);
        }
    }
    for e in ["", "gzip, gzip", "x-gzip", "br", "é", "\u{0}", "GZIP", "deflate;q=1"] {
        run(b"x", e);
    }
}

fn keys(c: &Ctx, g: &Good) {
    let cel = g.cel.text();
    let gh = v2_header(&g.cert, &g.tree, &g.expr);
    let dh = v2_header(&with_deleg(g), &g.tree, &g.expr);
    let good = root_pk();
    let mut ks: Vec<Vec<u8>> = vec![];
    for n in 0..300 {
        ks.push(vec![0; n]);
        ks.push(good[..n.min(good.len())].to_vec());
        ks.push([&good[..], &vec![0u8; n][..]].concat());
        ks.push([DER, &vec![0x80; n][..]].concat());
        ks.push([DER, &vec![0xc0; n][..]].concat());
    }
    let step = c.pick(1, 1);
    for i in (0..good.len()).step_by(step) {
        for x in [1u8, 0x20, 0x40, 0x80, 0xff] {
            let mut k = good.clone();
            k[i] ^= x;
            ks.push(k);
        }
        let mut k = good.clone();
        k.remove(i);
        ks.push(k);
    }
    ks.sort();
    ks.dedup();
    c.state(ks.len() as u64);
    ks.par_iter().for_each(|k| {
        for h in [&gh, &dh] {
            let r = verify(c, "root key", k.len(), &Req::get("/a/x"), &response(h, &cel, b"body"), k, 2);
            c.check(matches!(r, Some(Verdict::Reject)) || *k == good, "root key accepted", || json!({"root_key": hx(k)}));
        }
    });
    // the same bytes as subnet key, and signatures of any length and lead byte
    let data = g.tree.digest();
    ks.par_iter().for_each(|k| {
        let rt = f(l("subnet", l(b"sub", f(l("canister_ranges", v(ranges_cbor(&[(&[0u8; 10], &[0xffu8; 10])]))), l("public_key", v(k))))), l("time", v(leb(NOW))));
        let dc = cert_cbor(&rt, &sign(0, &rt), None);
        let t = state_tree(CANISTER, &data, NOW);
        let ct = cert_cbor(&t, &sign(1, &t), Some(&Deleg { subnet: b"sub".to_vec(), cert: dc }));
        let h = v2_header(&ct, &g.tree, &g.expr);
        verify(c, "subnet key", k.len(), &Req::get("/a/x"), &response(&h, &cel, b"body"), &good, 2);
    });
    let t = state_tree(CANISTER, &data, NOW);
    let sig = sign(0, &t);
    let mut sigs: Vec<Vec<u8>> = vec![];
    for n in 0..150 {
        for x in [0u8, 0x40, 0x80, 0xa0, 0xc0, 0xe0, 0xff] {
            let mut s = vec![0; n];
            if n > 0 {
                s[0] = x;
            }
            sigs.push(s);
            sigs.push(vec![x; n]);
        }
        sigs.push(sig[..n.min(48)].to_vec());
        sigs.push([&sig[..], &vec![0; n][..]].concat());
    }
    for x in 0..=255u8 {
        for i in [0usize, 1, 47] {
            let mut s = sig.clone();
            s[i] = x;
            sigs.push(s);
        }
    }
    sigs.par_iter().for_each(|s| {
        let h = v2_header(&cert_cbor(&t, s, None), &g.tree, &g.expr);
        c.state(1);
        verify(c, "signature", s.len(), &Req::get("/a/x"), &response(&h, &cel, b"body"), &good, 2);
    });
    // certified but odd state: times, range lists, canister ids
    let odd: Vec<Vec<u8>> = vec![vec![], vec![0x80], vec![0x80; 40], vec![0xff; 40], vec![0xff; 19], [vec![0xff; 18], vec![3]].concat(), [vec![0xff; 18], vec![4]].concat(), [vec![0x80; 30], vec![0]].concat(), vec![1, 2, 3], b"text".to_vec()];
    for o in &odd {
        for now in [0u128, NOW, u128::MAX, u64::MAX as u128] {
            for off in [0u128, OFFSET, u128::MAX] {
                let t = f(l("canister", l(CANISTER, l("certified_data", v(data)))), l("time", v(o)));
                let ct = Certificate::from_cbor(&cert_cbor(&t, &sign(0, &t), None)).unwrap();
                c.state(1);
                watch(c, "time", o.len(), || json!({"time": hx(o)}), || ct.verify(CANISTER, &good, &now, &off).is_ok());
            }
        }
        let rt = f(l("subnet", l(b"sub", f(l("canister_ranges", v(o)), l("public_key", v(der(&key(1).pk)))))), l("time", v(leb(NOW))));
        let dc = cert_cbor(&rt, &sign(0, &rt), None);
        let t = state_tree(CANISTER, &data, NOW);
        let ct = Certificate::from_cbor(&cert_cbor(&t, &sign(1, &t), Some(&Deleg { subnet: b"sub".to_vec(), cert: dc }))).unwrap();
        watch(c, "ranges", o.len(), || json!({"ranges": hx(o)}), || ct.verify(CANISTER, &good, &NOW, &OFFSET).is_ok());
    }
    for a in 0..40usize {
        for b in [0usize, 10, 29, 30, 33] {
            let rt = f(l("subnet", l(b"sub", f(l("canister_ranges", v(ranges_cbor(&[(&vec![0u8; a], &vec![0xffu8; b])]))), l("public_key", v(der(&key(1).pk)))))), l("time", v(leb(NOW))));
            let dc = cert_cbor(&rt, &sign(0, &rt), None);
            let t = state_tree(CANISTER, &data, NOW);
            let ct = Certificate::from_cbor(&cert_cbor(&t, &sign(1, &t), Some(&Deleg { subnet: b"sub".to_vec(), cert: dc }))).unwrap();
            c.state(1);
            watch(c, "range principals", a, || json!({"first": a, "last": b}), || ct.verify(CANISTER, &good, &NOW, &OFFSET).is_ok());
        }
    }
}

/// Inputs that grow, in every place where an untrusted party can make them grow.
fn growth(c: &Ctx, g: &Good) {
    let pk = root_pk();
    let cel = g.cel.text();
    let gh = v2_header(&g.cert, &g.tree, &g.expr);
    let full = Cel::Full(vec!["a", "b"], vec!["q"], RH::Excluded(vec!["y"])).text();
    let wild = canonical(&[vec![b"http_expr".to_vec(), b"<*>".to_vec(), b"x".to_vec()]]);
    let wc = simple_cert(CANISTER, &wild.digest());
    let wh = v2_header(&wc, &wild, &["http_expr".into(), "<*>".into()]);
    let sizes: Vec<usize> = if let Ok(x) = std::env::var("MC_SIZE") { vec![x.parse().unwrap()] } else { c.pick(vec![1 << 10, 16 << 10, 60 << 10, 256 << 10], vec![1 << 10, 16 << 10, 60 << 10, 256 << 10, 1 << 20, 4 << 20]) };
    type Job<'a> = (String, Req, Resp);
    let mut jobs: Vec<Job> = vec![];
    let get = |u: String| Req { method: "GET", url: u, headers: vec![], body: vec![] };
    for &n in &sizes {
        for u in ["/a", "/", "/%41", "a", "/a?q=", "%C3%A9", "/<*>", "/http_expr", "/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"] {
            for (h, e) in [(&wh, &full), (&gh, &cel)] {
                let m = n.min(65_000);
                let mut s = String::from("/a/");
                s.push_str(&u.repeat(m / u.len()));
                jobs.push((format!("path {u:?} x {}", m / u.len()), get(s), response(h, e, b"body")));
            }
        }
        for u in ["&", "q=1&", "q&", "=", "a=b&q=c&", "%C3%A9&", "?"] {
            let m = n.min(65_000);
            jobs.push((format!("query {u:?}"), get(format!("/x?{}", u.repeat(m / u.len()))), response(&wh, &full, b"body")));
        }
        // certificate header
        for t in ["a=:b:, ", "certificate=:!:, ", ",", "=", ":", " ", "version=1,", "é", "a=", "=:", "tree=:AAAA:,"] {
            for at in 0..3 {
                let s = t.repeat(n / t.len());
                let h = [format!("{s}{wh}"), format!("{wh},{s}"), s][at].clone();
                jobs.push((format!("certificate header {t:?}"), get("/x".into()), response(&h, &cel, b"body")));
            }
        }
        // expression
        let hdr = |x: &str| cel.replace("\"x\"", x);
        for (name, s) in [
            ("list", hdr(&vec!["\"x\""; n / 4].join(","))),
            ("long name", hdr(&format!("\"{}\"", "x".repeat(n)))),
            ("escapes", hdr(&format!("\"{}\"", "\\\\".repeat(n / 2)))),
            ("open string", hdr(&format!("\"{}", "x".repeat(n)))),
            ("blanks", hdr(&" ".repeat(n))),
            ("blanks before", " ".repeat(n) + &cel),
            ("blanks after", cel.clone() + &" ".repeat(n)),
            ("ident", "a".repeat(n)),
            ("arrays", hdr(&vec!["[]"; n / 3].join(","))),
            ("functions", format!("default_certification({})", vec!["f()"; n / 4].join(","))),
            ("members", format!("default_certification(ValidationArgs{{{}}})", vec!["a:\"b\""; n / 6].join(","))),
            ("distinct members", format!("default_certification(ValidationArgs{{{}}})", (0..n / 10).map(|i| format!("a{i}:\"b\"")).collect::<Vec<_>>().join(","))),
            ("commas", hdr(&",".repeat(n))),
        ] {
            jobs.push((format!("expression {name}"), get("/x".into()), response(&wh, &s, b"body")));
        }
        // many headers with many header names to keep or to drop, on both sides
        let k = n / 12;
        let names: Vec<String> = (0..k).map(|i| format!("h{i:05}")).collect();
        let quoted = names.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",");
        for (which, e) in [
            ("certified", format!("default_certification(ValidationArgs{{certification:Certification{{no_request_certification:Empty{{}},response_certification:ResponseCertification{{certified_response_headers:ResponseHeaderList{{headers:[{quoted}]}}}}}}}})")),
            ("excluded", format!("default_certification(ValidationArgs{{certification:Certification{{no_request_certification:Empty{{}},response_certification:ResponseCertification{{response_header_exclusions:ResponseHeaderList{{headers:[{quoted}]}}}}}}}})")),
            ("request", format!("default_certification(ValidationArgs{{certification:Certification{{request_certification:RequestCertification{{certified_request_headers:[{quoted}],certified_query_parameters:[]}},response_certification:ResponseCertification{{response_header_exclusions:ResponseHeaderList{{headers:[]}}}}}}}})")),
            ("query", format!("default_certification(ValidationArgs{{certification:Certification{{request_certification:RequestCertification{{certified_request_headers:[],certified_query_parameters:[{quoted}]}},response_certification:ResponseCertification{{response_header_exclusions:ResponseHeaderList{{headers:[]}}}}}}}})")),
        ] {
            for other in ["same", "none match"] {
                let mk = |i: usize| if other == "same" { names[i].clone() } else { format!("g{i:05}") };
                let hs: Vec<(String, String)> = (0..k).map(|i| (mk(i), "v".into())).collect();
                let mut q = get("/x".into());
                let mut r = response(&wh, &e, b"body");
                match which {
                    "request" => q.headers = hs,
                    "query" => q.url = format!("/x?{}", (0..k.min(7_000)).map(|i| mk(i) + "=1").collect::<Vec<_>>().join("&")),
                    _ => r.headers.extend(hs),
                }
                jobs.push((format!("{k} {which} names, {other}"), q, r));
            }
        }
        // trees and paths
        let kids: Vec<T> = (0..n / 12).map(|i| l(format!("k{i:06}"), v("x"))).collect();
        let big = f(l("http_expr", f(l("<*>", l("x", v(""))), l("a", T::E))), l("zz", crate::tree::balanced(&kids)));
        let bc = simple_cert(CANISTER, &big.digest());
        jobs.push(("wide tree".into(), get("/a/b/c".into()), response(&v2_header(&bc, &big, &["http_expr".into(), "<*>".into()]), &cel, b"body")));
        let under: Vec<T> = std::iter::once(l("<*>", l("x", v("")))).chain((0..n / 12).map(|i| l(format!("k{i:06}"), l("<$>", v("x"))))).collect();
        let big = l("http_expr", crate::tree::balanced(&under));
        let bc = simple_cert(CANISTER, &big.digest());
        let m = n.min(65_000);
        jobs.push(("wide tree, long path".into(), get("/a".repeat(m / 2)), response(&v2_header(&bc, &big, &["http_expr".into(), "<*>".into()]), &cel, b"body")));
        jobs.push(("wide tree, long path below".into(), get("/k000001".repeat(m / 8)), response(&v2_header(&bc, &big, &["http_expr".into(), "<*>".into()]), &cel, b"body")));
        for depth in [20usize, 100, 150] {
            for wide in [1usize, 0] {
                // a tree along the requested path with many siblings on every level, or all below
                let per = n / 12 / depth;
                let mut t = l("<$>", v(""));
                if wide == 0 {
                    t = f(t, l("zz", crate::tree::balanced(&kids)));
                }
                for _ in 0..depth {
                    let mut ks: Vec<T> = vec![l("a", t)];
                    if wide == 1 {
                        ks.extend((0..per).map(|i| l(format!("k{i:06}"), v("x"))));
                    }
                    t = crate::tree::balanced(&ks);
                }
                let t = l("http_expr", f(l("<*>", l("x", v(""))), t));
                let h = v2_header(&simple_cert(CANISTER, &t.digest()), &t, &["http_expr".into(), "<*>".into()]);
                jobs.push((format!("deep and wide tree {depth} {wide}"), get("/a".repeat(depth + 5)), response(&h, &cel, b"body")));
                jobs.push((format!("deep and wide tree {depth} {wide}, long url"), get("/a".repeat(m / 2)), response(&h, &cel, b"body")));
            }
        }
        for seg in ["a", "", "http_expr", "<*>", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"] {
            let mut e = vec!["http_expr".to_string()];
            e.extend(std::iter::repeat(seg.to_string()).take(n / (seg.len() + 1)));
            for end in ["<*>", "<$>"] {
                let mut e2 = e.clone();
                e2.push(end.into());
                jobs.push((format!("expression path of {} {seg:?}", e2.len()), get("/a".repeat(m / 2)), response(&v2_header(&wc, &wild, &e2), &cel, b"body")));
            }
        }
        jobs.push(("long expression path segment".into(), get("/x".into()), response(&v2_header(&wc, &wild, &["http_expr".into(), "a".repeat(n), "<*>".into()]), &cel, b"body")));
        // bodies and header values
        jobs.push(("body".into(), Req { body: vec![b'x'; n], ..get("/x".into()) }, response(&wh, &full, &vec![b'y'; n])));
        let mut r = response(&wh, &full, b"");
        r.headers.push(("long".into(), "v".repeat(n)));
        r.headers.push(("n".repeat(n), "v".into()));
        jobs.push(("header value".into(), get("/x".into()), r.clone()));
        r.headers.extend((0..n / 8).map(|_| ("same".to_string(), "v".to_string())));
        jobs.push(("repeated header".into(), Req { headers: r.headers.clone(), ..get("/x".into()) }, r));
        // a delegation with many ranges
        let rs: Vec<([u8; 10], [u8; 10])> = (0..n / 24).map(|i| (Certs::canister(2 * i + 1_000_000), Certs::canister(2 * i + 1_000_001))).collect();
        let rr: Vec<(&[u8], &[u8])> = rs.iter().map(|(a, b)| (&a[..], &b[..])).collect();
        let rt = f(l("subnet", l(b"sub", f(l("canister_ranges", v(ranges_cbor(&rr))), l("public_key", v(der(&key(1).pk)))))), l("time", v(leb(NOW))));
        let dc = cert_cbor(&rt, &sign(0, &rt), None);
        let t = state_tree(CANISTER, &wild.digest(), NOW);
        let ct = cert_cbor(&t, &sign(1, &t), Some(&Deleg { subnet: b"sub".to_vec(), cert: dc }));
        jobs.push(("many ranges".into(), get("/x".into()), response(&v2_header(&ct, &wild, &["http_expr".into(), "<*>".into()]), &cel, b"body")));
    }
    let times: std::sync::Mutex<Vec<(u64, String, usize)>> = Default::default();
    jobs.par_iter().for_each(|(name, q, r)| {
        if c.stopped() {
            return;
        }
        let n = q.url.len() + q.body.len() + r.body.len() + q.headers.iter().chain(&r.headers).map(|(a, b)| a.len() + b.len()).sum::<usize>();
        c.state(1);
        let t0 = cpu();
        verify(c, &format!("growth: {}", name.split(|x: char| x.is_ascii_digit()).next().unwrap_or("")), n, q, r, &pk, 1);
        times.lock().unwrap().push((cpu() - t0, name.clone(), n));
    });
    // decoders on long flat inputs
    for &n in &sizes {
        let flat: Vec<Vec<u8>> = {
            let arr = |item: &[u8]| {
                let mut o = vec![];
                head(4, (n / item.len()) as u64, &mut o);
                o.extend(item.repeat(n / item.len()));
                o
            };
            let mut m = vec![];
            head(5, (n / 8) as u64, &mut m);
            for i in 0..n / 8 {
                text(&format!("{i:06}"), &mut m);
                bytes(b"", &mut m);
            }
            vec![arr(&[0x40]), arr(&[0x61, b'a']), arr(&[0x80]), arr(&[0xa0]), arr(&[0x00]), arr(&[0x81, 0x81, 0x40]), arr(&[0x82, 0x40, 0x40]), arr(&[0x42, 0xc3, 0xa9]), m, vec![0x81; n], vec![0xc0; n], vec![0xff; n], vec![0x9f; n]]
        };
        flat.par_iter().for_each(|b| {
            c.state(1);
            on_stack(|| {
                decoders(c, "growth of bytes", b);
            });
        });
    }
    let mut t = times.into_inner().unwrap();
    t.sort_by(|a, b| b.0.cmp(&a.0));
    c.note("slowest growing inputs", json!(t.iter().take(12).map(|(t, n, b)| format!("{n}: {b} bytes, {} ms", t / 1_000_000)).collect::<Vec<_>>()));
}

fn router(c: &Ctx) {
    let big = vec![7u8; 4_000_001];
    let mk = || {
        let mut r = AssetRouter::default();
        let assets = vec![
            Asset::new("index.html", b"i".to_vec()),
            Asset::new("index.html.gz", b"ig".to_vec()),
            Asset::new("a/b.js", b"b".to_vec()),
            Asset::new("big", big.clone()),
        ];
        let cfg = vec![
            AssetConfig::File {
                path: "index.html".into(),
                content_type: None,
                headers: vec![],
                fallback_for: vec![AssetFallbackConfig { scope: "/".into(), status_code: None }],
                aliased_by: vec!["/".into()],
                encodings: vec![AssetEncoding::Gzip.default_config()],
            },
            AssetConfig::Redirect { from: "/old".into(), to: "/new".into(), kind: AssetRedirectKind::Permanent },
        ];
        r.certify_assets(assets, cfg).expect("certify");
        r
    };
    let r = mk();
    let ask = |url: &str, hs: &[(&str, &str)], n: usize| {
        let q = Req { method: "GET", url: url.into(), headers: hd(hs), body: vec![] }.lib();
        watch(c, "router", n, || json!({"url": cut(url), "headers": hs.iter().map(|(a, b)| format!("{a}: {}", cut(b))).collect::<Vec<_>>()}), || {
            r.serve_asset(&Certs::canister(1), &q).is_ok()
        })
    };
    // all of these run on one thread: the router is not shared
    let rt: Vec<&str> = vec!["bytes", "=", "-", ",", "0", "2000000", "4000001", "4000000", "18446744073709551616", "18446744073709551615", "99999999999999999999999", " ", "é", "-1", "items", "\u{0}", "1.5", "+1"];
    let run_seq = |n: usize, toks: &[&str], g: &dyn Fn(&str)| {
        let mut idx: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n {
            let mut next = vec![];
            for s in &idx {
                for t in 0..toks.len() {
                    let mut x = s.clone();
                    x.push(t);
                    next.push(x);
                }
            }
            for s in &next {
                c.state(1);
                g(&s.iter().map(|i| toks[*i]).collect::<String>());
            }
            idx = next;
        }
    };
    run_seq(c.pick(3, 4), &rt, &|s| {
        ask("/big", &[("Range", s)], s.len());
    });
    run_seq(2, &rt, &|s| {
        for u in ["/big", "/index.html", "/nope", "/old"] {
            ask(u, &[("range", &format!("bytes={s}"))], s.len());
            ask(u, &[("RANGE", &format!("bytes={s}-"))], s.len());
            ask(u, &[("Range", &format!("bytes=0-{s}"))], s.len());
        }
    });
    let et: Vec<&str> = vec!["gzip", "br", ",", ";", "q=", "0", " ", "identity", "*", "é", "\u{0}", "GZIP"];
    run_seq(c.pick(3, 4), &et, &|s| {
        ask("/index.html", &[("Accept-Encoding", s)], s.len());
    });
    let ut: Vec<&str> = vec!["/", "a", "%", "b.js", "?", "#", "é", "%FF", "%C3%A9", ":", "http://", "..", "[", "\u{0}", "index.html", "big", "*", "<*>", "@"];
    run_seq(c.pick(3, 4), &ut, &|s| {
        ask(s, &[], s.len());
    });
    for n in [256usize, 1 << 10, 2 << 10] {
        for u in ["/a", "/", "%41", "a/b.js/"] {
            let s = format!("/{}", u.repeat(n / u.len()));
            c.state(1);
            ask(&s, &[], s.len());
        }
        for h in ["Range", "Accept-Encoding"] {
            for x in ["0", "gzip,", "-", "bytes=", ","] {
                let s = x.repeat(n / x.len());
                ask("/big", &[(h, &s)], s.len());
                ask("/big", &[(h, &format!("bytes={s}-"))], s.len());
            }
        }
    }
}
