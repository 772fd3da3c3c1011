//! C28 the JavaScript bindings: the same verdicts as natively, for the forms JavaScript callers use.
use crate::crypt::*;
use crate::ctx::Ctx;
use crate::http::*;
use crate::tap::Pool;
use crate::tree::*;
use rayon::prelude::*;
use serde_json::json;
use std::sync::atomic::Ordering::Relaxed;

/// A case before it is certified.
#[derive(Clone)]
struct Base {
    q: Req,
    cel: Cel,
    r: Resp,
    pth: Pth,
}
fn go(p: &Pool, q: &Req, r: &Resp, can: &[u8], now: u128, off: u128, pk: &[u8], min: u8, form: u64) {
    let out = crate::ctx::catch(|| ic_response_verification::verify_request_response_pair(q.lib(), r.lib(), can, now, off, pk, min));
    if let Ok(out) = out {
        p.case(&q.lib(), &r.lib(), can, now, off, pk, min, &out, form);
    }
}
/// The tree and the headers to add once there is a certificate for it.
fn grow(b: &Base) -> (Base, T) {
    let mut b = b.clone();
    b.r.headers.push((CEH.into(), b.cel.text()));
    let mut path: Vec<Vec<u8>> = b.pth.expr().iter().map(|s| s.as_bytes().to_vec()).collect();
    path.extend(cert_path(&b.cel, &b.q, &b.r));
    let v1 = vec![b"http_assets".to_vec(), raw_path(&b.q.url).as_bytes().to_vec()];
    let t = canonical_with(&[(path, v("")), (v1, v(sha(&[&b.r.body])))]);
    (b, t)
}
fn pairs() -> Vec<Base> {
    let mut o = vec![];
    let bodies: Vec<Vec<u8>> = (0..70usize).chain([127, 128, 255, 256, 257, 1000, 4095, 4096, 65535, 65536, 70_000]).map(|n| (0..n).map(|i| (i * 7 + n) as u8).collect()).chain((0..=255u8).map(|x| vec![x])).collect();
    let texts: Vec<String> = near("Aé\u{1f600}x").into_iter().chain(["\u{0}", "\u{7f}", "\u{80}", "\u{ffff}", "\u{10ffff}", "[object Object]", "undefined", "null", "0", "__proto__", "constructor"].map(|s| s.to_string())).collect();
    let cels = || vec![Cel::Skip, Cel::Resp(RH::Excluded(vec![])), Cel::Resp(RH::Certified(vec!["x", "x-b"])), Cel::Full(vec!["a"], vec!["q"], RH::Excluded(vec!["x"]))];
    let q0 = || Req { method: "GET", url: "/a?q=1".into(), headers: hd(&[("A", "1"), ("b", "2")]), body: b"rq".to_vec() };
    let r0 = || Resp { status: 200, headers: hd(&[("X", "1"), ("x-B", "2"), ("Y", "3")]), body: b"body".to_vec() };
    let mut add = |q: Req, r: Resp| {
        for cel in cels() {
            o.push(Base { q: q.clone(), cel, r: r.clone(), pth: Pth::Exact("/a".into()) });
        }
    };
    add(q0(), r0());
    for m in ["HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT", "get", "PURGE", "A-b_c!"] {
        add(Req { method: m, ..q0() }, r0());
    }
    for b in &bodies {
        add(q0(), Resp { body: b.clone(), ..r0() });
        add(Req { body: b.clone(), ..q0() }, r0());
    }
    for t in &texts {
        add(q0(), Resp { headers: hd(&[("X", t), ("Y", t)]), ..r0() });
        add(q0(), Resp { headers: hd(&[("x", "1"), (t, "1")]), ..r0() });
        add(Req { headers: hd(&[("a", t), (t, "b")]), ..q0() }, r0());
    }
    for n in 0..40 {
        let many: Vec<(String, String)> = (0..n).map(|i| (format!("X{}", i % 23), i.to_string())).collect();
        add(q0(), Resp { headers: many.clone(), ..r0() });
        add(Req { headers: many, ..q0() }, r0());
    }
    for u in ["/a", "https://h.io/a?q=1", "/a?q=%C3%A9&q=2#f", "/a?", "/a?q=é", "/%61?q=1"] {
        add(Req { url: u.into(), ..q0() }, r0());
    }
    for s in 100..=999 {
        o.push(Base { q: q0(), cel: Cel::Resp(RH::Excluded(vec![])), r: Resp { status: s, ..r0() }, pth: Pth::Wild("/".into()) });
    }
    o
}
fn forms(c: &'static Ctx, p: &'static Pool) {
    let pk = root_pk();
    let all: Vec<(Base, T)> = pairs().iter().map(grow).collect();
    let n_base = all.len();
    all.par_chunks(600).for_each(|chunk| {
        let certs = Certs::new(&chunk.iter().map(|x| x.1.digest()).collect::<Vec<_>>());
        for (i, (b, t)) in chunk.iter().enumerate() {
            c.state(1);
            let can = Certs::canister(i);
            let full = |h: String| Resp { headers: b.r.headers.iter().cloned().chain([(CH.to_string(), h)]).collect(), ..b.r.clone() };
            let cert = certs.cert(i);
            let v2 = full(v2_header(&cert, t, &b.pth.expr()));
            let v1 = full(format!("certificate=:{}:, tree=:{}:", b64(&cert), b64(&t.cbor())));
            for (k, r) in [&v2, &v1].into_iter().enumerate() {
                for f in 0..32u64 {
                    go(p, &b.q, r, &can, NOW, OFFSET, &pk, 0, f * 37 + i as u64 * 3 + k as u64);
                }
                // something changed after certification
                let mut other = r.clone();
                other.status = if r.status == 200 { 201 } else { 200 };
                let mut long = r.clone();
                long.body.push(0);
                let mut more = r.clone();
                more.headers.push(("z".into(), "z".into()));
                let mut q = b.q.clone();
                q.method = if q.method == "GET" { "POST" } else { "GET" };
                for (q, r) in [(&b.q, &other), (&b.q, &long), (&b.q, &more), (&q, r)] {
                    go(p, q, r, &can, NOW, OFFSET, &pk, 1, i as u64);
                }
            }
        }
    });
    // one pair of each kind, in all the forms there are, and with all other arguments
    let (b, t) = grow(&Base { q: Req { method: "POST", url: "/a?q=1".into(), headers: hd(&[("A", "1"), ("b", "2")]), body: b"request".to_vec() }, cel: Cel::Full(vec!["a"], vec!["q"], RH::Excluded(vec!["x"])), r: Resp { status: 404, headers: hd(&[("X", "1"), ("Y", "2")]), body: b"response".to_vec() }, pth: Pth::Exact("/a".into()) });
    let cert = simple_cert(CANISTER, &t.digest());
    let b2 = &b;
    let with = |h: &str| Resp { headers: b.r.headers.iter().cloned().chain([(CH.to_string(), h.to_string())]).collect(), ..b.r.clone() };
    let h2 = v2_header(&cert, &t, &b.pth.expr());
    let h1 = format!("certificate=:{}:, tree=:{}:", b64(&cert), b64(&t.cbor()));
    let (v2, v1) = (with(&h2), with(&h1));
    (0..16384u64).into_par_iter().for_each(|f| {
        go(p, &b.q, &v2, CANISTER, NOW, OFFSET, &pk, 2, f);
        go(p, &b.q, &v1, CANISTER, NOW, OFFSET, &pk, 1, f);
    });
    let mut times: Vec<u128> = vec![0, 1, NOW, u64::MAX as u128, u64::MAX as u128 - 1];
    for k in 0..64 {
        times.extend([1u128 << k, (1 << k) - 1]);
    }
    for d in [1, 1 << 32, OFFSET] {
        times.extend([NOW - d, NOW + d, NOW + d + 1, NOW - d - 1, NOW + d - 1, NOW - d + 1]);
    }
    times.par_iter().for_each(|now| {
        for off in &times {
            for r in [&v2, &v1] {
                go(p, &b.q, r, CANISTER, *now, *off, &pk, 1, 0);
            }
        }
    });
    for min in 0..=255u8 {
        for ver in ["", ", version=0", ", version=1", ", version=2", ", version=3", ", version=255", ", version=256"] {
            go(p, &b.q, &with(&format!("{h1}{ver}")), CANISTER, NOW, OFFSET, &pk, min, 0);
            go(p, &b.q, &with(&format!("{}{ver}", h2.replace(", version=2", ""))), CANISTER, NOW, OFFSET, &pk, min, 0);
        }
    }
    for can in near_bytes(CANISTER) {
        go(p, &b.q, &v2, &can, NOW, OFFSET, &pk, 2, 1);
    }
    for k in near_bytes(&pk) {
        go(p, &b.q, &v2, CANISTER, NOW, OFFSET, &k, 2, 1);
    }
    // every kind of error in the header
    let e = |s: &str| with(&h2.replace(&b64(&expr_cbor(&b.pth.expr())), &b64(&expr_cbor(&s.split(' ').map(|x| x.to_string()).collect::<Vec<_>>()))));
    let mut odd: Vec<Resp> = ["http_expr a", "x a <$>", "http_expr b <$>", "http_expr <*>", "http_expr a <*>", "http_expr", "<$>", "http_expr a b <*>"].iter().map(|s| e(s)).collect();
    for part in ["certificate", "tree", "expr_path", "version"] {
        odd.push(with(&h2.replace(part, "other")));
        for (x, y) in [("=:", "=:!"), ("=:", "=:AA"), ("=:", "=::"), ("=2", "=x")] {
            odd.push(with(&h2.replace(&format!("{part}{x}"), &format!("{part}{y}"))));
            odd.push(with(&h1.replace(&format!("{part}{x}"), &format!("{part}{y}"))));
        }
    }
    for drop in [CH, CEH] {
        let mut r = v2.clone();
        r.headers.retain(|h| h.0 != drop);
        odd.push(r);
    }
    for text in ["", "x", "default_certification()", "default_certification(ValidationArgs{})"] {
        let mut r = v2.clone();
        r.headers.iter_mut().filter(|h| h.0 == CEH).for_each(|h| h.1 = text.into());
        odd.push(r);
    }
    for (enc, body) in [("gzip", &b"x"[..]), ("deflate", b"x"), ("br", b"x"), ("gzip", &[0x1f, 0x8b, 8])] {
        let mut r = v1.clone();
        r.headers.push(("Content-Encoding".into(), enc.into()));
        r.body = body.to_vec();
        odd.push(r);
    }
    for r in &odd {
        for u in ["/a?q=1", "/", "/a/b", "/%ff", "http://[", "/a?q=%ff"] {
            for f in [0, 5, 10] {
                go(p, &Req { url: u.into(), ..b.q.clone() }, r, CANISTER, NOW, OFFSET, &pk, 0, f);
            }
        }
    }
    // halves of surrogate pairs, wherever a string is taken
    for u in ["/a?q=1", "/a?q=\u{fffd}", "/\u{fffd}"] {
        for h in [hd(&[("A", "1\u{fffd}")]), hd(&[("\u{fffd}", "\u{fffd}"), ("A", "1")])] {
            for cel in [Cel::Skip, Cel::Resp(RH::Excluded(vec![])), Cel::Full(vec!["a"], vec!["q"], RH::Excluded(vec!["x"]))] {
                let x = Base { q: Req { method: "POST", url: u.into(), headers: h.clone(), body: b"q".to_vec() }, cel, r: Resp { status: 200, headers: hd(&[("X", "\u{fffd}a"), ("a\u{fffd}", "2"), ("Y", "\u{fffd}\u{fffd}")]), body: b"b".to_vec() }, pth: Pth::Exact("/a".into()) };
                let Some(_) = x.q.path() else {
                    go(p, &x.q, &v2, CANISTER, NOW, OFFSET, &pk, 2, 1 << 40);
                    continue;
                };
                let (x, t) = grow(&x);
                let cert = simple_cert(CANISTER, &t.digest());
                let h = v2_header(&cert, &t, &x.pth.expr());
                for h in [h.clone(), h.clone() + "\u{fffd}", h.replace("version", "\u{fffd}ersion")] {
                    let mut r = x.r.clone();
                    r.headers.push((CH.into(), h));
                    for f in [0, 1] {
                        go(p, &x.q, &r, CANISTER, NOW, OFFSET, &pk, 2, (1 << 40) + f);
                    }
                }
            }
        }
    }
    // nearer wildcards
    for (paths, used, u) in [(vec!["/", "/a"], "/", "/a/b"), (vec!["/", "/a/"], "/", "/a/b"), (vec!["/", "/a/b"], "/", "/a/b"), (vec!["/", "/b"], "/", "/a/b")] {
        let cel = Cel::Resp(RH::Excluded(vec![]));
        let mut r = Resp { status: 200, headers: hd(&[(CEH, &cel.text())]), body: b"x".to_vec() };
        let q = Req::get(u);
        let t = canonical(&paths.iter().map(|w| Pth::Wild(w.to_string()).expr().iter().map(|s| s.as_bytes().to_vec()).chain(cert_path(&cel, &q, &r)).collect()).collect::<Vec<_>>());
        r.headers.push((CH.into(), v2_header(&simple_cert(CANISTER, &t.digest()), &t, &Pth::Wild(used.into()).expr())));
        go(p, &q, &r, CANISTER, NOW, OFFSET, &pk, 2, 0);
    }
    // nested
    let depths: Vec<usize> = (0..40).chain(50..80).chain(500..530).chain([100, 200, 400, 600, 1000, 5000, 20_000]).collect();
    depths.par_iter().for_each(|d| {
        let rep = |x: &[u8], y: &[u8], z: &[u8]| [x.repeat(*d).as_slice(), y, &z.repeat(*d)].concat();
        for b in [rep(&[0x81], &[0], &[]), rep(&[0xa1, 0x61, b'a'], &[0], &[]), rep(&[0xd9, 0xd9, 0xf7], &[0], &[]), rep(&[0x83, 1], &[0x81, 0], &[0x81, 0]), rep(&[0x83, 1, 0x81, 0], &[0x81, 0], &[]), rep(&[0x83, 2, 0x41, b'a'], &[0x82, 3, 0x40], &[])] {
            crate::tap::decode(&b);
            for part in [&cert, &t.cbor(), &expr_cbor(&b2.pth.expr())] {
                go(p, &b2.q, &with(&h2.replace(&b64(part), &b64(&b))), CANISTER, NOW, OFFSET, &pk, 2, 0);
            }
        }
        for (x, y) in [("default_certification(", ")"), ("A{a:", "}"), ("[", "]"), ("(", ")")] {
            let mut r = v2.clone();
            r.headers.iter_mut().filter(|h| h.0 == CEH).for_each(|h| h.1 = format!("{}{}", x.repeat(*d), y.repeat(*d)));
            go(p, &b2.q, &r, CANISTER, NOW, OFFSET, &pk, 2, 0);
        }
    });
    // status codes that are none
    let mut codes: Vec<serde_json::Value> = (0..100).chain(1000..=70_000).map(|s| json!(s)).collect();
    codes.extend([json!(-1), json!(-200), json!(1i64 << 32), json!((1i64 << 32) + 404), json!((1i64 << 53) + 2), json!(65536 + 404), json!(1e300)]);
    let line = |s: &serde_json::Value| {
        json!({"m": b.q.method, "u": b.q.url, "h": b.q.headers, "b": b64(&b.q.body), "s": s, "rh": v2.headers, "rb": b64(&v2.body), "c": b64(CANISTER), "n": NOW.to_string(), "o": OFFSET.to_string(), "k": b64(&pk), "v": 2, "f": 0, "w": {"e": ""}, "key": "status-code"})
    };
    codes.par_iter().for_each(|s| p.put(&line(s)));
    // methods: any text is one for JavaScript callers, but not for the HTTP library
    let mut methods: Vec<String> = (0..128u8).flat_map(|b| [format!("{}", b as char), format!("G{}T", b as char), format!("GET{}", b as char), format!("A-METHOD-LONGER-THAN-SIXTEEN{}", b as char)]).collect();
    methods.extend(near("GET"));
    methods.extend(["", "GET /", "\u{e9}", "\u{1f600}", "GE\u{0422}"].map(|s| s.to_string()));
    methods.extend([15, 16, 17, 255, 256, 65_536].map(|n| "M".repeat(n)));
    methods.retain(|m| m != b.q.method);
    methods.par_iter().for_each(|m| {
        let mut x = line(&json!(200));
        x["m"] = json!(m);
        x["key"] = json!("method");
        // another method than the certified one: an error of one kind or another
        p.put(&x);
    });
    p.flush();
    let i = p.info.lock().unwrap().clone();
    c.check(i["min"] == ic_response_verification::MIN_VERIFICATION_VERSION && i["max"] == ic_response_verification::MAX_VERIFICATION_VERSION, "versions", || i.clone());
    c.note("bound forms", format!("{n_base} certified pairs in both versions in 32 forms each and changed in 4 ways; one pair of each version in 16384 forms (property orders, array types, unknown properties); {} times squared; all minimum versions; all single edits of the canister id and root key; {} odd headers x 6 URLs; {} invalid status codes; {} methods", times.len(), odd.len(), codes.len(), methods.len()));
}

pub fn c28(c: &'static Ctx) {
    let p = crate::tap::start(c);
    let all: [(&'static str, fn(&'static Ctx), Option<&str>, bool); 14] = [
        ("C14", crate::c_cel::c14, None, true),
        ("C17", crate::c_http::c17, None, true),
        ("C18", crate::c_http::c18, None, true),
        ("C19", crate::c_http::c19, None, false),
        ("C20", crate::c_http::c20, None, true),
        ("C11 lengths", crate::c_cbor::c11_lengths, None, true),
        ("C12 nesting", crate::c_total::c12, Some("nesting"), false),
        ("C23", crate::c_asset::c23, None, false),
        ("C13", crate::c_http::c13, None, false),
        ("C01", crate::c_e2e::c01, None, false),
        ("C11", crate::c_cbor::c11, None, false),
        ("C12", crate::c_total::c12, Some("edits,lengths,texts,keys"), false),
        ("C21", crate::c_e2e::c21, None, false),
        ("C02", crate::c_e2e::c02, None, false),
    ];
    let only = std::env::var("MC_JS").ok();
    let phase = |id: &str, f: &dyn Fn()| {
        if c.stopped() || only.as_deref().is_some_and(|o| !o.contains(id)) {
            return;
        }
        let (n, t) = (p.sent.load(Relaxed), std::time::Instant::now());
        f();
        p.flush();
        c.trans(p.sent.load(Relaxed) - n);
        c.note(&format!("cases {id}"), json!({"n": p.sent.load(Relaxed) - n, "s": t.elapsed().as_secs_f64()}));
    };
    phase("forms", &|| forms(c, p));
    for (id, f, ph, quick) in all {
        if quick || c.thorough() {
            phase(id, &|| f(Ctx::muted("quick", ph)));
        }
    }
    for (k, n) in p.kinds.lock().unwrap().iter() {
        c.outcome_n(k, *n);
    }
}
