//! C27: HTTP messages, their builders, conversions and Candid mapping.
//!
//! The builders and the mutators of built messages form a small state machine. Every sequence of
//! operations up to a depth is run on the real types and on a record of the parts, and in every
//! state reached the message and everything it converts to is compared with that record.
use crate::ctx::{catch, hx, Ctx};
use candid::types::value::{IDLArgs, IDLField, IDLValue};
use candid::types::Label;
use candid::{CandidType, Decode, Deserialize, Encode};
use ic_http_certification::{HttpRequest, HttpRequestBuilder, HttpResponse, HttpResponseBuilder, HttpUpdateRequest, HttpUpdateResponse, Method, StatusCode};
use rayon::prelude::*;
use serde_json::json;
use std::borrow::Cow;

type H = Vec<(String, String)>;

/// The types of the gateway's interface, declared from its published Candid file.
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct GwReq {
    url: String,
    method: String,
    body: serde_bytes::ByteBuf,
    headers: H,
    certificate_version: Option<u16>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct GwUpReq {
    url: String,
    method: String,
    body: serde_bytes::ByteBuf,
    headers: H,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct GwResp {
    body: serde_bytes::ByteBuf,
    headers: H,
    upgrade: Option<bool>,
    status_code: u16,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct GwUpResp {
    body: serde_bytes::ByteBuf,
    headers: H,
    status_code: u16,
}

#[derive(Clone, Debug, PartialEq)]
struct MReq {
    method: String,
    url: String,
    headers: H,
    body: Vec<u8>,
    version: Option<u16>,
}
#[derive(Clone, Debug, PartialEq)]
struct MResp {
    status: u16,
    headers: H,
    body: Vec<u8>,
    upgrade: Option<bool>,
}

fn hs(v: &[(&str, &str)]) -> H {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
fn header_pool() -> Vec<H> {
    vec![vec![], hs(&[("X", "1")]), hs(&[("b", "2"), ("a", "1"), ("b", "2")]), hs(&[("", ""), ("é", "\u{10348}\r\n\0"), ("Accept", "a, b")])]
}
fn body_pool() -> Vec<Vec<u8>> {
    vec![vec![], b"x".to_vec(), (0..=255).collect(), vec![0xff; 101]]
}

fn check_req(c: &Ctx, b: HttpRequestBuilder<'static>, m: &MReq, how: &dyn Fn() -> String) {
    let show = |what: &str| json!({"what": what, "history": how(), "expected": format!("{m:?}")});
    let q = b.clone().build();
    let got = MReq { method: q.method().as_str().into(), url: q.url().into(), headers: q.headers().to_vec(), body: q.body().to_vec(), version: q.certificate_version() };
    c.check(got == *m, "request accessors", || json!({"history": how(), "expected": format!("{m:?}"), "got": format!("{got:?}")}));
    c.check(q == b.clone().build() && q.clone() == q, "request equality", || show("not equal to itself"));
    let up = |u: &HttpUpdateRequest| u.method().as_str() == m.method && u.url() == m.url && u.headers() == &m.headers[..] && u.body() == &m.body[..];
    let u = b.build_update();
    c.check(up(&u), "update request built", || show("build_update"));
    let u2: HttpUpdateRequest = q.clone().into();
    c.check(up(&u2) && u2 == u, "update request converted", || show("From<HttpRequest>"));
    c.check(u.get_path().ok() == q.get_path().ok() && u.get_query().ok() == q.get_query().ok() && u.get_path().is_ok() == q.get_path().is_ok(), "update request path", || show("get_path, get_query"));
    let want = GwReq { url: m.url.clone(), method: m.method.clone(), body: m.body.clone().into(), headers: m.headers.clone(), certificate_version: m.version };
    let enc = Encode!(&q).unwrap();
    c.check(Decode!(&enc, GwReq).ok().as_ref() == Some(&want), "request encoded", || show("decoding as the gateway's type"));
    for e in [enc, Encode!(&want).unwrap()] {
        let d = Decode!(&e, HttpRequest);
        c.check(d.as_ref().ok() == Some(&q), "request decoded", || json!({"history": how(), "bytes": hx(&e), "got": format!("{d:?}"), "expected": format!("{m:?}")}));
    }
    let want = GwUpReq { url: m.url.clone(), method: m.method.clone(), body: m.body.clone().into(), headers: m.headers.clone() };
    let enc = Encode!(&u).unwrap();
    c.check(Decode!(&enc, GwUpReq).ok().as_ref() == Some(&want), "update request encoded", || show("decoding as the gateway's type"));
    for e in [enc, Encode!(&want).unwrap()] {
        let d = Decode!(&e, HttpUpdateRequest);
        c.check(d.as_ref().ok() == Some(&u), "update request decoded", || json!({"history": how(), "bytes": hx(&e), "got": format!("{d:?}")}));
    }
    c.trans(7);
    c.trace(1);
}

fn same_resp(r: &HttpResponse, m: &MResp) -> bool {
    r.status_code().as_u16() == m.status && r.headers() == &m.headers[..] && r.body() == &m.body[..] && r.upgrade() == m.upgrade
}
fn same_up(u: &HttpUpdateResponse, m: &MResp) -> bool {
    u.status_code().as_u16() == m.status && u.headers() == &m.headers[..] && u.body() == &m.body[..]
}
fn check_resp(c: &Ctx, r: &HttpResponse<'static>, m: &MResp, how: &dyn Fn() -> String) {
    let show = |what: &str| json!({"what": what, "history": how(), "expected": format!("{m:?}")});
    c.check(same_resp(r, m), "response accessors", || json!({"history": how(), "expected": format!("{m:?}"), "got": format!("{r:?}")}));
    let b: HttpResponseBuilder = r.clone().into();
    c.check(same_resp(&b.clone().build(), m), "response rebuilt", || show("HttpResponseBuilder::from(response).build()"));
    c.check(b.clone().build() == *r, "response equality", || show("not equal to itself"));
    let u = b.build_update();
    c.check(same_up(&u, m), "update response built", || show("build_update"));
    let u2: HttpUpdateResponse = r.clone().into();
    c.check(same_up(&u2, m) && u2 == u, "update response converted", || show("From<HttpResponse>"));
    c.check(catch(|| format!("{r:?} {u:?}")).is_ok(), "response debug", || show("Debug panicked"));
    let want = GwResp { body: m.body.clone().into(), headers: m.headers.clone(), upgrade: m.upgrade, status_code: m.status };
    let enc = Encode!(r).unwrap();
    c.check(Decode!(&enc, GwResp).ok().as_ref() == Some(&want), "response encoded", || show("decoding as the gateway's type"));
    for e in [enc, Encode!(&want).unwrap()] {
        let d = Decode!(&e, HttpResponse);
        c.check(matches!(&d, Ok(d) if same_resp(d, m) && d == r), "response decoded", || json!({"history": how(), "bytes": hx(&e), "got": format!("{d:?}")}));
    }
    let want = GwUpResp { body: m.body.clone().into(), headers: m.headers.clone(), status_code: m.status };
    let enc = Encode!(&u).unwrap();
    c.check(Decode!(&enc, GwUpResp).ok().as_ref() == Some(&want), "update response encoded", || show("decoding as the gateway's type"));
    for e in [enc, Encode!(&want).unwrap()] {
        let d = Decode!(&e, HttpUpdateResponse);
        c.check(matches!(&d, Ok(d) if same_up(d, m) && *d == u), "update response decoded", || json!({"history": how(), "bytes": hx(&e), "got": format!("{d:?}")}));
    }
    c.trans(7);
    c.trace(1);
}

const METHODS: [&str; 6] = ["GET", "POST", "HEAD", "PURGE", "get", "A-VERY-LONG-EXTENSION-METHOD!*+.^_`|~"];
const URLS: [&str; 4] = ["/a", "", "https://h/p%20q?x=1#f", "/\u{fc}\0"];

#[derive(Clone)]
enum QOp {
    Method(usize),
    Url(usize),
    Headers(usize),
    Body(usize, bool),
    Version(u16),
}
fn req_ops() -> Vec<QOp> {
    let mut o = vec![];
    o.extend([0, 3, 4, 5].map(QOp::Method));
    o.extend([0, 1, 2, 3].map(QOp::Url));
    o.extend([0, 2, 3].map(QOp::Headers));
    o.extend([QOp::Body(0, true), QOp::Body(1, true), QOp::Body(2, false)]);
    o.extend([QOp::Version(0), QOp::Version(2), QOp::Version(u16::MAX)]);
    o
}

#[derive(Clone)]
enum ROp {
    Status(u16),
    Headers(usize),
    Body(usize, bool),
    Upgrade(bool),
    // Of the built response; the builder is then made from it again.
    Rebuild,
    Add,
    Push,
    Truncate,
    Rename,
}
fn resp_ops() -> Vec<ROp> {
    let mut o = vec![];
    o.extend([204, 100, 999].map(ROp::Status));
    o.extend([0, 2, 3].map(ROp::Headers));
    o.extend([ROp::Body(0, true), ROp::Body(2, true), ROp::Body(3, false)]);
    o.extend([ROp::Upgrade(true), ROp::Upgrade(false), ROp::Rebuild, ROp::Add, ROp::Push, ROp::Truncate, ROp::Rename]);
    o
}

fn seqs(c: &Ctx, ops: usize, n: usize, g: &(impl Fn(&[usize]) + Sync)) {
    g(&[]);
    (0..ops).into_par_iter().for_each(|a| {
        fn rec(c: &Ctx, ops: usize, n: usize, cur: &mut Vec<usize>, g: &impl Fn(&[usize])) {
            if c.stopped() {
                return;
            }
            c.state(1);
            g(cur);
            if cur.len() < n {
                for t in 0..ops {
                    cur.push(t);
                    rec(c, ops, n, cur, g);
                    cur.pop();
                }
            }
        }
        rec(c, ops, n, &mut vec![a], g);
    });
}

fn requests(c: &Ctx) {
    let ops = req_ops();
    let (hp, bp) = (header_pool(), body_pool());
    let bs: &'static Vec<Vec<u8>> = Box::leak(Box::new(bp.clone()));
    let starts: Vec<(&str, Box<dyn Fn() -> (HttpRequestBuilder<'static>, MReq) + Sync>)> = {
        let m = |method: &str, url: &str| MReq { method: method.into(), url: url.into(), headers: vec![], body: vec![], version: None };
        vec![
            ("builder()", Box::new(move || (HttpRequest::builder(), m("GET", "/")))),
            ("new()", Box::new(move || (HttpRequestBuilder::new(), m("GET", "/")))),
            ("get", Box::new(move || (HttpRequest::get("/g"), m("GET", "/g")))),
            ("post", Box::new(move || (HttpRequest::post("/po"), m("POST", "/po")))),
            ("put", Box::new(move || (HttpRequest::put("/pu"), m("PUT", "/pu")))),
            ("patch", Box::new(move || (HttpRequest::patch("/pa"), m("PATCH", "/pa")))),
            ("delete", Box::new(move || (HttpRequest::delete(String::from("/d")), m("DELETE", "/d")))),
        ]
    };
    for (i, (name, start)) in starts.iter().enumerate() {
        // The full depth from one of the starts, less from the others.
        let depth = if i == 0 { c.pick(4, 5) } else { c.pick(2, 4) };
        seqs(c, ops.len(), depth, &|s: &[usize]| {
            let (mut b, mut m) = start();
            for &k in s {
                b = match &ops[k] {
                    QOp::Method(i) => {
                        m.method = METHODS[*i].into();
                        b.with_method(METHODS[*i].parse::<Method>().unwrap())
                    }
                    QOp::Url(i) => {
                        m.url = URLS[*i].into();
                        b.with_url(URLS[*i])
                    }
                    QOp::Headers(i) => {
                        m.headers = hp[*i].clone();
                        b.with_headers(hp[*i].clone())
                    }
                    QOp::Body(i, owned) => {
                        m.body = bp[*i].clone();
                        if *owned {
                            b.with_body(bp[*i].clone())
                        } else {
                            b.with_body(Cow::Borrowed(&bs[*i][..]))
                        }
                    }
                    QOp::Version(v) => {
                        m.version = Some(*v);
                        b.with_certificate_version(*v)
                    }
                };
            }
            check_req(c, b, &m, &|| format!("{name} {s:?}"));
        });
    }
}

fn responses(c: &Ctx) {
    let ops = resp_ops();
    let (hp, bp) = (header_pool(), body_pool());
    let bs: &'static Vec<Vec<u8>> = Box::leak(Box::new(bp.clone()));
    seqs(c, ops.len(), c.pick(4, 5), &|s: &[usize]| {
        let mut b: HttpResponseBuilder<'static> = if s.len() % 2 == 0 { HttpResponse::builder() } else { HttpResponseBuilder::new() };
        let mut m = MResp { status: 200, headers: vec![], body: vec![], upgrade: None };
        let mutate = |b: HttpResponseBuilder<'static>, m: &MResp, g: &dyn Fn(&mut HttpResponse<'static>), gu: &dyn Fn(&mut HttpUpdateResponse<'static>)| {
            let mut u = b.clone().build_update();
            gu(&mut u);
            c.check(same_up(&u, m), "update response mutated", || json!({"history": format!("{s:?}"), "expected": format!("{m:?}"), "got": format!("{u:?}")}));
            let mut r = b.build();
            g(&mut r);
            HttpResponseBuilder::from(r)
        };
        for &k in s {
            b = match &ops[k] {
                ROp::Status(x) => {
                    m.status = *x;
                    b.with_status_code(StatusCode::from_u16(*x).unwrap())
                }
                ROp::Headers(i) => {
                    m.headers = hp[*i].clone();
                    b.with_headers(hp[*i].clone())
                }
                ROp::Body(i, owned) => {
                    m.body = bp[*i].clone();
                    if *owned {
                        b.with_body(bp[*i].clone())
                    } else {
                        b.with_body(&bs[*i][..])
                    }
                }
                ROp::Upgrade(x) => {
                    m.upgrade = Some(*x);
                    b.with_upgrade(*x)
                }
                ROp::Rebuild => b.build().into(),
                ROp::Add => {
                    m.headers.push(("N".into(), "v".into()));
                    mutate(b, &m, &|r| r.add_header(("N".into(), "v".into())), &|u| u.add_header(("N".into(), "v".into())))
                }
                ROp::Push => {
                    m.headers.push(("X".into(), "1".into()));
                    mutate(b, &m, &|r| r.headers_mut().push(("X".into(), "1".into())), &|u| u.headers_mut().push(("X".into(), "1".into())))
                }
                ROp::Truncate => {
                    m.headers.truncate(1);
                    mutate(b, &m, &|r| r.headers_mut().truncate(1), &|u| u.headers_mut().truncate(1))
                }
                ROp::Rename => {
                    if let Some(h) = m.headers.last_mut() {
                        h.1 = "renamed".into();
                    }
                    let g = |v: &mut H| {
                        if let Some(h) = v.last_mut() {
                            h.1 = "renamed".into();
                        }
                    };
                    mutate(b, &m, &|r| g(r.headers_mut()), &|u| g(u.headers_mut()))
                }
            };
        }
        check_resp(c, &b.build(), &m, &|| format!("{s:?}"));
    });
}

/// Bodies of every length up to a bound, every byte value at every position of short ones.
fn bodies(c: &Ctx) {
    let mut bodies: Vec<Vec<u8>> = (0..c.pick(600, 5000)).map(|n| (0..n).map(|i| (i * 7 + n) as u8).collect()).collect();
    bodies.extend([65535, 65536, 1 << 20].map(|n| vec![b'z'; n]));
    for n in 1..4 {
        for p in 0..n {
            for x in 0..=255 {
                let mut b = vec![b'a'; n];
                b[p] = x;
                bodies.push(b);
            }
        }
    }
    bodies.into_par_iter().for_each(|b| {
        c.state(1);
        let m = MReq { method: "POST".into(), url: "/b".into(), headers: vec![], body: b.clone(), version: Some(2) };
        check_req(c, HttpRequest::post("/b").with_body(b.clone()).with_certificate_version(2), &m, &|| format!("body of {} bytes", b.len()));
        let m = MResp { status: 200, headers: vec![], body: b.clone(), upgrade: None };
        check_resp(c, &HttpResponse::builder().with_body(b.clone()).build(), &m, &|| format!("body of {} bytes", b.len()));
    });
}

fn statuses(c: &Ctx) {
    (0..=u16::MAX).into_par_iter().for_each(|s| {
        c.state(1);
        let m = MResp { status: s, headers: hs(&[("X", "1")]), body: b"b".to_vec(), upgrade: Some(s % 2 == 0) };
        let valid = (100..=999).contains(&s);
        c.outcome(if valid { "valid status" } else { "invalid status" });
        let e = Encode!(&GwResp { body: m.body.clone().into(), headers: m.headers.clone(), upgrade: m.upgrade, status_code: s }).unwrap();
        let eu = Encode!(&GwUpResp { body: m.body.clone().into(), headers: m.headers.clone(), status_code: s }).unwrap();
        match catch(|| (Decode!(&e, HttpResponse).ok(), Decode!(&eu, HttpUpdateResponse).ok())) {
            Ok((r, u)) => {
                c.check(r.as_ref().map(|r| same_resp(r, &m)) == valid.then_some(true), "status decoded", || json!({"status": s, "got": format!("{r:?}")}));
                c.check(u.as_ref().map(|u| same_up(u, &m)) == valid.then_some(true), "update status decoded", || json!({"status": s, "got": format!("{u:?}")}));
            }
            Err(p) => c.fail("status decoding panics", json!({"status": s, "panic": p})),
        }
        if valid {
            let r = HttpResponse::builder().with_status_code(StatusCode::from_u16(s).unwrap()).with_headers(m.headers.clone()).with_body(m.body.clone()).with_upgrade(s % 2 == 0).build();
            check_resp(c, &r, &m, &|| format!("status {s}"));
        }
        c.trans(2);
    });
}

fn tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
fn methods(c: &Ctx) {
    let mut pool: Vec<String> = vec!["".into()];
    // All strings of one character below U+0180, of two ASCII characters, and one odd character
    // anywhere in a word.
    pool.extend((0..0x180).filter_map(char::from_u32).map(String::from));
    for a in 0..128u8 {
        for b in 0..128u8 {
            pool.push(format!("{}{}", a as char, b as char));
        }
    }
    for w in ["GET", "POST", "DELETE", "CONNECT", "OPTIONS", "PROPPATCH", "AVERYLONGMETHODNAMEINDEED"] {
        pool.push(w.to_string());
        pool.push(w.to_lowercase());
        for p in 0..=w.len() {
            for x in 0..=0xffu32 {
                let x = char::from_u32(x).unwrap();
                pool.push(format!("{}{x}{}", &w[..p], &w[p..]));
                if p < w.len() {
                    pool.push(format!("{}{x}{}", &w[..p], &w[p + 1..]));
                }
            }
        }
    }
    pool.extend((1..200).map(|n| "M".repeat(n)));
    pool.into_par_iter().for_each(|s| {
        c.state(1);
        let valid = !s.is_empty() && s.bytes().all(tchar);
        // The http crate does not take these although they may be part of a method.
        if valid && s.contains(['#', '$', '%', '&', '\'']) {
            c.outcome("method with # $ % & or '");
            return;
        }
        c.outcome(if valid { "valid method" } else { "invalid method" });
        let m = MReq { method: s.clone(), url: "/m".into(), headers: vec![], body: vec![], version: None };
        let e = Encode!(&GwReq { url: m.url.clone(), method: s.clone(), body: vec![].into(), headers: vec![], certificate_version: None }).unwrap();
        let eu = Encode!(&GwUpReq { url: m.url.clone(), method: s.clone(), body: vec![].into(), headers: vec![] }).unwrap();
        match catch(|| (Decode!(&e, HttpRequest).ok(), Decode!(&eu, HttpUpdateRequest).ok())) {
            Ok((q, u)) => {
                c.check(q.as_ref().map(|q| q.method().as_str() == s) == valid.then_some(true), "method decoded", || json!({"method": s, "got": format!("{q:?}")}));
                c.check(u.as_ref().map(|q| q.method().as_str() == s) == valid.then_some(true), "update method decoded", || json!({"method": s, "got": format!("{u:?}")}));
            }
            Err(p) => c.fail("method decoding panics", json!({"method": s, "panic": p})),
        }
        if valid {
            check_req(c, HttpRequest::builder().with_method(s.parse().unwrap()).with_url("/m"), &m, &|| format!("method {s}"));
        }
        c.trans(2);
    });
}

/// Records as other implementations send them: every subset of the fields, with fields this type
/// does not know, and with values of other types.
fn records(c: &Ctx) {
    let f = |k: &str, v: IDLValue| IDLField { id: Label::Named(k.into()), val: v };
    let t = |s: &str| IDLValue::Text(s.into());
    let header = |a: &str, b: &str| IDLValue::Record(vec![IDLField { id: Label::Id(0), val: t(a) }, IDLField { id: Label::Id(1), val: t(b) }]);
    let headers = || IDLValue::Vec(vec![header("A", "1"), header("A", "2")]);
    let enc = |mut fs: Vec<IDLField>| {
        fs.sort_by_key(|f| f.id.get_id());
        IDLArgs::new(&[IDLValue::Record(fs)]).to_bytes().unwrap()
    };
    let wrong = || vec![IDLValue::Nat(5u8.into()), t("x"), IDLValue::Bool(true), IDLValue::Blob(vec![1]), IDLValue::Nat32(200), IDLValue::Nat8(200), IDLValue::Int16(200), IDLValue::Vec(vec![t("x")]), IDLValue::Null, IDLValue::Opt(Box::new(t("x"))), IDLValue::Opt(Box::new(IDLValue::Nat16(3))), IDLValue::Record(vec![]), IDLValue::Vec(vec![IDLValue::Record(vec![IDLField { id: Label::Id(0), val: t("n") }])])];
    let extra = || vec![vec![], vec![f("streaming_strategy", IDLValue::Opt(Box::new(IDLValue::Record(vec![f("token", t("x"))]))))], vec![f("zzz", IDLValue::Nat8(1)), f("query", t("q"))]];
    // Field name, a good value, whether it must be there.
    type F = (&'static str, IDLValue, bool);
    let req: Vec<F> = vec![("method", t("PUT"), true), ("url", t("/r"), true), ("headers", headers(), true), ("body", IDLValue::Blob(vec![1, 2]), true), ("certificate_version", IDLValue::Opt(Box::new(IDLValue::Nat16(2))), false)];
    let resp: Vec<F> = vec![("status_code", IDLValue::Nat16(201), true), ("headers", headers(), true), ("body", IDLValue::Blob(vec![1, 2]), true), ("upgrade", IDLValue::Opt(Box::new(IDLValue::Bool(true))), false)];
    let hm = hs(&[("A", "1"), ("A", "2")]);
    for (what, fields) in [("request", &req), ("response", &resp)] {
        for x in extra() {
            for mask in 0..1u32 << fields.len() {
                let has = |i: usize| mask >> i & 1 == 1;
                let mut fs: Vec<IDLField> = fields.iter().enumerate().filter(|(i, _)| has(*i)).map(|(_, (k, v, _))| f(k, v.clone())).collect();
                fs.extend(x.iter().cloned());
                let e = enc(fs);
                let all = |without_optional: bool| fields.iter().enumerate().all(|(i, (_, _, must))| has(i) || (without_optional && !must));
                let opt = has(fields.len() - 1);
                let full = all(true);
                c.state(1);
                c.trans(2);
                c.outcome(if full { "complete record" } else { "incomplete record" });
                let show = |got: String| json!({"what": what, "fields": mask, "bytes": hx(&e), "got": got});
                if what == "request" {
                    let (q, u) = (Decode!(&e, HttpRequest), Decode!(&e, HttpUpdateRequest));
                    c.check(q.is_ok() == full && u.is_ok() == full, "missing fields", || show(format!("{q:?} {u:?}")));
                    if let (Ok(q), Ok(u)) = (&q, &u) {
                        c.check(q.method() == Method::PUT && q.url() == "/r" && q.headers() == &hm[..] && q.body() == [1, 2] && q.certificate_version() == opt.then_some(2), "record", || show(format!("{q:?}")));
                        c.check(u.method() == Method::PUT && u.url() == "/r" && u.headers() == &hm[..] && u.body() == [1, 2], "update record", || show(format!("{u:?}")));
                    }
                } else {
                    let (r, u) = (Decode!(&e, HttpResponse), Decode!(&e, HttpUpdateResponse));
                    c.check(r.is_ok() == full && u.is_ok() == full, "missing fields", || show(format!("{r:?} {u:?}")));
                    let m = MResp { status: 201, headers: hm.clone(), body: vec![1, 2], upgrade: opt.then_some(true) };
                    if let (Ok(r), Ok(u)) = (&r, &u) {
                        c.check(same_resp(r, &m), "record", || show(format!("{r:?}")));
                        c.check(same_up(u, &m), "update record", || show(format!("{u:?}")));
                    }
                }
            }
        }
        // One value of another type: an error, except that an optional field of another type is
        // read as absent, and never a panic.
        for i in 0..fields.len() {
            for w in wrong() {
                let (name, good, must) = &fields[i];
                // An empty vector or a blob may be of the right type.
                if std::mem::discriminant(&w) == std::mem::discriminant(good) && !matches!(w, IDLValue::Opt(_) | IDLValue::Vec(_)) {
                    continue;
                }
                let e = enc(fields.iter().enumerate().map(|(j, (k, v, _))| f(k, if i == j { w.clone() } else { v.clone() })).collect());
                c.state(1);
                c.trans(1);
                let show = |got: String| json!({"what": what, "field": name, "bytes": hx(&e), "got": got});
                let got = catch(|| if what == "request" { Decode!(&e, HttpRequest).map(|q| q.certificate_version().is_some()).ok() } else { Decode!(&e, HttpResponse).map(|r| r.upgrade().is_some()).ok() });
                match got {
                    Err(p) => c.fail("record of other types panics", show(p)),
                    Ok(v) if *must => {
                        c.check(v.is_none(), "record of other types", || show(format!("{v:?}")));
                    }
                    // opt nat16 is the right type for certificate_version.
                    Ok(_) => c.outcome("optional field of another type"),
                }
            }
        }
    }
}

/// Equality over all pairs of a pool.
fn equality(c: &Ctx) {
    let one = [("A", "1"), ("A", "2"), ("a", "1"), ("B", "1")];
    let mut hp: Vec<H> = vec![vec![]];
    for i in 0..one.len() {
        hp.push(hs(&[one[i]]));
        for j in 0..one.len() {
            hp.push(hs(&[one[i], one[j]]));
            for k in 0..one.len() {
                hp.push(hs(&[one[i], one[j], one[k]]));
            }
        }
    }
    let mut rs = vec![];
    for h in &hp {
        for s in [200, 404] {
            for b in ["", "x", "y"] {
                for u in [None, Some(false), Some(true)] {
                    rs.push(MResp { status: s, headers: h.clone(), body: b.into(), upgrade: u });
                }
            }
        }
    }
    let make = |m: &MResp| {
        let mut b = HttpResponse::builder().with_status_code(StatusCode::from_u16(m.status).unwrap()).with_headers(m.headers.clone()).with_body(m.body.clone());
        if let Some(u) = m.upgrade {
            b = b.with_upgrade(u);
        }
        b.build()
    };
    let real: Vec<HttpResponse> = rs.iter().map(make).collect();
    let canon: Vec<MResp> = rs
        .iter()
        .map(|m| {
            let mut m = m.clone();
            m.headers.sort();
            m
        })
        .collect();
    (0..rs.len()).into_par_iter().for_each(|i| {
        for j in 0..rs.len() {
            let (got, want) = (real[i] == real[j], canon[i] == canon[j]);
            c.trans(1);
            c.check(got == want && (real[i] != real[j]) != want, "response equality", || json!({"a": format!("{:?}", rs[i]), "b": format!("{:?}", rs[j]), "equal": got}));
            if i % 7 == 0 && j % 3 == 0 {
                // Update responses and requests that agree in all parts are equal, ones that
                // differ in a part other than the order of headers are not.
                let (a, b): (HttpUpdateResponse, HttpUpdateResponse) = (real[i].clone().into(), real[j].clone().into());
                let (mut ca, mut cb) = (canon[i].clone(), canon[j].clone());
                (ca.upgrade, cb.upgrade) = (None, None);
                if ca != cb || rs[i].headers == rs[j].headers {
                    c.check((a == b) == (ca == cb), "update response equality", || json!({"a": format!("{:?}", rs[i]), "b": format!("{:?}", rs[j])}));
                }
            }
        }
        c.state(1);
    });
    let mut qs = vec![];
    for m in ["GET", "POST", "get"] {
        for u in ["/", "/a", ""] {
            for h in hp.iter().take(8) {
                for b in ["", "x"] {
                    for v in [None, Some(1), Some(2)] {
                        qs.push(MReq { method: m.into(), url: u.into(), headers: h.clone(), body: b.into(), version: v });
                    }
                }
            }
        }
    }
    let real: Vec<HttpRequest> = qs
        .iter()
        .map(|m| {
            let mut b = HttpRequest::builder().with_method(m.method.parse().unwrap()).with_url(m.url.clone()).with_headers(m.headers.clone()).with_body(m.body.clone());
            if let Some(v) = m.version {
                b = b.with_certificate_version(v);
            }
            b.build()
        })
        .collect();
    (0..qs.len()).into_par_iter().for_each(|i| {
        for j in 0..qs.len() {
            let sorted = |m: &MReq| {
                let mut m = m.clone();
                m.headers.sort();
                m
            };
            let want = qs[i] == qs[j];
            c.trans(1);
            if want || sorted(&qs[i]) != sorted(&qs[j]) {
                c.check((real[i] == real[j]) == want, "request equality", || json!({"a": format!("{:?}", qs[i]), "b": format!("{:?}", qs[j])}));
            }
        }
        c.state(1);
    });
}

pub fn c27(c: &'static Ctx) {
    type Phase = fn(&Ctx);
    let phases: [(&str, Phase); 7] = [("requests", requests), ("responses", responses), ("bodies", bodies), ("statuses", statuses), ("methods", methods), ("records", records), ("equality", equality)];
    for (name, p) in phases {
        let t = std::time::Instant::now();
        p(c);
        c.note(&format!("phase {name}"), t.elapsed().as_secs_f64());
    }
}
