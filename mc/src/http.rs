//! Independent implementation of the HTTP-level hashes and of v2 verification, from the HTTP
//! gateway protocol specification.
use crate::tree::{sha, Find, Look, Sub, H, T};
use ic_http_certification as ihc;
use ihc::{DefaultCelBuilder, DefaultResponseCertification};
use std::borrow::Cow;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum RV {
    S(String),
    B(Vec<u8>),
    N(u64),
}
fn leb64(mut n: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
pub fn rih(m: &[(String, RV)]) -> H {
    let mut hs: Vec<Vec<u8>> = m
        .iter()
        .map(|(k, v)| {
            let vh = match v {
                RV::S(s) => sha(&[s.as_bytes()]),
                RV::B(b) => sha(&[b]),
                RV::N(n) => sha(&[&leb64(*n)]),
            };
            [sha(&[k.as_bytes()]), vh].concat()
        })
        .collect();
    hs.sort();
    sha(&[&hs.concat()])
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum RH {
    Certified(Vec<&'static str>),
    Excluded(Vec<&'static str>),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cel {
    Skip,
    Resp(RH),
    Full(Vec<&'static str>, Vec<&'static str>, RH),
}
fn list(x: &[&str]) -> String {
    x.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")
}
impl RH {
    fn text(&self) -> String {
        let (n, x) = match self {
            RH::Certified(x) => ("certified_response_headers", x),
            RH::Excluded(x) => ("response_header_exclusions", x),
        };
        format!("response_certification:ResponseCertification{{{n}:ResponseHeaderList{{headers:[{}]}}}}", list(x))
    }
    pub fn lib(&self) -> DefaultResponseCertification<'static> {
        match self {
            RH::Certified(x) => DefaultResponseCertification::certified_response_headers(x.clone()),
            RH::Excluded(x) => DefaultResponseCertification::response_header_exclusions(x.clone()),
        }
    }
    pub fn keeps(&self, name: &str) -> bool {
        match self {
            RH::Certified(x) => x.iter().any(|h| h.eq_ignore_ascii_case(name)),
            RH::Excluded(x) => !x.iter().any(|h| h.eq_ignore_ascii_case(name)),
        }
    }
}
impl Cel {
    /// The text form, written independently of the builder.
    pub fn text(&self) -> String {
        match self {
            Cel::Skip => "default_certification(ValidationArgs{no_certification:Empty{}})".into(),
            Cel::Resp(r) => format!(
                "default_certification(ValidationArgs{{certification:Certification{{no_request_certification:Empty{{}},{}}}}})",
                r.text()
            ),
            Cel::Full(h, q, r) => format!(
                "default_certification(ValidationArgs{{certification:Certification{{request_certification:RequestCertification{{certified_request_headers:[{}],certified_query_parameters:[{}]}},{}}}}})",
                list(h),
                list(q),
                r.text()
            ),
        }
    }
    /// The text form, from the builder under test.
    pub fn lib_text(&self) -> String {
        match self {
            Cel::Skip => DefaultCelBuilder::skip_certification().to_string(),
            Cel::Resp(r) => {
                DefaultCelBuilder::response_only_certification().with_response_certification(r.lib()).build().to_string()
            }
            Cel::Full(h, q, r) => DefaultCelBuilder::full_certification()
                .with_request_headers(Cow::Owned(h.clone()))
                .with_request_query_parameters(Cow::Owned(q.clone()))
                .with_response_certification(r.lib())
                .build()
                .to_string(),
        }
    }
    pub fn resp(&self) -> Option<&RH> {
        match self {
            Cel::Skip => None,
            Cel::Resp(r) | Cel::Full(_, _, r) => Some(r),
        }
    }
    /// Certification through the library API.
    pub fn certify(&self, q: &Req, r: &Resp) -> Result<ihc::HttpCertification, String> {
        let (q, r) = (q.lib(), r.lib());
        match self {
            Cel::Skip => Ok(ihc::HttpCertification::skip()),
            Cel::Resp(rh) => {
                let d = DefaultCelBuilder::response_only_certification().with_response_certification(rh.lib()).build();
                ihc::HttpCertification::response_only(&d, &r, None).map_err(|e| format!("{e:?}"))
            }
            Cel::Full(h, qp, rh) => {
                let d = DefaultCelBuilder::full_certification()
                    .with_request_headers(Cow::Owned(h.clone()))
                    .with_request_query_parameters(Cow::Owned(qp.clone()))
                    .with_response_certification(rh.lib())
                    .build();
                ihc::HttpCertification::full(&d, &q, &r, None).map_err(|e| format!("{e:?}"))
            }
        }
    }
}

pub type Hd = Vec<(String, String)>;
pub fn hd(x: &[(&str, &str)]) -> Hd {
    x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Req {
    pub method: &'static str,
    pub url: String,
    pub headers: Hd,
    pub body: Vec<u8>,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Resp {
    pub status: u16,
    pub headers: Hd,
    pub body: Vec<u8>,
}
impl Req {
    pub fn get(url: &str) -> Req {
        Req { method: "GET", url: url.into(), headers: vec![], body: vec![] }
    }
    pub fn lib(&self) -> ihc::HttpRequest<'static> {
        ihc::HttpRequest::builder()
            .with_method(ihc::Method::from_bytes(self.method.as_bytes()).unwrap())
            .with_url(self.url.clone())
            .with_headers(self.headers.clone())
            .with_body(self.body.clone())
            .build()
    }
    /// Percent-decoded path of the URL (None if the decoded bytes are not UTF-8).
    pub fn path(&self) -> Option<String> {
        pct(raw_path(&self.url))
    }
    pub fn query(&self) -> Option<String> {
        let u = self.url.split('#').next().unwrap();
        u.split_once('?').map(|(_, q)| q.to_string())
    }
}
pub fn raw_path(url: &str) -> &str {
    let u = url.split('#').next().unwrap();
    let u = u.split('?').next().unwrap();
    let u = match u.find("://") {
        Some(i) => {
            let r = &u[i + 3..];
            match r.find('/') {
                Some(j) => &r[j..],
                None => "/",
            }
        }
        None => u,
    };
    if u.is_empty() {
        "/"
    } else {
        u
    }
}
pub fn pct(p: &str) -> Option<String> {
    let b = p.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    let hex = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(x), Some(y)) = (hex(b[i + 1]), hex(b[i + 2])) {
                o.push(x << 4 | y);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).ok()
}
impl Resp {
    pub fn lib(&self) -> ihc::HttpResponse<'static> {
        ihc::HttpResponse::builder()
            .with_status_code(ihc::StatusCode::from_u16(self.status).unwrap())
            .with_headers(self.headers.clone())
            .with_body(self.body.clone())
            .build()
    }
    pub fn from_lib(r: &ihc::HttpResponse) -> Resp {
        Resp { status: r.status_code().as_u16(), headers: r.headers().to_vec(), body: r.body().to_vec() }
    }
    pub fn header(&self, n: &str) -> Option<&str> {
        self.headers.iter().rev().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str())
    }
}
pub const CH: &str = "IC-Certificate";
pub const CEH: &str = "IC-CertificateExpression";

/// Characters that careless comparisons, trimming or normalising treat like others or like nothing.
pub const ODD: [char; 24] = [' ', '\t', '\n', '\r', '\0', '"', '\'', ',', ';', '=', '&', '+', '-', '_', '.', '/', '\\', '*', '0', '\u{a0}', '\u{feff}', '\u{301}', '\u{212a}', '\u{17f}'];
/// Every string that one edit makes of this one: an odd character inserted anywhere, a character
/// left out, doubled, in the other case or replaced by its neighbour, and the whole cut short,
/// repeated, reversed, trimmed or in one case.
pub fn near(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let with = |i: usize, j: usize, m: &str| c[..i].iter().collect::<String>() + m + &c[j..].iter().collect::<String>();
    let mut o = vec![s.to_string(), String::new(), s.repeat(2), c.iter().rev().collect(), s.to_lowercase(), s.to_uppercase(), s.trim().to_string(), format!("\"{s}\""), format!("{s}, {s}"), format!(" {s} "), s.split_whitespace().collect::<Vec<_>>().join(" ")];
    for i in 0..=c.len() {
        for x in ODD {
            o.push(with(i, i, &x.to_string()));
        }
        o.push(with(0, i, ""));
        o.push(with(i, c.len(), ""));
        if i < c.len() {
            o.push(with(i, i + 1, ""));
            o.push(with(i, i, &c[i].to_string()));
            let flip = if c[i].is_uppercase() { c[i].to_lowercase().to_string() } else { c[i].to_uppercase().to_string() };
            o.push(with(i, i + 1, &flip));
            o.push(with(i, i + 1, &char::from_u32(c[i] as u32 ^ 1).unwrap().to_string()));
            o.push(with(i, i + 1, &format!("%{:02X}", c[i] as u32 as u8)));
        }
    }
    o.sort();
    o.dedup();
    o
}
/// The same for bytes, with every single bit flipped, byte order marks, other line ends and
/// compressed forms.
pub fn near_bytes(b: &[u8]) -> Vec<Vec<u8>> {
    use std::io::Write;
    let gz = |b: &[u8]| {
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
        e.write_all(b).unwrap();
        e.finish().unwrap()
    };
    let df = |b: &[u8]| {
        let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::default());
        e.write_all(b).unwrap();
        e.finish().unwrap()
    };
    let mut o = vec![b.to_vec(), vec![], b.repeat(2), b.iter().rev().copied().collect(), gz(b), df(b), [&[0xef, 0xbb, 0xbf], b].concat(), sha(&[b]).to_vec(), b.to_ascii_lowercase(), b.to_ascii_uppercase()];
    o.push(b.iter().flat_map(|x| if *x == b'\n' { vec![13, 10] } else { vec![*x] }).collect());
    for i in 0..=b.len() {
        for x in [0, 9, 10, 13, 32, b'0', 0x7f, 0x80, 0xff] {
            o.push([&b[..i], &[x], &b[i..]].concat());
        }
        o.push(b[..i].to_vec());
        o.push(b[i..].to_vec());
        if i < b.len() {
            o.push([&b[..i], &b[i + 1..]].concat());
            for k in 0..8 {
                let mut x = b.to_vec();
                x[i] ^= 1 << k;
                o.push(x);
            }
        }
    }
    o.sort();
    o.dedup();
    o
}

pub fn request_hash(q: &Req, hs: &[&str], qs: &[&str]) -> H {
    let mut m: Vec<(String, RV)> = q
        .headers
        .iter()
        .filter(|(k, _)| hs.iter().any(|h| h.eq_ignore_ascii_case(k)))
        .map(|(k, v)| (k.to_ascii_lowercase(), RV::S(v.clone())))
        .collect();
    m.push((":ic-cert-method".into(), RV::S(q.method.into())));
    if let Some(query) = q.query() {
        let kept: Vec<&str> = query
            .split('&')
            .filter(|p| {
                let n = p.split('=').next().unwrap();
                qs.iter().any(|x| x.eq_ignore_ascii_case(n))
            })
            .collect();
        m.push((":ic-cert-query".into(), RV::S(kept.join("&"))));
    }
    sha(&[&rih(&m), &sha(&[&q.body])])
}
pub fn kept_headers(r: &Resp, rh: &RH) -> Hd {
    r.headers
        .iter()
        .filter(|(k, _)| !k.eq_ignore_ascii_case(CH))
        .filter(|(k, _)| k.eq_ignore_ascii_case(CEH) || rh.keeps(k))
        .map(|(k, v)| (k.to_ascii_lowercase(), v.clone()))
        .collect()
}
pub fn response_hash(r: &Resp, rh: &RH) -> H {
    let mut m: Vec<(String, RV)> = kept_headers(r, rh).into_iter().map(|(k, v)| (k, RV::S(v))).collect();
    m.push((":ic-cert-status".into(), RV::N(r.status as u64)));
    sha(&[&rih(&m), &sha(&[&r.body])])
}
/// The path of a certification below its expression path.
pub fn cert_path(c: &Cel, q: &Req, r: &Resp) -> Vec<Vec<u8>> {
    let e = sha(&[c.text().as_bytes()]).to_vec();
    match c {
        Cel::Skip => vec![e],
        Cel::Resp(rh) => vec![e, vec![], response_hash(r, rh).to_vec()],
        Cel::Full(h, p, rh) => vec![e, request_hash(q, h, p).to_vec(), response_hash(r, rh).to_vec()],
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Pth {
    Exact(String),
    Wild(String),
}
pub fn segs(p: &str) -> Vec<String> {
    let mut s: Vec<String> = p.split('/').filter(|x| !x.is_empty()).map(|x| x.into()).collect();
    if p.ends_with('/') {
        s.push(String::new());
    }
    s
}
impl Pth {
    pub fn lib(&self) -> ihc::HttpCertificationPath<'static> {
        match self {
            Pth::Exact(p) => ihc::HttpCertificationPath::exact(p.clone()),
            Pth::Wild(p) => ihc::HttpCertificationPath::wildcard(p.clone()),
        }
    }
    /// Segments below `http_expr`, including the terminator.
    pub fn inner(&self) -> Vec<String> {
        let (p, t) = match self {
            Pth::Exact(p) => (p, "<$>"),
            Pth::Wild(p) => (p, "<*>"),
        };
        let mut s = segs(p);
        s.push(t.into());
        s
    }
    pub fn expr(&self) -> Vec<String> {
        let mut s = vec!["http_expr".to_string()];
        s.extend(self.inner());
        s
    }
    /// Whether this path is one of those that answer `path`: the path itself, or a wildcard above it.
    pub fn matches(&self, path: &str) -> bool {
        match self {
            Pth::Exact(p) => segs(p) == segs(path),
            Pth::Wild(p) => {
                let mut w = segs(p);
                w.push("<*>".into());
                wildcards_for(path).contains(&w)
            }
        }
    }
    /// The wildcard `/a/*` for `/a`: the verifier takes it unless `/a` or `/a*` is there.
    pub fn matches_dir(&self, path: &str) -> bool {
        match self {
            Pth::Exact(_) => false,
            Pth::Wild(p) => {
                let mut q = segs(path);
                q.push(String::new());
                !path.ends_with('/') && segs(p) == q
            }
        }
    }
}
/// Wildcards that apply to `path`, most specific first, as segments with terminator.
pub fn wildcards_for(path: &str) -> Vec<Vec<String>> {
    let mut p = segs(path);
    let mut o = vec![];
    loop {
        let mut x = p.clone();
        x.push("<*>".into());
        o.push(x);
        match p.pop() {
            None => return o,
            Some(last) if last.is_empty() => {}
            Some(_) => p.push(String::new()),
        }
    }
}

/// Verification of the tree part, given an arbitrary (well-formed, digest-checked) tree.
pub fn ref_expr_path(tree: &T, expr: &[String], path: &str) -> bool {
    if expr.len() < 2 || expr[0] != "http_expr" {
        return false;
    }
    let term = expr.last().unwrap();
    if term != "<$>" && term != "<*>" {
        return false;
    }
    let with = |p: &[String]| {
        let mut o = vec!["http_expr".to_string()];
        o.extend(p.iter().cloned());
        o
    };
    let exact = with(&Pth::Exact(path.into()).inner());
    if !matches!(tree.subtree(expr), Sub::Found(_)) {
        return false;
    }
    if term == "<$>" {
        return expr == exact.as_slice();
    }
    if !matches!(tree.subtree(&exact), Sub::Absent) {
        return false;
    }
    for w in wildcards_for(path) {
        let w = with(&w);
        if w == expr {
            return true;
        }
        if !matches!(tree.subtree(&w), Sub::Absent) {
            return false;
        }
        // a directory wildcard `/a/*` also answers `/a` itself, after the wildcard `/a*`
        let mut dir = w.clone();
        dir.insert(dir.len() - 1, String::new());
        if w == with(&Pth::Wild(path.into()).inner()) && !path.ends_with('/') && dir == expr {
            return true;
        }
    }
    false
}

/// Does the tree (already bound to the canister's certified data) certify this response?
/// `Ok(None)`: certification skipped; `Ok(Some(headers))`: verified with the returned headers.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    Reject,
    Skipped,
    Verified(u16, Hd, Vec<u8>),
}
pub fn ref_v2(tree: &T, expr: &[String], cel: &Cel, q: &Req, r: &Resp) -> Verdict {
    let Some(path) = q.path() else { return Verdict::Reject };
    if !ref_expr_path(tree, expr, &path) {
        return Verdict::Reject;
    }
    let mut p: Vec<Vec<u8>> = expr.iter().map(|s| s.as_bytes().to_vec()).collect();
    // the expression hash is that of the header as sent
    let Some(text) = r.header(CEH) else { return Verdict::Reject };
    p.push(sha(&[text.as_bytes()]).to_vec());
    let Some(rh) = cel.resp() else {
        return match tree.subtree(&p) {
            Sub::Found(_) => Verdict::Skipped,
            _ => Verdict::Reject,
        };
    };
    p.push(match cel {
        Cel::Full(h, qs, _) => request_hash(q, h, qs).to_vec(),
        _ => vec![],
    });
    p.push(response_hash(r, rh).to_vec());
    if tree.lookup(&p) != Look::Found(vec![]) {
        return Verdict::Reject;
    }
    let mut hs = kept_headers(r, rh);
    hs.push((CH.into(), r.header(CH).unwrap_or("").into()));
    Verdict::Verified(r.status, hs, r.body.clone())
}
pub fn has(t: &T, p: &[String]) -> bool {
    let mut t = t;
    for s in p {
        match t.find(s.as_bytes()) {
            Find::Found(x) => t = x,
            _ => return false,
        }
    }
    true
}
/// The IC-Certificate header for a v2 response.
pub fn v2_header(cert: &[u8], tree: &T, expr: &[String]) -> String {
    v2_header_raw(cert, &tree.cbor(), &expr_cbor(expr))
}
pub fn expr_cbor(expr: &[String]) -> Vec<u8> {
    let mut e = vec![0xd9, 0xd9, 0xf7];
    crate::tree::head(4, expr.len() as u64, &mut e);
    for s in expr {
        crate::tree::text(s, &mut e);
    }
    e
}
pub fn v2_header_raw(cert: &[u8], tree: &[u8], expr: &[u8]) -> String {
    use crate::crypt::b64;
    format!("certificate=:{}:, tree=:{}:, expr_path=:{}:, version=2", b64(cert), b64(tree), b64(expr))
}

/// Run the real verifier and normalise its answer.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Run {
    pub version: u16,
    pub verdict: Verdict,
    pub err: String,
    pub status_some: bool,
}
pub fn run_verify(q: &Req, r: &Resp, now: u128, off: u128, pk: &[u8], min: u8) -> Result<Run, String> {
    run_verify_c(q, r, crate::crypt::CANISTER, now, off, pk, min)
}
pub fn run_verify_c(q: &Req, r: &Resp, can: &[u8], now: u128, off: u128, pk: &[u8], min: u8) -> Result<Run, String> {
    let (ql, rl) = (q.lib(), r.lib());
    crate::ctx::catch(|| {
        match crate::tap::verify(ql, rl, can, now, off, pk, min) {
            Ok(i) => Run {
                version: i.verification_version,
                status_some: i.response.as_ref().is_some_and(|r| r.status_code.is_some()),
                verdict: match i.response {
                    None => Verdict::Skipped,
                    Some(v) => Verdict::Verified(v.status_code.unwrap_or(0), v.headers, v.body),
                },
                err: String::new(),
            },
            Err(e) => Run { version: 0, verdict: Verdict::Reject, err: format!("{e:?}").chars().take(120).collect(), status_some: false },
        }
    })
}
pub fn verify_now(q: &Req, r: &Resp) -> Result<Run, String> {
    run_verify(q, r, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2)
}

/// Many labeled subtrees below one path, certified by a single certificate, with cheap witnesses.
pub struct Batch {
    labels: Vec<Vec<u8>>,
    subs: Vec<T>,
    levels: Vec<Vec<H>>,
    path: Vec<Vec<u8>>,
    pub cert: Vec<u8>,
}
impl Batch {
    /// `items` must have distinct labels.
    pub fn new(path: Vec<Vec<u8>>, mut items: Vec<(Vec<u8>, T)>) -> Batch {
        items.sort_by(|a, b| a.0.cmp(&b.0));
        let l0: Vec<H> = items.iter().map(|(lb, t)| T::L(lb.clone(), Box::new(t.clone())).digest()).collect();
        let mut levels = vec![l0];
        while levels.last().unwrap().len() > 1 {
            let p = levels.last().unwrap();
            let n = p
                .chunks(2)
                .map(|c| if c.len() == 2 { crate::tree::f(T::P(c[0]), T::P(c[1])).digest() } else { c[0] })
                .collect();
            levels.push(n);
        }
        let (labels, subs) = items.into_iter().unzip();
        let mut b = Batch { labels, subs, levels, path, cert: vec![] };
        let root = b.wrap(T::P(b.levels.last().unwrap()[0])).digest();
        b.cert = crate::crypt::simple_cert(crate::crypt::CANISTER, &root);
        b
    }
    fn wrap(&self, t: T) -> T {
        self.path.iter().rev().fold(t, |t, s| crate::tree::l(s, t))
    }
    pub fn witness(&self, label: &[u8]) -> T {
        let mut i = self.labels.binary_search_by(|x| x.as_slice().cmp(label)).unwrap();
        let mut t = T::L(self.labels[i].clone(), Box::new(self.subs[i].clone()));
        for lv in &self.levels[..self.levels.len() - 1] {
            let s = i ^ 1;
            if s < lv.len() {
                let sib = T::P(lv[s]);
                t = if i & 1 == 0 { crate::tree::f(t, sib) } else { crate::tree::f(sib, t) };
            }
            i /= 2;
        }
        self.wrap(t)
    }
}

/// One state tree in which canister number `i` certifies the i-th of the given root hashes, with a
/// single signature.
pub struct Certs {
    batch: Batch,
    sig: Vec<u8>,
}
impl Certs {
    pub fn canister(i: usize) -> [u8; 10] {
        let mut c = [0u8; 10];
        c[4..8].copy_from_slice(&(i as u32).to_be_bytes());
        c[8] = 1;
        c[9] = 1;
        c
    }
    pub fn new(roots: &[H]) -> Certs {
        let items = roots.iter().enumerate().map(|(i, r)| (Certs::canister(i).to_vec(), crate::tree::l("certified_data", crate::tree::v(r)))).collect();
        let batch = Batch::new(vec![b"canister".to_vec()], items);
        let root = crate::tree::f(batch.wrap(T::P(batch.levels.last().unwrap()[0])), Certs::time());
        let sig = crate::crypt::sign(0, &root);
        Certs { batch, sig }
    }
    fn time() -> T {
        crate::tree::l("time", crate::tree::v(crate::crypt::leb(crate::crypt::NOW)))
    }
    pub fn cert(&self, i: usize) -> Vec<u8> {
        let t = crate::tree::f(self.batch.witness(&Certs::canister(i)), Certs::time());
        crate::crypt::cert_cbor(&t, &self.sig, None)
    }
}
/// A tree holding exactly the given paths, each ending in an empty value; children sorted and balanced.
pub fn canonical(paths: &[Vec<Vec<u8>>]) -> T {
    canonical_with(&paths.iter().map(|p| (p.clone(), crate::tree::v(""))).collect::<Vec<_>>())
}
/// The tree with the given content at the given (prefix-free) paths.
pub fn canonical_with(paths: &[(Vec<Vec<u8>>, T)]) -> T {
    if paths.is_empty() {
        return T::E;
    }
    if paths.iter().any(|p| p.0.is_empty()) {
        assert!(paths.iter().all(|p| p == &paths[0]));
        return paths[0].1.clone();
    }
    let mut by: std::collections::BTreeMap<&[u8], Vec<(Vec<Vec<u8>>, T)>> = Default::default();
    for (p, t) in paths {
        by.entry(&p[0]).or_default().push((p[1..].to_vec(), t.clone()));
    }
    let c: Vec<T> = by.into_iter().map(|(k, v)| crate::tree::l(k, canonical_with(&v))).collect();
    crate::tree::balanced(&c)
}
