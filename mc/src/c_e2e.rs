//! C01 completeness of certification trees, C02 soundness of version 2, C21 path precedence.
use crate::ctx::{catch, Ctx};
use crate::http::*;
use crate::tree::*;
use ic_http_certification as ihc;
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

fn utf(p: &[String]) -> Vec<Vec<u8>> {
    p.iter().map(|s| s.as_bytes().to_vec()).collect()
}
/// All subsets of 0..n with at most k elements.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut o = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &last {
            let from = s.last().map_or(0, |x: &usize| x + 1);
            for i in from..n {
                let mut t: Vec<usize> = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        o.extend(next.iter().cloned());
        last = next;
    }
    o
}
fn short<X: std::fmt::Debug>(x: &X) -> String {
    format!("{x:?}").chars().take(400).collect()
}

// ------------------------------------------------------------------ segments

/// Percent-encode everything of a path but the slashes and what never needs it.
fn enc(p: &str) -> String {
    p.bytes().map(|b| if b.is_ascii_alphanumeric() || b"/-._~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
/// Groups of paths that a careless implementation may confuse with each other.
fn look_alikes(c: &Ctx) -> Vec<Vec<String>> {
    let mut segs: Vec<String> = near("a.B").into_iter().filter(|s| !s.is_empty() && !s.contains('/')).collect();
    segs.extend([".", "..", "...", "%2F", "%", "index.html", "*", "<", "http_assets", "http_exp", "canister", "\u{e9}", "e\u{301}", "\u{10348}", "a?b", "a#b"].map(|s| s.to_string()));
    segs.extend([31, 32, 33, 64, 255, 256, 300].map(|n| "n".repeat(n)));
    let mut groups = vec![];
    for form in ["/@", "/@/", "/a/@", "/a/@/", "/@/b", "/a/@/b/"] {
        groups.push(segs.iter().map(|s| form.replace('@', s)).collect());
    }
    let deep = |n: usize| "/a".repeat(n);
    groups.push((1..c.pick(20, 60)).flat_map(|n| [deep(n), deep(n) + "/", deep(n) + "/b"]).collect());
    // every arrangement of slashes
    let mut all = vec!["/".to_string()];
    for k in 0.. {
        let Some(x) = all.get(k).cloned() else { break };
        if x.len() < c.pick(6, 8) {
            all.extend(["/", "a"].map(|y| x.clone() + y));
        }
    }
    groups.push(all);
    groups
}

// ------------------------------------------------------------------ C21

pub fn c21(c: &'static Ctx) {
    let groups: [(&str, Vec<&str>, Vec<&str>, usize); 2] = [
        (
            "plain segments",
            vec!["", "/", "/a", "/a/", "/b", "/a/b", "/a/b/", "/a/a"],
            vec!["/", "/a", "/a/", "/b", "/a/b", "/a/b/", "/a/a", "/a/b/c", "/a/b/c/", "/c", "//", "/a//b", "/b/a", "https://h.io", "/a?x=/a/b", "/%61"],
            c.pick(2, 3),
        ),
        (
            "segments that look like the markers",
            vec!["/", "/http_expr", "/http_expr/", "/<*>", "/<$>", "/a", "/http_expr/http_expr", "/a/<*>", "/<*>/a"],
            vec!["/", "/http_expr", "/http_expr/", "/http_expr/http_expr", "/%3C*%3E", "/%3C$%3E", "/a", "/a/%3C*%3E", "/%3C*%3E/a", "/http_expr/%3C*%3E", "/a/%3C$%3E/", "/%2F"],
            c.pick(2, 2),
        ),
    ];
    let skip = sha(&[Cel::Skip.text().as_bytes()]).to_vec();
    let mut bound = vec![];
    for (what, pool, reqs, k) in groups {
        let pool: Vec<Pth> = pool.iter().flat_map(|p| [Pth::Exact(p.to_string()), Pth::Wild(p.to_string())]).collect();
        let mut exprs: Vec<Vec<String>> = pool.iter().map(|p| p.expr()).collect();
        for e in [
            &[][..],
            &["http_expr"],
            &["http_expr", "a"],
            &["a", "<$>"],
            &["a", "<*>"],
            &["<*>"],
            &["http_expr", "a", "<*>", "<$>"],
            &["http_expr", "a", "<$>", "<*>"],
            &["http_expr", "", "a", "<*>"],
            &["http_expr", "a", "", "", "<*>"],
            &["http_expr", "a", "", "b", "<$>"],
            &["http_expr", "http_expr", "a", "<$>"],
        ] {
            exprs.push(e.iter().map(|s| s.to_string()).collect());
        }
        exprs.dedup();
        for p in &pool {
            let got = catch(|| p.lib().to_expr_path());
            c.check(got.as_ref() == Ok(&p.expr()), "expr-path", || json!({"path": short(p), "got": short(&got)}));
        }
        let sets = subsets(pool.len(), k);
        let trees: Vec<T> = sets
            .iter()
            .map(|s| {
                let mut ps: Vec<Vec<Vec<u8>>> = s
                    .iter()
                    .map(|i| {
                        let mut p = utf(&pool[*i].expr());
                        p.push(skip.clone());
                        p
                    })
                    .collect();
                if ps.is_empty() {
                    ps.push(vec![b"other".to_vec()]);
                }
                canonical(&ps)
            })
            .collect();
        let certs = Certs::new(&trees.iter().map(|t| t.digest()).collect::<Vec<_>>());
        let rq: Vec<Req> = reqs.iter().map(|u| Req::get(u)).collect();
        let accepted = Mutex::new(BTreeSet::new());
        (0..trees.len()).into_par_iter().for_each(|i| {
            let cert = certs.cert(i);
            let can = Certs::canister(i);
            for (pi, pr) in trees[i].prunings().iter().enumerate() {
                if c.stopped() {
                    return;
                }
                c.mark(i as u64, pi as u64, 0, 0);
                c.state(1);
                for e in &exprs {
                    let h = v2_header(&cert, pr, e);
                    let r = Resp { status: 200, headers: vec![(CEH.into(), Cel::Skip.text()), (CH.into(), h)], body: vec![] };
                    for q in &rq {
                        let want = ref_v2(pr, e, &Cel::Skip, q, &r);
                        let got = run_verify_c(q, &r, &can, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
                        c.trans(1);
                        c.trace(1);
                        let detail = || json!({"certified": sets[i].iter().map(|j| short(&pool[*j])).collect::<Vec<_>>(), "proof": pr.show(), "expr_path": e, "url": q.url, "want": short(&want), "got": short(&got)});
                        if !c.check(matches!(&got, Ok(g) if g.verdict == want), "precedence", detail) {
                            return;
                        }
                        if want == Verdict::Skipped {
                            // the accepted path is certified, applies, and nothing more specific does
                            let path = q.path().unwrap();
                            let used = pool.iter().position(|p| p.expr() == *e);
                            let ok = used.is_some_and(|u| sets[i].contains(&u) && {
                                let rank = rank(&pool[u], &path);
                                rank < NEVER && sets[i].iter().all(|j| !pool[*j].matches(&path) || self::rank(&pool[*j], &path) >= rank)
                            });
                            c.check(ok, "most-specific", || json!({"certified": sets[i].iter().map(|j| short(&pool[*j])).collect::<Vec<_>>(), "proof": pr.show(), "expr_path": e, "url": q.url}));
                            let mut a = accepted.lock().unwrap();
                            if a.insert((e.clone(), q.url.clone())) && a.len() % 37 == 5 {
                                c.sample(|| json!({"certified": sets[i].iter().map(|j| short(&pool[*j])).collect::<Vec<_>>(), "expr_path": e, "url": q.url}));
                            }
                        }
                    }
                }
                c.idle();
            }
        });
        c.note(&format!("accepted pairs, {what}"), accepted.lock().unwrap().len());
        bound.push(format!("{what}: all sets of <= {k} of {} certified paths, all prunings of the tree, {} claimed paths, {} URLs", pool.len(), exprs.len(), rq.len()));
        // completeness: with the whole tree revealed, the most specific path is accepted for each URL
        let mut served = 0u64;
        for (i, s) in sets.iter().enumerate() {
            if c.stopped() {
                break;
            }
            // a certified path with a marker as a segment also occupies the path ending in that marker
            if s.iter().any(|j| pool[*j].expr()[..pool[*j].expr().len() - 1].iter().any(|x| x.starts_with('<'))) {
                continue;
            }
            let cert = certs.cert(i);
            for q in &rq {
                let path = q.path().unwrap();
                let best = s.iter().filter(|j| pool[**j].matches(&path)).min_by_key(|j| rank(&pool[**j], &path));
                if let Some(b) = best {
                    let e = pool[*b].expr();
                    let r = Resp { status: 200, headers: vec![(CEH.into(), Cel::Skip.text()), (CH.into(), v2_header(&cert, &trees[i], &e))], body: vec![] };
                    let got = run_verify_c(q, &r, &Certs::canister(i), crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
                    served += 1;
                    c.check(matches!(&got, Ok(g) if g.verdict == Verdict::Skipped), "most-specific-served", || json!({"certified": s.iter().map(|j| short(&pool[*j])).collect::<Vec<_>>(), "expr_path": e, "url": q.url, "got": short(&got)}));
                }
            }
        }
        c.trans(served);
        c.trace(served);
    }
    // look-alike segments: each path certified alone, claimed for each other
    for g in look_alikes(c) {
        let pool: Vec<Pth> = g.iter().flat_map(|p| [Pth::Exact(p.clone()), Pth::Wild(p.clone())]).collect();
        let trees: Vec<T> = pool
            .iter()
            .map(|p| {
                let mut p = utf(&p.expr());
                p.push(skip.clone());
                canonical(&[p])
            })
            .collect();
        let certs = Certs::new(&trees.iter().map(|t| t.digest()).collect::<Vec<_>>());
        (0..pool.len()).into_par_iter().for_each(|i| {
            if c.stopped() {
                return;
            }
            c.mark(i as u64, 1 << 41, 0, 0);
            let p = &pool[i];
            let got = catch(|| p.lib().to_expr_path());
            c.check(got.as_ref() == Ok(&p.expr()), "expr-path", || json!({"path": short(p), "got": short(&got)}));
            let r = Resp { status: 200, headers: vec![(CEH.into(), Cel::Skip.text()), (CH.into(), v2_header(&certs.cert(i), &trees[i], &p.expr()))], body: vec![] };
            for (k, t) in g.iter().enumerate() {
                let mut urls = vec![enc(t)];
                if i / 2 == k {
                    urls.extend([enc(t) + "/", enc(t) + "/x", enc(t) + "x", enc(t) + "?q=/a", enc(t).to_lowercase()]);
                }
                for u in urls {
                    let q = Req::get(&u);
                    let want = ref_v2(&trees[i], &p.expr(), &Cel::Skip, &q, &r);
                    let got = run_verify_c(&q, &r, &Certs::canister(i), crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
                    c.trans(1);
                    c.trace(1);
                    c.check(matches!(&got, Ok(g) if g.verdict == want), "look-alike", || json!({"certified": short(p), "url": u, "want": short(&want), "got": short(&got)}));
                    c.check((want == Verdict::Skipped) == (p.matches(&q.path().unwrap()) || p.matches_dir(&q.path().unwrap())), "model", || json!({"certified": short(p), "url": u}));
                }
            }
            c.state(1);
            c.idle();
        });
        bound.push(format!("{} look-alike paths like {}, each claimed for each other", pool.len(), g[0]));
    }
    c.note("bound", bound.join("; "));
}
const NEVER: usize = usize::MAX;
/// Specificity of a path for a URL path; smaller is more specific.
fn rank(p: &Pth, path: &str) -> usize {
    match p {
        _ if p.matches_dir(path) => 3,
        _ if !p.matches(path) => NEVER,
        Pth::Exact(_) => 0,
        Pth::Wild(w) => {
            let mut t = segs(w);
            t.push("<*>".into());
            2 + 2 * wildcards_for(path).iter().position(|x| *x == t).unwrap()
        }
    }
}

// ------------------------------------------------------------------ entries

#[derive(Clone, Debug)]
pub struct En {
    pub p: Pth,
    pub cel: Cel,
    pub q: Req,
    pub r: Resp,
}
impl En {
    fn new(p: Pth, cel: Cel, q: Req, mut r: Resp) -> En {
        r.headers.insert(0, (CEH.into(), cel.text()));
        En { p, cel, q, r }
    }
    fn tree_path(&self) -> Vec<Vec<u8>> {
        let mut p = utf(&self.p.expr());
        p.extend(cert_path(&self.cel, &self.q, &self.r));
        p
    }
}
fn ex(p: &str) -> Pth {
    Pth::Exact(p.into())
}
fn wi(p: &str) -> Pth {
    Pth::Wild(p.into())
}
fn req(m: &'static str, u: &str, h: &[(&str, &str)], b: &[u8]) -> Req {
    Req { method: m, url: u.into(), headers: hd(h), body: b.to_vec() }
}
fn resp(s: u16, h: &[(&str, &str)], b: &[u8]) -> Resp {
    Resp { status: s, headers: hd(h), body: b.to_vec() }
}
fn entries() -> Vec<En> {
    let r1 = resp(200, &[("x", "1"), ("y", "2")], b"B");
    let r2 = resp(404, &[("x", "1")], b"");
    let r3 = resp(200, &[("y", "3")], b"C");
    let rx = Cel::Resp(RH::Certified(vec!["x"]));
    let full = Cel::Full(vec!["h"], vec!["k"], RH::Excluded(vec![]));
    vec![
        En::new(ex("/a"), rx.clone(), Req::get("/a"), r1.clone()),
        En::new(ex("/a"), full.clone(), req("GET", "/a?k=1", &[("h", "1")], b""), r1.clone()),
        En::new(wi("/"), Cel::Skip, Req::get("/"), resp(200, &[], b"")),
        En::new(wi("/a/"), Cel::Resp(RH::Excluded(vec!["y"])), Req::get("/a/x"), r1.clone()),
        En::new(ex("/a"), rx.clone(), Req::get("/a"), r2.clone()),
        En::new(wi("/a"), Cel::Full(vec![], vec![], RH::Certified(vec![])), Req::get("/a/x"), r3.clone()),
        En::new(ex("/a"), full, req("POST", "/a", &[("h", "1")], b"Q"), r2),
        En::new(wi(""), Cel::Resp(RH::Excluded(vec![])), Req::get("/"), r3),
        En::new(ex("/a/"), Cel::Skip, Req::get("/a/"), resp(200, &[], b"")),
        En::new(ex("/b"), rx, Req::get("/b"), r1),
    ]
}

// ------------------------------------------------------------------ C02

/// The answer that the certified set itself gives, without any tree.
fn truth(set: &[&En], e: &[String], q: &Req, r: &Resp) -> Verdict {
    let Some(path) = q.path() else { return Verdict::Reject };
    let best = set.iter().filter(|x| x.p.matches(&path)).map(|x| rank(&x.p, &path)).min().unwrap_or(NEVER - 1);
    for x in set {
        if x.p.expr() != e || rank(&x.p, &path) > best {
            continue;
        }
        if r.header(CEH) != Some(&x.cel.text()) {
            continue;
        }
        let Some(rh) = x.cel.resp() else { return Verdict::Skipped };
        let same_resp = r.status == x.r.status && r.body == x.r.body && {
            let (mut a, mut b) = (kept_headers(r, rh), kept_headers(&x.r, rh));
            a.sort();
            b.sort();
            a == b
        };
        let same_req = match &x.cel {
            Cel::Full(h, k, _) => {
                let hs = |q: &Req| {
                    let mut o: Vec<(String, String)> = q.headers.iter().filter(|(n, _)| h.iter().any(|y| y.eq_ignore_ascii_case(n))).map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect();
                    o.sort();
                    o
                };
                let ks = |q: &Req| q.query().map(|s| s.split('&').filter(|p| k.contains(&p.split('=').next().unwrap())).map(|s| s.to_string()).collect::<Vec<_>>());
                q.method == x.q.method && q.body == x.q.body && hs(q) == hs(&x.q) && ks(q) == ks(&x.q)
            }
            _ => true,
        };
        if same_resp && same_req {
            let mut hs = kept_headers(r, rh);
            hs.push((CH.into(), r.header(CH).unwrap_or("").into()));
            return Verdict::Verified(r.status, hs, r.body.clone());
        }
    }
    Verdict::Reject
}

/// Certified content that is no certification of a response: (tree path, content).
fn odd_sites() -> Vec<(&'static str, Vec<Vec<u8>>, T)> {
    let en = entries();
    let (ro, fu) = (&en[0], &en[1]);
    let at = |x: &En, below: Vec<Vec<u8>>| {
        let mut p = utf(&x.p.expr());
        p.extend(below);
        p
    };
    let h = |x: &En| sha(&[x.cel.text().as_bytes()]).to_vec();
    let (rp, fp) = (cert_path(&ro.cel, &ro.q, &ro.r), cert_path(&fu.cel, &fu.q, &fu.r));
    let e: Vec<u8> = vec![];
    let hash_of_hash = |x: &[u8]| sha(&[x]).to_vec();
    vec![
        ("non-empty leaf at the response hash", at(ro, rp.clone()), v("x")),
        ("non-empty leaf at the response hash (full)", at(fu, fp.clone()), v([0u8])),
        ("subtree at the response hash", at(ro, rp.clone()), l("", v(""))),
        ("subtree at the response hash (full)", at(fu, fp.clone()), f(l("", v("")), l("a", v("")))),
        ("empty node at the response hash", at(ro, rp.clone()), T::E),
        ("full certification without request hash", at(fu, vec![h(fu), e.clone(), fp[2].clone()]), v("")),
        ("response-only certification with a request hash", at(ro, vec![h(ro), fp[1].clone(), rp[2].clone()]), v("")),
        ("leaf at the expression hash", at(ro, vec![h(ro)]), v("")),
        ("leaf at the expression hash (full)", at(fu, vec![h(fu)]), v("")),
        ("leaf at the request hash", at(ro, vec![h(ro), e.clone()]), v("")),
        ("leaf at the request hash (full)", at(fu, vec![h(fu), fp[1].clone()]), v("")),
        ("response hash directly below the expression hash", at(ro, vec![h(ro), rp[2].clone()]), v("")),
        ("one label too many", at(ro, vec![h(ro), e.clone(), e.clone(), rp[2].clone()]), v("")),
        ("expression text instead of its hash", at(ro, vec![ro.cel.text().into_bytes(), e.clone(), rp[2].clone()]), v("")),
        ("hash of the expression hash", at(ro, vec![hash_of_hash(&h(ro)), e.clone(), rp[2].clone()]), v("")),
        ("cut expression hash", at(ro, vec![h(ro)[..31].to_vec(), e.clone(), rp[2].clone()]), v("")),
        ("cut response hash", at(ro, vec![h(ro), e.clone(), rp[2][..31].to_vec()]), v("")),
        ("response hash with a byte more", at(ro, vec![h(ro), e.clone(), [&rp[2][..], &[0]].concat()]), v("")),
        ("cut request hash", at(fu, vec![h(fu), fp[1][..31].to_vec(), fp[2].clone()]), v("")),
        ("request and response hash exchanged", at(fu, vec![h(fu), fp[2].clone(), fp[1].clone()]), v("")),
        ("subtree at the expression hash of a skip", at(&en[2], vec![h(&en[2])]), l("", l("x", v("")))),
        ("non-empty leaf at the expression hash of a skip", at(&en[2], vec![h(&en[2])]), v("x")),
        ("no terminator", [utf(&["http_expr".into(), "a".into()]), rp.clone()].concat(), v("")),
        ("no http_expr", [utf(&["a".into(), "<$>".into()]), rp.clone()].concat(), v("")),
        ("leaf at the terminator", utf(&ro.p.expr()), v("")),
        ("other top label", [utf(&["http_assets".into(), "a".into(), "<$>".into()]), rp].concat(), v("")),
    ]
}

pub fn c02(c: &'static Ctx) {
    let pool: Vec<En> = entries().into_iter().take(c.pick(7, 10)).collect();
    let k = 2;
    let sets = subsets(pool.len(), k);
    let mut exprs: Vec<Vec<String>> = pool.iter().map(|x| x.p.expr()).collect();
    exprs.sort();
    exprs.dedup();
    let mut cels: Vec<Cel> = pool.iter().map(|x| x.cel.clone()).collect();
    cels.sort();
    cels.dedup();
    let other = Cel::Resp(RH::Certified(vec!["y"]));
    cels.push(other);
    let reqs = vec![
        Req::get("/a"),
        req("GET", "/a?k=1", &[("h", "1")], b""),
        req("GET", "/a?z=9&k=1", &[("g", "2"), ("H", "1")], b""),
        req("GET", "/a?k=2", &[("h", "1")], b""),
        req("GET", "/a?k=1", &[("h", "2")], b""),
        req("GET", "/a?k=1&k=1", &[("h", "1")], b""),
        req("GET", "/a?k=1", &[], b""),
        req("GET", "/a?k=1", &[("h", "1")], b"z"),
        req("POST", "/a?k=1", &[("h", "1")], b""),
        req("POST", "/a", &[("h", "1")], b"Q"),
        req("POST", "/a", &[("h", "1"), ("h", "1")], b"Q"),
        req("POST", "/b", &[("h", "1")], b"Q"),
        Req::get("/a/"),
        Req::get("/a/x"),
        Req::get("/c/d"),
    ];
    let base = vec![
        resp(200, &[("x", "1"), ("y", "2")], b"B"),
        resp(200, &[("Y", "2"), ("X", "1")], b"B"),
        resp(200, &[("x", "1"), ("y", "3")], b"B"),
        resp(200, &[("x", "2"), ("y", "2")], b"B"),
        resp(200, &[("y", "2")], b"B"),
        resp(200, &[("x", "1"), ("x", "1"), ("y", "2")], b"B"),
        resp(200, &[("x", "1"), ("y", "2"), ("z", "1")], b"B"),
        resp(200, &[("x", "1"), ("y", "2")], b"B\0"),
        resp(200, &[("x", "1"), ("y", "2")], b""),
        resp(201, &[("x", "1"), ("y", "2")], b"B"),
        resp(404, &[("x", "1")], b""),
        resp(404, &[("x", "1"), ("y", "2")], b""),
        resp(200, &[("y", "3")], b"C"),
        resp(200, &[], b""),
    ];
    let mut resps = vec![];
    for cel in &cels {
        for b in &base {
            let mut r = b.clone();
            r.headers.insert(0, (CEH.into(), cel.text()));
            resps.push((cel.clone(), r));
        }
    }
    // expression headers that are not exactly the certified text
    let plain = resps.len();
    for cel in cels.clone() {
        for tail in [" ", ",", "\0"] {
            for b in [&base[0], &base[13]] {
                let mut r = b.clone();
                r.headers.insert(0, (CEH.into(), cel.text() + tail));
                resps.push((cel.clone(), r));
            }
        }
        let mut r = base[0].clone();
        r.headers.insert(0, (CEH.into(), format!(" {}", cel.text())));
        resps.push((cel.clone(), r.clone()));
        r.headers[0].1 = cel.text().replace(',', ", ");
        resps.push((cel, r));
    }
    let mut sets: Vec<(Vec<usize>, Option<usize>)> = sets.into_iter().map(|s| (s, None)).collect();
    let odd = odd_sites();
    for i in 0..odd.len() {
        sets.push((vec![], Some(i)));
        for j in 0..c.pick(1, 6) {
            let p = pool[j].tree_path();
            let q = &odd[i].1;
            if !p.starts_with(q) && !q.starts_with(&p) {
                sets.push((vec![j], Some(i)));
            }
        }
    }
    let trees: Vec<T> = sets
        .iter()
        .map(|(s, o)| {
            let mut ps: Vec<(Vec<Vec<u8>>, T)> = s.iter().map(|i| (pool[*i].tree_path(), v(""))).collect();
            ps.extend(o.map(|o| (odd[o].1.clone(), odd[o].2.clone())));
            if ps.is_empty() {
                ps.push((vec![b"http_expr".to_vec()], v("")));
            }
            canonical_with(&ps)
        })
        .collect();
    let certs = Certs::new(&trees.iter().map(|t| t.digest()).collect::<Vec<_>>());
    let strs = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let odd_exprs = vec![strs(&["http_expr", "a"]), strs(&["a", "<$>"]), strs(&["http_assets", "a", "<$>"]), strs(&["http_expr", "<$>"]), strs(&["http_expr"]), strs(&[])];
    let seen = Mutex::new(BTreeMap::<&str, u64>::new());
    (0..trees.len()).into_par_iter().for_each(|i| {
        let cert = certs.cert(i);
        let can = Certs::canister(i);
        let set: Vec<&En> = sets[i].0.iter().map(|j| &pool[*j]).collect();
        let extra = sets[i].1;
        let mut prs = trees[i].prunings();
        prs.sort_by_key(|p| p.size());
        prs.reverse();
        prs.into_par_iter().enumerate().for_each(|(pi, pr)| {
            for e in exprs.iter().chain(extra.iter().flat_map(|_| &odd_exprs)) {
                let h = v2_header(&cert, &pr, e);
                let mut n = [0u64; 3];
                for (ri, (cel, r)) in resps.iter().enumerate() {
                    if c.stopped() {
                        return;
                    }
                    if extra.is_some() && (ri >= plain || ![0, 3, 10].contains(&(ri % base.len()))) {
                        continue;
                    }
                    c.mark(i as u64, pi as u64, 0, 0);
                    let mut r = r.clone();
                    r.headers.push((CH.into(), h.clone()));
                    for (qi, q) in reqs.iter().enumerate() {
                        if (extra.is_some() || ri >= plain) && ![0, 1, 7, 13].contains(&qi) {
                            continue;
                        }
                        let want = ref_v2(&pr, e, cel, q, &r);
                        // The proof can only lose what the certified set has.
                        let t = if extra.is_some() { want.clone() } else { truth(&set, e, q, &r) };
                        if !(want == Verdict::Reject || want == t) || (pr == trees[i] && want != t) {
                            c.fail("model", json!({"model disagrees": short(&want), "truth": short(&t), "proof": pr.show(), "url": q.url}));
                        }
                        let got = run_verify_c(q, &r, &can, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
                        n[match want {
                            Verdict::Reject => 0,
                            Verdict::Skipped => 1,
                            _ => 2,
                        }] += 1;
                        let sound = matches!(&got, Ok(g) if g.verdict == Verdict::Reject || g.verdict == t);
                        let d = || json!({"odd": extra.map(|o| odd[o].0), "certified": set.iter().map(|x| short(&(&x.p, &x.cel))).collect::<Vec<_>>(), "proof": pr.show(), "expr_path": e, "request": short(q), "response": [r.status.to_string(), short(&r.headers[..r.headers.len() - 1].to_vec()), short(&r.body)], "want": short(&want), "got": short(&got)});
                        c.check(sound, "accepts-uncertified", d);
                        c.check(matches!(&got, Ok(g) if g.verdict == want), "verdict", d);
                    }
                }
                c.idle();
                c.trans(n.iter().sum());
                c.trace(n.iter().sum());
                let mut s = seen.lock().unwrap();
                for (k, v) in ["rejected", "skipped", "verified"].iter().zip(n) {
                    *s.entry(k).or_default() += v;
                }
                if n[2] > 0 {
                    c.sample(|| json!({"proof": pr.show(), "expr_path": e, "verified": n[2], "of": resps.len() * reqs.len()}));
                }
            }
            c.state(1);
        });
    });
    // the right tree under a certificate that does not vouch for it
    for (i, en) in pool.iter().enumerate() {
        let t = canonical(&[en.tree_path()]);
        let d = t.digest();
        use crate::crypt::*;
        let st = |data: &[u8], time: u128| state_tree(CANISTER, data, time);
        let no_data = f(l("canister", l(CANISTER, l("x", v(d)))), l("time", v(leb(NOW))));
        let pruned_data = f(l("canister", l(CANISTER, T::P([7; 32]))), l("time", v(leb(NOW))));
        let other_canister = state_tree(&[0, 0, 0, 0, 0, 0, 0, 8, 1, 1], &d, NOW);
        let good = st(&d, NOW);
        let mut flip = sign(0, &good);
        flip[30] ^= 1;
        let certs: Vec<(&str, Vec<u8>, bool)> = vec![
            ("good", cert_cbor(&good, &sign(0, &good), None), true),
            ("edge of the window", { let t = st(&d, NOW - OFFSET); cert_cbor(&t, &sign(0, &t), None) }, true),
            ("too old", { let t = st(&d, NOW - OFFSET - 1); cert_cbor(&t, &sign(0, &t), None) }, false),
            ("in the future", { let t = st(&d, NOW + OFFSET + 1); cert_cbor(&t, &sign(0, &t), None) }, false),
            ("other key", cert_cbor(&good, &sign(1, &good), None), false),
            ("damaged signature", cert_cbor(&good, &flip, None), false),
            ("no signature", cert_cbor(&good, &[], None), false),
            ("other data", { let t = st(&sha(&[&d]), NOW); cert_cbor(&t, &sign(0, &t), None) }, false),
            ("cut data", { let t = st(&d[..31], NOW); cert_cbor(&t, &sign(0, &t), None) }, false),
            ("data and more", { let t = st(&[&d[..], &[0]].concat(), NOW); cert_cbor(&t, &sign(0, &t), None) }, false),
            ("empty data", { let t = st(&[], NOW); cert_cbor(&t, &sign(0, &t), None) }, false),
            ("no data", cert_cbor(&no_data, &sign(0, &no_data), None), false),
            ("pruned data", cert_cbor(&pruned_data, &sign(0, &pruned_data), None), false),
            ("other canister", cert_cbor(&other_canister, &sign(0, &other_canister), None), false),
        ];
        for (what, cert, valid) in certs {
            for proof in [t.clone(), T::P(d)] {
                let mut r = en.r.clone();
                r.headers.push((CH.into(), v2_header(&cert, &proof, &en.p.expr())));
                let got = run_verify(&en.q, &r, NOW, OFFSET, &root_pk(), 2);
                let want = if valid { ref_v2(&proof, &en.p.expr(), &en.cel, &en.q, &r) } else { Verdict::Reject };
                c.trans(1);
                c.trace(1);
                c.check(matches!(&got, Ok(g) if g.verdict == want), "certificate", || json!({"pair": i, "certificate": what, "proof": proof.show(), "want": short(&want), "got": short(&got)}));
            }
        }
        c.state(1);
    }
    // one edit anywhere in the request or response of each certified pair
    let all = entries();
    let whole: Vec<T> = all.iter().map(|e| canonical(&[e.tree_path()])).collect();
    let certs = Certs::new(&whole.iter().map(|t| t.digest()).collect::<Vec<_>>());
    let leak = |s: &String| -> &'static str { Box::leak(s.clone().into_boxed_str()) };
    let url_ok = |s: &str| s.starts_with('/') && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~!$'()*+,;:@/?=&%".contains(&b));
    let method_ok = |m: &str| !m.is_empty() && m.bytes().all(|b| b.is_ascii_alphanumeric() || b"!*+-.^_`|~".contains(&b));
    all.par_iter().enumerate().for_each(|(i, en)| {
        let h = v2_header(&certs.cert(i), &whole[i], &en.p.expr());
        let mut cases: Vec<(Req, Resp)> = vec![];
        let (q, r) = (&en.q, &en.r);
        for u in near(&q.url) {
            if url_ok(&u) {
                cases.push((Req { url: u, ..q.clone() }, r.clone()));
            }
        }
        for m in near(q.method).iter().chain(&near("HEAD")) {
            if method_ok(m) {
                cases.push((Req { method: leak(m), ..q.clone() }, r.clone()));
            }
        }
        for b in near_bytes(&q.body) {
            cases.push((Req { body: b, ..q.clone() }, r.clone()));
        }
        for b in near_bytes(&r.body) {
            for ce in ["", "gzip", "deflate", "identity"] {
                let mut r = Resp { body: b.clone(), ..r.clone() };
                if !ce.is_empty() {
                    r.headers.push(("content-encoding".into(), ce.into()));
                }
                cases.push((q.clone(), r));
            }
        }
        for s in 100..=999 {
            cases.push((q.clone(), Resp { status: s, ..r.clone() }));
        }
        let edit = |hs: &Hd, keep: bool| {
            let mut o: Vec<Hd> = vec![];
            for k in 0..hs.len() {
                for n in near(&hs[k].0) {
                    let mut x = hs.clone();
                    x[k].0 = n;
                    o.push(x);
                }
                let full = near(&hs[k].1);
                // The text of an expression is long: every 3rd edit of it.
                for n in full.iter().step_by(if full.len() > 1500 { c.pick(3, 1) } else { 1 }) {
                    let mut x = hs.clone();
                    x[k].1 = n.clone();
                    o.push(x);
                }
                for j in 0..=hs.len() {
                    let mut x = hs.clone();
                    x.insert(j, hs[k].clone());
                    o.push(x);
                }
                if !keep {
                    let mut x = hs.clone();
                    x.remove(k);
                    o.push(x);
                }
            }
            for extra in [("x", ""), ("h", "1"), ("", ""), ("X", "1"), (":ic-cert-status", "200"), (":ic-cert-method", "GET"), (":ic-cert-query", "k=1"), ("set-cookie", "a"), ("IC-Certificate-Expression", "")] {
                let mut x = hs.clone();
                x.push((extra.0.into(), extra.1.into()));
                o.push(x);
            }
            o.push(hs.iter().rev().cloned().collect());
            o
        };
        for hs in edit(&q.headers, false) {
            cases.push((Req { headers: hs, ..q.clone() }, r.clone()));
        }
        for hs in edit(&r.headers, true) {
            cases.push((q.clone(), Resp { headers: hs, ..r.clone() }));
        }
        let can = Certs::canister(i);
        cases.into_par_iter().for_each(|(q, mut r)| {
            if c.stopped() {
                return;
            }
            c.mark(i as u64, 1 << 40, 0, 0);
            r.headers.push((CH.into(), h.clone()));
            // An expression that is not the certified text is never accepted, whatever it means.
            let want = ref_v2(&whole[i], &en.p.expr(), &en.cel, &q, &r);
            let got = run_verify_c(&q, &r, &can, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
            c.trans(1);
            c.trace(1);
            c.outcome(if want == Verdict::Reject { "edited: rejected" } else { "edited: verified" });
            c.check(matches!(&got, Ok(g) if g.verdict == want), "edited", || json!({"pair": i, "request": short(&q), "response": [r.status.to_string(), short(&r.headers[..r.headers.len() - 1].to_vec()), short(&r.body)], "want": short(&want), "got": short(&got)}));
            c.idle();
        });
        c.state(1);
    });
    sizes(c);
    for (k, n) in seen.lock().unwrap().iter() {
        c.outcome_n(k, *n);
    }
    c.note("bound", format!("all sets of <= {k} of {} certified pairs, and {} kinds of certified content that certifies nothing, alone and with a pair, x all prunings of the tree x {} claimed paths x {} responses x {} requests", pool.len(), odd.len(), exprs.len(), resps.len(), reqs.len()));
}

// ------------------------------------------------------------------ sizes

/// Sets of certified pairs in which one thing has a given size: the number of headers, parameters,
/// entries or segments, or the length of a name, value, segment or body.
fn sized(c: &Ctx) -> Vec<(String, Vec<En>)> {
    let mut o = vec![];
    let (few, big): (usize, &[usize]) = c.pick((72, &[99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513]), (180, &[255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097]));
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    for n in (0..few).chain(big.iter().copied()) {
        let names: Vec<&'static str> = (0..n).map(|i| leak(format!("h{i}"))).collect();
        let hs: Hd = (0..n).map(|i| (format!("h{i}"), format!("value {}", i * 31 % 97))).collect();
        let odd: Vec<&'static str> = names.iter().copied().step_by(2).collect();
        let with = |h: &Hd| Resp { status: 200, headers: h.clone(), body: b"b".to_vec() };
        let plain = || resp(200, &[("x", "1")], b"b");
        let all = RH::Excluded(vec![]);
        let name = |k: &str| format!("{k}: {n}");
        if n <= 300 {
            o.push((name("response headers, all certified"), vec![En::new(ex("/a"), Cel::Resp(RH::Certified(names.clone())), Req::get("/a"), with(&hs))]));
            o.push((name("response headers, every second excluded"), vec![En::new(ex("/a"), Cel::Resp(RH::Excluded(odd.clone())), Req::get("/a"), with(&hs))]));
            o.push((name("response headers, every second certified"), vec![En::new(wi("/"), Cel::Resp(RH::Certified(odd.clone())), Req::get("/a"), with(&hs))]));
            let same: Hd = (0..n).map(|i| ("x".to_string(), format!("{i}"))).collect();
            o.push((name("response headers of one name"), vec![En::new(ex("/a"), Cel::Resp(all.clone()), Req::get("/a"), with(&same))]));
            let q = Req { method: "POST", url: "/a".into(), headers: hs.clone(), body: b"q".to_vec() };
            o.push((name("request headers"), vec![En::new(ex("/a"), Cel::Full(odd.clone(), vec![], all.clone()), q, plain())]));
            let u = format!("/a?{}", (0..n).map(|i| format!("h{i}={}", i * 7)).collect::<Vec<_>>().join("&"));
            o.push((name("query parameters"), vec![En::new(ex("/a"), Cel::Full(vec![], odd.clone(), all.clone()), Req::get(&u), plain())]));
            // every second of many entries at one path, at paths of their own, or with requests of their own
            let numbered = |i: usize| resp(200, &[("n", &i.to_string())], b"b");
            let ro = Cel::Resp(all.clone());
            o.push((name("responses at one path"), (0..n).map(|i| En::new(ex("/a"), ro.clone(), Req::get("/a"), numbered(i))).collect()));
            o.push((name("paths"), (0..n).map(|i| En::new(if i % 3 == 0 { wi(&format!("/p{i}")) } else { ex(&format!("/p{i}")) }, ro.clone(), Req::get(&format!("/p{i}")), numbered(i))).collect()));
            let full = Cel::Full(vec!["h"], vec!["k"], all.clone());
            o.push((name("requests at one path"), (0..n).map(|i| En::new(ex("/a"), full.clone(), req("GET", &format!("/a?k={i}"), &[("h", "1")], b""), numbered(i))).collect()));
        }
        let long = |n: usize| (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect::<String>();
        let x = long(n);
        o.push((name("bytes of a header value"), vec![En::new(ex("/a"), Cel::Resp(RH::Certified(vec!["X"])), Req::get("/a"), resp(200, &[("x", &x)], b"b"))]));
        if n > 0 {
            o.push((name("bytes of a header name"), vec![En::new(ex("/a"), Cel::Resp(RH::Certified(vec![leak(x.clone())])), Req::get("/a"), resp(200, &[(&x, "1"), (&format!("{x}a"), "2")], b"b"))]));
            let q = Req { method: "GET", url: format!("/a?{x}=1&{x}a=2"), headers: hd(&[(&x, "1"), (&format!("{x}a"), "2")]), body: vec![] };
            o.push((name("bytes of a request header and parameter name"), vec![En::new(ex("/a"), Cel::Full(vec![leak(x.to_uppercase())], vec![leak(x.clone())], all.clone()), q, plain())]));
            o.push((name("bytes of a segment"), vec![En::new(ex(&format!("/s/{x}")), Cel::Resp(all.clone()), Req::get(&format!("/s/{x}")), plain()), En::new(wi(&format!("/s/{}", long(n - 1))), Cel::Resp(all.clone()), Req::get("/s"), plain())]));
            if n <= 300 {
                let p = "/a".repeat(n);
                o.push((name("segments"), vec![En::new(ex(&p), Cel::Resp(all.clone()), Req::get(&p), plain()), En::new(wi(&"/a".repeat(n - 1)), Cel::Resp(all.clone()), Req::get(&p), resp(404, &[], b"n"))]));
                o.push((name("segments below a wildcard"), vec![En::new(wi("/a"), Cel::Resp(all.clone()), Req::get(&p), plain())]));
            }
        }
        o.push((name("bytes of a query"), vec![En::new(ex("/a"), Cel::Full(vec![], vec!["k"], all.clone()), Req::get(&format!("/a?k={x}&z={x}")), plain())]));
        let q = Req { method: "POST", url: "/a".into(), headers: hd(&[("h", &x)]), body: x.clone().into_bytes() };
        o.push((name("bytes of a request body and header"), vec![En::new(ex("/a"), Cel::Full(vec!["h"], vec![], all.clone()), q, plain())]));
        o.push((name("bytes of a response body"), vec![En::new(ex("/a"), Cel::Resp(all.clone()), Req::get("/a"), Resp { body: x.into_bytes(), ..plain() })]));
    }
    // every status, and many methods
    for n in 100..=999u16 {
        let all = RH::Excluded(vec![]);
        o.push((format!("status: {n}"), vec![En::new(ex("/a"), if n % 2 == 0 { Cel::Resp(all.clone()) } else { Cel::Full(vec![], vec![], all.clone()) }, Req::get("/a"), resp(n, &[("x", "1")], b"b"))]));
    }
    for m in ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "CONNECT", "PATCH", "TRACE", "QUERY", "PROPFIND", "get", "Get", "G", "VERY-LONG-EXTENSION-METHOD-NAME"] {
        o.push((format!("method: {m}"), vec![En::new(ex("/a"), Cel::Full(vec![], vec![], RH::Excluded(vec![])), req(m, "/a", &[], b"q"), resp(200, &[("x", "1")], b"b"))]));
    }
    for k in 10..c.pick(21, 24) {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            let b: Vec<u8> = (0..n).map(|i| (i * 13 + i / 251) as u8).collect();
            let q = Req { method: "POST", url: "/a".into(), headers: vec![], body: b.clone() };
            o.push((format!("bytes of the bodies: {n}"), vec![En::new(ex("/a"), Cel::Full(vec![], vec![], RH::Excluded(vec![])), q, Resp { status: 200, headers: hd(&[]), body: b })]));
        }
    }
    o
}
/// What small changes of a pair make of it.
fn changed(e: &En) -> Vec<(&'static str, Req, Resp)> {
    let mut o: Vec<(&'static str, Req, Resp)> = vec![];
    let mut lists = |what: [&'static str; 5], hs: &Hd, put: &dyn Fn(Hd) -> (Req, Resp)| {
        let n = hs.len();
        for k in [0, n / 2, n.wrapping_sub(1)] {
            if k >= n || hs[k].0 == CEH {
                continue;
            }
            let mut x = hs.clone();
            x[k].1 += "!";
            let mut y = hs.clone();
            y.remove(k);
            let mut z = hs.clone();
            z.push(hs[k].clone());
            let mut w = hs.clone();
            w[k].0 += "a";
            let mut v = hs.clone();
            v[k].1.pop();
            for (w, x) in what.iter().zip([x, y, z, w, v]) {
                let (q, r) = put(x);
                o.push((w, q, r));
            }
        }
    };
    lists(["response header value longer", "response header missing", "response header twice", "response header name longer", "response header value shorter"], &e.r.headers, &|h| (e.q.clone(), Resp { headers: h, ..e.r.clone() }));
    lists(["request header value longer", "request header missing", "request header twice", "request header name longer", "request header value shorter"], &e.q.headers, &|h| (Req { headers: h, ..e.q.clone() }, e.r.clone()));
    let bodies = |b: &Vec<u8>| -> Vec<Vec<u8>> {
        let mut v = vec![];
        for k in [0, b.len() / 2, b.len().wrapping_sub(1)] {
            if k < b.len() {
                let mut x = b.clone();
                x[k] ^= 1;
                v.push(x);
                v.push([&b[..k], &b[k + 1..]].concat());
            }
        }
        v.push([&b[..], &[0]].concat());
        v
    };
    for b in bodies(&e.r.body) {
        o.push(("response body", e.q.clone(), Resp { body: b, ..e.r.clone() }));
    }
    for b in bodies(&e.q.body) {
        o.push(("request body", Req { body: b, ..e.q.clone() }, e.r.clone()));
    }
    for u in [format!("{}a", e.q.url), e.q.url[..e.q.url.len() - 1].to_string(), format!("{}/a", e.q.url), format!("{}&h0=1", e.q.url)] {
        if !u.is_empty() {
            o.push(("URL", Req { url: u, ..e.q.clone() }, e.r.clone()));
        }
    }
    o.push(("method", Req { method: "HEAD", ..e.q.clone() }, e.r.clone()));
    let s = e.r.status;
    for t in [if s == 201 { 202 } else { 201 }, s ^ 512, s ^ 256, s + 100, s - 1, s + 1] {
        if (100..1000).contains(&t) {
            o.push(("status", e.q.clone(), Resp { status: t, ..e.r.clone() }));
        }
    }
    o
}
/// Certifies the sized pairs with the library's tree and verifies them: as they are, after the
/// pair was removed again, and changed in small ways.
fn sizes(c: &'static Ctx) {
    let sets = sized(c);
    let build = |set: &[En]| {
        let mut t = ihc::HttpCertificationTree::default();
        for e in set {
            let p = e.p.lib();
            t.insert(&ihc::HttpCertificationTreeEntry::new(&p, e.cel.certify(&e.q, &e.r).expect("certification")));
        }
        t
    };
    let roots: Vec<[H; 2]> = sets
        .par_iter()
        .map(|(n, set)| {
            c.guard("sized", || json!({"size": n}), || {
                let mut t = build(set);
                let a = t.root_hash();
                // every third pair is taken out again
                for e in set.iter().step_by(3) {
                    let p = e.p.lib();
                    t.delete(&ihc::HttpCertificationTreeEntry::new(&p, e.cel.certify(&e.q, &e.r).unwrap()));
                }
                [a, t.root_hash()]
            })
            .unwrap_or_default()
        })
        .collect();
    let certs = Certs::new(&roots.concat());
    sets.par_iter().enumerate().for_each(|(i, (name, set))| {
        let mut t = build(set);
        for round in 0..2 {
            let (cert, can) = (certs.cert(2 * i + round), Certs::canister(2 * i + round));
            if round == 1 {
                for e in set.iter().step_by(3) {
                    let p = e.p.lib();
                    t.delete(&ihc::HttpCertificationTreeEntry::new(&p, e.cel.certify(&e.q, &e.r).unwrap()));
                }
            }
            let model: Vec<&En> = set.iter().enumerate().filter(|(k, _)| round == 0 || k % 3 != 0).map(|x| x.1).collect();
            let n = set.len();
            for (k, e) in set.iter().enumerate() {
                if c.stopped() {
                    return;
                }
                // of many pairs the first and last few and every 7th
                if n > 20 && k > 4 && k + 4 < n && k % 7 != n % 7 {
                    continue;
                }
                c.mark(i as u64, k as u64, round as u64, 1 << 42);
                let p = e.p.lib();
                let le = ihc::HttpCertificationTreeEntry::new(&p, e.cel.certify(&e.q, &e.r).unwrap());
                let mut cases = vec![("as certified", e.q.clone(), e.r.clone())];
                if n < 3 && round == 0 {
                    cases.extend(changed(e));
                } else {
                    cases.push(("status", e.q.clone(), Resp { status: 201, ..e.r.clone() }));
                }
                let own = catch(|| t.witness(&le, &e.q.path().unwrap()).ok());
                for (what, q, r0) in cases {
                    let Some(path) = q.path() else { continue };
                    let d = |want: &Verdict, got: &dyn std::fmt::Debug| json!({"size": name, "pair": k, "removed": round == 1 && k % 3 == 0, "changed": what, "want": short(want), "got": format!("{got:?}").chars().take(300).collect::<String>()});
                    let want0 = truth(&model, &e.p.expr(), &q, &r0);
                    let w = if path == e.q.path().unwrap() { own.clone() } else { catch(|| t.witness(&le, &path).ok()) };
                    let w = match w {
                        Ok(Some(w)) => w,
                        other => {
                            c.check(other.is_ok() && !e.p.matches(&path), "witness-refused", || d(&want0, &"refused"));
                            continue;
                        }
                    };
                    let mut rl = r0.lib();
                    ihc::utils::add_v2_certificate_header(&cert, &mut rl, &w, &p.to_expr_path());
                    let r = Resp::from_lib(&rl);
                    let want = truth(&model, &e.p.expr(), &q, &r);
                    let got = run_verify_c(&q, &r, &can, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
                    c.trans(1);
                    c.trace(1);
                    c.outcome(if want == Verdict::Reject { "sized: rejected" } else { "sized: verified" });
                    c.check(matches!(&got, Ok(g) if g.verdict == want), "sized", || d(&want, &got));
                }
            }
            c.state(1);
            c.idle();
        }
    });
    c.note("sizes", format!("{} sets of certified pairs: 0.. headers, parameters, pairs, paths and segments, and names, values, segments and bodies of every small length and about powers of two; as certified, removed and changed", sets.len()));
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Ins(usize),
    Del(usize),
    Clear,
}
pub fn c01(c: &'static Ctx) {
    let all = entries();
    // (entries of the pool, depth)
    let runs: Vec<(Vec<usize>, usize)> = c.pick(vec![((0..10).collect(), 3), (vec![0, 2, 4, 7], 4)], vec![((0..10).collect(), 4), (vec![0, 1, 2, 5], 6)]);
    let mut bound = vec![];
    for (which, depth) in runs {
        let pool: Vec<En> = which.iter().map(|i| all[*i].clone()).collect();
        let n = pool.len();
        let paths: Vec<_> = pool.iter().map(|x| x.p.lib()).collect();
        let libs: Vec<ihc::HttpCertificationTreeEntry> = pool.iter().zip(&paths).map(|(x, p)| ihc::HttpCertificationTreeEntry::new(p, x.cel.certify(&x.q, &x.r).expect("certification"))).collect();
        let mut ops: Vec<Op> = (0..n).map(Op::Ins).chain((0..n).map(Op::Del)).collect();
        ops.push(Op::Clear);
        let m = ops.len();
        let apply = |h: &[Op]| -> (ihc::HttpCertificationTree, BTreeSet<usize>) {
            let mut t = ihc::HttpCertificationTree::default();
            let mut s = BTreeSet::new();
            for o in h {
                match o {
                    Op::Ins(i) => {
                        t.insert(&libs[*i]);
                        s.insert(*i);
                    }
                    Op::Del(i) => {
                        t.delete(&libs[*i]);
                        s.remove(i);
                    }
                    Op::Clear => {
                        t.clear();
                        s.clear();
                    }
                }
            }
            (t, s)
        };
        let decode = |mut x: usize, d: usize| -> Vec<Op> {
            (0..d)
                .map(|_| {
                    let o = ops[x % m];
                    x /= m;
                    o
                })
                .collect()
        };
        // every history of exactly `d` operations, for d <= depth; the certified data of each
        let mut hs: Vec<(usize, usize)> = vec![];
        for d in 0..=depth {
            hs.extend((0..m.pow(d as u32)).map(|x| (x, d)));
        }
        let roots: Vec<Option<H>> = hs
            .par_iter()
            .map(|(x, d)| {
                let h = decode(*x, *d);
                c.guard("history", || json!({"history": short(&h)}), || apply(&h).0.root_hash())
            })
            .collect();
        let mut uniq: Vec<H> = roots.iter().flatten().cloned().collect();
        uniq.sort();
        uniq.dedup();
        let certs = Certs::new(&uniq);
        let urls = ["/a", "/a/", "/a/x", "/a/b/c", "/b", "/", "/c/d/"];
        let mut reqs: Vec<Req> = urls.iter().map(|u| Req::get(u)).collect();
        for x in &pool {
            if !reqs.contains(&x.q) {
                reqs.push(x.q.clone());
            }
        }
        hs.par_iter().zip(&roots).for_each(|((x, d), root)| {
            let Some(root) = root else { return };
            if c.stopped() {
                return;
            }
            c.mark(*x as u64, *d as u64, 0, 0);
            let h = decode(*x, *d);
            let (t, s) = apply(&h);
            let id = uniq.binary_search(root).unwrap();
            let (cert, can) = (certs.cert(id), Certs::canister(id));
            let model: Vec<&En> = s.iter().map(|i| &pool[*i]).collect();
            let mut n = 0;
            for (i, e) in pool.iter().enumerate() {
                for q in &reqs {
                    let path = q.path().unwrap();
                    let Ok(w) = catch(|| t.witness(&libs[i], &path).ok()) else {
                        c.fail("witness-panic", json!({"history": short(&h), "entry": short(e), "url": q.url}));
                        continue;
                    };
                    let expr = e.p.expr();
                    let detail = |what: &str, want: &Verdict, got: &dyn std::fmt::Debug| json!({"what": what, "history": h.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>(), "entry": [i.to_string(), short(&e.p), short(&e.cel)], "request": short(q), "want": short(want), "got": format!("{got:?}").chars().take(400).collect::<String>()});
                    let want0 = truth(&model, &expr, q, &e.r);
                    let Some(w) = w else {
                        // a witness may be refused only where the path does not apply
                        c.check(!e.p.matches(&path), "witness-refused", || detail("witness refused", &want0, &""));
                        continue;
                    };
                    c.check(catch(|| w.digest()) == Ok(*root), "witness-digest", || detail("witness digest differs from the root hash", &want0, &""));
                    let mut alt = e.r.clone();
                    alt.body.push(1);
                    for (k, r0) in [&e.r, &alt].into_iter().enumerate() {
                        if k == 1 && !(e.p.matches(&path) && s.contains(&i)) {
                            continue;
                        }
                        let mut rl = r0.lib();
                        ihc::utils::add_v2_certificate_header(&cert, &mut rl, &w, &expr);
                        let r = Resp::from_lib(&rl);
                        let want = truth(&model, &expr, q, &r);
                        let got = run_verify_c(q, &r, &can, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
                        n += 1;
                        if !c.check(matches!(&got, Ok(g) if g.verdict == want), if want == Verdict::Reject { "accepts-removed" } else { "rejects-certified" }, || detail("verification", &want, &got)) {
                            return;
                        }
                        if want != Verdict::Reject && h.len() >= 3 && s.len() >= 2 {
                            c.sample(|| json!({"history": h.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>(), "entry": i, "url": q.url}));
                        }
                    }
                }
            }
            c.state(1);
            c.trans(*d as u64);
            c.trace(n);
            c.idle();
        });
        bound.push(format!("all {} histories of <= {depth} of {m} operations over {n} entries ({} distinct certified roots), every entry for {} requests, with its response and a changed body", hs.len(), uniq.len(), reqs.len()));
    }
    // look-alike segments: an exact path, a wildcard and the root wildcard certified together
    let cel = Cel::Resp(RH::Excluded(vec![]));
    for g in look_alikes(c) {
        let entry = |p: Pth, n: &str| En::new(p, cel.clone(), Req::get("/"), resp(200, &[("n", n)], b"b"));
        let ens: Vec<[En; 3]> = g.iter().map(|p| [entry(Pth::Exact(p.clone()), "exact"), entry(Pth::Wild(p.clone()), "wildcard"), entry(Pth::Wild("/".into()), "root")]).collect();
        let build = |e: &[En; 3]| {
            let mut t = ihc::HttpCertificationTree::default();
            for x in e {
                let p = x.p.lib();
                t.insert(&ihc::HttpCertificationTreeEntry::new(&p, x.cel.certify(&x.q, &x.r).unwrap()));
            }
            t
        };
        let roots: Vec<H> = ens.par_iter().map(|e| build(e).root_hash()).collect();
        let certs = Certs::new(&roots);
        (0..g.len()).into_par_iter().for_each(|i| {
            if c.stopped() {
                return;
            }
            c.mark(i as u64, 1 << 41, 0, 0);
            let t = build(&ens[i]);
            let model: Vec<&En> = ens[i].iter().collect();
            let (cert, can) = (certs.cert(i), Certs::canister(i));
            for (k, u) in g.iter().enumerate() {
                let mut urls = vec![enc(u)];
                if i == k {
                    urls.extend([enc(u) + "/", enc(u) + "/x", enc(u) + "x"]);
                }
                for u in urls {
                    let q = Req::get(&u);
                    let path = q.path().unwrap();
                    for e in &ens[i] {
                        let p = e.p.lib();
                        let le = ihc::HttpCertificationTreeEntry::new(&p, e.cel.certify(&e.q, &e.r).unwrap());
                        let d = |want: &Verdict, got: &dyn std::fmt::Debug| json!({"certified": g[i], "entry": short(&e.p), "url": u, "want": short(want), "got": format!("{got:?}").chars().take(400).collect::<String>()});
                        let want0 = truth(&model, &e.p.expr(), &q, &e.r);
                        let w = match catch(|| t.witness(&le, &path).ok()) {
                            Ok(Some(w)) => w,
                            other => {
                                c.check(other.is_ok() && !e.p.matches(&path), "witness-refused", || d(&want0, &"refused"));
                                continue;
                            }
                        };
                        c.check(catch(|| w.digest()) == Ok(roots[i]), "witness-digest", || d(&want0, &"digest"));
                        let mut rl = e.r.lib();
                        ihc::utils::add_v2_certificate_header(&cert, &mut rl, &w, &p.to_expr_path());
                        let r = Resp::from_lib(&rl);
                        let want = truth(&model, &e.p.expr(), &q, &r);
                        let got = run_verify_c(&q, &r, &can, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
                        c.trans(1);
                        c.trace(1);
                        c.check(matches!(&got, Ok(g) if g.verdict == want), "look-alike", || d(&want, &got));
                    }
                }
            }
            c.state(1);
            c.idle();
        });
        bound.push(format!("{} look-alike paths like {}, requested for each other", g.len(), g[0]));
    }
    sizes(c);
    c.note("bound", bound.join("; "));
}
