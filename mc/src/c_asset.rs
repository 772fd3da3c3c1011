//! C22 what the asset router serves, C23 that it verifies, C24 what it keeps certified, C25 its maps.
use crate::ctx::{catch, Ctx};
use crate::http::*;
use crate::tree::*;
use ic_asset_certification as iac;
use iac::{Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetMap, AssetRedirectKind, AssetRouter};
use ic_http_certification as ihc;
use rayon::prelude::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const CHUNK: usize = 2_000_000;
type Enc = Option<&'static str>;

#[derive(Clone, Debug)]
enum Cfg {
    File { path: &'static str, ct: Option<&'static str>, hs: Vec<(&'static str, &'static str)>, fb: Vec<(&'static str, Option<u16>)>, al: Vec<&'static str>, enc: Vec<(&'static str, &'static str)> },
    Pat { pat: &'static str, ct: Option<&'static str>, hs: Vec<(&'static str, &'static str)>, enc: Vec<(&'static str, &'static str)> },
    Redir(&'static str, &'static str, bool),
}
fn enc(e: &str) -> AssetEncoding {
    match e {
        "br" => AssetEncoding::Brotli,
        "zstd" => AssetEncoding::Zstd,
        "gzip" => AssetEncoding::Gzip,
        "deflate" => AssetEncoding::Deflate,
        _ => AssetEncoding::Identity,
    }
}
fn own(h: &[(&str, &str)]) -> Vec<(String, String)> {
    h.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
impl Cfg {
    fn lib(&self) -> AssetConfig {
        let e = |v: &[(&str, &str)]| v.iter().map(|(e, p)| enc(e).custom_config(p.to_string())).collect::<Vec<_>>();
        match self {
            Cfg::File { path, ct, hs, fb, al, enc } => AssetConfig::File {
                path: path.to_string(),
                content_type: ct.map(|x| x.to_string()),
                headers: own(hs),
                fallback_for: fb.iter().map(|(s, c)| AssetFallbackConfig { scope: s.to_string(), status_code: c.map(|c| ihc::StatusCode::from_u16(c).unwrap()) }).collect(),
                aliased_by: al.iter().map(|s| s.to_string()).collect(),
                encodings: e(enc),
            },
            Cfg::Pat { pat, ct, hs, enc } => AssetConfig::Pattern { pattern: pat.to_string(), content_type: ct.map(|x| x.to_string()), headers: own(hs), encodings: e(enc) },
            Cfg::Redir(a, b, p) => AssetConfig::Redirect { from: a.to_string(), to: b.to_string(), kind: if *p { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary } },
        }
    }
}
/// Unix globs: `*` any characters, `?` one, `[ab]`, `[!ab]`, `{x,y}` alternatives.
fn glob(p: &str, s: &str) -> bool {
    let Some(c) = p.chars().next() else { return s.is_empty() };
    let rest = &p[c.len_utf8()..];
    let tail = |s: &str| s.chars().next().map(|x| x.len_utf8());
    match c {
        '*' => (0..=s.len()).any(|i| glob(rest, &s[i..])),
        '?' => tail(s).is_some_and(|n| glob(rest, &s[n..])),
        '[' => {
            let (set, rest) = rest.split_once(']').unwrap();
            let (neg, set) = match set.strip_prefix('!') {
                Some(x) => (true, x),
                None => (false, set),
            };
            s.chars().next().is_some_and(|x| set.contains(x) != neg && glob(rest, &s[x.len_utf8()..]))
        }
        '{' => {
            let (alts, rest) = rest.split_once('}').unwrap();
            alts.split(',').any(|a| glob(&format!("{a}{rest}"), s))
        }
        c => s.starts_with(c) && glob(rest, &s[c.len_utf8()..]),
    }
}
#[derive(Clone, Debug)]
struct Batch {
    name: &'static str,
    assets: Vec<(&'static str, &'static [u8])>,
    cfgs: Vec<Cfg>,
}
impl Batch {
    fn assets(&self) -> Vec<Asset<'static, 'static>> {
        self.assets.iter().map(|(p, b)| Asset::new(*p, *b)).collect()
    }
    fn cfgs(&self) -> Vec<AssetConfig> {
        self.cfgs.iter().map(|c| c.lib()).collect()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Item {
    status: u16,
    headers: Vec<(String, String)>,
    body: &'static [u8],
}
/// What the router holds: one item per URL (or scope) and encoding.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Model {
    stat: BTreeMap<(String, Enc), Item>,
    fall: BTreeMap<(String, Enc), Item>,
}
type Key = (String, Enc, Option<usize>);
impl Model {
    fn each(b: &Batch, mut f: impl FnMut(bool, String, Enc, Item)) {
        for (path, body) in &b.assets {
            let url = if path.starts_with('/') { path.to_string() } else { format!("/{path}") };
            let cfg = b.cfgs.iter().find(|c| match c {
                Cfg::File { path: p, .. } => p == path,
                Cfg::Pat { pat, .. } => glob(pat, path),
                _ => false,
            });
            let (ct, hs, encs) = match cfg {
                Some(Cfg::File { ct, hs, enc, .. }) | Some(Cfg::Pat { ct, hs, enc, .. }) => (*ct, hs.clone(), enc.clone()),
                _ => (None, vec![], vec![]),
            };
            let mut variants: Vec<(Enc, &'static [u8])> = vec![];
            for (e, post) in encs {
                let p = format!("{path}{post}");
                if let Some((_, b)) = b.assets.iter().find(|a| a.0 == p) {
                    variants.push((Some(e), b));
                }
            }
            variants.push((None, body));
            for (e, body) in variants {
                let mut headers = own(&hs);
                if let Some(ct) = ct {
                    headers.push(("content-type".into(), ct.into()));
                }
                if let Some(e) = e {
                    headers.push(("content-encoding".into(), e.into()));
                }
                let item = Item { status: 200, headers, body };
                f(false, url.clone(), e, item.clone());
                if let Some(Cfg::File { fb, al, .. }) = cfg {
                    for (s, code) in fb {
                        f(true, s.to_string(), e, Item { status: code.unwrap_or(200), ..item.clone() });
                    }
                    for a in al {
                        f(false, a.to_string(), e, item.clone());
                    }
                }
            }
        }
        for c in &b.cfgs {
            if let Cfg::Redir(from, to, perm) = c {
                f(false, from.to_string(), None, Item { status: if *perm { 301 } else { 307 }, headers: vec![("location".into(), to.to_string())], body: b"" });
            }
        }
    }
    fn certify(&mut self, b: &Batch) {
        Model::each(b, |fb, u, e, i| {
            if fb { &mut self.fall } else { &mut self.stat }.insert((u, e), i);
        });
    }
    fn delete(&mut self, b: &Batch) {
        Model::each(b, |fb, u, e, _| {
            if fb { &mut self.fall } else { &mut self.stat }.remove(&(u, e));
        });
    }
    fn rsp(i: &Item, range: Option<usize>) -> Resp {
        let (mut status, mut body) = (i.status, i.body);
        let mut headers = i.headers.clone();
        if let Some(r) = range {
            let end = (r + CHUNK).min(i.body.len());
            body = &i.body[r..end];
            status = 206;
            headers.push(("content-range".into(), format!("bytes {r}-{}/{}", end - 1, i.body.len())));
        }
        headers.push(("content-length".into(), body.len().to_string()));
        Resp { status, headers, body: body.to_vec() }
    }
    /// Every stored response with its key.
    fn keys(&self) -> Vec<(Key, &Item)> {
        let mut o = vec![];
        for ((u, e), i) in &self.stat {
            o.push(((u.clone(), *e, None), i));
            if i.body.len() > CHUNK {
                for r in (0..i.body.len()).step_by(CHUNK) {
                    o.push(((u.clone(), *e, Some(r)), i));
                }
            }
        }
        o
    }
    fn fall_keys(&self) -> Vec<(Key, &Item)> {
        self.fall.iter().map(|((u, e), i)| ((u.clone(), *e, None), i)).collect()
    }
    /// Everything certified.
    fn known(&self, memo: &Memo) -> Vec<Rc<Known>> {
        let mut o = vec![];
        for (fall, ks) in [(false, self.keys()), (true, self.fall_keys())] {
            for ((u, e, r), i) in ks {
                o.push(memo.get(fall, &u, e, r, i));
            }
        }
        o
    }
    fn serve(&self, path: &str, accept: Option<&str>, range: Option<&str>) -> Option<(bool, Key)> {
        let range = match range {
            None => None,
            Some(r) => Some(parse_range(r)?),
        };
        let acc: BTreeSet<&str> = accept.unwrap_or("").split(',').map(|x| x.split(';').next().unwrap().trim()).collect();
        let mut order: Vec<Enc> = ["br", "zstd", "gzip", "deflate", "identity"].into_iter().filter(|e| acc.contains(e)).map(Some).collect();
        order.push(None);
        let own: Vec<_> = order.iter().filter_map(|e| self.stat.get_key_value(&(path.to_string(), *e))).collect();
        if let Some(r) = range {
            // the first accepted variant that has a chunk starting there
            if let Some((k, _)) = own.iter().find(|(_, i)| i.body.len() > CHUNK && r % CHUNK == 0 && r < i.body.len()) {
                return Some((false, (k.0.clone(), k.1, Some(r))));
            }
        }
        if let Some((k, i)) = own.first() {
            let chunked = i.body.len() > CHUNK;
            if chunked && range.is_some() {
                return None;
            }
            return Some((false, (k.0.clone(), k.1, chunked.then_some(0))));
        }
        // nearest enclosing scope
        let mut scopes = vec![path.to_string()];
        let mut p = path.to_string();
        while let Some(i) = p.rfind('/') {
            scopes.push(p[..=i].to_string());
            scopes.push(p[..i].to_string());
            p.truncate(i);
        }
        for s in scopes {
            for e in &order {
                if self.fall.contains_key(&(s.clone(), *e)) {
                    return Some((true, (s, *e, None)));
                }
            }
        }
        None
    }
    /// Only encoded variants of the asset at the path are left: it was deleted with a configuration
    /// that is not the one it was certified with.
    fn partial(&self, path: &str) -> bool {
        self.stat.keys().any(|(u, e)| u == path && e.is_some()) && !self.stat.contains_key(&(path.to_string(), None))
    }
    fn get(&self, fall: bool, k: &Key) -> Resp {
        Model::rsp(&if fall { &self.fall } else { &self.stat }[&(k.0.clone(), k.1)], k.2)
    }
}
/// The spelling of a range that its chunk is certified for, if it is not this one.
fn respell(r: &str) -> Option<(&'static str, Option<&'static str>)> {
    let num = |s: &str| s.strip_prefix('+').unwrap_or(s).parse::<usize>().ok();
    let (a, b) = r.trim().trim_start_matches("bytes=").split_once('-')?;
    let n = num(a)?;
    let plain = format!("bytes={n}-");
    if n == 0 {
        Some(("range-from-zero", None))
    } else if plain == r {
        None
    } else {
        Some((if b.is_empty() { "range-spelling" } else { "range-with-end" }, Some(Box::leak(plain.into_boxed_str()))))
    }
}
fn parse_range(r: &str) -> Option<usize> {
    let (a, b) = r.trim().strip_prefix("bytes=")?.split_once('-')?;
    let a: usize = a.parse().ok()?;
    if b.is_empty() || b.parse::<usize>().ok()? >= a {
        Some(a)
    } else {
        None
    }
}
/// Tree paths and tree entries by response, computed once (the bodies can be large).
#[derive(Default)]
struct Memo(RefCell<std::collections::HashMap<(bool, String, Enc, Option<usize>, Item0), Rc<Known>>>);
type Item0 = (u16, Vec<(String, String)>, usize, usize);
struct Known {
    path: Vec<Vec<u8>>,
    /// Built by the library from the same request and response.
    entry: Result<ihc::HttpCertificationTreeEntry<'static>, String>,
}
impl Memo {
    fn get(&self, fall: bool, u: &str, e: Enc, r: Option<usize>, i: &Item) -> Rc<Known> {
        let k = (fall, u.to_string(), e, r, (i.status, i.headers.clone(), i.body.as_ptr() as usize, i.body.len()));
        if let Some(p) = self.0.borrow().get(&k) {
            return p.clone();
        }
        let cel = Cel::Full(if r.is_some() { vec!["range"] } else { vec![] }, vec![], RH::Excluded(vec![]));
        let mut q = Req::get(if u.is_empty() { "/" } else { u });
        if let Some(r) = r.filter(|r| *r > 0) {
            q.headers.push(("range".into(), format!("bytes={r}-")));
        }
        let mut resp = Model::rsp(i, r);
        resp.headers.push((CEH.into(), cel.text()));
        let pth = if fall { Pth::Wild(u.into()) } else { Pth::Exact(u.into()) };
        let mut p: Vec<Vec<u8>> = pth.expr().iter().map(|s| s.as_bytes().to_vec()).collect();
        p.extend(cert_path(&cel, &q, &resp));
        let entry = catch(|| cel.certify(&q, &resp)).and_then(|x| x).map(|c| ihc::HttpCertificationTreeEntry::new(pth.lib(), c));
        let known = Rc::new(Known { path: p, entry });
        self.0.borrow_mut().insert(k, known.clone());
        known
    }
}
thread_local! {
    static MEMO: Memo = Memo::default();
}

struct Site {
    router: AssetRouter<'static>,
    tree: Rc<RefCell<ihc::HttpCertificationTree>>,
    model: Model,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Cert(usize),
    Del(usize),
    Clear,
}
fn run(batches: &[Batch], ops: &[Op]) -> Result<Site, String> {
    let tree: Rc<RefCell<ihc::HttpCertificationTree>> = Default::default();
    let mut s = Site { router: AssetRouter::with_tree(tree.clone()), tree, model: Model::default() };
    for o in ops {
        match o {
            Op::Cert(i) => {
                catch(|| s.router.certify_assets(batches[*i].assets(), batches[*i].cfgs())).and_then(|r| r.map_err(|e| format!("{e:?}")))?;
                s.model.certify(&batches[*i]);
            }
            Op::Del(i) => {
                catch(|| s.router.delete_assets(batches[*i].assets(), batches[*i].cfgs())).and_then(|r| r.map_err(|e| format!("{e:?}")))?;
                s.model.delete(&batches[*i]);
            }
            Op::Clear => {
                catch(|| s.router.delete_all_assets())?;
                s.model = Model::default();
            }
        }
    }
    Ok(s)
}
#[derive(Clone, Debug)]
struct Rq {
    url: String,
    accept: Option<&'static str>,
    range: Option<&'static str>,
}
impl Rq {
    fn req(&self) -> Req {
        let mut q = Req::get(&self.url);
        if let Some(a) = self.accept {
            q.headers.push(("Accept-Encoding".into(), a.into()));
        }
        if let Some(r) = self.range {
            q.headers.push(("Range".into(), r.into()));
        }
        q
    }
}
fn norm(h: &[(String, String)]) -> Vec<(String, String)> {
    let mut o: Vec<_> = h.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).filter(|(k, _)| k != "ic-certificate" && k != "ic-certificateexpression").collect();
    o.sort();
    o
}
fn same(a: &Resp, b: &Resp) -> bool {
    a.status == b.status && norm(&a.headers) == norm(&b.headers) && a.body == b.body
}
fn brief(r: &Resp) -> String {
    let b = &r.body[..r.body.len().min(20)];
    format!("{} {:?} {} bytes {:?}", r.status, norm(&r.headers), r.body.len(), String::from_utf8_lossy(b))
}
fn served(s: &Site, cert: &[u8], q: &Req) -> Result<Option<Resp>, String> {
    let ql = q.lib();
    catch(|| s.router.serve_asset(cert, &ql).ok().map(|r| Resp::from_lib(&r)))
}

/// C22: what is served.
fn check_serve(c: &Ctx, s: &Site, rqs: &[Rq], what: &dyn Fn() -> String) {
    for rq in rqs {
        let q = rq.req();
        if q.path().is_some_and(|p| s.model.partial(&p)) {
            continue;
        }
        let want = q.path().and_then(|p| s.model.serve(&p, rq.accept, rq.range)).map(|(f, k)| s.model.get(f, &k));
        let got = served(s, b"", &q);
        c.trace(1);
        let ok = match (&got, &want) {
            (Ok(None), None) => true,
            (Ok(Some(g)), Some(w)) => same(g, w),
            _ => false,
        };
        c.check(ok, "serve", || json!({"site": what(), "request": format!("{rq:?}"), "want": want.as_ref().map(brief), "got": format!("{:?}", got.as_ref().map(|g| g.as_ref().map(brief)))}));
    }
}
/// C23: whatever is served verifies.
fn check_verify(c: &Ctx, s: &Site, cert: &[u8], can: &[u8], rqs: &[Rq], what: &dyn Fn() -> String) {
    for rq in rqs {
        verify_one(c, s, cert, can, rq, &rq.req(), what);
    }
}
fn verify_one(c: &Ctx, s: &Site, cert: &[u8], can: &[u8], rq: &Rq, q: &Req, what: &dyn Fn() -> String) {
    {
        if q.path().is_some_and(|p| s.model.partial(&p)) {
            return;
        }
        let Ok(Some(r)) = served(s, cert, q) else { return };
        let got = run_verify_c(q, &r, can, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2);
        c.trace(1);
        let all = |h: &[(String, String)]| {
            let mut o: Vec<_> = h.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
            o.sort();
            o
        };
        match &got {
            Ok(Run { verdict: Verdict::Verified(st, h, b), version: 2, .. }) => {
                c.check(*st == r.status && *b == r.body && all(h) == all(&r.headers), "verified-differs", || json!({"site": what(), "request": format!("{rq:?}"), "served": brief(&r), "verified": format!("{st} {h:?} {} bytes", b.len())}));
                c.outcome(if r.status == 206 { "verified chunk" } else { "verified" });
            }
            _ => {
                // The recorded findings: only if the same request without the peculiarity verifies.
                let chunk = r.status == 206;
                let path = q.path().unwrap();
                let rejected_hash = matches!(&got, Ok(g) if g.err.starts_with("InvalidResponseHashes"));
                // an empty segment, and another response for the path without it
                let shared = matches!(&got, Ok(g) if g.err.starts_with("ExactExpressionPathMightExistInTree") || g.err.starts_with("MoreSpecificWildcardExpressionMightExistInTree"));
                let mut u = path.clone();
                while u.contains("//") {
                    u = u.replace("//", "/");
                }
                let squeezed = (u != path && s.model.serve(&u, rq.accept, rq.range) != s.model.serve(&path, rq.accept, rq.range)).then_some(u);
                let (key, plain) = if q.method != "GET" && rejected_hash {
                    ("method", rq.clone())
                } else if let (Some((u, _)), true) = (rq.url.split_once('?'), rejected_hash) {
                    ("query-string", Rq { url: u.into(), ..rq.clone() })
                } else if let (Some(u), true) = (squeezed, shared) {
                    ("double-slash", Rq { url: u, ..rq.clone() })
                } else if let (true, true, Some((key, range))) = (chunk, rejected_hash, rq.range.and_then(respell)) {
                    (key, Rq { range, ..rq.clone() })
                } else {
                    ("unverifiable", rq.clone())
                };
                let q2 = plain.req();
                let fine = key != "unverifiable"
                    && served(s, cert, &q2).ok().flatten().is_some_and(|r| {
                        matches!(run_verify_c(&q2, &r, can, crate::crypt::NOW, crate::crypt::OFFSET, &crate::crypt::root_pk(), 2), Ok(Run { verdict: Verdict::Verified(..), .. }))
                    });
                let key = if fine { key } else { "unverifiable" };
                c.fail(key, json!({"site": what(), "request": format!("{rq:?}"), "served": brief(&r), "got": format!("{got:?}").chars().take(400).collect::<String>()}));
            }
        }
    }
}
/// C24: the tree holds exactly the certification of the model's responses.
fn check_tree(c: &Ctx, s: &Site, memo: &Memo, what: &dyn Fn() -> String) {
    let known = s.model.known(memo);
    let root = s.tree.borrow().root_hash();
    c.check(catch(|| s.router.root_hash()) == Ok(root), "root-hash", || json!({"site": what()}));
    tree_is(c, &s.tree.borrow(), &known, what);
}
/// The tree certifies exactly these.
fn tree_is(c: &Ctx, tree: &ihc::HttpCertificationTree, known: &[Rc<Known>], what: &dyn Fn() -> String) {
    c.trace(1);
    let want: BTreeSet<_> = known.iter().map(|k| k.path.clone()).collect();
    let root = tree.root_hash();
    if known.is_empty() {
        c.check(root == ihc::HttpCertificationTree::default().root_hash(), "empty-root", || json!({"site": what()}));
        return;
    }
    // the witnesses of all expected entries together reveal the whole tree
    let mut all: Option<ic_certification::HashTree> = None;
    for k in known {
        let entry = match &k.entry {
            Ok(e) => e,
            Err(e) => {
                c.fail("entry", json!({"site": what(), "error": e}));
                return;
            }
        };
        // the path in the tree itself is a URL for which the entry has a witness
        let url = String::from_utf8(entry_url(&k.path)).unwrap();
        let step = catch(|| tree.witness(entry, &url).map_err(|e| format!("{e:?}"))).and_then(|x| x).and_then(|w| match all.take() {
            None => Ok(w),
            Some(a) => catch(|| ic_certification::merge_hash_trees(a, w)),
        });
        match step {
            Ok(m) => all = Some(m),
            Err(e) => {
                c.fail("witness", json!({"site": what(), "url": url, "error": e}));
                return;
            }
        }
    }
    let all = T::from_impl(&all.unwrap());
    fn pruned(t: &T) -> bool {
        match t {
            T::P(_) => true,
            T::F(a, b) => pruned(a) || pruned(b),
            T::L(_, a) => pruned(a),
            _ => false,
        }
    }
    let have: BTreeSet<_> = all.paths().into_iter().map(|(p, _)| p).collect();
    let txt = |p: &Vec<Vec<u8>>| p.iter().map(|s| if s.len() == 32 { crate::ctx::hx(&s[..3]) } else { String::from_utf8_lossy(s).into_owned() }).collect::<Vec<_>>().join(" ");
    c.check(all.digest() == root && have == want && !pruned(&all), if pruned(&all) { "extra-certified" } else { "certified-set" }, || {
        json!({"site": what(), "digest_ok": all.digest() == root, "missing": want.difference(&have).map(txt).collect::<Vec<_>>(), "unexpected": have.difference(&want).map(txt).collect::<Vec<_>>(), "tree": all.show()})
    });
}
fn entry_url(p: &[Vec<u8>]) -> Vec<u8> {
    let segs: Vec<&[u8]> = p[1..].iter().map(|s| s.as_slice()).take_while(|s| *s != b"<$>" && *s != b"<*>").collect();
    let mut o = b"/".to_vec();
    o.extend(segs.join(&b'/'));
    o
}
/// C25: the maps.
fn check_maps(c: &Ctx, s: &Site, universe: &[Key], what: &dyn Fn() -> String) {
    fn one<'a>(c: &Ctx, m: &'a impl AssetMap<'a>, want: &BTreeMap<Key, Resp>, universe: &[Key], name: &str, what: &dyn Fn() -> String) {
        let detail = |why: &str, k: String| json!({"site": what(), "map": name, "what": why, "key": k});
        for k in universe {
            let got = catch(|| m.get(k.0.clone(), k.1.map(enc), k.2).map(Resp::from_lib));
            let ok = match (&got, want.get(k)) {
                (Ok(None), None) => true,
                (Ok(Some(g)), Some(w)) => same(g, w),
                _ => false,
            };
            c.trans(1);
            c.check(ok, "get", || detail("get", format!("{k:?}: {:?}", got.as_ref().map(|g| g.as_ref().map(brief)))));
        }
        let mut seen: BTreeSet<(String, Option<String>, Option<usize>)> = BTreeSet::new();
        for ((p, e, r), resp) in m.iter() {
            c.check(seen.insert((p.to_string(), e.map(|e| e.to_string()), r)), "iter-twice", || detail("yielded twice", format!("{p} {e:?} {r:?}")));
            let k = want.iter().find(|(k, _)| k.0 == p && k.1 == e && k.2 == r);
            c.check(k.is_some_and(|(_, w)| same(&Resp::from_lib(resp), w)), "iter", || detail("yielded", format!("{p} {e:?} {r:?}: {}", brief(&Resp::from_lib(resp)))));
        }
        c.check(seen.len() == want.len(), "iter-missing", || detail("number yielded", seen.len().to_string()));
        c.check(m.len() == want.len() && m.is_empty() == want.is_empty(), "len", || detail("len", m.len().to_string()));
    }
    let stat: BTreeMap<Key, Resp> = s.model.keys().into_iter().map(|(k, i)| (k.clone(), Model::rsp(i, k.2))).collect();
    let fall: BTreeMap<Key, Resp> = s.model.fall_keys().into_iter().map(|(k, i)| (k.clone(), Model::rsp(i, None))).collect();
    c.trace(2);
    // `iter` borrows the router for as long as its content lives; nothing of it is kept
    let r: &'static AssetRouter<'static> = unsafe { &*(&s.router as *const _) };
    one(c, r.get_assets(), &stat, universe, "assets", what);
    one(c, r.get_fallback_assets(), &fall, universe, "fallback", what);
}

// ------------------------------------------------------------------ scopes

fn leak(n: usize, seed: u8) -> &'static [u8] {
    Box::leak((0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed) ^ (i >> 8) as u8).collect::<Vec<u8>>().into_boxed_slice())
}
fn file(path: &'static str) -> Cfg {
    Cfg::File { path, ct: None, hs: vec![], fb: vec![], al: vec![], enc: vec![] }
}
/// The batches that histories are made of; conflicting URLs are in different batches only.
fn small() -> Vec<Batch> {
    vec![
        Batch {
            name: "index(gz,br) for / with aliases",
            assets: vec![("index.html", b"<i>"), ("index.html.gz", b"gz<i>"), ("index.html.br", b"br<i>")],
            cfgs: vec![Cfg::File {
                path: "index.html",
                ct: Some("text/html"),
                hs: vec![("cache-control", "no-cache"), ("X-Frame", "a"), ("X-Frame", "b")],
                fb: vec![("/", None)],
                al: vec!["/", "/home"],
                enc: vec![("gzip", ".gz"), ("br", ".br")],
            }],
        },
        Batch {
            name: "index2(gz) 404 for /",
            assets: vec![("index.html", b"<j>"), ("index.html.gz", b"gz<j>")],
            cfgs: vec![Cfg::File { path: "index.html", ct: Some("text/plain"), hs: vec![], fb: vec![("/", Some(404))], al: vec!["/"], enc: vec![("gzip", ".gz"), ("zstd", ".zst")] }],
        },
        Batch {
            name: "js/app.js(br) by pattern",
            assets: vec![("js/app.js", b"app"), ("js/app.js.br", b"brapp")],
            cfgs: vec![Cfg::Pat { pat: "*.js", ct: Some("text/javascript"), hs: vec![("x-h", "1")], enc: vec![("br", ".br")] }],
        },
        Batch {
            name: "404 for /js and /css/",
            assets: vec![("404.html", b"404"), ("404.html.zz", b"zz404")],
            cfgs: vec![Cfg::File { path: "404.html", ct: None, hs: vec![], fb: vec![("/js", Some(404)), ("/css/", Some(404))], al: vec!["/404"], enc: vec![("deflate", ".zz")] }],
        },
        Batch { name: "redirects", assets: vec![], cfgs: vec![Cfg::Redir("/old", "/", true), Cfg::Redir("/js/old.js", "/js/app.js", false), Cfg::Redir("/home", "/", false)] },
        Batch { name: "js/app.js plain", assets: vec![("js/app.js", b"plain")], cfgs: vec![] },
        Batch { name: "/js, /js/ and empty", assets: vec![("js", b"js"), ("/js/", b"js/"), ("empty", b"")], cfgs: vec![file("other"), Cfg::Pat { pat: "e*", ct: Some("x/y"), hs: vec![], enc: vec![("br", ".br")] }] },
        Batch { name: "other redirects", assets: vec![], cfgs: vec![Cfg::Redir("/index.html", "/home", false), Cfg::Redir("/old", "/home", false)] },
    ]
}
fn small_rqs(all: bool) -> Vec<Rq> {
    let mut o = vec![];
    for u in ["/", "/index.html", "/home", "/js/app.js", "/js/app.js.br", "/js/other.js", "/js", "/js/", "/js/x/y", "/css", "/css/", "/css/a", "/old", "/js/old.js", "/404", "/404.html", "/empty", "/nope", "/nope/x/", "/%69ndex.html", "https://h.io/js/app.js#f"] {
        for a in [None, Some("gzip, deflate, br"), Some("gzip;q=1.0, identity;q=0"), Some("deflate")] {
            o.push(Rq { url: u.into(), accept: a, range: None });
        }
        if all {
            o.push(Rq { url: u.into(), accept: Some("br"), range: Some("bytes=0-") });
            o.push(Rq { url: u.into(), accept: None, range: Some("bytes=2000000-") });
        }
    }
    if all {
        for r in ["bytes=1-2", "bytes=2-1", "bytes=-1", "byte=0-", "bytes=0-1-2", "bytes=x-", "", "bytes=99999999999999999999-", "bytes=1-18446744073709551616", " bytes=0-", "bytes=0"] {
            o.push(Rq { url: "/index.html".into(), accept: None, range: Some(r) });
        }
        for u in ["/?", "/index.html?a=b", "/js/other.js?x", "/js//app.js", "/js//nope", "//", "/index.html/", "/home/", "/%2e", "/js%2Fapp.js", "/%ff", "/js/../index.html"] {
            o.push(Rq { url: u.into(), accept: Some("br"), range: None });
        }
    }
    o
}
fn big() -> Vec<Batch> {
    let cfg = |al: Vec<&'static str>, fb: Vec<(&'static str, Option<u16>)>| Cfg::File { path: "big", ct: Some("x/big"), hs: vec![], fb, al, enc: vec![("gzip", ".gz")] };
    vec![
        Batch { name: "big: 3 chunks", assets: vec![("big", leak(2 * CHUNK + 1, 1))], cfgs: vec![] },
        Batch { name: "big: 2 chunks, gz 2 chunks, alias", assets: vec![("big", leak(CHUNK + 1, 2)), ("big.gz", leak(2 * CHUNK, 3))], cfgs: vec![cfg(vec!["/al"], vec![])] },
        Batch { name: "big: exactly one chunk", assets: vec![("big", leak(CHUNK, 4))], cfgs: vec![] },
        Batch { name: "big: small, gz 2 chunks, fallback", assets: vec![("big", b"small"), ("big.gz", leak(CHUNK + 7, 5))], cfgs: vec![cfg(vec![], vec![("/", None)])] },
        Batch { name: "big: redirect", assets: vec![], cfgs: vec![Cfg::Redir("/big", "/al", true)] },
    ]
}
fn big_rqs(all: bool) -> Vec<Rq> {
    let mut o = vec![];
    for (u, a) in [("/big", None), ("/big", Some("gzip")), ("/al", Some("gzip"))] {
        for r in [None, Some("bytes=2000000-"), Some("bytes=4000000-")] {
            o.push(Rq { url: u.into(), accept: a, range: r });
        }
    }
    o.push(Rq { url: "/al".into(), accept: None, range: Some("bytes=2000000-") });
    o.push(Rq { url: "/nope".into(), accept: Some("gzip"), range: None });
    if all {
        for r in ["bytes=0-", "bytes=1-", "bytes=1999999-", "bytes=6000000-", "bytes=2000000-2000010", "bytes=0-0", "bytes=2000000-1", "bytes=2000000-3999999"] {
            o.push(Rq { url: "/big".into(), accept: None, range: Some(r) });
            o.push(Rq { url: "/big".into(), accept: Some("gzip"), range: Some(r) });
        }
    }
    o
}
fn universe(bs: &[Batch]) -> Vec<Key> {
    let mut m = Model::default();
    let mut names = BTreeSet::new();
    for b in bs {
        m.certify(b);
        names.extend(m.stat.keys().chain(m.fall.keys()).map(|k| k.0.clone()));
    }
    names.extend(["", "/x", "index.html", "/js//app.js"].map(|s| s.to_string()));
    let mut o = vec![];
    for n in names {
        for e in [None, Some("br"), Some("zstd"), Some("gzip"), Some("deflate"), Some("identity")] {
            for r in [None, Some(0), Some(1), Some(CHUNK), Some(2 * CHUNK), Some(3 * CHUNK)] {
                o.push((n.clone(), e, r));
            }
        }
    }
    o
}

/// All histories of at most `depth` operations over the batches.
fn histories(n: usize, depth: usize) -> Vec<Vec<Op>> {
    let ops: Vec<Op> = (0..n).map(Op::Cert).chain((0..n).map(Op::Del)).chain([Op::Clear]).collect();
    let mut o: Vec<Vec<Op>> = vec![vec![]];
    let mut last = o.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|h| ops.iter().map(move |x| [h.as_slice(), &[*x]].concat())).collect();
        o.extend(last.iter().cloned());
    }
    o
}
fn show(bs: &[Batch], h: &[Op]) -> String {
    h.iter()
        .map(|o| match o {
            Op::Cert(i) => format!("certify [{}]", bs[*i].name),
            Op::Del(i) => format!("delete [{}]", bs[*i].name),
            Op::Clear => "clear".into(),
        })
        .collect::<Vec<_>>()
        .join("; ")
}
/// Static layouts: one asset with any subset of encodings and any set of scopes and aliases.
fn layouts(thorough: bool) -> Vec<Batch> {
    const ENC: [(&str, &str, &str); 5] = [("br", ".br", "a.br"), ("zstd", ".zst", "a.zst"), ("gzip", ".gz", "a.gz"), ("deflate", ".zz", "a.zz"), ("identity", ".id", "a.id")];
    const BODY: [&[u8]; 5] = [b"B", b"Z", b"G", b"D", b"I"];
    let mut o = vec![];
    // encodings
    for m in 0..32usize {
        let on: Vec<usize> = (0..5).filter(|i| m >> i & 1 == 1).collect();
        let mut assets: Vec<(&'static str, &'static [u8])> = vec![("a", b"plain")];
        assets.extend(on.iter().map(|i| (ENC[*i].2, BODY[*i])));
        for cfg_all in [false, true] {
            // configured: those present, or all of them
            let enc: Vec<_> = (0..5).rev().filter(|i| cfg_all || on.contains(i)).map(|i| (ENC[i].0, ENC[i].1)).collect();
            let cfgs = vec![Cfg::File { path: "a", ct: Some("t"), hs: vec![("h", "v")], fb: vec![("/f", None), ("/g", Some(203))], al: vec!["/al"], enc: enc.clone() }];
            o.push(Batch { name: "encodings", assets: assets.clone(), cfgs });
            if cfg_all {
                o.push(Batch { name: "encodings by pattern", assets: assets.clone(), cfgs: vec![Cfg::Pat { pat: "a", ct: None, hs: vec![], enc }] });
            }
        }
    }
    // which configuration applies
    let cfgs = [
        Cfg::File { path: "a", ct: Some("file"), hs: vec![], fb: vec![], al: vec!["/al"], enc: vec![("gzip", ".gz")] },
        Cfg::Pat { pat: "a", ct: Some("pattern"), hs: vec![("h", "1")], enc: vec![("br", ".br"), ("gzip", ".gz")] },
        Cfg::Pat { pat: "*", ct: Some("all"), hs: vec![("h", "2")], enc: vec![] },
        Cfg::Redir("/a", "/to", true),
        Cfg::Redir("/a", "/to2", false),
    ];
    for x in 0..6usize.pow(3) {
        let pick: Vec<usize> = [x % 6, x / 6 % 6, x / 36].into_iter().filter(|i| *i < 5).collect();
        o.push(Batch { name: "configurations", assets: vec![("a", b"plain"), ("a.gz", b"G"), ("a.br", b"B")], cfgs: pick.iter().map(|i| cfgs[*i].clone()).collect() });
    }
    // with and without the slash in front
    for (a, gz) in [("a", "a.gz"), ("/a", "/a.gz")] {
        for p in ["a", "/a", "A", "a/", " a", "*", "./a"] {
            let assets: Vec<(&'static str, &'static [u8])> = vec![(a, b"plain"), (gz, b"G")];
            o.push(Batch { name: "names", assets: assets.clone(), cfgs: vec![Cfg::File { path: p, ct: Some("f"), hs: vec![("h", "v")], fb: vec![("/f", None)], al: vec!["/al"], enc: vec![("gzip", ".gz")] }] });
            o.push(Batch { name: "names", assets, cfgs: vec![Cfg::Pat { pat: p, ct: Some("f"), hs: vec![("h", "v")], enc: vec![("gzip", ".gz")] }] });
        }
    }
    // scopes and exact paths
    let scopes = ["/", "/x", "/x/", "/x/y", "/x/y/", ""];
    let exact = ["/", "/x", "/x/", "/x/y", "/x/y/"];
    let files: [(&'static str, &'static [u8]); 6] = [("s0", b"0"), ("s1", b"1"), ("s2", b"2"), ("s3", b"3"), ("s4", b"4"), ("s5", b"5")];
    for m in 0..1usize << 6 {
        // "" and "/" name the same place
        if m & 1 == 1 && m >> 5 & 1 == 1 {
            continue;
        }
        for e in 0..1usize << 5 {
            if !thorough && (m.count_ones() > 3 || e.count_ones() > 2) {
                continue;
            }
            let mut assets = vec![];
            let mut cfgs = vec![];
            for i in 0..6 {
                if m >> i & 1 == 1 {
                    assets.push(files[i]);
                    cfgs.push(Cfg::File { path: files[i].0, ct: None, hs: vec![], fb: vec![(scopes[i], [None, Some(404), Some(200)][i % 3])], al: vec![], enc: vec![] });
                }
            }
            for i in 0..5 {
                if e >> i & 1 == 1 {
                    cfgs.push(Cfg::Redir(exact[i], "/to", i % 2 == 0));
                }
            }
            o.push(Batch { name: "scopes", assets, cfgs });
        }
    }
    o
}
fn layout_rqs(b: &Batch) -> Vec<Rq> {
    let mut o = vec![];
    if b.name == "scopes" {
        for u in ["/", "/x", "/x/", "/x/y", "/x/y/", "/x/y/z", "/x/z", "/xx", "/x/yy", "/y", "/y/x/", "/s0"] {
            o.push(Rq { url: u.into(), accept: None, range: None });
        }
    } else {
        for u in ["/a", "/al", "/f/x", "/g/", "/g"] {
            for a in [
                None,
                Some(""),
                Some("br"),
                Some("zstd"),
                Some("gzip"),
                Some("deflate"),
                Some("identity"),
                Some("gzip,zstd"),
                Some("deflate, gzip"),
                Some("identity, deflate;q=0.1"),
                Some("x, identity, gzip"),
                Some("gzip, deflate, br, zstd"),
                Some("identity,deflate,gzip,zstd,br"),
                Some("*"),
                Some("br;q=0.1 , gzip;q=1"),
                Some("compress,,zstd"),
            ] {
                o.push(Rq { url: u.into(), accept: a, range: None });
            }
        }
    }
    o
}

/// One site with every encoding, one with everything else, and two with chunks.
fn rich_sites() -> Vec<(&'static str, Vec<Batch>)> {
    let enc = vec![("gzip", ".gz"), ("br", ".br"), ("deflate", ".zz"), ("zstd", ".zst"), ("identity", ".id")];
    let cfg = Cfg::File { path: "a", ct: Some("t"), hs: vec![("h", "v")], fb: vec![("/f", Some(404))], al: vec![], enc };
    let every = Batch { name: "every encoding", assets: vec![("a", b"plain"), ("a.br", b"B"), ("a.zst", b"Z"), ("a.gz", b"G"), ("a.zz", b"D"), ("a.id", b"I")], cfgs: vec![cfg] };
    let s = small();
    let b = big();
    vec![
        ("encodings", vec![every]),
        ("urls", [0, 2, 3, 4, 6].map(|i| s[i].clone()).to_vec()),
        ("chunks", vec![b[1].clone()]),
        ("chunks of gzip", vec![b[3].clone()]),
    ]
}
const ITEMS: [&str; 8] = ["br", "zstd", "gzip", "deflate", "identity", "compress", "*", ""];
/// Every Accept-Encoding list of at most `n` items with every spacing and weight of a pool.
fn accepts(n: u32) -> Vec<String> {
    let mut o = vec![];
    for sep in [",", ", ", " ,", " , ", "\t,", ",\t ", "  ,  "] {
        for w in ["", ";q=0.5", "; q=1", " ;q=1.0", " ; q=0.001", "\t;q=1"] {
            for (pre, post) in [("", ""), (" ", ""), ("", " "), ("\t", "\t")] {
                for k in 1..=n {
                    for mut x in 0..8usize.pow(k) {
                        let mut items = vec![];
                        for _ in 0..k {
                            items.push(format!("{}{w}", ITEMS[x % 8]));
                            x /= 8;
                        }
                        o.push(format!("{pre}{}{post}", items.join(sep)));
                    }
                }
            }
        }
    }
    o.sort();
    o.dedup();
    o
}
fn ranges() -> Vec<String> {
    let mut o: Vec<String> = ["bytes=2000000-", "bytes=2000000-2000001", "bytes=0-"].iter().flat_map(|s| near(s)).collect();
    let nums = ["0", "1", "1999999", "2000000", "2000001", "3999999", "4000000", "4000001", "6000000", "2147483648", "4294967296", "4296967296", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073711551616", "02000000", "+2000000", "2e6", "0x1e8480", ""];
    for a in nums {
        for b in nums {
            for f in ["bytes=A-B", "bytes=A-B,0-1", "bytes A-B", "Bytes=A-B", "bytes = A - B", "bits=A-B", "bytes=A-B/*"] {
                o.push(f.replace('A', a).replace('B', b));
            }
        }
    }
    o.sort();
    o.dedup();
    o
}
/// Requests in every spelling, with the responses that may be served: the model's, and where
/// the spelling is not one that every reader understands the same way, those of the other readings.
fn spelled(c: &Ctx, site: &str) -> Vec<(Rq, Req, Vec<Rq>)> {
    let st = |s: &str| -> &'static str { Box::leak(s.to_string().into_boxed_str()) };
    let mut o = vec![];
    match site {
        "encodings" => {
            for (n, urls) in [(c.pick(2, 3), vec!["/a"]), (1, vec!["/a", "/f/x"])] {
                for a in accepts(n) {
                    for u in &urls {
                        let rq = Rq { url: u.to_string(), accept: Some(st(&a)), range: None };
                        o.push((rq.clone(), rq.req(), vec![rq]));
                    }
                }
            }
            for s in ["gzip, br", "br;q=0.1,deflate", "identity"] {
                for a in near(s) {
                    for u in ["/a", "/f"] {
                        let rq = Rq { url: u.to_string(), accept: Some(st(&a)), range: None };
                        let trim = |s: &str| s.split([',', ';']).map(|x| x.trim_matches([' ', '\t'])).collect::<Vec<_>>().join(",");
                        let alts = [a.clone(), a.to_ascii_lowercase(), trim(&a), trim(&a).to_ascii_lowercase()].map(|a| {
                            // a parameter is not an encoding
                            let a: Vec<&str> = a.split(',').map(|x| x.split(';').next().unwrap()).filter(|x| !x.contains("q=")).collect();
                            Rq { accept: Some(st(&a.join(","))), ..rq.clone() }
                        });
                        o.push((rq.clone(), rq.req(), alts.to_vec()));
                    }
                }
            }
            // the header's name, and headers that are not it
            for a in ["gzip", "deflate, br"] {
                for (name, real) in [("accept-encoding", true), ("ACCEPT-ENCODING", true), ("Accept-encoding", true), ("Accept", false), ("Accept-Encodings", false), ("X-Accept-Encoding", false), ("Content-Encoding", false), ("TE", false), ("Accept_Encoding", false), ("accept-encodin", false), ("", false)] {
                    for (before, after) in [(None, None), (Some(("Accept", "br")), None), (None, Some(("te", "br")))] {
                        let rq = Rq { url: "/a".into(), accept: real.then_some(a), range: None };
                        let mut q = Req::get("/a");
                        for h in [before, Some((name, a)), after].into_iter().flatten() {
                            q.headers.push((h.0.to_string(), h.1.to_string()));
                        }
                        o.push((rq.clone(), q, vec![rq]));
                    }
                }
                // the method makes no difference to what is served
                for m in ["HEAD", "POST", "PUT", "OPTIONS"] {
                    let rq = Rq { url: "/a".into(), accept: Some(a), range: None };
                    let q = Req { method: m, ..rq.req() };
                    o.push((rq.clone(), q, vec![rq]));
                }
                // several such headers: the first, or all of them
                for b in ["zstd", "br", "", "identity"] {
                    let rq = Rq { url: "/a".into(), accept: Some(a), range: None };
                    let mut q = rq.req();
                    q.headers.push(("accept-encoding".into(), b.into()));
                    o.push((rq.clone(), q, vec![rq.clone(), Rq { accept: Some(st(&format!("{a},{b}"))), ..rq }]));
                }
            }
        }
        "urls" => {
            for u in ["/js/app.js", "/home", "/", "/css/", "/js/old.js", "https://h.io/js/x", "/404?a=b#c"] {
                let mut all = near(u);
                if c.thorough() {
                    all = all.iter().flat_map(|x| near(x)).collect();
                    all.sort();
                    all.dedup();
                }
                for x in all {
                    // what a client can send: printable ASCII without the characters a URL cannot have
                    if x.bytes().all(|b| (0x21..0x7f).contains(&b) && !b"\"<>\\^`{|}".contains(&b)) && (x.starts_with('/') && !x.contains("://") || x.starts_with("https://h.io/")) && !x.starts_with("//") {
                        let rq = Rq { url: x, accept: Some("br"), range: None };
                        o.push((rq.clone(), rq.req(), vec![rq]));
                    }
                }
            }
        }
        _ => {
            for (u, a) in [("/big", None), ("/big", Some("gzip")), ("/nope", None)] {
                for r in ranges() {
                    let rq = Rq { url: u.into(), accept: a, range: Some(st(&r)) };
                    let mut alts = vec![rq.clone()];
                    // unusual spellings may be ignored or understood
                    if !r.strip_prefix("bytes=").and_then(|x| x.split_once('-')).is_some_and(|(a, b)| a.bytes().all(|x| x.is_ascii_digit()) && b.bytes().all(|x| x.is_ascii_digit())) {
                        alts.push(Rq { range: None, ..rq.clone() });
                        if let Some((a, b)) = r.trim().to_ascii_lowercase().trim_start_matches("bytes").trim_start_matches("=bytes").trim_start_matches(['=', ' ']).split_once('-') {
                            alts.push(Rq { range: Some(st(&format!("bytes={}-{}", a.trim(), b.trim()))), ..rq.clone() });
                        }
                    }
                    o.push((rq.clone(), rq.req(), alts));
                }
            }
            for (name, real) in [("range", true), ("RANGE", true), ("Ranges", false), ("Content-Range", false), ("If-Range", false), ("Accept-Ranges", false)] {
                for r in ["bytes=2000000-", "bytes=1-"] {
                    let rq = Rq { url: "/big".into(), accept: None, range: real.then_some(r) };
                    let mut q = Req::get("/big");
                    q.headers.push((name.into(), r.into()));
                    o.push((rq.clone(), q, vec![rq]));
                }
            }
        }
    }
    o
}
fn spellings(c: &'static Ctx, verify: bool) {
    let mut total = 0;
    for (k, (name, bs)) in rich_sites().iter().enumerate() {
        let all = spelled(c, name);
        total += all.len();
        let ops: Vec<Op> = (0..bs.len()).map(Op::Cert).collect();
        all.par_chunks(512).enumerate().for_each(|(ci, chunk)| {
            if c.stopped() {
                return;
            }
            c.mark(k as u64, 3, ci as u64, 0);
            let s = match run(bs, &ops) {
                Ok(s) => s,
                Err(e) => return c.fail("operation", json!({"site": name, "error": e})),
            };
            let what = || format!("{name}: {}", show(bs, &ops));
            let certs = Certs::new(&[s.router.root_hash()]);
            let (cert, can) = (certs.cert(0), Certs::canister(0));
            for (rq, q, alts) in chunk {
                c.state(1);
                if verify {
                    verify_one(c, &s, &cert, &can, rq, q, &what);
                    continue;
                }
                let got = served(&s, b"", q);
                c.trace(1);
                let wants: Vec<Option<Resp>> = alts.iter().map(|rq| q.path().and_then(|p| s.model.serve(&p, rq.accept, rq.range)).map(|(f, k)| s.model.get(f, &k))).collect();
                let ok = wants.iter().any(|w| match (&got, w) {
                    (Ok(None), None) => true,
                    (Ok(Some(g)), Some(w)) => same(g, w),
                    _ => false,
                }) || (alts.len() > 1 && got == Ok(None));
                c.check(ok, "serve", || json!({"site": what(), "request": format!("{q:?}"), "want one of": wants.iter().map(|w| w.as_ref().map(brief)).collect::<Vec<_>>(), "got": format!("{:?}", got.as_ref().map(|g| g.as_ref().map(brief)))}));
            }
            c.idle();
        });
    }
    c.note("bound spellings", format!("{total} requests: every Accept-Encoding list of <= {} items with every spacing and weight, Range headers, header names and URLs one edit ({}) from usual ones", c.pick(2, 3), if c.thorough() { "two for URLs" } else { "or less" }));
}

type Visit = dyn Fn(&Ctx, &Site, &[u8], &[u8], &[Rq], &[Key], &dyn Fn() -> String) + Sync;
/// Visit every state of one family of histories; `certs`: with a certificate for each root hash.
fn explore(c: &'static Ctx, name: &str, bs: &[Batch], hs: &[Vec<Op>], rqs: &[Rq], certs: bool, visit: &Visit) {
    let keys = universe(bs);
    let n = std::sync::atomic::AtomicU64::new(0);
    // one certificate tree per chunk (the root hash of a history is not the same in every run)
    hs.par_chunks(if certs { 48 } else { 1 }).enumerate().for_each(|(ci, chunk)| {
        if c.stopped() {
            return;
        }
        c.mark(ci as u64, 0, 0, 0);
        let sites: Vec<(&Vec<Op>, Site)> = chunk
            .iter()
            .filter_map(|h| match run(bs, h) {
                Ok(s) => Some((h, s)),
                Err(e) => {
                    c.fail("operation", json!({"history": show(bs, h), "error": e}));
                    None
                }
            })
            .collect();
        let all = (certs && !sites.is_empty()).then(|| Certs::new(&sites.iter().map(|s| s.1.router.root_hash()).collect::<Vec<_>>()));
        for (i, (h, s)) in sites.iter().enumerate() {
            c.state(1);
            c.trans(h.len() as u64);
            let (cert, can) = match &all {
                Some(x) => (x.cert(i), Certs::canister(i).to_vec()),
                None => (vec![], vec![]),
            };
            visit(c, s, &cert, &can, rqs, &keys, &|| show(bs, h));
            if h.len() == 3 && n.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 997 == 500 {
                c.sample(|| json!({"history": show(bs, h), "stored": s.model.keys().len(), "root": crate::ctx::hx(&s.router.root_hash()[..4])}));
            }
        }
        c.idle();
    });
    let d = hs.iter().map(|h| h.len()).max().unwrap_or(0);
    c.note(&format!("bound {name}"), format!("{} histories of <= {d} operations (certify/delete a batch, clear) over {} batches, {} requests, {} map keys", hs.len(), bs.len(), rqs.len(), keys.len()));
}
fn explore_layouts(c: &'static Ctx, certs: bool, visit: &Visit) {
    let ls = layouts(c.thorough());
    let one = [Op::Cert(0)];
    ls.par_chunks(48).enumerate().for_each(|(ci, chunk)| {
        if c.stopped() {
            return;
        }
        c.mark(ci as u64, 1, 0, 0);
        let sites: Vec<(&Batch, Site)> = chunk
            .iter()
            .filter_map(|b| match run(std::slice::from_ref(b), &one) {
                Ok(s) => Some((b, s)),
                Err(e) => {
                    c.fail("operation", json!({"layout": format!("{b:?}"), "error": e}));
                    None
                }
            })
            .collect();
        let all = (certs && !sites.is_empty()).then(|| Certs::new(&sites.iter().map(|s| s.1.router.root_hash()).collect::<Vec<_>>()));
        for (i, (b, s)) in sites.iter().enumerate() {
            c.state(1);
            c.trans(1);
            let (cert, can) = match &all {
                Some(x) => (x.cert(i), Certs::canister(i).to_vec()),
                None => (vec![], vec![]),
            };
            visit(c, s, &cert, &can, &layout_rqs(b), &[], &|| format!("{b:?}"));
        }
        c.idle();
    });
    c.note("bound layouts", format!("{} single layouts: all subsets of the encodings present/configured, and sets of fallback scopes x exact paths", ls.len()));
}
fn runs(c: &'static Ctx, all: bool, certs: bool, big_runs: bool, depth: (usize, usize), visit: &Visit) {
    let bs = small();
    explore(c, "small", &bs, &histories(bs.len(), c.pick(depth.0, depth.1)), &small_rqs(all), certs, visit);
    if c.stopped() {
        return;
    }
    if big_runs {
        let bs = big();
        explore(c, "large bodies", &bs, &histories(bs.len(), c.pick(depth.0 - 1, depth.1 - 1)), &big_rqs(all), certs, visit);
    }
}

/// Which assets a pattern applies to.
fn patterns(c: &'static Ctx) {
    const TOK: [&str; 8] = ["a", "b", "/", "*", "?", "[ab]", "[!ab]", "{a,b/}"];
    let mut pats = vec![];
    let n = c.pick(3, 4);
    for k in 1..=n {
        for mut x in 0..8usize.pow(k) {
            let mut p = String::new();
            for _ in 0..k {
                p.push_str(TOK[x % 8]);
                x /= 8;
            }
            if !p.contains("**") {
                pats.push(p);
            }
        }
    }
    let mut paths: Vec<String> = vec![];
    let mut last = vec![String::new()];
    for _ in 0..4 {
        last = last.iter().flat_map(|p| ["a", "b", "/", "A"].map(|x| format!("{p}{x}"))).filter(|p| !p.starts_with('/')).collect();
        paths.extend(last.iter().cloned());
    }
    let lead: Vec<String> = paths.iter().map(|p| format!("/{p}")).collect();
    pats.par_iter().enumerate().for_each(|(i, pat)| {
        if c.stopped() {
            return;
        }
        c.mark(i as u64, 2, 0, 0);
        // asset paths may be given with or without the slash in front
        for (lead, paths) in [(false, &paths), (true, &lead)] {
        let got = catch(|| {
            let mut r = AssetRouter::default();
            let cfg = AssetConfig::Pattern { pattern: pat.clone(), content_type: Some("t".into()), headers: vec![], encodings: vec![] };
            let e = r.certify_assets(paths.iter().map(|p| Asset::new(p.as_str(), p.as_bytes())), vec![cfg]).map_err(|e| format!("{e:?}"));
            e.map(|_| paths.iter().map(|p| r.get_assets().get(if lead { p.clone() } else { format!("/{p}") }, None, None).map(|r| r.headers().iter().any(|h| h.0 == "content-type"))).collect::<Vec<_>>())
        });
        let want: Vec<_> = paths.iter().map(|p| Some(glob(pat, p))).collect();
        c.state(1);
        c.trans(paths.len() as u64);
        c.trace(paths.len() as u64);
        c.check(got == Ok(Ok(want.clone())), "pattern", || {
            let wrong: Vec<&String> = match &got {
                Ok(Ok(g)) => paths.iter().enumerate().filter(|(i, _)| g[*i] != want[*i]).map(|x| x.1).collect(),
                _ => vec![],
            };
            json!({"pattern": pat, "wrong for": wrong, "error": if wrong.is_empty() { format!("{got:?}").chars().take(200).collect() } else { String::new() }})
        });
        }
        c.idle();
    });
    c.note("bound patterns", format!("{} patterns of <= {n} tokens for {} paths", pats.len(), 2 * paths.len()));
}
pub fn c22(c: &'static Ctx) {
    patterns(c);
    spellings(c, false);
    let v: &Visit = &|c, s, _, _, rqs, _, what| check_serve(c, s, rqs, what);
    runs(c, true, false, true, (4, 4), v);
    explore_layouts(c, false, v);
}
pub fn c23(c: &'static Ctx) {
    spellings(c, true);
    let v: &Visit = &|c, s, cert, can, rqs, _, what| check_verify(c, s, cert, can, rqs, what);
    runs(c, true, true, true, (3, 4), v);
    explore_layouts(c, true, v);
}
pub fn c24(c: &'static Ctx) {
    let v: &Visit = &|c, s, _, _, _, _, what| MEMO.with(|m| check_tree(c, s, m, what));
    runs(c, false, false, true, (4, 5), v);
    explore_layouts(c, false, v);
}
pub fn c25(c: &'static Ctx) {
    let v: &Visit = &|c, s, _, _, _, keys, what| check_maps(c, s, keys, what);
    runs(c, false, false, true, (4, 5), v);
}

// ------------------------------------------------------------------ C30: a shared tree

/// Two routers and entries of the canister's own in one tree.
struct Shared {
    tree: Rc<RefCell<ihc::HttpCertificationTree>>,
    routers: [AssetRouter<'static>; 2],
    models: [Model; 2],
    own: BTreeSet<usize>,
}
#[derive(Clone, Copy, Debug)]
enum SOp {
    R(usize, Op),
    Put(usize),
    Take(usize),
}
struct Own {
    path: Pth,
    cel: Cel,
    q: Req,
    r: Resp,
}
impl Own {
    fn entry(&self) -> Result<ihc::HttpCertificationTreeEntry<'static>, String> {
        catch(|| self.cel.certify(&self.q, &self.r)).and_then(|x| x).map(|x| ihc::HttpCertificationTreeEntry::new(self.path.lib(), x))
    }
    fn known(&self) -> Known {
        let mut p: Vec<Vec<u8>> = self.path.expr().iter().map(|s| s.as_bytes().to_vec()).collect();
        p.extend(cert_path(&self.cel, &self.q, &self.r));
        Known { path: p, entry: self.entry() }
    }
}
fn shared_batches() -> [Vec<Batch>; 2] {
    let f = |path, fb: Vec<(&'static str, Option<u16>)>, al: Vec<&'static str>, enc: Vec<(&'static str, &'static str)>| Cfg::File { path, ct: Some("t/x"), hs: vec![], fb, al, enc };
    [
        vec![
            Batch { name: "a(gz)", assets: vec![("a", b"1a"), ("a.gz", b"1z")], cfgs: vec![f("a", vec![], vec!["/b"], vec![("gzip", ".gz")])] },
            Batch { name: "index for /", assets: vec![("index", b"1i")], cfgs: vec![f("index", vec![("/", None)], vec!["/"], vec![])] },
            Batch { name: "a plain", assets: vec![("a", b"1p")], cfgs: vec![] },
            Batch { name: "redirect", assets: vec![], cfgs: vec![Cfg::Redir("/m/r", "/", true)] },
        ],
        vec![
            Batch { name: "a", assets: vec![("a", b"2a")], cfgs: vec![] },
            Batch { name: "m/x for /m", assets: vec![("m/x", b"2x"), ("m/x.br", b"2b")], cfgs: vec![f("m/x", vec![("/m", Some(404))], vec![], vec![("br", ".br")])] },
            Batch { name: "large", assets: vec![("m/l", leak(CHUNK + 5, 9))], cfgs: vec![] },
        ],
    ]
}
fn own_entries() -> Vec<Own> {
    let resp = |cel: &Cel, body: &[u8]| Resp { status: 200, headers: vec![(CEH.into(), cel.text())], body: body.to_vec() };
    let mk = |path: Pth, cel: Cel, q: Req, body: &[u8]| {
        let r = resp(&cel, body);
        Own { path, cel, q, r }
    };
    let full = || Cel::Full(vec![], vec![], RH::Excluded(vec![]));
    let only = || Cel::Resp(RH::Excluded(vec![]));
    let mut post = Req::get("/a");
    post.method = "POST".into();
    vec![
        mk(Pth::Exact("/metrics".into()), Cel::Skip, Req::get("/metrics"), b"m"),
        mk(Pth::Exact("/a".into()), full(), post, b"posted"),
        mk(Pth::Wild("/m".into()), only(), Req::get("/m/other"), b"own"),
        mk(Pth::Wild("/".into()), only(), Req::get("/x"), b"root"),
        mk(Pth::Exact("/m/x".into()), only(), Req::get("/m/x"), b"also"),
    ]
}
fn sshow(bs: &[Vec<Batch>; 2], h: &[SOp]) -> String {
    h.iter()
        .map(|o| match o {
            SOp::R(r, op) => format!("router {}: {}", r + 1, show(&bs[*r], &[*op])),
            SOp::Put(i) => format!("insert own {i}"),
            SOp::Take(i) => format!("delete own {i}"),
        })
        .collect::<Vec<_>>()
        .join("; ")
}
fn srun(bs: &[Vec<Batch>; 2], own: &[Own], h: &[SOp]) -> Result<Shared, String> {
    let tree: Rc<RefCell<ihc::HttpCertificationTree>> = Default::default();
    let mut s = Shared { routers: [AssetRouter::with_tree(tree.clone()), AssetRouter::with_tree(tree.clone())], tree, models: Default::default(), own: Default::default() };
    for o in h {
        match o {
            SOp::R(r, Op::Cert(i)) => {
                let b = &bs[*r][*i];
                catch(|| s.routers[*r].certify_assets(b.assets(), b.cfgs())).and_then(|r| r.map_err(|e| format!("{e:?}")))?;
                s.models[*r].certify(b);
            }
            SOp::R(r, Op::Del(i)) => {
                let b = &bs[*r][*i];
                catch(|| s.routers[*r].delete_assets(b.assets(), b.cfgs())).and_then(|r| r.map_err(|e| format!("{e:?}")))?;
                s.models[*r].delete(b);
            }
            SOp::R(r, Op::Clear) => {
                catch(|| s.routers[*r].delete_all_assets())?;
                s.models[*r] = Model::default();
            }
            SOp::Put(i) => {
                let e = own[*i].entry()?;
                catch(|| s.tree.borrow_mut().insert(&e))?;
                s.own.insert(*i);
            }
            SOp::Take(i) => {
                let e = own[*i].entry()?;
                catch(|| s.tree.borrow_mut().delete(&e))?;
                s.own.remove(i);
            }
        }
    }
    Ok(s)
}
fn check_shared(c: &Ctx, s: &Shared, own: &[Own], cert: &[u8], can: &[u8], what: &dyn Fn() -> String) {
    use crate::crypt::{root_pk, NOW, OFFSET};
    // what is certified is what everybody put there
    let mut known: Vec<Rc<Known>> = MEMO.with(|m| s.models.iter().flat_map(|x| x.known(m)).collect());
    known.extend(s.own.iter().map(|i| Rc::new(own[*i].known())));
    let root = s.tree.borrow().root_hash();
    for r in &s.routers {
        c.check(catch(|| r.root_hash()) == Ok(root), "root-hash", || json!({"site": what()}));
    }
    tree_is(c, &s.tree.borrow(), &known, what);
    // whose path is the most specific one for a URL
    let mut paths: BTreeSet<Pth> = s.own.iter().map(|i| own[*i].path.clone()).collect();
    for m in &s.models {
        paths.extend(m.stat.keys().map(|k| Pth::Exact(k.0.clone())));
        paths.extend(m.fall.keys().map(|k| Pth::Wild(k.0.clone())));
    }
    let best = |path: &str| paths.iter().filter(|p| p.matches(path)).max_by_key(|p| (matches!(p, Pth::Exact(_)), p.inner().len())).map(|p| p.inner());
    let verdict = |q: &Req, r: &Resp| {
        c.trace(1);
        c.trans(1);
        run_verify_c(q, r, can, NOW, OFFSET, &root_pk(), 2).map(|x| x.verdict)
    };
    for url in ["/a", "/b", "/", "/index", "/m/r", "/m/x", "/m/l", "/m", "/m/y", "/metrics", "/z/z"] {
        for (accept, range) in [(None, None), (Some("gzip, br"), None), (None, Some("bytes=2000000-"))] {
            if range.is_some() && url != "/m/l" || accept.is_some() && !matches!(url, "/a" | "/b" | "/m/x" | "/m/y") {
                continue;
            }
            let q = Rq { url: url.into(), accept, range }.req();
            for (router, model) in s.routers.iter().zip(&s.models) {
                if model.partial(url) {
                    continue;
                }
                let ql = q.lib();
                let got = catch(|| router.serve_asset(cert, &ql).ok().map(|r| Resp::from_lib(&r)));
                let at = model.serve(url, accept, range);
                let want = at.as_ref().map(|(f, k)| model.get(*f, k));
                let ok = match (&got, &want) {
                    (Ok(None), None) => true,
                    (Ok(Some(g)), Some(w)) => same(g, w),
                    _ => false,
                };
                c.check(ok, "serve", || json!({"site": what(), "url": url, "accept": accept, "got": format!("{:?}", got.as_ref().map(|g| g.as_ref().map(brief))), "want": want.as_ref().map(brief)}));
                if let (Ok(Some(g)), Some((fall, k)), true) = (&got, &at, ok) {
                    let p = if *fall { Pth::Wild(k.0.clone()) } else { Pth::Exact(k.0.clone()) };
                    let holds = best(url) == Some(p.inner());
                    let v = verdict(&q, g);
                    c.check(matches!(&v, Ok(Verdict::Verified(..))) == holds && v.is_ok(), "served-verifies", || json!({"site": what(), "url": url, "accept": accept, "served": brief(g), "most specific": holds, "verdict": format!("{v:?}").chars().take(300).collect::<String>()}));
                    c.outcome(if holds { "router response verified" } else { "router response overruled by a more specific path" });
                }
            }
        }
    }
    for (i, o) in own.iter().enumerate() {
        let held = s.own.contains(&i);
        let Ok(e) = o.entry() else { continue };
        let path = o.q.path().unwrap();
        let Ok(Ok(w)) = catch(|| s.tree.borrow().witness(&e, &path)) else {
            c.check(!held, "own-witness", || json!({"site": what(), "own": i}));
            continue;
        };
        let mut r = o.r.lib();
        ihc::utils::add_v2_certificate_header(cert, &mut r, &w, &o.path.lib().to_expr_path());
        let v = verdict(&o.q, &Resp::from_lib(&r));
        let want = held && best(&path) == Some(o.path.inner());
        let ok = matches!(&v, Ok(Verdict::Verified(..)) | Ok(Verdict::Skipped)) == want && v.is_ok();
        c.check(ok, "own-verifies", || json!({"site": what(), "own": i, "held": held, "expected": want, "verdict": format!("{v:?}").chars().take(300).collect::<String>()}));
        c.outcome(if want { "own response verified" } else { "own response refused" });
    }
}
pub fn c30(c: &'static Ctx) {
    let bs = shared_batches();
    let n_own = own_entries().len();
    let mut ops: Vec<SOp> = vec![];
    for (r, b) in bs.iter().enumerate() {
        ops.extend((0..b.len()).map(|i| SOp::R(r, Op::Cert(i))));
        ops.extend((0..b.len()).map(|i| SOp::R(r, Op::Del(i))));
        ops.push(SOp::R(r, Op::Clear));
    }
    ops.extend((0..n_own).map(SOp::Put));
    ops.extend((0..n_own).map(SOp::Take));
    let depth = c.pick(3, 4);
    let mut hs: Vec<Vec<SOp>> = vec![vec![]];
    let mut last = hs.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|h| ops.iter().map(move |x| [h.as_slice(), &[*x]].concat())).collect();
        hs.extend(last.iter().cloned());
    }
    // from a tree with everything in it: what each operation, and each pair, takes away
    let all: Vec<SOp> = ops.iter().copied().filter(|o| matches!(o, SOp::Put(_) | SOp::R(_, Op::Cert(_)))).collect();
    for rev in [false, true] {
        let mut base = all.clone();
        if rev {
            base.reverse();
        }
        hs.push(base.clone());
        for a in &ops {
            hs.push([base.as_slice(), &[*a]].concat());
            for b in &ops {
                hs.push([base.as_slice(), &[*a, *b]].concat());
                if c.thorough() {
                    hs.extend(ops.iter().map(|d| [base.as_slice(), &[*a, *b, *d]].concat()));
                }
            }
        }
    }
    hs.par_chunks(48).enumerate().for_each(|(ci, chunk)| {
        if c.stopped() {
            return;
        }
        c.mark(ci as u64, 0, 0, 0);
        let own = own_entries();
        let sites: Vec<(&Vec<SOp>, Shared)> = chunk
            .iter()
            .filter_map(|h| match srun(&bs, &own, h) {
                Ok(s) => Some((h, s)),
                Err(e) => {
                    c.fail("operation", json!({"history": sshow(&bs, h), "error": e}));
                    None
                }
            })
            .collect();
        let certs = Certs::new(&sites.iter().map(|s| s.1.tree.borrow().root_hash()).collect::<Vec<_>>());
        for (i, (h, s)) in sites.iter().enumerate() {
            c.state(1);
            c.trans(h.len() as u64);
            check_shared(c, s, &own, &certs.cert(i), &Certs::canister(i), &|| sshow(&bs, h));
        }
        c.idle();
    });
    c.sample(|| json!({"history": sshow(&bs, hs.last().unwrap())}));
    c.note("bound", format!("{} histories: all of <= {depth} of {} operations of two routers and the canister, and all of <= {} after everything was certified, in both orders", hs.len(), ops.len(), c.pick(2, 3)));
}
