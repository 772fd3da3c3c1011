//! C13 header, C15 map hash, C16 request and response hashes, C17 versions, C18 v1, C19 skip,
//! C20 certification constructors, C26 URLs, C27 HTTP types.
use crate::crypt::*;
use crate::ctx::{catch, Ctx};
use crate::http::*;
use crate::tree::*;
use ic_http_certification as ihc;
use ic_representation_independent_hash::{hash, representation_independent_hash, Value};
use rayon::prelude::*;
use serde_json::json;

pub use crate::c_cel::lists;

// ------------------------------------------------------------------ C13, C17

/// What a header means to the verifier.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Hdr {
    cert: Vec<u8>,
    tree: Vec<u8>,
    version: u8,
    expr: Option<Vec<u8>>,
}
/// Reference parser; None: the header is malformed.
fn parse_header(s: &str) -> Option<Hdr> {
    let (mut cert, mut tree, mut version, mut expr) = (None, None, None, None);
    for part in s.split(',') {
        let Some((name, val)) = part.trim().split_once('=') else { continue };
        let val = val.strip_prefix(':').unwrap_or(val);
        let val = match val.split_once(':') {
            None => val,
            Some((x, "")) => x,
            Some(_) => continue,
        };
        if name.is_empty() || val.is_empty() {
            continue;
        }
        match name {
            "certificate" if cert.is_none() => cert = Some(b64d_strict(val)?),
            "tree" if tree.is_none() => tree = Some(b64d_strict(val)?),
            "expr_path" if expr.is_none() => expr = Some(b64d_strict(val)?),
            "version" if version.is_none() => version = Some(val.parse::<u8>().ok()?),
            _ => {}
        }
    }
    Some(Hdr { cert: cert?, tree: tree?, version: version.unwrap_or(1), expr })
}
fn b64d_strict(s: &str) -> Option<Vec<u8>> {
    let t = s.trim_end_matches('=');
    if t.len() % 4 == 1 {
        return None;
    }
    b64d(t)
}

struct Fx {
    tree: T,
    cert: Vec<u8>,
    text: String,
    q: Req,
    r: Resp,
    expr: Vec<String>,
}
/// A pair that verifies both as version 1 and as version 2.
fn fixture() -> Fx {
    let cel = Cel::Resp(RH::Certified(vec!["a"]));
    let q = Req::get("/p");
    let text = cel.text();
    let r = Resp { status: 200, headers: hd(&[("a", "1"), ("b", "2"), (CEH, &text)]), body: b"body".to_vec() };
    let p = Pth::Exact("/p".into());
    let mut sub = v("");
    for s in cert_path(&cel, &q, &r).iter().rev() {
        sub = l(s, sub);
    }
    for s in p.inner().iter().rev() {
        sub = l(s, sub);
    }
    let tree = f(l("http_assets", l("/p", v(sha(&[b"body"])))), l("http_expr", sub));
    let cert = simple_cert(CANISTER, &tree.digest());
    Fx { tree, cert, text, q, r, expr: p.expr() }
}
/// Expected verdict for the fixture's request/response with this header and minimum version.
fn expect(x: &Fx, header: &str, min: u8, with_expr_header: bool) -> (u16, Verdict) {
    let rej = (0, Verdict::Reject);
    let Some(h) = parse_header(header) else { return rej };
    if h.cert != x.cert || h.tree != x.tree.cbor() {
        return rej;
    }
    if h.version < min {
        return rej;
    }
    // the expression path must decode even where it is not used
    let ok = h.expr.as_deref().map(|e| {
        if e == expr_cbor(&x.expr) {
            Some(true)
        } else if e == b"\x81\x61x" {
            Some(false)
        } else {
            None
        }
    });
    if ok == Some(None) {
        return rej;
    }
    match h.version {
        1 => (1, Verdict::Verified(0, vec![], x.r.body.clone())),
        2 => {
            if ok != Some(Some(true)) || !with_expr_header {
                return rej;
            }
            let mut hs = hd(&[("a", "1"), ("ic-certificateexpression", &x.text)]);
            hs.push((CH.into(), header.into()));
            (2, Verdict::Verified(200, hs, x.r.body.clone()))
        }
        _ => rej,
    }
}
fn ask(x: &Fx, header: &str, min: u8, with_expr_header: bool) -> Result<(u16, Verdict), String> {
    let mut r = x.r.clone();
    if !with_expr_header {
        r.headers.retain(|(k, _)| k != CEH);
    }
    r.headers.push((CH.into(), header.into()));
    run_verify(&x.q, &r, NOW, OFFSET, &root_pk(), min).map(|g| (if g.verdict == Verdict::Reject { 0 } else { g.version }, g.verdict))
}

pub fn c13(c: &'static Ctx) {
    let x = fixture();
    let (cb, tb, eb) = (b64(&x.cert), b64(&x.tree.cbor()), b64(&expr_cbor(&x.expr)));
    let other_tree = b64(&l("http_expr", v("")).cbor());
    let fields: Vec<String> = vec![
        format!("certificate=:{cb}:"),
        format!("tree=:{tb}:"),
        format!("expr_path=:{eb}:"),
        "version=2".into(),
        "version=1".into(),
        "version=300".into(),
        "certificate=:AAAA:".into(),
        format!("tree=:{other_tree}:"),
        "tree=:!:".into(),
        format!("expr_path=:{}:", b64(b"\x81\x61x")),
        "expr_path=:gQA=:".into(),
        "certificate=".into(),
        "unknown=:AA:".into(),
        "junk".into(),
        "".into(),
        format!("=:{cb}:"),
        format!("Tree=:{other_tree}:"),
    ];
    let n = c.pick(6usize, 7);
    let k = fields.len();
    let total: usize = (0..=n).map(|i| k.pow(i as u32)).sum();
    (0..total).into_par_iter().for_each(|mut s| {
        if c.stopped() {
            return;
        }
        let mut len = 0;
        while s >= k.pow(len) {
            s -= k.pow(len);
            len += 1;
        }
        let mut parts = vec![];
        for _ in 0..len {
            parts.push(fields[s % k].as_str());
            s /= k;
        }
        let h = parts.join(", ");
        c.mark(1, s as u64, 0, 0);
        let (want, got) = (expect(&x, &h, 1, true), ask(&x, &h, 1, true));
        c.state(1);
        c.trans(1);
        c.trace(1);
        c.check(got.as_ref() == Ok(&want), "field-sequence", || json!({"header": h, "want": format!("{want:?}").chars().take(100).collect::<String>(), "got": format!("{got:?}").chars().take(300).collect::<String>()}));
        if want.0 > 0 && len >= 3 {
            c.sample(|| json!({"fields": parts.iter().map(|p| p.chars().take(30).collect::<String>()).collect::<Vec<_>>(), "version": want.0}));
        }
        c.idle();
    });
    // every spelling of the values of a good header, and all orders and separators
    let spell = |n: &str, b: &str| -> Vec<String> {
        let t = b.trim_end_matches('=').to_string();
        let flip: String = b.chars().enumerate().map(|(i, ch)| if i == 5 { if ch == 'A' { 'B' } else { 'A' } } else { ch }).collect();
        let mut o = vec![];
        for (a, z) in [(":", ":"), ("", ""), (":", ""), ("", ":"), ("::", ":"), (":", "::"), (": ", ":"), (":", " :"), ("\"", "\"")] {
            for y in [b, &t, &flip, &b[..b.len() - 4], &format!("{b}AAAA"), &format!("{b}-"), &b.replace('+', "-").replace('/', "_"), &format!("{} {}", &b[..8], &b[8..]), ""] {
                o.push(format!("{n}={a}{y}{z}"));
            }
        }
        for pre in [" ", "\t", "\n", "\u{a0}", "\u{3000}", "x", ";"] {
            o.push(format!("{pre}{n}=:{b}:"));
            o.push(format!("{n}=:{b}:{pre}"));
            o.push(format!("{n}{pre}=:{b}:"));
            o.push(format!("{n}={pre}:{b}:"));
        }
        o.push(format!("{}=:{b}:", n.to_uppercase()));
        o.push(format!("{n}:{b}:"));
        o
    };
    let vs: Vec<String> = ["2", ":2:", ":2", "2:", "02", "+2", "2.0", " 2", ":2 :", "-2", "", "::", "0x2", "256", "2 2", "٢", "1", "0", "3", "255", "002", "1e0"].iter().map(|x| format!("version={x}")).collect();
    let (cs, ts, es) = (spell("certificate", &cb), spell("tree", &tb), spell("expr_path", &eb));
    let good = [cs[0].clone(), ts[0].clone(), es[0].clone(), vs[0].clone()];
    let mut hs = vec![];
    for (i, alts) in [&cs, &ts, &es, &vs].iter().enumerate() {
        for a in alts.iter() {
            let mut p = good.clone();
            p[i] = a.clone();
            crate::c_tree::permutations(4, &mut |o| {
                hs.push(o.iter().map(|j| p[*j].clone()).collect::<Vec<_>>().join(", "));
            });
            // followed by a good one: the first one decides
            hs.push(format!("{}, {}", p.join(","), good[i]));
            hs.push(format!("{}, {}", good[i], p.join(",")));
        }
    }
    for sep in [",", ", ", " ,", " , ", ",,", ",\n", ";", " ", ", ,", ",\t,"] {
        hs.push(good.join(sep));
        hs.push(format!("{sep}{}", good.join(",")));
        hs.push(format!("{}{sep}", good.join(",")));
    }
    hs.push(String::new());
    hs.par_iter().for_each(|h| {
        // a base64 text whose unused bits differ decodes to the same bytes, both in the reference and here
        let (want, got) = (expect(&x, h, 1, true), ask(&x, h, 1, true));
        c.state(1);
        c.trans(1);
        c.trace(1);
        c.check(got.as_ref() == Ok(&want), "spelling", || json!({"header": h, "want": format!("{want:?}").chars().take(100).collect::<String>(), "got": format!("{got:?}").chars().take(300).collect::<String>()}));
    });
    // every truncation of a good header, every single character removed or replaced
    let g = good.join(", ");
    let ok = (0..=g.len()).into_par_iter().all(|i| {
        let mut o = vec![g[..i].to_string()];
        if i < g.len() {
            o.push(format!("{}{}", &g[..i], &g[i + 1..]));
            for ch in [',', '=', ':', 'A', ' ', '%', 'é'] {
                o.push(format!("{}{ch}{}", &g[..i], &g[i + 1..]));
                o.push(format!("{}{ch}{}", &g[..i], &g[i..]));
            }
        }
        o.iter().all(|h| {
            let (want, got) = (expect_sub(&x, h), ask(&x, h, 1, true));
            c.trans(1);
            c.trace(1);
            c.state(1);
            // a damaged certificate or tree may still decode to the same value only if the bytes are the same
            c.check(got.as_ref().is_ok_and(|g| want.contains(g)), "damaged", || json!({"header": h, "want": format!("{want:?}").chars().take(100).collect::<String>(), "got": format!("{got:?}").chars().take(300).collect::<String>()}))
        })
    });
    let _ = ok;
    // several certificate headers: the verdict is that of one of them, and never mixes them
    let bad = "certificate=:AAAA:, tree=:AAAA:";
    for names in [["IC-Certificate", "ic-certificate"], ["ic-certificate", "IC-CERTIFICATE"], ["IC-Certificate", "IC-Certificate"]] {
        for vals in [[&g, &g], [&g, &bad.to_string()], [&bad.to_string(), &g], [&bad.to_string(), &bad.to_string()]] {
            let mut r = x.r.clone();
            r.headers.push((names[0].into(), vals[0].clone()));
            r.headers.insert(0, (names[1].into(), vals[1].clone()));
            let got = run_verify(&x.q, &r, NOW, OFFSET, &root_pk(), 2);
            c.trans(1);
            c.trace(1);
            let any = vals.iter().any(|v| **v == g);
            let ok = match &got {
                Ok(y) => matches!(y.verdict, Verdict::Reject) || (any && matches!(&y.verdict, Verdict::Verified(..))),
                Err(_) => false,
            };
            let both = vals.iter().all(|v| **v == g);
            c.check(ok && (!both || !matches!(&got, Ok(y) if y.verdict == Verdict::Reject)), "repeated-header", || json!({"names": names, "got": format!("{got:?}").chars().take(300).collect::<String>()}));
        }
    }
    for name in ["IC-Certificat", "ICCertificate", "X-IC-Certificate", "IC_Certificate", "IC-Certificate "] {
        let mut r = x.r.clone();
        r.headers.push((name.into(), g.clone()));
        let got = run_verify(&x.q, &r, NOW, OFFSET, &root_pk(), 1);
        c.trans(1);
        c.check(matches!(&got, Ok(y) if y.verdict == Verdict::Reject), "missing-header", || json!({"name": name, "got": format!("{got:?}").chars().take(300).collect::<String>()}));
    }
    c.note("bound", format!("all sequences of <= {n} of {k} fields; all spellings of each value in all field orders; every truncation, character deletion, replacement and insertion in a good header"));
}
/// For damaged headers the tree or certificate may be changed without effect; the verdict is then
/// either rejection or exactly the undamaged result.
fn expect_sub(x: &Fx, h: &str) -> Vec<(u16, Verdict)> {
    let w = expect(x, h, 1, true);
    if w.1 != Verdict::Reject {
        // superfluous or too little padding may be rejected
        let odd = h.split(',').any(|p| {
            let v = p.split_once('=').map_or("", |x| x.1).trim_matches(':');
            let n = v.len() - v.trim_end_matches('=').len();
            n != 0 && v.len() % 4 != 0 || n > 2
        });
        return if odd { vec![w, (0, Verdict::Reject)] } else { vec![w] };
    }
    let Some(p) = parse_header(h) else { return vec![w] };
    // decoded values equal although the encodings differ?
    use ic_cbor::{CertificateToCbor, HashTreeToCbor};
    let same_cert = catch(|| ic_certification::Certificate::from_cbor(&p.cert).ok()).ok().flatten() == ic_certification::Certificate::from_cbor(&x.cert).ok();
    let same_tree = catch(|| ic_certification::HashTree::from_cbor(&p.tree).ok().map(|t| T::from_impl(&t))).ok().flatten() == Some(x.tree.clone());
    let same_expr = p.expr.as_deref().map(|e| catch(|| ic_cbor::parse_cbor_string_array(e).ok()).ok().flatten());
    if !(same_cert && same_tree) {
        return vec![w];
    }
    let good = Hdr { cert: x.cert.clone(), tree: x.tree.cbor(), version: p.version, expr: None };
    match (good.version, same_expr) {
        (_, Some(None)) => vec![w],
        (1, _) => vec![w, (1, Verdict::Verified(0, vec![], x.r.body.clone()))],
        (2, Some(Some(e))) if e == x.expr => {
            let mut hs = hd(&[("a", "1"), ("ic-certificateexpression", &x.text)]);
            hs.push((CH.into(), h.into()));
            vec![w, (2, Verdict::Verified(200, hs, x.r.body.clone()))]
        }
        _ => vec![w],
    }
}

pub fn c17(c: &'static Ctx) {
    let x = fixture();
    let base = format!("certificate=:{}:, tree=:{}:", b64(&x.cert), b64(&x.tree.cbor()));
    let ep = format!(", expr_path=:{}:", b64(&expr_cbor(&x.expr)));
    let mut vers: Vec<String> = vec![String::new()];
    vers.extend((0..=300).map(|v| format!(", version={v}")));
    vers.par_iter().for_each(|v| {
        for min in 0..=255u8 {
            for has_path in [true, false] {
                for has_expr in [true, false] {
                    if c.stopped() {
                        return;
                    }
                    let h = format!("{base}{}{v}", if has_path { ep.as_str() } else { "" });
                    let (want, got) = (expect(&x, &h, min, has_expr), ask(&x, &h, min, has_expr));
                    c.state(1);
                    c.trans(1);
                    c.trace(1);
                    c.outcome(if want.0 == 0 { "rejected" } else if want.0 == 1 { "verified as version 1" } else { "verified as version 2" });
                    c.check(got.as_ref() == Ok(&want), "version", || json!({"version": v, "min": min, "expr_path": has_path, "expression": has_expr, "want": format!("{want:?}").chars().take(100).collect::<String>(), "got": format!("{got:?}").chars().take(300).collect::<String>()}));
                }
            }
        }
    });
    // a version 2 response is never checked by the version 1 rules and vice versa: break one half each
    let mut x1 = fixture();
    x1.r.body = b"other".to_vec();
    let mut x2 = fixture();
    x2.tree = f(l("http_assets", l("/p", v(sha(&[b"body"])))), T::P([9; 32]));
    x2.cert = simple_cert(CANISTER, &x2.tree.digest());
    let mut x3 = fixture();
    if let T::F(_, b) = &x3.tree {
        x3.tree = f(T::P([8; 32]), (**b).clone());
    }
    x3.cert = simple_cert(CANISTER, &x3.tree.digest());
    for (n, x, v1, v2) in [("neither", &x1, false, false), ("only version 1", &x2, true, false), ("only version 2", &x3, false, true)] {
        let base = format!("certificate=:{}:, tree=:{}:, expr_path=:{}:", b64(&x.cert), b64(&x.tree.cbor()), b64(&expr_cbor(&x.expr)));
        for (ver, want) in [("", v1), (", version=1", v1), (", version=2", v2), (", version=0", false), (", version=3", false)] {
            for min in 0..=4 {
                let eff = match ver {
                    "" | ", version=1" => 1,
                    ", version=2" => 2,
                    _ => 0,
                };
                let got = ask(x, &format!("{base}{ver}"), min, true);
                c.trans(1);
                c.trace(1);
                let w = want && eff >= min;
                c.check(matches!(&got, Ok(g) if (g.1 != Verdict::Reject) == w && (!w || g.0 == eff as u16)), "version-rules", || json!({"case": n, "version": ver, "min": min, "got": format!("{got:?}").chars().take(300).collect::<String>()}));
            }
        }
    }
    c.sample(|| json!({"version": "2", "min": 2, "verdict": "verified as version 2"}));
    c.note("bound", "version absent or 0..=300 x minimum version 0..=255 x expression path present or not x expression header present or not (complete product)");
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug)]
enum Vx {
    S(&'static str),
    B(&'static [u8]),
    N(u64),
    A(Vec<Vx>),
}
impl Vx {
    fn lib(&self) -> Value {
        match self {
            Vx::S(s) => Value::String(s.to_string()),
            Vx::B(b) => Value::Bytes(b.to_vec()),
            Vx::N(n) => Value::Number(*n),
            Vx::A(x) => Value::Array(x.iter().map(|x| x.lib()).collect()),
        }
    }
    fn hash(&self) -> H {
        match self {
            Vx::S(s) => sha(&[s.as_bytes()]),
            Vx::B(b) => sha(&[b]),
            Vx::N(n) => sha(&[&leb(*n as u128)]),
            Vx::A(x) => sha(&[&x.iter().flat_map(|x| x.hash()).collect::<Vec<u8>>()]),
        }
    }
}
pub fn c15(c: &'static Ctx) {
    let mut vals = vec![
        Vx::S(""), Vx::S("a"), Vx::S("é"), Vx::B(b""), Vx::B(b"a"), Vx::B(&[0xff]), Vx::N(0), Vx::N(1), Vx::N(127), Vx::N(128), Vx::N(16384), Vx::N(u64::MAX),
    ];
    let base = vals.clone();
    vals.push(Vx::A(vec![]));
    for a in &base {
        vals.push(Vx::A(vec![a.clone()]));
    }
    for a in base.iter().take(8) {
        for b in base.iter().take(8) {
            vals.push(Vx::A(vec![a.clone(), b.clone()]));
        }
        vals.push(Vx::A(vec![Vx::A(vec![a.clone()]), a.clone()]));
    }
    let keys = ["", "a", "b", "A", ":ic-cert-status"];
    let mut entries: Vec<(&str, Vx)> = vec![];
    for k in keys {
        for v in &vals {
            entries.push((k, v.clone()));
        }
    }
    let few: Vec<(&str, Vx)> = entries.iter().filter(|(_, v)| !matches!(v, Vx::A(x) if x.len() != 1)).step_by(c.pick(1, 1)).cloned().collect();
    let chk = |m: &[&(&str, Vx)]| {
        let mut pairs: Vec<Vec<u8>> = m.iter().map(|(k, v)| [sha(&[k.as_bytes()]), v.hash()].concat()).collect();
        pairs.sort();
        let want = sha(&[&pairs.concat()]);
        let map: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.to_string(), v.lib())).collect();
        let got = catch(|| representation_independent_hash(&map));
        c.trans(1);
        c.trace(1);
        c.state(1);
        c.check(got == Ok(want), "map-hash", || json!({"map": format!("{m:?}")}));
    };
    chk(&[]);
    entries.iter().for_each(|a| chk(&[a]));
    entries.par_iter().for_each(|a| entries.iter().for_each(|b| chk(&[a, b])));
    // all ordered triples (so all permutations of every map), and all maps of four in thorough runs
    few.par_iter().for_each(|a| {
        for b in &few {
            for d in &few {
                if c.stopped() {
                    return;
                }
                chk(&[a, b, d]);
            }
        }
    });
    {
        let tiny: Vec<_> = few.iter().step_by(c.pick(4, 2)).collect();
        tiny.par_iter().for_each(|a| {
            for b in &tiny {
                for d in &tiny {
                    for e in &tiny {
                        chk(&[a, b, d, e]);
                    }
                }
            }
        });
    }
    // larger maps in several orders
    for n in 4..40usize {
        let m: Vec<(String, RV)> = (0..n).map(|i| (format!("k{}", i * 7 % n), if i % 2 == 0 { RV::N(i as u64 * 1000) } else { RV::S(format!("v{i}")) })).collect();
        for rot in 0..n {
            let lib: Vec<(String, Value)> = (0..n)
                .map(|i| {
                    let (k, x) = &m[(i * (n + 1) + rot) % n];
                    (k.clone(), match x { RV::S(s) => Value::String(s.clone()), RV::B(b) => Value::Bytes(b.clone()), RV::N(n) => Value::Number(*n) })
                })
                .collect();
            let got = catch(|| representation_independent_hash(&lib));
            c.trans(1);
            c.trace(1);
            c.check(got == Ok(rih(&m)), "map-order", || json!({"n": n, "rotation": rot}));
        }
    }
    // maps of every size, values of every length and nesting
    let sizes: Vec<usize> = (0..c.pick(300, 1100)).chain([511, 512, 513, 1023, 1024, 1025, 2000, 2048, 2049, 4095, 4096, 4097, 8193, 10_000, 16_385, 32_769, 65_535, 65_536, 65_537]).collect();
    sizes.par_iter().for_each(|n| {
        let n = *n;
        let text: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
        let one = |v: Value, h: H, what: &str| {
            for k in ["", &text, "k"] {
                let got = catch(|| representation_independent_hash(&[(k.to_string(), v.clone()), ("z".into(), Value::Number(1))]));
                let mut pairs = vec![[sha(&[k.as_bytes()]), h].concat(), [sha(&[b"z"]), sha(&[&[1]])].concat()];
                pairs.sort();
                c.trans(1);
                c.trace(1);
                c.check(got == Ok(sha(&[&pairs.concat()])), "map-size", || json!({"what": what, "n": n, "key length": k.len()}));
            }
        };
        one(Value::String(text.clone()), sha(&[text.as_bytes()]), "string");
        one(Value::Bytes(vec![0xff; n]), sha(&[&vec![0xff; n]]), "bytes");
        one(Value::Array((0..n).map(|i| Value::Number(i as u64 * 50)).collect()), sha(&[&(0..n).flat_map(|i| sha(&[&leb(i as u128 * 50)])).collect::<Vec<_>>()]), "array");
        if n < 300 {
            let (mut v, mut h) = (Value::String("x".into()), sha(&[b"x"]));
            for _ in 0..n {
                v = Value::Array(vec![v]);
                h = sha(&[&h]);
            }
            one(v, h, "nested array");
        }
        {
            // a map of n entries, in order, reversed and shuffled; with every pair doubled
            let m: Vec<(String, RV)> = (0..n).map(|i| (format!("k{}", i * 7), RV::N(i as u64))).collect();
            let lib = |i: usize| (format!("k{}", i * 7), Value::Number(i as u64));
            let want = rih(&m);
            for (what, ix) in [("in order", (0..n).collect::<Vec<_>>()), ("reversed", (0..n).rev().collect()), ("shuffled", (0..n).map(|i| (i * 7919) % n).collect())] {
                let got = catch(|| representation_independent_hash(&ix.iter().map(|i| lib(*i)).collect::<Vec<_>>()));
                c.trans(1);
                c.trace(1);
                c.check(got == Ok(want), "map-size", || json!({"what": what, "n": n}));
            }
            let twice: Vec<(String, Value)> = (0..n).chain(0..n).map(lib).collect();
            let two: Vec<(String, RV)> = m.iter().chain(&m).cloned().collect();
            c.check(catch(|| representation_independent_hash(&twice)) == Ok(rih(&two)), "map-size", || json!({"what": "every pair twice", "n": n}));
        }
        c.state(1);
    });
    // number encoding and plain hash
    let mut nums: Vec<u64> = (0..70_000).collect();
    for s in 0..64 {
        for d in 0..3u64 {
            nums.push((1u64 << s).wrapping_add(d).wrapping_sub(1));
        }
    }
    nums.push(u64::MAX);
    nums.par_iter().for_each(|n| {
        let got = catch(|| representation_independent_hash(&[("n".into(), Value::Number(*n))]));
        c.trans(1);
        c.trace(1);
        c.check(got == Ok(rih(&[("n".into(), RV::N(*n))])), "number", || json!({"n": n}));
    });
    for n in (0..2000usize).chain([65535, 65536, 65537, 1 << 20]) {
        let d: Vec<u8> = (0..n).map(|i| i as u8).collect();
        c.trans(1);
        c.check(catch(|| hash(&d)) == Ok(sha(&[&d])), "hash", || json!({"length": n}));
    }
    c.sample(|| json!({"map": format!("{:?}", &few[..2])}));
    c.note("bound", format!("all ordered maps of <= 2 of {} entries (duplicate keys included), all ordered triples of {} entries, maps of up to 39 entries in n orders, all numbers < 70000 and 2^k-1..2^k+1", entries.len(), few.len()));
}

// ------------------------------------------------------------------ C16

fn seqs<X: Clone>(pool: &[X], n: usize) -> Vec<Vec<X>> {
    let mut o = vec![vec![]];
    let mut last: Vec<Vec<X>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|x| pool.iter().map(move |p| { let mut y = x.clone(); y.push(p.clone()); y })).collect();
        o.extend(last.iter().cloned());
    }
    o
}
pub fn c16(c: &'static Ctx) {
    use ihc::cel::DefaultRequestCertification;
    let chk_req = |q: &Req, hs: &[&'static str], ps: &[&'static str]| {
        let d = DefaultRequestCertification::new(hs.to_vec(), ps.to_vec());
        let ql = q.lib();
        let got = catch(|| ihc::request_hash(&ql, &d).ok());
        let want = request_hash(q, hs, ps);
        c.trans(1);
        c.trace(1);
        c.check(got == Ok(Some(want)), "request-hash", || json!({"request": format!("{q:?}"), "headers": hs, "params": ps, "got": format!("{got:?}")}))
    };
    // queries x parameter lists
    let frags = ["a=1", "a=2", "b=1", "A=3", "a", "=1", "", "ab=1", "a=1=2", "%61=1", "c=%20"];
    let plists = lists(&["a", "B", "", "ab", "%61"], 2);
    let mut queries: Vec<String> = vec!["/p".into(), "/p?".into(), "/p#f?a=1".into(), "/".into(), "https://h.io".into(), "https://h.io/p?a=1#b=1".into(), "https://h.io?a=1".into()];
    for s in seqs(&frags, 5) {
        if !s.is_empty() {
            queries.push(format!("/p?{}", s.join("&")));
        }
    }
    queries.par_iter().for_each(|u| {
        if c.stopped() {
            return;
        }
        c.mark(1, 0, 0, 0);
        for p in &plists {
            chk_req(&Req::get(u), &["h"], p);
        }
        c.state(1);
        c.idle();
    });
    // headers x header lists
    let hp: Vec<(String, String)> = hd(&[("a", "1"), ("a", "2"), ("A", "1"), ("b", ""), ("ab", "1"), ("", "1"), ("é", "x"), ("É", "x")]);
    let hls = lists(&["a", "B", "ab", "", "É"], 2);
    let hseqs = seqs(&hp, 5);
    hseqs.par_iter().for_each(|h| {
        if c.stopped() {
            return;
        }
        for (m, u, b) in [("GET", "/p", b"".as_slice()), ("POST", "/p?a=1", b"x"), ("get", "/q", &[0, 255])] {
            let q = Req { method: m, url: u.into(), headers: h.clone(), body: b.to_vec() };
            for x in &hls {
                chk_req(&q, x, &["a"]);
            }
        }
        c.state(1);
    });
    for m in ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH", "FOO", "get", "a"] {
        for n in [0usize, 1, 63, 64, 65, 1000, 100_000] {
            let q = Req { method: m, url: "/x?a=b".into(), headers: hd(&[("a", "1")]), body: vec![7; n] };
            chk_req(&q, &["a"], &["a"]);
        }
    }
    // responses
    let rp: Vec<(String, String)> = hd(&[
        ("a", "1"), ("A", "1"), ("a", "2"), ("b", ""), ("ab", "1"), ("", "1"), ("É", "x"),
        ("IC-Certificate", "z"), ("ic-certificate", "y"), ("IC-CertificateExpression", "e"), ("ic-certificateexpression", "f"),
    ]);
    let rls = lists(&["a", "B", "É", "IC-Certificate", "ic-certificateexpression"], 2);
    let mut rhs = vec![];
    for x in &rls {
        rhs.push(RH::Certified(x.clone()));
        rhs.push(RH::Excluded(x.clone()));
    }
    let chk_resp = |r: &Resp, rh: &RH| {
        let rl = r.lib();
        let d = rh.lib();
        let got = catch(|| ihc::response_hash(&rl, &d, None));
        let want = response_hash(r, rh);
        c.trans(1);
        c.trace(1);
        c.check(got == Ok(want), "response-hash", || json!({"response": format!("{r:?}"), "rule": format!("{rh:?}")}));
        let fl = catch(|| {
            let f = ihc::filter_response_headers(&rl, &d);
            (f.headers.clone(), f.certificate.clone(), ihc::response_headers_hash(&(r.status as u64), &f))
        });
        let kept = kept_headers(r, rh);
        let cert = r.header(CH).map(|x| x.to_string());
        let mut m: Vec<(String, RV)> = kept.iter().cloned().map(|(k, v)| (k, RV::S(v))).collect();
        m.push((":ic-cert-status".into(), RV::N(r.status as u64)));
        c.trans(1);
        c.check(fl == Ok((kept, cert, rih(&m))), "filter", || json!({"response": format!("{r:?}"), "rule": format!("{rh:?}"), "got": format!("{fl:?}")}));
        let bh = sha(&[b"something else"]);
        let got = catch(|| ihc::response_hash(&rl, &d, Some(bh)));
        c.trans(1);
        c.check(got == Ok(sha(&[&rih(&m), &bh])), "response-hash-override", || json!({"response": format!("{r:?}"), "rule": format!("{rh:?}")}));
    };
    seqs(&rp, 5).par_iter().for_each(|h| {
        if c.stopped() {
            return;
        }
        let r = Resp { status: 200, headers: h.clone(), body: b"b".to_vec() };
        for rh in &rhs {
            if h.len() > 3 && !matches!(rh, RH::Certified(x) | RH::Excluded(x) if x.len() < 2) {
                continue;
            }
            chk_resp(&r, rh);
        }
        c.state(1);
    });
    (100..=999u16).into_par_iter().for_each(|s| {
        for n in [0usize, 1, 64, 5000] {
            let r = Resp { status: s, headers: hd(&[("a", "1"), ("c", "2")]), body: vec![s as u8; n] };
            chk_resp(&r, &RH::Certified(vec!["a"]));
            chk_resp(&r, &RH::Excluded(vec!["a"]));
        }
        c.state(1);
    });
    // every number of headers and parameters, and every length of their parts
    let lk = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    (0..c.pick(130usize, 600)).into_par_iter().chain(vec![999, 1000, 1001, 2000]).for_each(|n| {
        if c.stopped() {
            return;
        }
        let names: Vec<&'static str> = (0..n).map(|i| lk(format!("N{i}"))).collect();
        let text: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
        let long = lk(text.clone());
        for sel in 0..4usize {
            // none, the even ones, the last, all
            let pick = |i: usize| match sel { 0 => false, 1 => i % 2 == 0, 2 => i + 1 == n, _ => true };
            let some: Vec<&'static str> = (0..n).filter(|i| pick(*i)).map(|i| names[i]).collect();
            let hs: Hd = (0..n).map(|i| (format!("n{i}"), format!("{i}"))).collect();
            let q = Req { method: "GET", url: format!("/p?{}", (0..n).map(|i| format!("N{i}={i}")).collect::<Vec<_>>().join("&")), headers: hs.clone(), body: vec![1; n] };
            chk_req(&q, &some, &[]);
            chk_req(&q, &[], &some);
            let r = Resp { status: 200, headers: hs, body: vec![2; n] };
            chk_resp(&r, &RH::Certified(some.clone()));
            chk_resp(&r, &RH::Excluded(some));
        }
        // n values of one name, between others; a long value, name, parameter and parameter value
        let mut same: Hd = (0..n).map(|i| ("x".to_string(), format!("{}", n - i))).collect();
        same.insert(n / 2, ("y".into(), text.clone()));
        same.push((format!("{text}k"), text.clone()));
        same.push((text.clone(), "v".into()));
        let q = Req { method: "PUT", url: format!("/p?x={text}&{text}=1&{text}k=2&k={text}&k{text}=3"), headers: same.clone(), body: text.clone().into_bytes() };
        let r = Resp { status: 404, headers: same, body: text.clone().into_bytes() };
        for l in [vec!["x"], vec!["Y", "x"], vec![long], vec![lk(format!("{text}k")), "k"], vec![lk(text.to_uppercase())]] {
            chk_req(&q, &l, &[]);
            chk_req(&q, &[], &l);
            chk_resp(&r, &RH::Certified(l.clone()));
            chk_resp(&r, &RH::Excluded(l));
        }
        c.state(1);
    });
    // one edit anywhere in every part
    let leak = |s: &String| -> &'static str { Box::leak(s.clone().into_boxed_str()) };
    let values: Vec<String> = ["aB c, d=1;\u{e9}", "1"].iter().flat_map(|s| near(s)).collect();
    let names: Vec<&'static str> = near("Hd-Ks").iter().map(leak).collect();
    let bodies: Vec<Vec<u8>> = [&b"Ab\r\n {\"\xc3\xa9\"}\n"[..], b"\0\xff", &[b'x'; 64]].iter().flat_map(|b| near_bytes(b)).collect();
    let mut edits = 0u64;
    for x in &values {
        for m in ["GET", "POST"] {
            let q = Req { method: m, url: "/p?a=1".into(), headers: hd(&[("h", x), ("g", x)]), body: vec![] };
            chk_req(&q, &["H"], &["a"]);
        }
        let r = Resp { status: 200, headers: hd(&[("h", x), ("g", x), ("IC-CertificateExpression", x)]), body: vec![] };
        for rh in [RH::Certified(vec!["H"]), RH::Excluded(vec!["g"])] {
            chk_resp(&r, &rh);
        }
        edits += 4;
    }
    names.par_iter().for_each(|x| {
        for y in &names {
            let q = Req { method: "GET", url: "/p".into(), headers: hd(&[(x, "1"), ("Hd-Ks", "2")]), body: vec![] };
            chk_req(&q, &[y], &[]);
            let r = Resp { status: 200, headers: hd(&[(x, "1"), ("Hd-Ks", "2")]), body: vec![] };
            chk_resp(&r, &RH::Certified(vec![y]));
            chk_resp(&r, &RH::Excluded(vec![y]));
        }
        for special in [CH, CEH] {
            for n in near(special) {
                let r = Resp { status: 200, headers: hd(&[(&n, x), ("h", "2")]), body: vec![] };
                chk_resp(&r, &RH::Certified(vec!["h"]));
                if x.len() < 2 {
                    chk_resp(&r, &RH::Excluded(vec![leak(&n)]));
                    chk_resp(&r, &RH::Certified(vec![leak(&n)]));
                }
            }
        }
        c.state(1);
    });
    for b in &bodies {
        for (m, h) in [("GET", hd(&[])), ("POST", hd(&[("content-encoding", "gzip"), ("content-length", "1"), ("content-type", "text/plain; charset=latin1")]))] {
            let q = Req { method: m, url: "/p".into(), headers: h.clone(), body: b.clone() };
            chk_req(&q, &["content-encoding"], &[]);
            let r = Resp { status: 200, headers: h.clone(), body: b.clone() };
            chk_resp(&r, &RH::Certified(vec!["content-length"]));
            chk_resp(&r, &RH::Excluded(vec!["content-encoding"]));
        }
        edits += 6;
    }
    let legal = |s: &str| s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~!$'()*+,;:@/?=&%".contains(&b));
    let params: Vec<&'static str> = names.iter().copied().filter(|s| legal(s)).collect();
    params.par_iter().for_each(|x| {
        for y in &params {
            chk_req(&Req::get(&format!("/p?{x}=1&Hd-Ks=%202&{y}")), &[], &[y]);
        }
        c.state(1);
    });
    for v in near("a+B%20c=d").iter().filter(|s| legal(s)) {
        for u in [format!("/p?k={v}"), format!("/p?{v}"), format!("/{v}?k=1"), format!("/p?z=0&k={v}&k=2")] {
            chk_req(&Req::get(&u), &[], &["k", "a+B%20c"]);
            edits += 1;
        }
    }
    for m in near("GeT").iter().chain(&near("OPTIONS")) {
        if !m.is_empty() && m.bytes().all(|b| b.is_ascii_alphanumeric() || b"!*+-.^_`|~".contains(&b)) {
            chk_req(&Req { method: leak(m), url: "/p".into(), headers: vec![], body: vec![] }, &[], &[]);
            edits += 1;
        }
    }
    c.state(edits);
    c.note("edits", format!("{} values, {} x {} names, {} parameters, {} bodies", values.len(), names.len(), names.len(), params.len(), bodies.len()));
    c.sample(|| json!({"query": queries[queries.len() / 2], "params": plists[3]}));
    c.note("bound", format!("{} URLs x {} parameter lists; {} header sequences x {} header lists x 3 requests; all response header sequences of <= {} of {} x {} rules; all status codes", queries.len(), plists.len(), hseqs.len(), hls.len(), 5, rp.len(), rhs.len()));
}

// ------------------------------------------------------------------ C18

fn gz(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn df(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::default());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn c18(c: &'static Ctx) {
    // bodies with their ground truth: (bytes, what they decode to as gzip, as deflate)
    let a = b"hello".to_vec();
    let big: Vec<u8> = (0..5000usize).map(|i| (i * i / 7) as u8).collect();
    let cat = |x: &[u8], y: &[u8]| [x, y].concat();
    type B = (&'static str, Vec<u8>, Option<Vec<u8>>, Option<Vec<u8>>);
    let corrupt = |mut g: Vec<u8>| {
        let n = g.len();
        g[n - 6] ^= 1;
        g
    };
    let mut bodies: Vec<B> = vec![
        ("A", a.clone(), None, None),
        ("empty", vec![], None, None),
        ("big", big.clone(), None, None),
        ("gzip(A)", gz(&a), Some(a.clone()), None),
        ("gzip(big)", gz(&big), Some(big.clone()), None),
        ("gzip(empty)", gz(b""), Some(vec![]), None),
        ("gzip(gzip(A))", gz(&gz(&a)), Some(gz(&a)), None),
        ("truncated gzip(A)", gz(&a)[..gz(&a).len() - 3].to_vec(), None, None),
        ("gzip(A) with bad checksum", corrupt(gz(&a)), None, None),
        ("gzip(A)+junk", cat(&gz(&a), b"junk"), None, None),
        ("gzip(A)+0", cat(&gz(&a), &[0]), None, None),
        ("gzip(A)+gzip(B)", cat(&gz(&a), &gz(b"other")), None, None),
    ];
    bodies.push(("deflate(A)", df(&a), None, Some(a.clone())));
    bodies.push(("deflate(big)", df(&big), None, Some(big.clone())));
    bodies.push(("deflate(A)+junk", cat(&df(&a), b"\x00junk"), None, None));
    bodies.push(("truncated deflate(A)", df(&a)[..df(&a).len() - 1].to_vec(), None, None));
    // contents an asset may be certified for
    let contents: Vec<(&str, H)> = vec![
        ("A", sha(&[&a])),
        ("big", sha(&[&big])),
        ("gzip(A)", sha(&[&gz(&a)])),
        ("gzip(A)+junk", sha(&[&cat(&gz(&a), b"junk")])),
        ("empty", sha(&[b""])),
        ("deflate(A)", sha(&[&df(&a)])),
    ];
    let encs: Vec<Option<&str>> = vec![None, Some("gzip"), Some("deflate"), Some("GZIP"), Some("br"), Some("identity"), Some(""), Some("gzip, deflate"), Some("x")];
    // node content: None absent, Some(None) pruned, Some(Some(i)) content
    type N = Option<Option<usize>>;
    let nodes: Vec<N> = {
        let mut o: Vec<N> = vec![None, Some(None)];
        o.extend((0..contents.len()).map(|i| Some(Some(i))));
        o
    };
    let paths = ["/a", "/a b", "/index.html", "/", "/z"];
    let urls: Vec<(&str, &str)> = vec![("/a", "/a"), ("/a?x=1", "/a"), ("https://h.io/a#f", "/a"), ("/%61", "/a"), ("/a%20b", "/a b"), ("/index.html", "/index.html"), ("/", "/"), ("/z", "/z"), ("/A", "/A"), ("/a/", "/a/"), ("", ""), ("/%FF", "!")];
    let mut trees: Vec<(String, T)> = vec![];
    let reduced: Vec<N> = if c.thorough() { nodes.clone() } else { vec![None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(2)), Some(Some(3))] };
    for a in &nodes {
        for i in &reduced {
            for other in 0..3 {
                let mut kids: Vec<(String, T)> = vec![];
                let mut add = |p: &str, n: &N| {
                    if let Some(x) = n {
                        kids.push((p.into(), match x { None => T::P([0x77; 32]), Some(k) => l(p, v(contents[*k].1)) }));
                    }
                };
                add("/a", a);
                match other {
                    1 => {
                        add("/", &Some(Some(1)));
                        add("/a b", a);
                    }
                    2 => add("/z", &Some(None)),
                    _ => {}
                }
                add("/index.html", i);
                kids.sort_by(|x, y| x.0.cmp(&y.0));
                let ts: Vec<T> = kids.into_iter().map(|x| x.1).collect();
                trees.push((format!("/a={a:?} /index.html={i:?} other={other}"), l("http_assets", balanced(&ts))));
            }
        }
    }
    // leaves that are nearly the hash of the body
    for k in 0..c.pick(8usize, 16) {
        let h = contents[0].1.to_vec();
        let cut = [0usize, 1, 16, 31, 4, 8, 20, 24, 2, 3, 7, 12, 15, 28, 29, 30][k];
        for (n, x) in [("prefix", h[..cut].to_vec()), ("suffix", h[cut + 1..].to_vec()), ("followed by", [&h[..], &h[..cut]].concat()), ("preceded by", [&h[..cut], &h[..]].concat())] {
            if x.len() == 32 {
                continue;
            }
            trees.push((format!("{n} {cut}"), l("http_assets", l("/a", v(&x)))));
            trees.push((format!("index {n} {cut}"), l("http_assets", l("/index.html", v(&x)))));
        }
    }
    trees.push(("hex".into(), l("http_assets", l("/a", v(crate::ctx::hx(&contents[0].1))))));
    trees.push(("body itself".into(), l("http_assets", l("/a", v(&a)))));
    trees.push(("hash of hash".into(), l("http_assets", l("/a", v(sha(&[&contents[0].1]))))));
    trees.push(("other namespace".into(), l("http_expr", l("/a", v(contents[0].1)))));
    trees.push(("no slash".into(), l("http_assets", l("a", v(contents[0].1)))));
    trees.push(("no http_assets".into(), l("x", v(""))));
    trees.push(("http_assets pruned".into(), T::P([5; 32])));
    trees.push(("asset is a subtree".into(), l("http_assets", l("/a", l("x", v(contents[0].1))))));
    let _ = paths;
    trees.par_iter().for_each(|(tn, t)| {
        let cert = simple_cert(CANISTER, &t.digest());
        let wrong = simple_cert(CANISTER, &sha(&[b"x"]));
        let other = simple_cert(&[0, 0, 0, 0, 0, 0, 0, 8, 1, 1], &t.digest());
        let old = simple_cert_at(CANISTER, &t.digest(), NOW - OFFSET - 1);
        let treeb = b64(&t.cbor());
        for (cn, ct) in [("good", &cert), ("other data", &wrong), ("other canister", &other), ("too old", &old)] {
            let h = format!("certificate=:{}:, tree=:{treeb}:", b64(ct));
            for (url, path) in &urls {
                for (bn, b, g, d) in &bodies {
                    for e in &encs {
                        if cn != "good" && (*bn != "A" || e.is_some()) {
                            continue;
                        }
                        if c.stopped() {
                            return;
                        }
                        if url.is_empty() || *path == "!" {
                            if *bn != "A" {
                                continue;
                            }
                        }
                        let look = match t.lookup(&["http_assets", *path]) {
                            // only if it is proven that there is no such asset
                            Look::Absent => t.lookup(&["http_assets", "/index.html"]),
                            x => x,
                        };
                        let raw = sha(&[b]);
                        // a body with an encoding is accepted for its decoded or its encoded content
                        let dec: Option<H> = match e {
                            Some("gzip") => g.as_ref().map(|x| sha(&[x])),
                            Some("deflate") => d.as_ref().map(|x| sha(&[x])),
                            _ => Some(raw),
                        };
                        let certified = |h: &H| matches!(&look, Look::Found(x) if x.as_slice() == h);
                        let decodable = match (e, *bn) {
                            (Some("gzip"), "gzip(A)+junk" | "gzip(A)+0" | "gzip(A)+gzip(B)") => Some(true),
                            (Some("gzip"), _) => Some(g.is_some()),
                            (Some("deflate"), "deflate(A)+junk") => Some(true),
                            // other bytes may happen to start with a valid deflate stream
                            (Some("deflate"), _) if d.is_none() => None,
                            _ => Some(true),
                        };
                        let want = if cn != "good" || *path == "!" || url.is_empty() {
                            Some(false)
                        } else if dec.as_ref().is_some_and(certified) {
                            Some(true)
                        } else if e.is_some() && certified(&raw) {
                            // the encoded content itself is certified; a body that cannot be decoded is rejected
                            match decodable {
                                Some(x) => Some(x),
                                None => None,
                            }
                        } else {
                            Some(false)
                        };
                        let mut hs = vec![(CH.to_string(), h.clone()), ("X".into(), "y".into())];
                        if let Some(e) = e {
                            hs.push(("Content-Encoding".into(), e.to_string()));
                        }
                        let q = Req::get(url);
                        let r = Resp { status: 200, headers: hs, body: b.clone() };
                        let got = run_verify(&q, &r, NOW, OFFSET, &root_pk(), 1);
                        c.trans(1);
                        c.trace(1);
                        let ok = match (&got, want) {
                            (Ok(g), Some(false)) => g.verdict == Verdict::Reject,
                            (Ok(g), Some(true)) => g.version == 1 && !g.status_some && g.verdict == Verdict::Verified(0, vec![], b.clone()),
                            (Ok(_), None) => true,
                            _ => false,
                        };
                        c.check(ok, "v1", || json!({"tree": tn, "certificate": cn, "url": url, "body": bn, "encoding": e, "want": want, "got": format!("{got:?}").chars().take(300).collect::<String>()}));
                        if want == Some(true) {
                            c.sample(|| json!({"tree": tn, "url": url, "body": bn, "encoding": e}));
                            c.outcome("accepted");
                        } else {
                            c.outcome("rejected");
                        }
                    }
                }
            }
        }
        c.state(1);
    });
    // bodies of many sizes, certified decoded or encoded
    let mut sizes: Vec<usize> = vec![];
    for k in 0..=c.pick(20, 24) {
        sizes.extend([(1usize << k).saturating_sub(1), 1 << k, (1 << k) + 1, 3 << k >> 1]);
    }
    sizes.extend([1024 * 10, 1024 * 64 + 1, 1024 * 100]);
    sizes.sort();
    sizes.dedup();
    sizes.par_iter().for_each(|n| {
        for fill in 0..2 {
            let body: Vec<u8> = if fill == 0 { vec![b'a'; *n] } else { (0..*n as u64).map(|i| (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as u8).collect() };
            let forms: Vec<(Option<&str>, Vec<u8>)> = vec![(None, body.clone()), (Some("gzip"), gz(&body)), (Some("deflate"), df(&body)), (Some("identity"), body.clone())];
            for (e, wire) in forms {
                // what is certified: the decoded body, the encoded one, a cut body, another one
                let contents = [
                    ("decoded", sha(&[&body]), true),
                    ("encoded", sha(&[&wire]), true),
                    ("one byte less", sha(&[&body[..n.saturating_sub(1)]]), *n == 0),
                    ("1024 bytes", sha(&[&body[..1024.min(*n)]]), *n <= 1024),
                    ("64 KiB", sha(&[&body[..65536.min(*n)]]), *n <= 65536),
                    ("one byte more", sha(&[&body, &[b'a']]), false),
                ];
                for (what, h, want) in contents {
                    if c.stopped() {
                        return;
                    }
                    let t = l("http_assets", l("/a", v(h)));
                    let hv = format!("certificate=:{}:, tree=:{}:", b64(&simple_cert(CANISTER, &t.digest())), b64(&t.cbor()));
                    let mut hs = vec![(CH.to_string(), hv)];
                    hs.extend(e.map(|e| ("Content-Encoding".to_string(), e.to_string())));
                    let got = run_verify(&Req::get("/a"), &Resp { status: 200, headers: hs, body: wire.clone() }, NOW, OFFSET, &root_pk(), 1);
                    c.trans(1);
                    c.trace(1);
                    let ok = matches!(&got, Ok(g) if if want { g.verdict == Verdict::Verified(0, vec![], wire.clone()) } else { g.verdict == Verdict::Reject });
                    c.check(ok, "v1-size", || json!({"size": n, "fill": fill, "encoding": e, "certified": what, "want": want}));
                }
            }
        }
        c.state(1);
    });
    c.note("bound", format!("bodies of {} sizes up to {} bytes; {} asset trees (asset and /index.html each absent, pruned or any of {} contents) x 4 certificates x {} URLs x {} bodies x {} content encodings", sizes.len(), sizes.last().unwrap(), trees.len(), contents.len(), urls.len(), bodies.len(), encs.len()));
}

// ------------------------------------------------------------------ C19

pub fn c19(c: &'static Ctx) {
    use ihc::utils::*;
    let data = skip_certification_certified_data();
    let cert = simple_cert(CANISTER, &data);
    let seg = ["", "a", "b", "index.html", "%3C*%3E", "%3C$%3E", "http_expr", "%20", "%C3%A9"];
    let mut urls: Vec<String> = vec!["https://h.io".into(), "https://h.io?x".into(), "/a?x=1&y".into(), "/a#f".into(), "*".into()];
    for s in seqs(&seg, c.pick(5, 6)) {
        urls.push(format!("/{}", s.join("/")));
    }
    let hp: Vec<(String, String)> = hd(&[("a", "1"), ("IC-Certificate", "x"), ("IC-CertificateExpression", "junk"), ("ic-certificateexpression", "default_certification()")]);
    let resps: Vec<Resp> = seqs(&hp, 2)
        .into_iter()
        .flat_map(|h| [(200u16, b"".as_slice()), (404, b"x"), (503, &[0xff; 100])].map(|(s, b)| Resp { status: s, headers: h.clone(), body: b.to_vec() }))
        .collect();
    let good: Vec<Resp> = resps
        .iter()
        .map(|r| {
            let mut x = r.lib();
            add_skip_certification_header(cert.clone(), &mut x);
            Resp::from_lib(&x)
        })
        .collect();
    urls.par_iter().for_each(|u| {
        for m in ["GET", "POST"] {
            for (r, g) in resps.iter().zip(&good) {
                if c.stopped() {
                    return;
                }
                if m == "POST" && (r.status != 200 || u.len() > 8) {
                    continue;
                }
                let q = Req { method: m, url: u.clone(), headers: vec![], body: b"z".to_vec() };
                let got = run_verify(&q, g, NOW, OFFSET, &root_pk(), 2);
                c.trans(1);
                c.trace(1);
                c.check(matches!(&got, Ok(g) if g.verdict == Verdict::Skipped && g.version == 2), "skip", || json!({"url": u, "method": m, "headers": r.headers, "got": format!("{got:?}").chars().take(300).collect::<String>()}));
                // the body, headers and status are left alone
                c.check(g.status == r.status && g.body == r.body && g.headers[..r.headers.len()] == r.headers[..], "skip-response", || json!({"headers": r.headers}));
            }
        }
        c.state(1);
    });
    // requests and responses of every size
    (0..c.pick(300usize, 1200)).into_par_iter().for_each(|n| {
        let hs: Hd = (0..n).map(|i| (format!("n{i}"), "x".repeat(i))).collect();
        for (q, r) in [
            (Req::get(&format!("/{}", "a".repeat(n))), Resp { status: 200, headers: vec![], body: vec![7; n * 100] }),
            (Req::get(&format!("/{}", "a/".repeat(n))), Resp { status: 404, headers: hs.clone(), body: vec![] }),
            (Req { method: "POST", url: format!("/?{}", "a=1&".repeat(n)), headers: hs.clone(), body: vec![9; n * 100] }, Resp { status: 100 + (n * 3 % 900) as u16, headers: vec![], body: vec![] }),
        ] {
            let mut x = r.lib();
            add_skip_certification_header(cert.clone(), &mut x);
            let got = verify_now(&q, &Resp::from_lib(&x));
            c.trans(1);
            c.trace(1);
            c.check(matches!(&got, Ok(g) if g.verdict == Verdict::Skipped && g.version == 2), "skip-size", || json!({"n": n, "url": q.url.chars().take(20).collect::<String>(), "got": format!("{got:?}").chars().take(300).collect::<String>()}));
        }
        c.state(1);
    });
    // the skip headers do nothing for a canister that did not ask for it
    let skip_text = Cel::Skip.text();
    let others: Vec<(&str, T)> = vec![
        ("nothing certified", T::E),
        ("other expression", l("http_expr", l("<*>", l(sha(&[b"x"]), v(""))))),
        ("skip at another path", l("http_expr", l("a", l("<*>", l(sha(&[skip_text.as_bytes()]), v("")))))),
        ("skip outside http_expr", l("<*>", l(sha(&[skip_text.as_bytes()]), v("")))),
    ];
    for (n, t) in &others {
        let cert = simple_cert(CANISTER, &t.digest());
        for u in ["/", "/b", "/b/c"] {
            let mut x = Resp { status: 200, headers: vec![], body: vec![] }.lib();
            add_skip_certification_header(cert.clone(), &mut x);
            let mut rs = vec![("library header", Resp::from_lib(&x))];
            for e in [vec!["http_expr", "<*>"], vec!["http_expr", "a", "<*>"], vec!["<*>"], vec!["http_expr"], vec![]] {
                let e: Vec<String> = e.iter().map(|s| s.to_string()).collect();
                rs.push(("own tree", Resp { status: 200, headers: vec![(CEH.into(), skip_text.clone()), (CH.into(), v2_header(&cert, t, &e))], body: vec![] }));
            }
            for (k, r) in rs {
                let got = verify_now(&Req::get(u), &r);
                c.trans(1);
                c.trace(1);
                c.check(matches!(&got, Ok(g) if g.verdict == Verdict::Reject), "skip-uncertified", || json!({"tree": n, "url": u, "headers": k, "got": format!("{got:?}").chars().take(300).collect::<String>()}));
            }
        }
    }
    // nor for another canister, an expired certificate or another expression text
    let x = &good[0];
    for (n, can, now, hd_text) in [("canister", &[1u8, 2][..], NOW, None), ("late", CANISTER, NOW + OFFSET + 1, None), ("early", CANISTER, NOW - OFFSET - 1, None), ("text", CANISTER, NOW, Some("default_certification(ValidationArgs{no_certification:Empty{ }})")), ("no text", CANISTER, NOW, Some(""))] {
        let mut r = x.clone();
        if let Some(t) = hd_text {
            r.headers.retain(|(k, _)| k != CEH);
            if !t.is_empty() {
                r.headers.push((CEH.into(), t.into()));
            }
        }
        for min in [0, 1, 2] {
            let got = run_verify_c(&Req::get("/"), &r, can, now, OFFSET, &root_pk(), min);
            c.trans(1);
            c.check(matches!(&got, Ok(g) if g.verdict == Verdict::Reject), "skip-invalid", || json!({"case": n, "got": format!("{got:?}").chars().take(300).collect::<String>()}));
        }
    }
    c.check(catch(skip_certification_certified_data) == Ok(l("http_expr", l("<*>", l(sha(&[skip_text.as_bytes()]), v("")))).digest()), "skip-data", || json!("certified data"));
    c.sample(|| json!({"url": urls[9], "verdict": "skipped"}));
    c.note("bound", format!("{} URLs x {} responses (existing certification headers included) x 2 methods; 4 trees that do not allow skipping x 6 headers x 3 URLs", urls.len(), resps.len()));
}

// ------------------------------------------------------------------ C20

pub fn c20(c: &'static Ctx) {
    let cels = [
        Cel::Resp(RH::Certified(vec!["a"])),
        Cel::Resp(RH::Excluded(vec![])),
        Cel::Full(vec!["a"], vec!["b"], RH::Excluded(vec!["a"])),
        Cel::Full(vec![], vec![], RH::Certified(vec![])),
    ];
    let n = 6usize;
    for cel in &cels {
        let t = cel.text();
        let mut pool: Vec<(String, String)> = vec![("a".into(), "1".into()), (CH.into(), "x".into())];
        for name in [CEH, "ic-certificateexpression", "IC-CERTIFICATEEXPRESSION"] {
            pool.push((name.into(), t.clone()));
        }
        pool.push((CEH.into(), format!("{t} ")));
        pool.push(("ic-certificateExpression".into(), Cel::Skip.text()));
        pool.push((CEH.into(), "".into()));
        pool.push(("IC-CertificateExpressio".into(), t.clone()));
        seqs(&pool, n).par_iter().for_each(|h| {
            if c.stopped() {
                return;
            }
            let q = Req::get("/x?b=1");
            let r = Resp { status: 200, headers: h.clone(), body: b"b".to_vec() };
            let ce: Vec<&(String, String)> = h.iter().filter(|(k, _)| k.eq_ignore_ascii_case(CEH)).collect();
            let want = ce.len() == 1 && ce[0].1 == t;
            let got = catch(|| cel.certify(&q, &r));
            c.trans(1);
            c.trace(1);
            c.state(1);
            c.check(matches!(&got, Ok(g) if g.is_ok() == want), "constructor", || json!({"expression": t, "headers": h, "want": want, "got": format!("{got:?}")}));
            c.outcome(if want { "accepted" } else { "rejected" });
            // what is accepted verifies once certified; what is rejected would not verify as that response
            if let (true, Ok(Ok(cert))) = (want, &got) {
                if h.len() <= 3 {
                    let p = Pth::Exact("/x".into());
                    let lp = p.lib();
                    let e = ihc::HttpCertificationTreeEntry::new(&lp, cert);
                    let mut tree = ihc::HttpCertificationTree::default();
                    tree.insert(&e);
                    let data = simple_cert(CANISTER, &tree.root_hash());
                    let w = tree.witness(&e, "/x").unwrap();
                    let mut rl = r.lib();
                    ihc::utils::add_v2_certificate_header(&data, &mut rl, &w, &lp.to_expr_path());
                    let rr = Resp::from_lib(&rl);
                    let run = verify_now(&q, &rr);
                    let mut hs = kept_headers(&rr, cel.resp().unwrap());
                    hs.push((CH.into(), rr.headers.last().unwrap().1.clone()));
                    c.trans(1);
                    c.check(matches!(&run, Ok(g) if g.verdict == Verdict::Verified(200, hs.clone(), b"b".to_vec())), "constructed-verifies", || json!({"expression": t, "headers": h, "got": format!("{run:?}").chars().take(300).collect::<String>()}));
                }
            }
        });
    }
    // one edit anywhere in the name or value of the expression header
    for cel in &cels {
        let t = cel.text();
        let mut hs: Vec<(String, String)> = near(&t).into_iter().map(|v| (CEH.to_string(), v)).collect();
        hs.extend(near(CEH).into_iter().map(|n| (n, t.clone())));
        hs.par_iter().for_each(|(n, v)| {
            for before in [vec![], hd(&[("a", "1")]), vec![(n.clone(), v.clone())]] {
                for after in [vec![], vec![("ic-certificateexpression".to_string(), t.clone())]] {
                    let h: Hd = before.iter().cloned().chain([(n.clone(), v.clone())]).chain(after).collect();
                    let ce: Vec<&(String, String)> = h.iter().filter(|(k, _)| k.eq_ignore_ascii_case(CEH)).collect();
                    let want = ce.len() == 1 && ce[0].1 == t;
                    let r = Resp { status: 200, headers: h.clone(), body: b"b".to_vec() };
                    let got = catch(|| cel.certify(&Req::get("/x"), &r));
                    c.trans(1);
                    c.trace(1);
                    c.check(matches!(&got, Ok(g) if g.is_ok() == want), "edited header", || json!({"expression": t, "headers": h, "want": want, "got": format!("{got:?}")}));
                }
            }
            c.state(1);
        });
    }
    // the expression header among any number of others, and expressions of every size
    (0..c.pick(150usize, 600)).into_par_iter().for_each(|n| {
        let names: Vec<&'static str> = (0..n).map(|i| &*Box::leak(format!("n{i}").into_boxed_str())).collect();
        for cel in [Cel::Resp(RH::Certified(names.clone())), Cel::Resp(RH::Excluded(names.clone())), Cel::Full(names.clone(), names, RH::Excluded(vec![]))] {
            for at in [0, n / 2, n] {
                for (times, text) in [(0, cel.text()), (1, cel.text()), (2, cel.text()), (1, cel.text() + " "), (1, cels[0].text())] {
                    let mut h: Hd = (0..n).map(|i| (format!("n{i}"), format!("{i}"))).collect();
                    for k in 0..times {
                        h.insert(if k == 0 { at } else { h.len() }, (CEH.into(), text.clone()));
                    }
                    let want = times == 1 && text == cel.text();
                    let r = Resp { status: 200, headers: h, body: vec![] };
                    let got = catch(|| cel.certify(&Req::get("/x"), &r));
                    c.trans(1);
                    c.trace(1);
                    c.check(matches!(&got, Ok(g) if g.is_ok() == want), "many headers", || json!({"n": n, "at": at, "times": times, "want": want}));
                }
            }
        }
        c.state(1);
    });
    // certification with a given body hash is the certification of the body with that hash
    for cel in &cels {
        let q = Req::get("/x");
        for body in [b"".as_slice(), b"abc", &[9; 3000]] {
            let r = Resp { status: 200, headers: vec![(CEH.into(), cel.text())], body: body.to_vec() };
            let empty = Resp { body: vec![], ..r.clone() };
            let bh = sha(&[body]);
            let a = cel.certify(&q, &r);
            let (ql, el) = (q.lib(), empty.lib());
            let b = match cel {
                Cel::Resp(rh) => {
                    let d = ihc::DefaultCelBuilder::response_only_certification().with_response_certification(rh.lib()).build();
                    ihc::HttpCertification::response_only(&d, &el, Some(bh)).map_err(|e| format!("{e:?}"))
                }
                Cel::Full(h, p, rh) => {
                    let d = ihc::DefaultCelBuilder::full_certification()
                        .with_request_headers(std::borrow::Cow::Owned(h.clone()))
                        .with_request_query_parameters(std::borrow::Cow::Owned(p.clone()))
                        .with_response_certification(rh.lib())
                        .build();
                    ihc::HttpCertification::full(&d, &ql, &el, Some(bh)).map_err(|e| format!("{e:?}"))
                }
                Cel::Skip => unreachable!(),
            };
            c.trans(1);
            c.check(a.is_ok() && a == b, "body-hash", || json!({"expression": cel.text()}));
        }
    }
    // a full certification needs a URL that can be verified
    for (u, ok) in [("/a", true), ("https://h.io/a?b", true), ("", false), ("/a b", false), ("http://", false), ("/é", true)] {
        let r = Resp { status: 200, headers: vec![(CEH.into(), cels[2].text())], body: vec![] };
        let got = catch(|| cels[2].certify(&Req::get(u), &r).is_ok());
        c.trans(1);
        if u == "/é" {
            c.check(got.is_ok(), "url", || json!({"url": u}));
        } else {
            c.check(got == Ok(ok), "url", || json!({"url": u, "got": format!("{got:?}")}));
        }
    }
    c.sample(|| json!({"headers": [[CEH, cels[0].text()]], "accepted": true}));
    c.note("bound", format!("all sequences of <= {n} of 9 headers x {} expressions; every accepted one with <= 3 headers is certified and verified", cels.len()));
}

// ------------------------------------------------------------------ C26

pub fn c26(c: &'static Ctx) {
    let prefixes = ["", "https://h.io", "http://h.io:80", "https://[::1]:4943", "https://u@h.io"];
    let mut seg: Vec<String> = ["", "a", "A", "a.b", "~-_", "%20", "%2F", "%2f", "%3F", "%23", "%25", "%C3%A9", "%c3%a9", "%FF", "%C3", "%", "%4", "%zz", "%00", "+", "a;b=c", "a:b@c", "!$&'()*,=", "..", "."].iter().map(|x| x.to_string()).collect();
    let queries = ["", "?", "?a", "?a=1", "?a=1&b=2", "?a=%20&a=%FF", "??", "?a=/b", "?%", "?a#", "?a#b?c", "#", "#f", "#f?x", "?é".trim_matches('é')];
    let mut urls = vec![];
    for n in 0..=c.pick(3, 4) {
        for p in seqs(&seg, n).into_iter().filter(|x| x.len() == n) {
            let path = p.iter().map(|s| format!("/{s}")).collect::<String>();
            for pre in prefixes {
                for q in queries {
                    if n >= 3 && (pre != "" && q != "?a=1") {
                        continue;
                    }
                    urls.push(format!("{pre}{path}{q}"));
                }
            }
        }
    }
    // every escaped byte, alone and within a sequence
    for b in 0..=255u8 {
        for x in [format!("%{b:02X}"), format!("%{b:02x}"), format!("a%{b:02X}b"), format!("%C3%{b:02X}"), format!("%E2%82%{b:02X}"), format!("%{b:02X}%A9"), format!("%F0%9F%98%{b:02X}"), format!("%25{b:02X}"), format!("%25{b:02x}a"), format!("%2525{b:02X}"), format!("%{b:02X}25{b:02X}"), format!("%{b:02X}{b:02X}")] {
            urls.push(format!("/{x}?k={x}"));
            seg.push(x);
        }
    }
    // every spelling from the characters escapes are made of, so escapes of escapes, cut
    // escapes and escaped separators in every arrangement
    let spell: Vec<u8> = b"%205CF/?a".to_vec();
    let len = c.pick(7, 8);
    let raw: Vec<usize> = (0..=len).collect();
    let (urls, spelled) = (&urls, raw.iter().map(|n| (spell.len() as u64).pow(*n as u32)).sum::<u64>());
    let spelling = |mut i: u64| {
        let mut u = String::from("/");
        let mut n = 0u32;
        while i >= (spell.len() as u64).pow(n) {
            i -= (spell.len() as u64).pow(n);
            n += 1;
        }
        for _ in 0..n {
            u.push(spell[(i % spell.len() as u64) as usize] as char);
            i /= spell.len() as u64;
        }
        u
    };
    urls.par_iter().cloned().chain((0..spelled).into_par_iter().map(spelling)).for_each(|u| {
        let u = &u;
        if c.stopped() {
            return;
        }
        if u.is_empty() || u.starts_with('#') || u.starts_with('?') {
            // no path at all: not a request target
            let q = Req::get(u).lib();
            c.check(catch(|| (q.get_path().is_ok(), q.get_query().is_ok())).is_ok(), "empty-url", || json!({"url": u}));
            return;
        }
        let r = Req::get(u);
        let q = r.lib();
        let up: ihc::HttpUpdateRequest = q.clone().into();
        let got = catch(|| (q.get_path().ok(), q.get_query().map_err(|_| ())));
        let got2 = catch(|| (up.get_path().ok(), up.get_query().map_err(|_| ())));
        let want = (r.path(), Ok(r.query()));
        c.trans(2);
        c.trace(1);
        c.state(1);
        c.check(got.as_ref() == Ok(&want), "url", || json!({"url": u, "want": format!("{want:?}"), "got": format!("{got:?}")}));
        c.check(got == got2, "url-update", || json!({"url": u}));
    });
    for bad in ["", " ", "/a b", "/a\n", "/<", "/\"", "http://", "//", "https:///a", "/a\u{7f}", "\u{0}", "h ttp://a/", "http://a b/"] {
        let q = Req::get(bad).lib();
        let got = catch(|| (q.get_path().is_ok(), q.get_query().is_ok()));
        c.trans(1);
        // path and query agree on what is a URL
        c.check(matches!(got, Ok((a, b)) if a == b), "bad-url", || json!({"url": bad, "got": format!("{got:?}")}));
    }
    c.sample(|| json!({"url": urls[urls.len() / 3], "path": Req::get(&urls[urls.len() / 3]).path()}));
    c.note("bound", format!("{} URLs: 5 authorities x all paths of <= {} of 25 segments x 15 queries and fragments; every escaped byte in 12 contexts, also escaped once and twice more; all {spelled} paths of <= {len} of the characters % 2 0 5 C F / ? a", urls.len(), c.pick(3, 4)));
}
