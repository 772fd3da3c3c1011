//! C14: certification expressions.
use crate::ctx::Ctx;
use crate::http::*;
use crate::tree::*;
use rayon::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;

/// Meaning of an expression.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Mean {
    Skip,
    Cert(Option<(Vec<String>, Vec<String>)>, bool, Vec<String>),
}
#[derive(Debug)]
enum Val {
    Str(String),
    Arr(Vec<Val>),
    Obj(String, BTreeMap<String, Val>),
    Fun(String, Vec<Val>),
}
struct P<'a>(&'a [u8], usize);
impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.0.get(self.1), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.1 += 1;
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.0.get(self.1).copied()
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek()? == c {
            self.1 += 1;
            return Some(());
        }
        None
    }
    fn ident(&mut self) -> String {
        self.ws();
        let s = self.1;
        while matches!(self.0.get(self.1), Some(c) if c.is_ascii_alphanumeric() || *c == b'_') {
            self.1 += 1;
        }
        String::from_utf8(self.0[s..self.1].to_vec()).unwrap()
    }
    fn list<V>(&mut self, end: u8, f: &dyn Fn(&mut Self) -> Option<V>) -> Option<Vec<V>> {
        let mut o = vec![];
        if self.peek()? == end {
            self.1 += 1;
            return Some(o);
        }
        loop {
            o.push(f(self)?);
            match self.peek()? {
                b',' => self.1 += 1,
                c if c == end => {
                    self.1 += 1;
                    return Some(o);
                }
                _ => return None,
            }
        }
    }
    fn value(&mut self) -> Option<Val> {
        let id = self.ident();
        match self.peek()? {
            b'{' => {
                self.1 += 1;
                let kv = self.list(b'}', &|p: &mut Self| {
                    let k = p.ident();
                    p.eat(b':')?;
                    Some((k, p.value()?))
                })?;
                Some(Val::Obj(id, kv.into_iter().collect()))
            }
            b'(' => {
                self.1 += 1;
                Some(Val::Fun(id, self.list(b')', &|p: &mut Self| p.value())?))
            }
            b'[' if id.is_empty() => {
                self.1 += 1;
                Some(Val::Arr(self.list(b']', &|p: &mut Self| p.value())?))
            }
            b'"' if id.is_empty() => {
                self.1 += 1;
                let s = self.1;
                loop {
                    match *self.0.get(self.1)? {
                        b'"' => break,
                        b'\\' => {
                            if !matches!(self.0.get(self.1 + 1)?, b'"' | b'n' | b'\\') {
                                return None;
                            }
                            self.1 += 2;
                        }
                        _ => self.1 += 1,
                    }
                }
                let t = String::from_utf8(self.0[s..self.1].to_vec()).ok()?;
                self.1 += 1;
                Some(Val::Str(t))
            }
            _ => None,
        }
    }
}
impl Val {
    fn obj(&self, name: &str) -> Option<&BTreeMap<String, Val>> {
        match self {
            Val::Obj(n, m) if n == name => Some(m),
            _ => None,
        }
    }
    fn strs(&self) -> Option<Vec<String>> {
        match self {
            Val::Arr(x) => x.iter().map(|v| if let Val::Str(s) = v { Some(s.clone()) } else { None }).collect(),
            _ => None,
        }
    }
}
/// Reference meaning of an expression text; None if it is invalid.
pub fn meaning(text: &str) -> Option<Mean> {
    let v = P(text.as_bytes(), 0).value()?;
    let Val::Fun(n, args) = &v else { return None };
    if n != "default_certification" {
        return None;
    }
    let a = args.first()?.obj("ValidationArgs")?;
    match (a.get("no_certification"), a.get("certification")) {
        (Some(_), None) => Some(Mean::Skip),
        (None, Some(c)) => {
            let c = c.obj("Certification")?;
            let req = match (c.get("no_request_certification"), c.get("request_certification")) {
                (Some(_), None) => None,
                (None, Some(r)) => {
                    let r = r.obj("RequestCertification")?;
                    Some((r.get("certified_request_headers")?.strs()?, r.get("certified_query_parameters")?.strs()?))
                }
                _ => return None,
            };
            let r = c.get("response_certification")?.obj("ResponseCertification")?;
            let part = |n: &str| -> Option<Option<Vec<String>>> {
                match r.get(n) {
                    None => Some(None),
                    Some(x) => match x.obj("ResponseHeaderList")?.get("headers") {
                        None => Some(None),
                        Some(h) => Some(Some(h.strs()?)),
                    },
                }
            };
            match (part("certified_response_headers")?, part("response_header_exclusions")?) {
                (Some(h), None) => Some(Mean::Cert(req, true, h)),
                (None, Some(h)) => Some(Mean::Cert(req, false, h)),
                _ => None,
            }
        }
        _ => None,
    }
}
fn low(s: &str) -> String {
    s.to_ascii_lowercase()
}
impl Mean {
    fn keeps(&self, n: &str) -> bool {
        match self {
            Mean::Skip => true,
            Mean::Cert(_, inc, l) => l.iter().any(|h| low(h) == low(n)) == *inc,
        }
    }
    /// The subtree below the expression hash that certifies the pair under this meaning.
    fn subtree(&self, q: &Req, r: &Resp) -> T {
        let Mean::Cert(req, _, _) = self else { return v("") };
        let rq = match req {
            None => vec![],
            Some((h, p)) => {
                let h: Vec<&str> = h.iter().map(|x| x.as_str()).collect();
                let p: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
                request_hash(q, &h, &p).to_vec()
            }
        };
        l(rq, l(self.resp_hash(r), v("")))
    }
    fn headers(&self, r: &Resp) -> Hd {
        r.headers
            .iter()
            .filter(|(k, _)| low(k) != low(CH))
            .filter(|(k, _)| low(k) == low(CEH) || self.keeps(k))
            .map(|(k, v)| (low(k), v.clone()))
            .collect()
    }
    fn resp_hash(&self, r: &Resp) -> H {
        let mut m: Vec<(String, RV)> = self.headers(r).into_iter().map(|(k, v)| (k, RV::S(v))).collect();
        m.push((":ic-cert-status".into(), RV::N(r.status as u64)));
        sha(&[&rih(&m), &sha(&[&r.body])])
    }
}
fn pair(text: &str) -> (Req, Resp) {
    let q = Req {
        method: "GET",
        url: "/p?a=1&b=2&ab=3&x y=4".replace(' ', "%20"),
        headers: hd(&[("a", "1"), ("B", "2"), ("ab", "3"), ("a b", "4"), ("é", "5"), ("", "6")]),
        body: b"q".to_vec(),
    };
    let mut h = hd(&[("A", "1"), ("b", "2"), ("ab", "3"), ("a b", "4"), ("é", "5"), ("", "6"), ("c,d", "7"), ("[{(:)}]", "8"), ("a\\\"b", "9")]);
    h.push((CEH.into(), text.into()));
    (q, Resp { status: 200, headers: h, body: b"r".to_vec() })
}

/// Decide every text: valid ones must verify under exactly their meaning, invalid ones never.
fn decide(c: &'static Ctx, what: &str, texts: Vec<String>) {
    let mut seen: Vec<String> = texts;
    seen.sort();
    seen.dedup();
    // candidate meanings an invalid or misread expression could be taken for
    let cands = [
        Mean::Skip,
        Mean::Cert(None, true, vec![]),
        Mean::Cert(None, false, vec![]),
        Mean::Cert(None, true, vec!["a".into()]),
        Mean::Cert(None, false, vec!["a".into()]),
        Mean::Cert(None, true, vec!["a".into(), "b".into()]),
        Mean::Cert(None, false, vec!["a".into(), "b".into()]),
        Mean::Cert(Some((vec![], vec![])), true, vec![]),
        Mean::Cert(Some((vec![], vec![])), false, vec![]),
        Mean::Cert(Some((vec!["a".into()], vec!["a".into()])), true, vec!["a".into()]),
        Mean::Cert(Some((vec!["a".into()], vec!["b".into()])), true, vec!["a".into()]),
        Mean::Cert(Some((vec!["a".into()], vec![])), true, vec!["a".into()]),
        Mean::Cert(Some((vec![], vec!["b".into()])), true, vec!["a".into()]),
        Mean::Cert(Some((vec!["a".into(), "b".into()], vec!["b".into()])), false, vec!["a".into()]),
    ];
    let path: Vec<Vec<u8>> = vec![b"http_expr".to_vec(), b"p".to_vec(), b"<$>".to_vec()];
    let expr: Vec<String> = vec!["http_expr".into(), "p".into(), "<$>".into()];
    for chunk in seen.chunks(200_000) {
        let items: Vec<(Vec<u8>, T)> = chunk
            .par_iter()
            .map(|t| {
                let (q, r) = pair(t);
                let sub = match meaning(t) {
                    Some(m) => m.subtree(&q, &r),
                    None => {
                        // everything it could be taken for is certified
                        let mut by: BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, ()>> = BTreeMap::new();
                        for m in &cands {
                            if let T::L(a, x) = m.subtree(&q, &r) {
                                if let T::L(b, _) = *x {
                                    by.entry(a).or_default().insert(b, ());
                                }
                            }
                        }
                        let kids: Vec<T> = by
                            .into_iter()
                            .map(|(a, bs)| l(a, balanced(&bs.into_keys().map(|b| l(b, v(""))).collect::<Vec<_>>())))
                            .collect();
                        balanced(&kids)
                    }
                };
                (sha(&[t.as_bytes()]).to_vec(), sub)
            })
            .collect();
        let b = Batch::new(path.clone(), items);
        chunk.par_iter().for_each(|t| {
            if c.stopped() {
                return;
            }
            c.mark(0, 0, 0, 0);
            let (q, mut r) = pair(t);
            let w = b.witness(&sha(&[t.as_bytes()]));
            let hv = v2_header(&b.cert, &w, &expr);
            r.headers.push((CH.into(), hv.clone()));
            let want = match meaning(t) {
                None => Verdict::Reject,
                Some(Mean::Skip) => Verdict::Skipped,
                Some(m) => {
                    let mut h = m.headers(&r);
                    h.push((CH.into(), hv));
                    Verdict::Verified(r.status, h, r.body.clone())
                }
            };
            let got = verify_now(&q, &r);
            c.trans(1);
            c.trace(1);
            c.state(1);
            // escapes are outside the property: rejecting them is fine, reading them differently is not
            let ok = matches!(&got, Ok(g) if g.verdict == want || t.contains('\\') && g.verdict == Verdict::Reject);
            c.check(ok, what, || json!({"expression": t, "want": format!("{want:?}").chars().take(200).collect::<String>(), "got": format!("{got:?}").chars().take(300).collect::<String>()}));
            c.idle();
        });
        let n = chunk.iter().filter(|t| meaning(t).is_some()).count();
        c.outcome_n(&format!("{what}: valid"), n as u64);
        c.outcome_n(&format!("{what}: invalid"), (chunk.len() - n) as u64);
    }
}

fn tokens(t: &str) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let mut ident = String::new();
    let mut s: Option<String> = None;
    for ch in t.chars() {
        if let Some(x) = &mut s {
            x.push(ch);
            if ch == '"' {
                o.push(s.take().unwrap());
            }
            continue;
        }
        if ch.is_ascii_alphanumeric() || ch == '_' {
            ident.push(ch);
            continue;
        }
        if !ident.is_empty() {
            o.push(std::mem::take(&mut ident));
        }
        if ch == '"' {
            s = Some("\"".into());
        } else {
            o.push(ch.into());
        }
    }
    if !ident.is_empty() {
        o.push(ident);
    }
    o
}

pub fn lists(pool: &[&'static str], n: usize) -> Vec<Vec<&'static str>> {
    let mut o = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for x in &last {
            for p in pool {
                let mut y: Vec<&'static str> = x.clone();
                y.push(p);
                next.push(y);
            }
        }
        o.extend(next.iter().cloned());
        last = next;
    }
    o
}

pub fn c14(c: &'static Ctx) {
    // (1) every expression the builder makes over the domain
    let pool = ["a", "B", "ab", "a b", "é", "", "c,d", "[{(:)}]", "IC-Certificate"];
    let ls = lists(&pool, 2);
    let l1 = lists(&["a", "B", "a b", "[{(:)}]"], c.pick(1, 2));
    let mut cels = vec![Cel::Skip];
    for x in &ls {
        cels.push(Cel::Resp(RH::Certified(x.clone())));
        cels.push(Cel::Resp(RH::Excluded(x.clone())));
    }
    for x in &ls {
        for y in &l1 {
            for z in &l1 {
                for e in [RH::Certified(z.clone()), RH::Excluded(z.clone())] {
                    cels.push(Cel::Full(x.clone(), y.clone(), e.clone()));
                    cels.push(Cel::Full(y.clone(), x.clone(), e));
                }
            }
        }
    }
    for n in 3..c.pick(60, 300usize) {
        let many: Vec<&'static str> = (0..n).map(|i| pool[i % pool.len()]).collect();
        cels.push(Cel::Resp(RH::Certified(many.clone())));
        cels.push(Cel::Full(many.clone(), many.clone(), RH::Excluded(many)));
    }
    cels.par_iter().for_each(|x| {
        let got = crate::ctx::catch(|| x.lib_text());
        c.trans(1);
        // the builder's text must mean what was asked for
        let want = meaning(&x.text());
        c.check(matches!(&got, Ok(t) if meaning(t) == want && want.is_some()), "builder", || json!({"want": x.text(), "got": format!("{got:?}")}));
    });
    decide(c, "built", cels.iter().map(|x| x.lib_text()).collect());
    c.sample(|| json!({"expression": cels[cels.len() / 2].lib_text()}));

    // (2) token-level edits of valid expressions
    let bases = [
        Cel::Skip,
        Cel::Resp(RH::Certified(vec!["a", "b"])),
        Cel::Resp(RH::Excluded(vec![])),
        Cel::Full(vec!["a"], vec!["b"], RH::Certified(vec!["a"])),
        Cel::Full(vec![], vec![], RH::Excluded(vec!["a", "b"])),
    ];
    let names = [
        "default_certification", "ValidationArgs", "no_certification", "certification", "Certification", "Empty", "no_request_certification",
        "request_certification", "RequestCertification", "certified_request_headers", "certified_query_parameters", "response_certification",
        "ResponseCertification", "certified_response_headers", "response_header_exclusions", "ResponseHeaderList", "headers", "x",
    ];
    let mut toks: Vec<String> = names.iter().map(|x| x.to_string()).collect();
    toks.extend(["(", ")", "{", "}", "[", "]", ":", ",", "\"\"", "\"a\"", "\"", "\\", "\"\\n\"", "\"\\\\\"", "\"\\x\"", "1", "é", " ", "Empty{}", "\"a\",", "x:\"y\",", "x:\"y\"", "{}", "[]", "f()"].iter().map(|x| x.to_string()));
    let mut edits = vec![];
    for b in &bases {
        let t = tokens(&b.text());
        for i in 0..=t.len() {
            for x in &toks {
                // insertion
                edits.push([&t[..i].concat(), x.as_str(), &t[i..].concat()].concat());
                // replacement
                if i < t.len() {
                    edits.push([&t[..i].concat(), x.as_str(), &t[i + 1..].concat()].concat());
                }
            }
            if i < t.len() {
                // deletion of 1..3 tokens, truncation, duplication of up to 12 tokens, swap
                for k in 1..=3 {
                    if i + k <= t.len() {
                        edits.push([t[..i].concat(), t[i + k..].concat()].concat());
                    }
                }
                edits.push(t[..i].concat());
                for k in 1..=12 {
                    if i + k <= t.len() {
                        edits.push([t[..i + k].concat(), t[i..].concat()].concat());
                        edits.push([t[..i + k].concat(), ",".into(), t[i..].concat()].concat());
                    }
                }
                for j in i + 1..t.len() {
                    let mut u = t.clone();
                    u.swap(i, j);
                    edits.push(u.concat());
                }
            }
        }
        // whitespace between any tokens
        for ws in [" ", "\n", "\t", "\r", "  \n "] {
            for i in 0..=t.len() {
                edits.push([t[..i].concat(), ws.to_string(), t[i..].concat()].concat());
            }
            edits.push(t.join(ws));
        }
        if c.thorough() {
            // all pairs of deletions, and deletion plus insertion
            for i in 0..t.len() {
                for j in i + 1..t.len() {
                    let u: String = t.iter().enumerate().filter(|(k, _)| *k != i && *k != j).map(|(_, x)| x.as_str()).collect();
                    edits.push(u);
                }
                for x in &toks {
                    for j in 0..t.len() {
                        let mut u = t.clone();
                        u[i] = x.clone();
                        u.remove(j);
                        edits.push(u.concat());
                    }
                }
            }
        }
    }
    // escapes and unusual characters inside strings
    for a in ["\\\"", "\\\\", "\\n", "é", "€", "𝄞", "\u{0}", "\u{7f}", "\u{80}", "\t", "\n", "'", "`", "{", "}", "(", ")", "[", "]", ":", ",", "a", "%", "~", "!"] {
        for b in ["", "a", "\\\"", "é", "]", "\\\\"] {
            for d in ["", "z", "\\n", "\"", "\\"] {
                edits.push(format!("default_certification(ValidationArgs{{certification:Certification{{no_request_certification:Empty{{}},response_certification:ResponseCertification{{certified_response_headers:ResponseHeaderList{{headers:[\"{a}{b}{d}\",\"b\"]}}}}}}}})"));
            }
        }
    }
    // structural nesting up to a depth any valid expression needs
    for n in 0..40 {
        for (o, e) in [("[", "]"), ("f(", ")"), ("O{k:", "}")] {
            let val = format!("{}{}{}", o.repeat(n), "\"s\"", e.repeat(n));
            edits.push(format!("default_certification(ValidationArgs{{no_certification:{val}}})"));
            edits.push(val);
        }
    }
    decide(c, "edited", edits);

    // (2b) every combination of present, absent and mistyped parts
    let rl = |n: &str| -> Vec<String> {
        let mut o = vec![String::new()];
        for x in ["ResponseHeaderList{headers:[]}", "ResponseHeaderList{headers:[\"a\"]}", "ResponseHeaderList{}", "[\"a\"]", "\"a\"", "RequestHeaderList{headers:[\"a\"]}", "ResponseHeaderList{headers:\"a\"}", "ResponseHeaderList{headers:[Empty{}]}", "ResponseHeaderList{headers:[\"a\",[\"b\"]]}", "ResponseHeaderList{header:[\"a\"]}"] {
            o.push(format!("{n}:{x}"));
        }
        o
    };
    let two = |a: &[String], b: &[String], wrap: &str| -> Vec<String> {
        let mut o = vec![];
        for x in a {
            for y in b {
                for (p, q) in [(x, y), (y, x)] {
                    let inner = [p.as_str(), q.as_str()].into_iter().filter(|s| !s.is_empty()).collect::<Vec<_>>().join(",");
                    o.push(format!("{wrap}{{{inner}}}"));
                }
            }
        }
        o.sort();
        o.dedup();
        o
    };
    let strs = |n: &str| -> Vec<String> {
        let mut o = vec![String::new()];
        o.extend(["[]", "[\"a\"]", "\"a\"", "[[]]", "Empty{}", "[\"a\",Empty{}]", "f(\"a\")"].iter().map(|x| format!("{n}:{x}")));
        o
    };
    let named = |n: &str, vals: Vec<String>| -> Vec<String> {
        let mut o = vec![String::new()];
        o.extend(vals.into_iter().map(|x| format!("{n}:{x}")));
        o
    };
    let junk = || ["[]", "\"s\"", "Other{}", "f()", "Empty{}", "{}"].iter().map(|x| x.to_string());
    let mut resp = two(&rl("certified_response_headers"), &rl("response_header_exclusions"), "ResponseCertification");
    resp.extend(junk());
    resp.push("ResponseHeaderList{headers:[\"a\"]}".into());
    resp.push("{certified_response_headers:ResponseHeaderList{headers:[]}}".into());
    let mut reqs = two(&strs("certified_request_headers"), &strs("certified_query_parameters"), "RequestCertification");
    reqs.extend(junk());
    reqs.push("ResponseCertification{certified_request_headers:[],certified_query_parameters:[]}".into());
    let nos: Vec<String> = junk().collect();
    let good_resp = "response_certification:ResponseCertification{certified_response_headers:ResponseHeaderList{headers:[\"a\"]}}".to_string();
    let good_resps = vec![good_resp, "response_certification:ResponseCertification{response_header_exclusions:ResponseHeaderList{headers:[]}}".to_string()];
    let join = |x: &[&String]| x.iter().filter(|s| !s.is_empty()).map(|s| s.as_str()).collect::<Vec<_>>().join(",");
    let mut certs: Vec<String> = junk().collect();
    let (no_req, req) = (named("no_request_certification", nos.clone()), named("request_certification", reqs));
    for n in &no_req {
        for r in &req {
            for g in &good_resps {
                certs.push(format!("Certification{{{}}}", join(&[n, r, g])));
                certs.push(format!("Certification{{{}}}", join(&[g, r, n])));
            }
            certs.push(format!("Certification{{{}}}", join(&[n, r])));
        }
    }
    for n in &no_req[..c.pick(3, no_req.len())] {
        for r in ["", "request_certification:RequestCertification{certified_request_headers:[\"a\"],certified_query_parameters:[\"b\"]}", "request_certification:[]"] {
            for g in named("response_certification", resp.clone()) {
                certs.push(format!("Certification{{{}}}", join(&[n, &r.to_string(), &g])));
            }
        }
    }
    certs.sort();
    certs.dedup();
    let mut vas = vec![];
    for n in named("no_certification", nos.clone()) {
        for ct in named("certification", certs.clone()) {
            // with no_certification present, the content of certification does not matter: a sample of shapes
            if !n.is_empty() && ct.len() % c.pick(7, 1) != 0 {
                continue;
            }
            vas.push(format!("ValidationArgs{{{}}}", join(&[&n, &ct])));
            if !n.is_empty() {
                vas.push(format!("ValidationArgs{{{}}}", join(&[&ct, &n])));
            }
        }
    }
    let mut typed: Vec<String> = vas.iter().map(|x| format!("default_certification({x})")).collect();
    let args = ["ValidationArgs{no_certification:Empty{}}", "ValidationArgs{}", "[]", "\"a\"", "f()", "Empty{}", "ValidationArgs{certification:Certification{no_request_certification:Empty{},response_certification:ResponseCertification{certified_response_headers:ResponseHeaderList{headers:[\"a\"]}}}}"];
    for a in args {
        for f in ["", "default_certification", "Default_certification", "default_certification2", "certification"] {
            typed.push(format!("{f}({a})"));
            typed.push(format!("{f}{{{a}}}"));
            typed.push(format!("{f}[{a}]"));
            typed.push(format!("{a}"));
            for b in args {
                typed.push(format!("{f}({a},{b})"));
                typed.push(format!("{f}({a})({b})"));
                typed.push(format!("{f}({a}){b}"));
            }
        }
    }
    decide(c, "typed", typed);

    // (3) all short token sequences
    let small = ["default_certification", "ValidationArgs", "no_certification", "Empty", "(", ")", "{", "}", ":", ",", "[", "]", "\"a\"", " "];
    let n = c.pick(4usize, 5);
    let mut all = vec![];
    for k in 0..=n {
        for mut s in 0..small.len().pow(k as u32) {
            let mut t = String::new();
            for _ in 0..k {
                t.push_str(small[s % small.len()]);
                s /= small.len();
            }
            all.push(t);
        }
    }
    decide(c, "short", all);
    c.note("bound", format!("{} built expressions; every single-token insertion, replacement, deletion, duplication, swap and whitespace insertion in 5 base expressions; all sequences of <= {n} of 14 tokens; every one decided through end-to-end verification", cels.len()));
}
