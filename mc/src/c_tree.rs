//! C05..C10: hash trees, red-black trees, nested trees, merging.
use crate::ctx::{hx, Ctx};
use crate::tree::*;
use ic_certification::{AsHashTree, HashTree, LookupResult, NestedTree, RbTree, SubtreeLookupResult};
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::sync::atomic::Ordering::Relaxed;

pub fn look(t: &HashTree, p: &[Vec<u8>]) -> Look {
    match t.lookup_path(p) {
        LookupResult::Absent => Look::Absent,
        LookupResult::Unknown => Look::Unknown,
        LookupResult::Error => Look::Error,
        LookupResult::Found(v) => Look::Found(v.to_vec()),
    }
}
pub fn sub(t: &HashTree, p: &[Vec<u8>]) -> Sub {
    match t.lookup_subtree(p) {
        SubtreeLookupResult::Absent => Sub::Absent,
        SubtreeLookupResult::Unknown => Sub::Unknown,
        SubtreeLookupResult::Found(x) => Sub::Found(T::from_impl(&x)),
    }
}
pub fn showp(p: &[Vec<u8>]) -> String {
    format!("{:?}", p.iter().map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>())
}

/// All paths over `alpha` up to `n` segments.
pub fn all_paths(alpha: &[&str], n: usize) -> Vec<Vec<Vec<u8>>> {
    let mut o: Vec<Vec<Vec<u8>>> = vec![vec![]];
    let mut cur = o.clone();
    for _ in 0..n {
        let mut nx = vec![];
        for p in &cur {
            for a in alpha {
                let mut q = p.clone();
                q.push(a.as_bytes().to_vec());
                nx.push(q);
            }
        }
        o.extend(nx.clone());
        cur = nx;
    }
    o
}

/// All trees with at most `n` nodes over the labels, one leaf value, empty and (optionally) pruned.
pub fn trees(n: usize, labels: &[&str], leaves: &[&[u8]], pruned: bool) -> Vec<Vec<T>> {
    let mut by: Vec<Vec<T>> = vec![vec![]];
    for s in 1..=n {
        let mut o = vec![];
        if s == 1 {
            o.push(T::E);
            for x in leaves {
                o.push(v(x));
            }
            if pruned {
                o.push(T::P([7; 32]));
            }
        } else {
            for lb in labels {
                for t in &by[s - 1] {
                    o.push(l(lb, t.clone()));
                }
            }
            for i in 1..s - 1 {
                for a in &by[i] {
                    for b in &by[s - 1 - i] {
                        o.push(f(a.clone(), b.clone()));
                    }
                }
            }
        }
        by.push(o);
    }
    by
}
pub fn wf_trees(n: usize, labels: &[&str], leaves: &[&[u8]], pruned: bool) -> Vec<T> {
    // Prune early: every subtree of a well-formed tree is well formed.
    let mut by: Vec<Vec<T>> = vec![vec![]];
    for s in 1..=n {
        let mut o = vec![];
        if s == 1 {
            o = trees(1, labels, leaves, pruned).pop().unwrap();
        } else {
            for lb in labels {
                for t in &by[s - 1] {
                    o.push(l(lb, t.clone()));
                }
            }
            for i in 1..s - 1 {
                for a in &by[i] {
                    for b in &by[s - 1 - i] {
                        if matches!(a, T::V(_)) || matches!(b, T::V(_)) {
                            continue;
                        }
                        let t = f(a.clone(), b.clone());
                        if t.well_formed() {
                            o.push(t);
                        }
                    }
                }
            }
        }
        by.push(o);
    }
    by.into_iter().flatten().collect()
}

fn check_lookups(c: &Ctx, t: &T, paths: &[Vec<Vec<u8>>]) {
    let it = t.to_impl();
    let d = |p: &[Vec<u8>], a: String, b: String| json!({"tree": t.show(), "path": showp(p), "got": a, "want": b});
    for p in paths {
        let Some(g) = c.guard("lookup-panic", || json!({"tree": t.show(), "path": showp(p)}), || (look(&it, p), sub(&it, p))) else {
            return;
        };
        let w = t.lookup(p);
        c.check(g.0 == w, "lookup_path", || d(p, format!("{:?}", g.0), format!("{w:?}")));
        let ws = t.subtree(p);
        c.check(g.1 == ws, "lookup_subtree", || d(p, format!("{:?}", g.1), format!("{ws:?}")));
    }
    let lp: Vec<Vec<Vec<u8>>> = it.list_paths().into_iter().map(|p| p.into_iter().map(|x| x.as_bytes().to_vec()).collect()).collect();
    let want: Vec<_> = t.paths().into_iter().map(|x| x.0).collect();
    c.check(lp == want, "list_paths", || json!({"tree": t.show(), "got": format!("{lp:?}")}));
    c.trans(paths.len() as u64 * 2 + 1);
    c.trace(paths.len() as u64 * 2 + 1);
}

pub fn c05(c: &'static Ctx) {
    let n = c.pick(10, 11);
    let paths = all_paths(&["", "a", "aa", "b", "c", "d"], 2);
    let deep = all_paths(&["a", "b", "c"], 3);
    let ts = wf_trees(n, &["a", "b", "c"], &[b"x"], true);
    c.note("bound", format!("all well-formed trees with at most {n} nodes over 3 labels, one value, empty and pruned nodes"));
    c.state(ts.len() as u64);
    ts.par_iter().for_each(|t| {
        if c.stopped() {
            return;
        }
        c.mark(5, t.size() as u64, 0, 0);
        check_lookups(c, t, &paths);
        if t.size() <= 7 {
            check_lookups(c, t, &deep);
        }
        c.idle();
    });
    for t in ts.iter().rev().step_by(ts.len() / 5 + 1) {
        c.sample(|| json!({"tree": t.show(), "lookup [a]": format!("{:?}", t.lookup(&["a"]))}));
    }
    c05_lengths(c);
    // Wide forests: every shape over up to 5 (6) items, each item a label, a pruned node or empty.
    let k = c.pick(5, 6);
    let labels = ["", "a", "ab", "b", "ba", "\u{ff}"];
    let mut forests: Vec<Vec<T>> = vec![vec![]];
    for lb in &labels[..k] {
        let mut nx = vec![];
        for fo in &forests {
            for kind in 0..5 {
                let mut g = fo.clone();
                match kind {
                    0 => g.push(l(lb, v("x"))),
                    1 => g.push(l(lb, T::P([9; 32]))),
                    2 => {
                        if matches!(g.last(), Some(T::P(_))) {
                            continue;
                        }
                        g.push(T::P([8; 32]))
                    }
                    3 => g.push(T::E),
                    _ => {}
                }
                nx.push(g);
            }
        }
        forests = nx;
    }
    let probe = all_paths(&["", "\0", "a", "aa", "ab", "abc", "b", "ba", "c", "\u{ff}", "\u{ffff}"], 1);
    forests.par_iter().for_each(|fo| {
        if c.stopped() || fo.len() < 2 {
            return;
        }
        for t in shapes(fo) {
            c.state(1);
            check_lookups(c, &t, &probe);
        }
    });
    // whole trees and witnesses of every size
    nested_sizes(c, c.pick(40, 80), |t, _, pr, _| {
        check_lookups(c, &T::from_impl(&t.as_hash_tree()), pr);
        for p in pr {
            check_lookups(c, &T::from_impl(&t.witness(p)), pr);
        }
    });
    c.note("bound2", format!("all binary shapes over all forests of up to {k} items (label / pruned label / pruned / empty)"));
}

/// Lookups among labels of every length that differ in the last byte, in length only, or first.
fn c05_lengths(c: &'static Ctx) {
    (0..c.pick(300usize, 1100)).into_par_iter().for_each(|n| {
        let b = |e: &[u8]| [vec![b'm'; n], e.to_vec()].concat();
        let labels = [b(b""), b(b"\0"), b(b"a"), b(b"b"), [b"n", &b(b"")[..]].concat()];
        for mask in 1..32u32 {
            let items: Vec<T> = (0..5).filter(|i| mask >> i & 1 == 1).map(|i| l(&labels[i], v([i as u8]))).collect();
            let mut ts = vec![balanced(&items)];
            // left and right combs, and one child pruned
            ts.push(items.iter().cloned().reduce(f).unwrap());
            ts.push(items.iter().rev().cloned().reduce(|a, b| f(b, a)).unwrap());
            for k in 0..items.len() {
                let mut it = items.clone();
                it[k] = T::P(it[k].digest());
                ts.push(balanced(&it));
            }
            let mut ps: Vec<Vec<Vec<u8>>> = labels.iter().map(|x| vec![x.clone()]).collect();
            ps.push(vec![b(b"ab")]);
            ps.push(vec![vec![b'm'; n.saturating_sub(1)]]);
            ps.push(vec![b(b"\xff")]);
            for t in ts {
                check_lookups(c, &t, &ps);
                c.state(1);
            }
        }
    });
}

pub fn c06(c: &'static Ctx) {
    // (a) digest agrees with the specification, and distinct complete trees have distinct digests
    let n = c.pick(8, 9);
    let labels = ["", "a", "ab"];
    let leaves: [&[u8]; 3] = [b"", b"a", b"\x10ic-hashtree-leafa"];
    let ts: Vec<T> = trees(n, &labels, &leaves, false).into_iter().flatten().collect();
    c.state(ts.len() as u64);
    let ds: Vec<H> = ts
        .par_iter()
        .map(|t| {
            let d = c.guard("digest-panic", || json!({"tree": t.show()}), || t.to_impl().digest()).unwrap_or_default();
            c.check(d == t.digest(), "digest-spec", || json!({"tree": t.show(), "got": hx(&d), "want": hx(&t.digest())}));
            d
        })
        .collect();
    c.trace(ts.len() as u64);
    let mut seen: HashMap<H, usize> = HashMap::new();
    for (i, d) in ds.iter().enumerate() {
        if let Some(j) = seen.insert(*d, i) {
            c.check(ts[i] == ts[j], "digest-collision", || json!({"a": ts[i].show(), "b": ts[j].show()}));
        }
    }
    c.note("bound", format!("all {} trees with at most {n} nodes: digest against the specification, all pairs for collisions", ts.len()));
    // labels and values of every length
    let mut lens: Vec<usize> = (0..c.pick(300, 1100)).collect();
    for k in 9..c.pick(17, 21) {
        lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    lens.par_iter().for_each(|n| {
        let lb: Vec<u8> = (0..*n).map(|i| (i * 31 + 7) as u8).collect();
        let mut kids = vec![T::E, v(""), v(&lb), T::P([6; 32]), l(&lb, T::P([5; 32])), l("", v("x")), f(l("", T::E), l(&lb, v("y")))];
        kids.push(v(&lb[..n.saturating_sub(1)]));
        for k in kids {
            for t in [l(&lb, k.clone()), f(l(&lb, k.clone()), T::P([4; 32])), f(T::E, l(&lb, k.clone())), k] {
                let got = c.guard("digest-panic", || json!({"len": n}), || t.to_impl().digest());
                c.check(got == Some(t.digest()), "digest-spec", || json!({"len": n, "tree": t.show().chars().take(200).collect::<String>()}));
                c.trace(1);
            }
        }
        c.check(ic_certification::leaf_hash(&lb) == v(&lb).digest(), "leaf_hash", || json!({"len": n}));
        c.check(ic_certification::labeled_hash(&lb, &[3; 32]) == l(&lb, T::P([3; 32])).digest(), "labeled_hash", || json!({"len": n}));
        c.state(1);
    });
    // (b) pruning: every pruning of every well-formed tree keeps the digest and never lies
    let n = c.pick(9, 10);
    let ws = wf_trees(n, &["a", "b", "c"], &[b"x", b"y"], false);
    let paths = all_paths(&["", "a", "ab", "b", "c", "d"], 2);
    ws.par_iter().for_each(|t| {
        if c.stopped() {
            return;
        }
        let root = t.to_impl().digest();
        let full: Vec<Look> = paths.iter().map(|p| t.lookup(p)).collect();
        for w in t.prunings() {
            c.state(1);
            let iw = w.to_impl();
            c.check(iw.digest() == root, "pruning-digest", || json!({"tree": t.show(), "pruned": w.show()}));
            for (p, fl) in paths.iter().zip(&full) {
                let got = look(&iw, p);
                let ok = match (&got, fl) {
                    (Look::Unknown, _) => true,
                    (a, b) => a == b,
                };
                c.check(ok, "pruning-lookup", || json!({"tree": t.show(), "pruned": w.show(), "path": showp(p), "got": format!("{got:?}"), "full": format!("{fl:?}")}));
                if let Sub::Found(s) = sub(&iw, p) {
                    let ok = matches!(t.subtree(p), Sub::Found(fs) if fs.is_pruning(&s));
                    c.check(ok, "pruning-subtree", || json!({"tree": t.show(), "pruned": w.show(), "path": showp(p)}));
                }
                c.trans(1);
            }
            c.trace(1);
        }
    });
    c.sample(|| json!({"tree": ws[ws.len() - 1].show(), "prunings": ws[ws.len() - 1].prunings().iter().map(|w| w.show()).collect::<Vec<_>>()}));
    // pruned nodes from text: the 32 bytes written in hexadecimal digits of either case, nothing else
    let d: H = sha(&[b"hex"]);
    let mut texts: Vec<String> = crate::http::near(&hx(&d));
    texts.extend((0..140).map(|n| "aF".repeat(n / 2) + if n % 2 == 1 { "0" } else { "" }));
    texts.extend([format!("0x{}", hx(&d)), format!("0x{}", &hx(&d)[2..]), "\u{ff11}".repeat(64), "é".repeat(32), hx(&[0xff; 32]), hx(&[0; 32]), hx(&d[1..])]);
    for i in 0..64 {
        for b in (0..=255u8).filter(|b| b.is_ascii()) {
            let mut x = hx(&d).into_bytes();
            x[i] = b;
            texts.push(String::from_utf8(x).unwrap());
        }
    }
    for t in &texts {
        let want: Option<H> = (t.len() == 64 && t.bytes().all(|b| b.is_ascii_hexdigit())).then(|| {
            let n = |b: u8| (b as char).to_digit(16).unwrap() as u8;
            let o: Vec<u8> = t.as_bytes().chunks(2).map(|x| n(x[0]) << 4 | n(x[1])).collect();
            o.try_into().unwrap()
        });
        let got = c.guard("hex-panic", || json!({"text": t}), || ic_certification::pruned_from_hex(t).ok().map(|x| T::from_impl(&x)));
        c.check(got == Some(want.map(T::P)), "pruned_from_hex", || json!({"text": t, "got": format!("{got:?}")}));
        c.trace(1);
    }
    // the same tree over other kinds of storage
    for t in trees(6, &["", "a", "ab"], &[b"", b"xy"], true).into_iter().flatten() {
        fn node<'a, S: AsRef<[u8]>>(t: &'a T, m: &dyn Fn(&'a [u8]) -> S) -> ic_certification::hash_tree::HashTree<S> {
            use ic_certification::hash_tree as ic;
            match t {
                T::E => ic::empty(),
                T::F(a, b) => ic::fork(node(a, m), node(b, m)),
                T::L(x, a) => ic::label(m(x), node(a, m)),
                T::V(x) => ic::leaf(m(x)),
                T::P(h) => ic::pruned(*h),
            }
        }
        let want = t.digest();
        let a = node(&t, &|x| x).digest();
        let b = node(&t, &|x| std::borrow::Cow::Borrowed(x)).digest();
        let e = node(&t, &|x| x.to_vec()).digest();
        let eq = node(&t, &|x| x.to_vec()) == t.to_impl();
        c.check([a, b, e] == [want; 3] && eq, "storage", || json!({"tree": t.show()}));
        c.trace(3);
    }
    // helpers
    for a in ["", "a", "abc"] {
        let t = v(a);
        c.check(ic_certification::leaf_hash(a.as_bytes()) == t.digest(), "leaf_hash", || json!({"v": a}));
        for t2 in [v("z"), T::E] {
            c.check(
                ic_certification::labeled_hash(a.as_bytes(), &t2.digest()) == l(a, t2.clone()).digest(),
                "labeled_hash",
                || json!({"v": a}),
            );
            c.check(
                ic_certification::fork_hash(&t.digest(), &t2.digest()) == f(t.clone(), t2.clone()).digest(),
                "fork_hash",
                || json!({"v": a}),
            );
        }
    }
}

// ---------------------------------------------------------------- red-black trees
type Rb = RbTree<Vec<u8>, Vec<u8>>;
type Model = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Clone, Copy, Debug)]
enum Op {
    Ins(usize, usize),
    Del(usize),
    Mod(usize, usize),
}
const OWN: usize = 9;
const VALS: [&[u8]; 2] = [b"", b"v1"];
fn keys_alpha(n: usize) -> Vec<Vec<u8>> {
    let all: [&[u8]; 14] = [b"", b"a", b"aa", b"ab", b"b", b"b\xff", b"c", b"ca", b"d", b"\xff", b"e", b"ea", b"f", b"g"];
    all[..n].iter().map(|x| x.to_vec()).collect()
}
/// Keys that are extreme in the byte order, and long ones that differ late.
fn keys_extreme(n: usize) -> Vec<Vec<u8>> {
    let long = |e: &[u8]| [vec![b'k'; 40], e.to_vec()].concat();
    let all: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0xff],
        vec![0xff, 0xff, 1],
        vec![b'a', 0xff],
        vec![b'a', 0xff, 0xff, 1],
        vec![b'b'],
        long(b""),
        long(b"b"),
        vec![0xff, 0xff, 0xff],
        vec![0, 0],
        vec![b'a', 0xfe, 0xff],
    ];
    all[..n].to_vec()
}
fn probes_extreme(keys: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut o = keys.to_vec();
    for x in [&[b'a'][..], &[0xff, 0], &[0xff, 0xff], &[b'a', 0xff, 0], &[b'a', 0xff, 0xff], &[b'a', 0xfe], &[0, 1], &[0xfe], &[b'k'; 39], &[b'k'; 41]] {
        o.push(x.to_vec());
    }
    o.sort();
    o.dedup();
    o
}
fn apply(t: &mut Rb, m: &mut Model, keys: &[Vec<u8>], o: Op) {
    match o {
        // the value names the key
        Op::Ins(k, OWN) => {
            let x = [b"v", keys[k].as_slice()].concat();
            t.insert(keys[k].clone(), x.clone());
            m.insert(keys[k].clone(), x);
        }
        Op::Ins(k, x) => {
            t.insert(keys[k].clone(), VALS[x].to_vec());
            m.insert(keys[k].clone(), VALS[x].to_vec());
        }
        Op::Del(k) => {
            t.delete(&keys[k]);
            m.remove(&keys[k]);
        }
        Op::Mod(k, x) => {
            t.modify(&keys[k], |y| *y = VALS[x].to_vec());
            if let Some(y) = m.get_mut(&keys[k]) {
                *y = VALS[x].to_vec();
            }
        }
    }
}
fn fork_depth(t: &T) -> usize {
    match t {
        T::F(a, b) => 1 + fork_depth(a).max(fork_depth(b)),
        _ => 0,
    }
}
fn rb_check(c: &Ctx, t: &Rb, m: &Model, probes: &[Vec<u8>], hist: &dyn Fn() -> String) {
    let d = |what: &str| json!({"history": hist(), "what": what, "model": format!("{m:?}")});
    for p in probes {
        c.check(t.get(p) == m.get(p), "rb-get", || d(&format!("get {}", hx(p))));
    }
    let it: Vec<(Vec<u8>, Vec<u8>)> = t.iter().map(|(k, v)| (k.to_vec(), v.clone())).collect();
    let want: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    c.check(it == want, "rb-iter", || d("iter"));
    let mut fe = vec![];
    t.for_each(|k, v| fe.push((k.to_vec(), v.clone())));
    c.check(fe == want, "rb-for_each", || d("for_each"));
    c.check(t.is_empty() == m.is_empty(), "rb-is_empty", || d("is_empty"));
    let full = T::from_impl(&t.as_hash_tree());
    c.check(full.digest() == t.root_hash(), "rb-root_hash", || json!({"d": d("root hash"), "tree": full.show()}));
    c.check(full.well_formed(), "rb-sorted", || json!({"d": d("labels sorted"), "tree": full.show()}));
    let fp: Vec<_> = full.paths().into_iter().map(|(p, v)| (p.concat(), v)).collect();
    c.check(fp == want && full.paths().iter().all(|p| p.0.len() == 1), "rb-tree-contents", || d("contents of the hash tree"));
    // 2*log2(n+1) levels of at most two forks each
    let n = m.len() as f64;
    let lim = (4.0 * (n + 1.0).log2()).ceil() as usize;
    c.check(fork_depth(&full) <= lim, "rb-balance", || d(&format!("depth {} > {lim}", fork_depth(&full))));
}
/// The labels a witness of a map shows at its own level.
fn labels<'a>(t: &'a T, o: &mut Vec<&'a [u8]>) {
    match t {
        T::F(l, r) => {
            labels(l, o);
            labels(r, o);
        }
        T::L(k, _) => o.push(k),
        _ => {}
    }
}
/// Whether a witness shows no keys but those in `want` and the neighbours on either side that
/// a proof of absence needs.
fn only_keys(w: &T, m: &Model, first: &[u8], want: impl Fn(&[u8]) -> bool) -> bool {
    let below = m.range::<[u8], _>((std::ops::Bound::Unbounded, std::ops::Bound::Excluded(first))).next_back().map(|x| &x.0[..]);
    let above = m.range::<[u8], _>((std::ops::Bound::Included(first), std::ops::Bound::Unbounded)).map(|x| &x.0[..]).find(|k| !want(k));
    let mut o = vec![];
    labels(w, &mut o);
    o.iter().all(|k| want(k) || Some(*k) == below || Some(*k) == above)
}
fn rb_witness(c: &Ctx, t: &Rb, m: &Model, probes: &[Vec<u8>], hist: &dyn Fn() -> String) {
    let full = T::from_impl(&t.as_hash_tree());
    let root = t.root_hash();
    let bad = |w: &T, what: String| json!({"history": hist(), "tree": full.show(), "witness": w.show(), "what": what});
    let base = |w: &T, what: &str| {
        c.check(w.digest() == root, "rb-witness-digest", || bad(w, what.into()));
        c.check(full.is_pruning(w), "rb-witness-pruning", || bad(w, what.into()));
    };
    let get = |x: HashTree| T::from_impl(&x);
    let mut n = 0;
    for p in probes {
        let path = [p.clone()];
        let w = get(t.witness(p));
        base(&w, "witness");
        let want = match m.get(p) {
            Some(x) => Look::Found(x.clone()),
            None => Look::Absent,
        };
        c.check(w.lookup(&path) == want, "rb-witness-lookup", || bad(&w, format!("witness {}", hx(p))));
        c.check(look(&w.to_impl(), &path) == want, "rb-witness-lookup-impl", || bad(&w, format!("witness {}", hx(p))));
        c.check(w.paths().iter().all(|q| q.0[0] == *p), "rb-witness-minimal", || bad(&w, "reveals another value".into()));
        c.check(only_keys(&w, m, p, |k| k == &p[..]), "rb-witness-keys", || bad(&w, "shows another key".into()));
        let w = get(t.nested_witness(p, |x| ic_certification::pruned(x.root_hash())));
        base(&w, "nested_witness");
        let s = w.subtree(&path);
        let ok = match m.get(p) {
            Some(x) => s == Sub::Found(T::P(v(x).digest())),
            None => s == Sub::Absent,
        };
        c.check(ok, "rb-nested-witness", || bad(&w, format!("nested_witness {}", hx(p))));
        let w = get(t.keys_with_prefix(p));
        base(&w, "prefix");
        for q in probes.iter().filter(|q| q.starts_with(p)) {
            let s = w.subtree(&[q.clone()]);
            let ok = if m.contains_key(q) { matches!(s, Sub::Found(_)) } else { s == Sub::Absent };
            c.check(ok, "rb-prefix", || bad(&w, format!("prefix {} key {}", hx(p), hx(q))));
        }
        c.check(only_keys(&w, m, p, |k| k.starts_with(p)), "rb-prefix-keys", || bad(&w, format!("prefix {}: shows another key", hx(p))));
        c.check(w.paths().is_empty(), "rb-prefix-values", || bad(&w, "reveals a value".into()));
        n += 3;
        for q in probes.iter().filter(|q| *q >= p) {
            for values in [false, true] {
                let w = get(if values { t.value_range(p, q) } else { t.key_range(p, q) });
                base(&w, "range");
                for r in probes.iter().filter(|r| *r >= p && *r <= q) {
                    let ok = match (m.get(r), w.subtree(&[r.clone()])) {
                        (None, s) => s == Sub::Absent,
                        (Some(x), Sub::Found(s)) => s == if values { v(x) } else { T::P(v(x).digest()) },
                        _ => false,
                    };
                    c.check(ok, "rb-range", || bad(&w, format!("{} range {}..={} key {}", if values { "value" } else { "key" }, hx(p), hx(q), hx(r))));
                }
                c.check(only_keys(&w, m, p, |k| k >= &p[..] && k <= &q[..]), "rb-range-keys", || bad(&w, format!("range {}..={}: shows another key", hx(p), hx(q))));
                c.check(
                    w.paths().iter().all(|x| values && x.0[0] >= *p && x.0[0] <= *q),
                    "rb-range-values",
                    || bad(&w, "reveals a value outside the request".into()),
                );
                n += 1;
            }
        }
    }
    let w = get(t.keys());
    base(&w, "keys");
    for q in probes {
        let s = w.subtree(&[q.clone()]);
        let ok = if m.contains_key(q) { matches!(s, Sub::Found(T::P(_))) } else { s == Sub::Absent };
        c.check(ok, "rb-keys", || bad(&w, format!("keys {}", hx(q))));
    }
    c.trace(n + 1);
}
fn probes(keys: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = keys.to_vec();
    for x in [b"\0".as_slice(), b"a\0", b"aaa", b"abz", b"b\xfe", b"bb", b"c\0", b"zz", b"\xff\xff"] {
        o.push(x.to_vec());
    }
    o.sort();
    o.dedup();
    o
}

/// Breadth-first over all reachable trees; states are distinguished by their shape and by the
/// shapes of all their successors (the node colours are not observable).
fn rb_explore(c: &'static Ctx, keys: Vec<Vec<u8>>, cap: usize, check: impl Fn(&Rb, &Model, &dyn Fn() -> String) + Sync) {
    let nk = keys.len();
    let mut ops = vec![];
    for k in 0..nk {
        ops.push(Op::Ins(k, OWN));
        ops.push(Op::Del(k));
    }
    let key_of = |t: &Rb| -> H {
        let mut h = vec![T::from_impl(&t.as_hash_tree()).digest().to_vec()];
        for o in &ops {
            let mut t2 = t.clone();
            let mut m2 = Model::new();
            apply(&mut t2, &mut m2, &keys, *o);
            h.push(t2.root_hash().to_vec());
        }
        sha(&[&h.concat()])
    };
    let mut seen: HashSet<H> = HashSet::new();
    let mut frontier: Vec<(Rb, Model, Vec<Op>)> = vec![(Rb::new(), Model::new(), vec![])];
    seen.insert(key_of(&frontier[0].0));
    let mut total = 1usize;
    let mut depth = 0;
    while !frontier.is_empty() && !c.stopped() {
        let next: Vec<(H, Rb, Model, Vec<Op>)> = frontier
            .par_iter()
            .flat_map_iter(|(t, m, h)| {
                c.mark(7, h.len() as u64, 0, 0);
                let show = || format!("{h:?}");
                c.guard("rb-panic", || json!({"history": show()}), || check(t, m, &show));
                c.state(1);
                let mut o = vec![];
                for op in &ops {
                    let r = c.guard("rb-panic", || json!({"history": show(), "op": format!("{op:?}")}), || {
                        let (mut t2, mut m2) = (t.clone(), m.clone());
                        apply(&mut t2, &mut m2, &keys, *op);
                        let k = key_of(&t2);
                        (k, t2, m2)
                    });
                    c.trans(1);
                    if let Some((k, t2, m2)) = r {
                        if !seen.contains(&k) {
                            let mut h2 = h.clone();
                            h2.push(*op);
                            o.push((k, t2, m2, h2));
                        }
                    }
                }
                c.idle();
                o
            })
            .collect();
        frontier = vec![];
        for (k, t, m, h) in next {
            if seen.insert(k) {
                frontier.push((t, m, h));
                total += 1;
            }
        }
        depth += 1;
        if total > cap {
            c.capped.lock().unwrap().insert(format!("rb states > {cap} at depth {depth}"));
            break;
        }
    }
    c.note(&format!("reachable_tree_states_{nk}_keys_{}", hx(&keys[2])), total as u64);
    c.note(&format!("depth_reached_{nk}_keys_{}", hx(&keys[2])), depth as u64);
}

pub fn c07(c: &'static Ctx) {
    let nk = c.pick(10, 13);
    let pr = probes(&keys_alpha(nk));
    rb_explore(c, keys_alpha(nk), c.pick(60_000, 1_500_000), |t, m, h| {
        rb_check(c, t, m, &pr, h);
        c.trace(1);
    });
    let ke = keys_extreme(c.pick(7, 11));
    let pe = probes_extreme(&ke);
    rb_explore(c, ke, c.pick(20_000, 400_000), |t, m, h| {
        rb_check(c, t, m, &pe, h);
        c.trace(1);
    });
    // all operation sequences with overwrites and in-place modification
    let (nk, d) = c.pick((3, 6), (3, 7));
    let keys = keys_alpha(nk);
    let mut ops = vec![];
    for k in 0..nk {
        ops.extend([Op::Ins(k, 0), Op::Ins(k, 1), Op::Del(k), Op::Mod(k, 0), Op::Mod(k, 1)]);
    }
    fn dfs(c: &Ctx, t: &Rb, m: &Model, h: &mut Vec<Op>, d: usize, ops: &[Op], keys: &[Vec<u8>]) {
        if d == 0 || c.stopped() {
            return;
        }
        for o in ops {
            let (mut t2, mut m2) = (t.clone(), m.clone());
            h.push(*o);
            let hs = h.clone();
            let hist = move || format!("{hs:?}");
            let h2 = hist.clone();
            let r = c.guard("rb-panic", || json!({"history": h2()}), || {
                apply(&mut t2, &mut m2, keys, *o);
                rb_check_light(c, &t2, &m2, keys, &hist);
            });
            c.trans(1);
            if r.is_some() {
                dfs(c, &t2, &m2, h, d - 1, ops, keys);
            }
            h.pop();
        }
    }
    fn rb_check_light(c: &Ctx, t: &Rb, m: &Model, keys: &[Vec<u8>], hist: &dyn Fn() -> String) {
        let d = |what: &str| json!({"history": hist(), "what": what, "model": format!("{m:?}")});
        for p in keys {
            c.check(t.get(p) == m.get(p), "rb-get", || d("get"));
        }
        let full = T::from_impl(&t.as_hash_tree());
        c.check(full.digest() == t.root_hash(), "rb-root_hash", || d("root hash"));
        let fp: Vec<_> = full.paths().into_iter().map(|(p, v)| (p.concat(), v)).collect();
        let want: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        c.check(fp == want && full.well_formed(), "rb-tree-contents", || d("contents"));
        c.trace(1);
    }
    let pre: Vec<(Op, Op)> = ops.iter().flat_map(|a| ops.iter().map(move |b| (*a, *b))).collect();
    pre.par_iter().for_each(|(a, b)| {
        let (mut t, mut m) = (Rb::new(), Model::new());
        apply(&mut t, &mut m, &keys, *a);
        apply(&mut t, &mut m, &keys, *b);
        dfs(c, &t, &m, &mut vec![*a, *b], d - 2, &ops, &keys);
    });
    c.note("sequences", format!("all {}^{d} sequences of insert (2 values) / delete / modify over {nk} keys", ops.len()));
    // long structured histories: insertion and deletion orders on many keys (balance, deep rotations)
    let n = c.pick(200usize, 1000);
    let orders: Vec<Box<dyn Fn(usize) -> usize + Sync>> = vec![
        Box::new(|i| i),
        Box::new(move |i| n - 1 - i),
        Box::new(move |i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }),
        Box::new(move |i| (i * 7919) % n),
    ];
    let orders = &orders;
    (0..orders.len() * orders.len()).into_par_iter().for_each(|x| {
        let (a, b) = (&orders[x / orders.len()], &orders[x % orders.len()]);
        let (mut t, mut m) = (Rb::new(), Model::new());
        let kk = |i: usize| format!("{i:04}").into_bytes();
        let all: Vec<Vec<u8>> = (0..n).map(kk).collect();
        for i in 0..n {
            t.insert(kk(a(i)), vec![i as u8]);
            m.insert(kk(a(i)), vec![i as u8]);
            if i % 37 == 0 || i + 1 == n {
                rb_check(c, &t, &m, &all, &|| format!("{i} inserts in order {x}"));
            }
            c.trans(1);
        }
        for i in 0..n {
            t.delete(&kk(b(i)));
            m.remove(&kk(b(i)));
            if i % 37 == 0 || n - i < 20 {
                rb_check(c, &t, &m, &all, &|| format!("{i} deletes in order {x}"));
            }
            c.trans(1);
        }
        c.state(2 * n as u64);
        c.trace(2);
    });
    c.sample(|| json!({"history": "insert 0..n in 4 orders, delete in 4 orders", "n": n}));
    // equality of maps built by different histories, FromIterator
    let items: Vec<(Vec<u8>, Vec<u8>)> = keys_alpha(5).into_iter().map(|k| (k.clone(), k)).collect();
    let base: Rb = items.iter().cloned().collect();
    permutations(5, &mut |p| {
        let t: Rb = p.iter().map(|i| items[*i].clone()).collect();
        c.check(t == base && t.cmp(&base) == std::cmp::Ordering::Equal, "rb-eq", || json!({"perm": format!("{p:?}")}));
        c.trace(1);
    });
    // comparison of all pairs of maps, each built in both orders; a copy and its original stay apart
    let ks: Vec<Vec<u8>> = [&b"a"[..], b"ab", b"b", b"c"].iter().map(|k| k.to_vec()).collect();
    let vs: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![1]), Some(vec![1, 0])];
    let mut maps: Vec<(BTreeMap<Vec<u8>, Vec<u8>>, Rb)> = vec![];
    for x in 0..vs.len().pow(4) {
        let m: BTreeMap<_, _> = (0..4).filter_map(|i| vs[x / vs.len().pow(i) % vs.len()].clone().map(|v| (ks[i as usize].clone(), v))).collect();
        maps.push((m.clone(), m.clone().into_iter().collect()));
        maps.push((m.clone(), m.into_iter().rev().collect()));
    }
    maps.par_iter().for_each(|(m, t)| {
        for (n, u) in &maps {
            let got = crate::ctx::catch(|| (t == u, t != u, t.cmp(u), t.partial_cmp(u)));
            c.check(got == Ok((m == n, m != n, m.cmp(n), m.partial_cmp(n))), "rb-cmp", || json!({"a": format!("{m:?}"), "b": format!("{n:?}"), "got": format!("{got:?}")}));
        }
        for k in &ks {
            let mut copy = t.clone();
            match m.contains_key(k) {
                true => copy.delete(k),
                false => copy.insert(k.clone(), vec![9]),
            }
            let same = t.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<_, _>>() == *m && *t != copy && t.root_hash() == t.clone().root_hash();
            c.check(same, "rb-clone", || json!({"map": format!("{m:?}"), "key": hx(k)}));
        }
        c.trans(maps.len() as u64 + 4);
        c.state(1);
    });
    c.note("bound comparison", format!("all pairs of {} maps", maps.len()));
    rb_sizes(c, c.pick(70, 130), &[255, 256, 257, 1000], 2000, |t, m, pr, h| {
        rb_check(c, t, m, pr, h);
        c.trace(1);
    });
    let _ = c.traces.load(Relaxed);
}
/// Trees of every size up to `nmax` and of some beyond it: three families of keys, four orders of
/// insertion, with nothing else, with every third key deleted, with half of them deleted and put
/// back with another value, and with everything modified in place.
fn rb_sizes(c: &'static Ctx, nmax: usize, extra: &[usize], np: usize, check: impl Fn(&Rb, &Model, &[Vec<u8>], &dyn Fn() -> String) + Sync) {
    let sizes: Vec<usize> = (0..=nmax).chain(extra.iter().copied()).collect();
    let jobs: Vec<(usize, usize, usize, usize)> = sizes.iter().flat_map(|n| (0..3).flat_map(move |f| (0..4).flat_map(move |o| (0..4).map(move |k| (*n, f, o, k))))).collect();
    jobs.par_iter().for_each(|(n, fam, ord, hist)| {
        let n = *n;
        if c.stopped() {
            return;
        }
        let key = |i: usize| match fam {
            0 => format!("{:04}", 2 * i + 1).into_bytes(),
            1 => vec![b'a'; i],
            _ => [&[b'p'; 64][..], &((2 * i + 1) as u16).to_be_bytes()].concat(),
        };
        let gap = |i: usize| match fam {
            0 => format!("{:04}", 2 * i).into_bytes(),
            1 => [vec![b'a'; i], vec![0]].concat(),
            _ => [&[b'p'; 64][..], &((2 * i) as u16).to_be_bytes()].concat(),
        };
        let at = |i: usize| match ord {
            0 => i,
            1 => n - 1 - i,
            2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
            _ => (i * 7919) % n,
        };
        let show = || format!("{n} keys of family {fam} inserted in order {ord}, history {hist}");
        let r = c.guard("rb-panic", || json!({"history": show()}), || {
            let (mut t, mut m) = (Rb::new(), Model::new());
            let ins = |t: &mut Rb, m: &mut Model, i: usize, x: u8| {
                t.insert(key(i), vec![x, i as u8]);
                m.insert(key(i), vec![x, i as u8]);
            };
            for i in 0..n {
                ins(&mut t, &mut m, at(i), 0);
            }
            for i in 0..n {
                match hist {
                    1 if i % 3 == 0 => {
                        t.delete(&key(at(i)));
                        m.remove(&key(at(i)));
                    }
                    2 if i % 2 == 0 => {
                        t.delete(&key(i));
                        m.remove(&key(i));
                    }
                    3 => {
                        t.modify(&key(i), |y| y.push(7));
                        m.get_mut(&key(i)).unwrap().push(7);
                    }
                    _ => {}
                }
            }
            if *hist == 2 {
                for i in (0..n).filter(|i| i % 2 == 0) {
                    ins(&mut t, &mut m, n - 1 - (n - 1 - i) / 2 * 2, 1);
                }
            }
            let mut pr: Vec<Vec<u8>> = (0..n).flat_map(|i| [gap(i), key(i)]).chain([gap(n), vec![], vec![b'p'; 64], vec![0xff]]).collect();
            pr.sort();
            pr.dedup();
            let k = (pr.len() + np - 1) / np;
            // thinned evenly, from another start for every size, so that all positions come up
            if k > 1 {
                pr = pr.into_iter().skip(n % k).step_by(k).collect();
            }
            check(&t, &m, &pr, &show);
        });
        c.state(1);
        c.trans(n as u64);
        let _ = r;
    });
    c.note("sizes", format!("trees of 0..={nmax} and {extra:?} keys: 3 families of keys x 4 orders of insertion x 4 histories, at up to {np} probes"));
}
pub fn permutations(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(p: &mut Vec<usize>, n: usize, f: &mut dyn FnMut(&[usize])) {
        if p.len() == n {
            return f(p);
        }
        for i in 0..n {
            if !p.contains(&i) {
                p.push(i);
                go(p, n, f);
                p.pop();
            }
        }
    }
    go(&mut vec![], n, f)
}

pub fn c08(c: &'static Ctx) {
    let nk = c.pick(11, 13);
    let pr = probes(&keys_alpha(nk));
    rb_explore(c, keys_alpha(nk), c.pick(20_000, 400_000), |t, m, h| rb_witness(c, t, m, &pr, h));
    let ke = keys_extreme(c.pick(8, 11));
    let pe = probes_extreme(&ke);
    rb_explore(c, ke, c.pick(20_000, 400_000), |t, m, h| rb_witness(c, t, m, &pe, h));
    c.sample(|| {
        let mut t = Rb::new();
        for k in ["a", "b", "c"] {
            t.insert(k.into(), k.into());
        }
        json!({"keys": ["a","b","c"], "witness(bb)": T::from_impl(&t.witness(b"bb")).show(), "key_range(aa,b)": T::from_impl(&t.key_range(b"aa", b"b")).show()})
    });
    c.note("probes", pr.len() as u64);
    rb_sizes(c, c.pick(40, 80), &[100, 128, 255, 256, 300], c.pick(20, 40), |t, m, pr, h| rb_witness(c, t, m, pr, h));
}

// ---------------------------------------------------------------- nested trees
type Nt = NestedTree<Vec<u8>, Vec<u8>>;
type NModel = BTreeMap<Vec<Vec<u8>>, Vec<u8>>;
#[derive(Clone, Copy, Debug)]
enum NOp {
    Ins(usize, usize),
    Del(usize),
    Clear,
}
fn napply(t: &mut Nt, m: &mut NModel, paths: &[Vec<Vec<u8>>], o: NOp) {
    match o {
        NOp::Ins(i, x) => {
            let p = &paths[i];
            t.insert(p, VALS[x].to_vec());
            m.retain(|q, _| !(p.starts_with(q) || q.starts_with(p)));
            m.insert(p.clone(), VALS[x].to_vec());
        }
        NOp::Del(i) => {
            let p = &paths[i];
            t.delete(p);
            m.retain(|q, _| !q.starts_with(p));
        }
        NOp::Clear => {
            t.clear();
            m.clear();
        }
    }
}
fn ncheck(c: &Ctx, t: &Nt, m: &NModel, probes: &[Vec<Vec<u8>>], hist: &dyn Fn() -> String) {
    let full = T::from_impl(&t.as_hash_tree());
    let root = t.root_hash();
    let d = |what: String| json!({"history": hist(), "what": what, "tree": full.show(), "model": format!("{m:?}")});
    c.check(full.digest() == root, "nested-root_hash", || d("root hash".into()));
    c.check(full.well_formed(), "nested-sorted", || d("sorted".into()));
    let fp: NModel = full.paths().into_iter().collect();
    c.check(fp == *m && full.paths().len() == m.len(), "nested-contents", || d("contents".into()));
    for p in probes {
        c.check(t.get(p) == m.get(p), "nested-get", || d(format!("get {}", showp(p))));
        c.check(t.contains_leaf(p) == m.contains_key(p), "nested-contains_leaf", || d(format!("contains_leaf {}", showp(p))));
        let cp = p.is_empty() || m.keys().any(|q| q.starts_with(p));
        c.check(t.contains_path(p) == cp, "nested-contains_path", || d(format!("contains_path {}", showp(p))));
        let wi = t.witness(p);
        let w = T::from_impl(&wi);
        c.check(w.digest() == root, "nested-witness-digest", || d(format!("witness {} = {}", showp(p), w.show())));
        c.check(full.is_pruning(&w), "nested-witness-pruning", || d(format!("witness {} = {}", showp(p), w.show())));
        // the witness proves presence or absence exactly as the full tree does
        c.check(look(&wi, p) == full.lookup(p), "nested-witness-lookup", || d(format!("witness {} = {}", showp(p), w.show())));
        c.check(sub(&wi, p) == full.subtree(p), "nested-witness-subtree", || d(format!("witness {} = {}", showp(p), w.show())));
        if !cp {
            c.check(sub(&wi, p) == Sub::Absent, "nested-witness-absence", || d(format!("witness {} = {}", showp(p), w.show())));
        }
    }
    c.trace(probes.len() as u64);
}
fn nested_bfs(c: &'static Ctx, name: &str, alpha: &[Vec<Vec<u8>>], pr: &[Vec<Vec<u8>>], maxd: usize, cap: usize) {
    // BFS over all reachable states, keyed by tree shape + successor shapes
    let mut ops = vec![NOp::Clear];
    for i in 0..alpha.len() {
        ops.push(NOp::Ins(i, 0));
        ops.push(NOp::Ins(i, 1));
        ops.push(NOp::Del(i));
    }
    let alpha2 = { let mut a = alpha.to_vec(); a.push(vec![]); a };
    ops.push(NOp::Del(alpha2.len() - 1));
    let key = |t: &Nt| -> H {
        let mut h = vec![t.root_hash().to_vec()];
        for o in ops.iter().filter(|o| !matches!(o, NOp::Ins(_, 1))) {
            let (mut t2, mut m2) = (t.clone(), NModel::new());
            napply(&mut t2, &mut m2, &alpha2, *o);
            h.push(t2.root_hash().to_vec());
        }
        sha(&[&h.concat()])
    };
    let mut seen = HashSet::new();
    let mut frontier = vec![(Nt::default(), NModel::new(), Vec::<NOp>::new())];
    seen.insert(key(&frontier[0].0));
    let mut depth = 0;
    while !frontier.is_empty() && !c.stopped() {
        let last = depth == maxd;
        let next: Vec<_> = frontier
            .par_iter()
            .flat_map_iter(|(t, m, h)| {
                c.mark(9, h.len() as u64, 0, 0);
                let show = || format!("{h:?} over {:?}", alpha2.iter().map(|p| showp(p)).collect::<Vec<_>>());
                c.guard("nested-panic", || json!({"history": show()}), || ncheck(c, t, m, pr, &show));
                c.state(1);
                let mut o = vec![];
                if !last {
                    for op in &ops {
                        c.trans(1);
                        let r = c.guard("nested-panic", || json!({"history": show(), "op": format!("{op:?}")}), || {
                            let (mut t2, mut m2) = (t.clone(), m.clone());
                            napply(&mut t2, &mut m2, &alpha2, *op);
                            (key(&t2), t2, m2)
                        });
                        if let Some((k, t2, m2)) = r {
                            // A state reached twice must carry the same model.
                            if !seen.contains(&k) {
                                let mut h2 = h.clone();
                                h2.push(*op);
                                o.push((k, t2, m2, h2));
                            } else if T::from_impl(&t2.as_hash_tree()).paths().into_iter().collect::<NModel>() != m2 {
                                c.fail("nested-contents", json!({"history": show(), "op": format!("{op:?}"), "model": format!("{m2:?}")}));
                            }
                        }
                    }
                }
                c.idle();
                o
            })
            .collect();
        frontier.clear();
        for (k, t, m, h) in next {
            if seen.insert(k) {
                frontier.push((t, m, h));
            }
        }
        depth += 1;
        if seen.len() > cap && depth <= maxd {
            c.capped.lock().unwrap().insert(format!("{name}: nested states > {cap} after depth {depth}"));
            break;
        }
    }
    c.note(&format!("bound_{name}"), format!("breadth-first over all operation sequences up to depth {}: {} distinct states", depth - 1, seen.len()));
    c.sample(|| json!({"paths": alpha.iter().map(|p| showp(p)).collect::<Vec<_>>(), "ops": ops.len()}));
}
pub fn c09(c: &'static Ctx) {
    let s = |x: &[&str]| x.iter().map(|y| y.as_bytes().to_vec()).collect::<Vec<_>>();
    // deep alphabet: prefixes, siblings and empty segments
    let deep = vec![s(&["a"]), s(&["a", "b"]), s(&["a", "b", "c"]), s(&["b"]), s(&["a", ""]), s(&["b", "a"]), s(&[""]), s(&["a", "a"]), s(&["a", "b", "a"]), s(&["c", "a", "b"])];
    let pr = all_paths(&["", "a", "b"], 2).into_iter().chain([s(&["a", "b", "c"]), s(&["a", "b", "d"]), s(&["a", "b", "a"]), s(&["a", "b", "c", "d"]), s(&["c"]), s(&["c", "a", "b"])]).collect::<Vec<_>>();
    nested_bfs(c, "deep", &deep[..c.pick(9, 10)], &pr, c.pick(8, 12), c.pick(20_000, 400_000));
    // wide alphabet: many keys at one level, so that the levels themselves rotate
    let wide: Vec<Vec<Vec<u8>>> = ["a", "b", "c", "d", "e", "f", "g"][..c.pick(6, 7)].iter().flat_map(|k| vec![s(&[k]), s(&[k, "x"])]).collect();
    let pr: Vec<Vec<Vec<u8>>> = wide.iter().cloned().chain([s(&["aa"]), s(&["h"]), s(&["a", "y"]), vec![]]).collect();
    nested_bfs(c, "wide", &wide, &pr, c.pick(14, 18), c.pick(20_000, 200_000));
    // deeper and wider: one long history with many keys at one level, each with nested content
    let n = c.pick(40usize, 200);
    let (mut t, mut m) = (Nt::default(), NModel::new());
    let p = |i: usize, j: usize| vec![format!("k{:03}", (i * 37) % n).into_bytes(), vec![b'x', j as u8], vec![]];
    let mut paths = vec![];
    for i in 0..n {
        for j in 0..2 {
            paths.push(p(i, j));
        }
    }
    for i in 0..paths.len() {
        napply(&mut t, &mut m, &paths, NOp::Ins(i, i % 2));
        c.trans(1);
    }
    ncheck(c, &t, &m, &paths, &|| "wide insert".into());
    for i in 0..paths.len() {
        napply(&mut t, &mut m, &paths, NOp::Del(i));
        c.trans(1);
        if i % 7 == 0 {
            ncheck(c, &t, &m, &paths[i..(i + 3).min(paths.len())], &|| format!("wide delete {i}"));
        }
    }
    ncheck(c, &t, &m, &paths[..3], &|| "wide deleted".into());
    let _ = VecDeque::<u8>::new();
    nested_sizes(c, c.pick(60, 110), |t, m, pr, h| ncheck(c, t, m, pr, h));
}
/// Nested trees of every depth, of every length of segment and of every width, at each level.
fn nested_sizes(c: &'static Ctx, nmax: usize, check: impl Fn(&Nt, &NModel, &[Vec<Vec<u8>>], &dyn Fn() -> String) + Sync) {
    let big = [127usize, 128, 255, 256, 257, 1000];
    let jobs: Vec<(usize, usize)> = (0..5).flat_map(|k| (1..=nmax).map(move |n| (k, n))).chain((1..3).flat_map(|k| big.iter().map(move |n| (k, *n)))).collect();
    jobs.par_iter().for_each(|(kind, n)| {
        let n = *n;
        if c.stopped() {
            return;
        }
        let seg = |i: usize| format!("{i:03}").into_bytes();
        // paths stored, in order, and paths probed besides
        let (ps, mut pr): (Vec<Vec<Vec<u8>>>, Vec<Vec<Vec<u8>>>) = match kind {
            // a chain of n segments, with a neighbour at every level
            0 => {
                let chain: Vec<Vec<u8>> = (0..n).map(|i| vec![b'a' + (i % 3) as u8]).collect();
                let side = |i: usize, x: &[u8]| [&chain[..i], &[x.to_vec()]].concat();
                let mut ps = vec![chain.clone()];
                ps.extend((0..n).filter(|i| i % 2 == 0).map(|i| side(i, b"z")));
                let mut pr: Vec<Vec<Vec<u8>>> = (0..n).map(|i| side(i, b"y")).collect();
                pr.extend((0..n).map(|i| chain[..i].to_vec()));
                pr.push([&chain[..], &[b"a".to_vec()]].concat());
                (ps, pr)
            }
            // segments of n bytes, at the first and at the second level
            1 => {
                let s = |e: &[u8]| [vec![b's'; n - 1], e.to_vec()].concat();
                (
                    vec![vec![s(b"b")], vec![s(b"d"), s(b"b")], vec![s(b"d"), s(b"d")], vec![b"x".to_vec(), s(b"b")], vec![s(b"da")]],
                    vec![vec![s(b"")], vec![s(b"a")], vec![s(b"c")], vec![s(b"e")], vec![s(b"d")], vec![s(b"d"), s(b"c")], vec![s(b"d"), s(b"")], vec![b"x".to_vec()], vec![b"x".to_vec(), s(b"c")], vec![s(b"d"), s(b"b"), s(b"b")]],
                )
            }
            // n keys at the first level
            2 => ((0..n).map(|i| vec![seg((i * 37 + 5) % n * 2 + 1)]).collect(), (0..=n).map(|i| vec![seg(2 * i)]).collect()),
            // n keys at the second level, beside another subtree
            3 => (
                (0..n).map(|i| vec![b"w".to_vec(), seg((n - 1 - i) * 2 + 1)]).chain([vec![b"v".to_vec(), vec![]], vec![b"x".to_vec()]]).collect(),
                (0..=n).map(|i| vec![b"w".to_vec(), seg(2 * i)]).chain([vec![b"w".to_vec()], vec![b"v".to_vec()], vec![b"u".to_vec()]]).collect(),
            ),
            // n keys at the first level with two below each
            _ => (
                (0..n).flat_map(|i| [vec![seg(2 * i + 1), vec![]], vec![seg(2 * i + 1), b"k".to_vec()]]).collect(),
                (0..=n).flat_map(|i| [vec![seg(2 * i)], vec![seg(2 * i + 1), b"j".to_vec()], vec![seg(2 * i + 1)]]).collect(),
            ),
        };
        pr.extend(ps.iter().cloned());
        pr.push(vec![]);
        pr.push(vec![vec![]]);
        let k = (pr.len() + 23) / 24;
        let pr: Vec<_> = if k > 1 { pr.into_iter().skip(n % k).step_by(k).collect() } else { pr };
        let show = || format!("kind {kind} of size {n}");
        c.guard("nested-panic", || json!({"history": show()}), || {
            let (mut t, mut m) = (Nt::default(), NModel::new());
            for i in 0..ps.len() {
                napply(&mut t, &mut m, &ps, NOp::Ins(i, i % 2));
            }
            check(&t, &m, &pr, &show);
            for i in (0..ps.len()).filter(|i| i % 3 == n % 3) {
                napply(&mut t, &mut m, &ps, NOp::Del(i));
            }
            check(&t, &m, &pr, &|| show() + ", a third deleted");
            for i in (0..ps.len()).rev() {
                napply(&mut t, &mut m, &ps, NOp::Ins(i, 1));
            }
            check(&t, &m, &pr, &|| show() + ", put back");
        });
        c.state(3);
        c.trans(ps.len() as u64 * 2);
    });
    c.note("sizes", format!("chains of 1..={nmax} segments, segments of 1..={nmax} bytes, 1..={nmax} keys at the first or second level, and {big:?} bytes or keys: built, a third deleted, put back"));
}

// ---------------------------------------------------------------- merging
fn union(a: &T, b: &T) -> T {
    match (a, b) {
        (T::P(_), x) | (x, T::P(_)) => x.clone(),
        (T::F(a, b), T::F(c, d)) => f(union(a, c), union(b, d)),
        (T::L(x, a), T::L(_, b)) => l(x, union(a, b)),
        (x, _) => x.clone(),
    }
}
pub fn c10(c: &'static Ctx) {
    let n = c.pick(9, 10);
    let ws = wf_trees(n, &["a", "b", "c"], &[b"x", b""], false);
    c.note("bound", format!("all pairs of prunings of all {} well-formed trees with at most {n} nodes", ws.len()));
    ws.par_iter().for_each(|t| {
        if c.stopped() {
            return;
        }
        let ps = t.prunings();
        c.state(ps.len() as u64);
        let root = t.digest();
        for a in &ps {
            for b in &ps {
                let r = c.guard("merge-panic", || json!({"a": a.show(), "b": b.show()}), || {
                    ic_certification::merge_hash_trees(a.to_impl(), b.to_impl())
                });
                c.trans(1);
                let Some(r) = r else { return };
                let m = T::from_impl(&r);
                let d = || json!({"a": a.show(), "b": b.show(), "merged": m.show()});
                c.check(r.digest() == root, "merge-digest", d);
                c.check(m == union(a, b), "merge-union", d);
                c.trace(1);
            }
        }
    });
    // merging the witnesses of a nested tree keeps every proof they contained
    let s = |x: &[&str]| x.iter().map(|y| y.as_bytes().to_vec()).collect::<Vec<_>>();
    let paths = [s(&["a", "b"]), s(&["a", "c"]), s(&["b"]), s(&["c", "a", "b"]), s(&["c", "d"]), s(&["", "a"])];
    let probes = all_paths(&["", "a", "b", "c", "d"], 2);
    (0..1u32 << paths.len()).into_par_iter().for_each(|mask| {
        let mut t = Nt::default();
        for (i, p) in paths.iter().enumerate() {
            if mask >> i & 1 == 1 {
                t.insert(p, vec![i as u8]);
            }
        }
        let wit: Vec<HashTree> = probes.iter().map(|p| t.witness(p)).collect();
        for (i, p) in probes.iter().enumerate() {
            for (j, q) in probes.iter().enumerate() {
                let m = c.guard("merge-panic", || json!({"mask": mask, "p": showp(p), "q": showp(q)}), || {
                    ic_certification::merge_hash_trees(wit[i].clone(), wit[j].clone())
                });
                let Some(m) = m else { return };
                let d = || json!({"mask": mask, "p": showp(p), "q": showp(q), "merged": T::from_impl(&m).show()});
                c.check(m.digest() == t.root_hash(), "merge-digest", d);
                for x in [p, q] {
                    let w = if x == p { &wit[i] } else { &wit[j] };
                    c.check(sub(&m, x) == sub(w, x) || matches!((sub(&m, x), sub(w, x)), (Sub::Found(a), Sub::Found(b)) if a.is_pruning(&b)), "merge-loses", d);
                }
                c.trans(1);
                c.trace(1);
            }
        }
        c.state(1);
    });
    // witnesses of trees of every size
    nested_sizes(c, c.pick(40, 80), |t, _, pr, h| {
        let root = t.root_hash();
        let wit: Vec<(HashTree, T)> = pr.iter().map(|p| t.witness(p)).map(|w| (w.clone(), T::from_impl(&w))).collect();
        for (a, ta) in &wit {
            for (b, tb) in &wit {
                let r = ic_certification::merge_hash_trees(a.clone(), b.clone());
                let d = || json!({"history": h(), "a": ta.show(), "b": tb.show()});
                c.check(r.digest() == root, "merge-digest", d);
                c.check(T::from_impl(&r) == union(ta, tb), "merge-union", d);
            }
        }
        // all of them, folded from the left and from the right
        let all = wit.iter().map(|w| w.1.clone()).reduce(|a, b| union(&a, &b)).unwrap();
        let l = wit.iter().map(|w| w.0.clone()).reduce(ic_certification::merge_hash_trees).unwrap();
        let r = wit.iter().rev().map(|w| w.0.clone()).reduce(|a, b| ic_certification::merge_hash_trees(b, a)).unwrap();
        c.check(T::from_impl(&l) == all && T::from_impl(&r) == all, "merge-all", || json!({"history": h()}));
        c.trace((wit.len() * wit.len()) as u64 + 2);
    });
    c.sample(|| {
        let t = &ws[ws.len() / 2];
        json!({"tree": t.show(), "prunings": t.prunings().len()})
    });
}
