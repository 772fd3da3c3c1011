//! C11: CBOR codecs are faithful.  C12 (CBOR part of totality) lives in c_total.rs.
use crate::ctx::{catch, hx, Ctx};
use crate::tree::*;
use ic_cbor::{
    parse_cbor, parse_cbor_principals_array, parse_cbor_string_array, CborHashTree, CborNegativeInt, CborUnsignedInt,
    CborValue, CertificateToCbor, HashTreeToCbor,
};
use ic_certification::{hash_tree::HashTreeNode, Certificate, Delegation, HashTree};
use rayon::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;

/// CBOR data model, as far as the library supports it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum C {
    U(u64),
    /// -1 - n
    N(u64),
    B(Vec<u8>),
    S(String),
    A(Vec<C>),
    M(Vec<(String, C)>),
    Tag(u64, Box<C>),
}
/// Value of a decoded item: integers by value, both kinds of string alike, tags dropped.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum W {
    I(i128),
    B(Vec<u8>),
    A(Vec<W>),
    M(BTreeMap<String, W>),
}
impl C {
    fn w(&self) -> W {
        match self {
            C::U(n) => W::I(*n as i128),
            C::N(n) => W::I(-1 - *n as i128),
            C::B(b) => W::B(b.clone()),
            C::S(b) => W::B(b.clone().into_bytes()),
            C::A(x) => W::A(x.iter().map(|x| x.w()).collect()),
            C::M(x) => W::M(x.iter().map(|(k, x)| (k.clone(), x.w())).collect()),
            C::Tag(_, x) => x.w(),
        }
    }
    /// Encoding; the i-th head is written with width `ws[i]` if that can hold its argument.
    fn enc(&self, ws: &mut dyn Iterator<Item = u8>, o: &mut Vec<u8>) {
        let mut h = |m: u8, n: u64, o: &mut Vec<u8>| whead(m, n, ws.next().unwrap_or(0), o);
        match self {
            C::U(n) => h(0, *n, o),
            C::N(n) => h(1, *n, o),
            C::B(b) => {
                h(2, b.len() as u64, o);
                o.extend(b)
            }
            C::S(b) => {
                h(3, b.len() as u64, o);
                o.extend(b.bytes())
            }
            C::A(x) => {
                h(4, x.len() as u64, o);
                for x in x {
                    x.enc(ws, o)
                }
            }
            C::M(x) => {
                h(5, x.len() as u64, o);
                for (k, x) in x {
                    C::S(k.clone()).enc(ws, o);
                    x.enc(ws, o)
                }
            }
            C::Tag(t, x) => {
                h(6, *t, o);
                x.enc(ws, o)
            }
        }
    }
    fn heads(&self) -> usize {
        match self {
            C::A(x) => 1 + x.iter().map(|x| x.heads()).sum::<usize>(),
            C::M(x) => 1 + x.iter().map(|x| 1 + x.1.heads()).sum::<usize>(),
            C::Tag(_, x) => 1 + x.heads(),
            _ => 1,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.enc(&mut std::iter::empty(), &mut o);
        o
    }
}
/// Head with at least the given width (0: immediate, 1, 2, 3, 4 for 1, 2, 4, 8 bytes).
fn whead(m: u8, n: u64, w: u8, o: &mut Vec<u8>) {
    let need = match n {
        0..=23 => 0,
        24..=0xff => 1,
        0x100..=0xffff => 2,
        0x10000..=0xffff_ffff => 3,
        _ => 4,
    };
    match w.max(need) {
        0 => o.push(m << 5 | n as u8),
        1 => o.extend([m << 5 | 24, n as u8]),
        2 => {
            o.push(m << 5 | 25);
            o.extend((n as u16).to_be_bytes())
        }
        3 => {
            o.push(m << 5 | 26);
            o.extend((n as u32).to_be_bytes())
        }
        _ => {
            o.push(m << 5 | 27);
            o.extend(n.to_be_bytes())
        }
    }
}
fn of_impl(x: &CborValue) -> W {
    match x {
        CborValue::Unsigned(n) => W::I(match n {
            CborUnsignedInt::UInt8(n) => *n as i128,
            CborUnsignedInt::UInt16(n) => *n as i128,
            CborUnsignedInt::UInt32(n) => *n as i128,
            CborUnsignedInt::UInt64(n) => *n as i128,
        }),
        CborValue::Signed(n) => W::I(match n {
            CborNegativeInt::Int8(n) => *n as i128,
            CborNegativeInt::Int16(n) => *n as i128,
            CborNegativeInt::Int32(n) => *n as i128,
            CborNegativeInt::Int64(n) => *n as i128,
        }),
        CborValue::ByteString(b) => W::B(b.clone()),
        CborValue::Array(x) => W::A(x.iter().map(of_impl).collect()),
        CborValue::Map(m) => W::M(m.iter().map(|(k, x)| (k.clone(), of_impl(x))).collect()),
        CborValue::HashTree(t) => W::I(match t {
            CborHashTree::Empty => 0,
            CborHashTree::Fork => 1,
            CborHashTree::Labelled => 2,
            CborHashTree::Leaf => 3,
            CborHashTree::Pruned => 4,
        }),
    }
}
fn dec(b: &[u8]) -> Result<Option<W>, String> {
    crate::tap::decode(b);
    catch(|| parse_cbor(b).ok().map(|x| of_impl(&x)))
}

/// Reference decoder. `Err(true)`: malformed; `Err(false)`: outside the specified subset.
fn reference(b: &[u8]) -> Result<W, bool> {
    let mut i = 0;
    let v = item(b, &mut i, 0)?;
    if i != b.len() {
        return Err(true);
    }
    Ok(v)
}
fn item(b: &[u8], i: &mut usize, depth: usize) -> Result<W, bool> {
    if depth > 64 {
        return Err(false);
    }
    let h = *b.get(*i).ok_or(true)?;
    *i += 1;
    // floats and simple values stand for nothing that can be decoded
    if h >> 5 == 7 {
        return Err(true);
    }
    let k = match h & 31 {
        n @ 0..=23 => {
            return body(b, i, depth, h >> 5, n as u64);
        }
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => return Err(true),
    };
    let s = b.get(*i..*i + k).ok_or(true)?;
    *i += k;
    let n = s.iter().fold(0u64, |a, x| a << 8 | *x as u64);
    body(b, i, depth, h >> 5, n)
}
fn body(b: &[u8], i: &mut usize, depth: usize, major: u8, n: u64) -> Result<W, bool> {
    Ok(match major {
        0 => W::I(n as i128),
        1 if n > i64::MAX as u64 => return Err(true),
        1 => W::I(-1 - n as i128),
        2 | 3 => {
            if n > (b.len() - *i) as u64 {
                return Err(true);
            }
            let s = b[*i..*i + n as usize].to_vec();
            *i += n as usize;
            if major == 3 && std::str::from_utf8(&s).is_err() {
                return Err(false);
            }
            W::B(s)
        }
        4 => {
            let mut o = vec![];
            for _ in 0..n {
                o.push(item(b, i, depth + 1)?);
            }
            W::A(o)
        }
        5 => {
            let mut o = BTreeMap::new();
            for _ in 0..n {
                let k = item(b, i, depth + 1)?;
                // a key that is no string is an error even if the rest is malformed
                let W::B(k) = k else { return Err(true) };
                let k = String::from_utf8(k).map_err(|_| true)?;
                let v = item(b, i, depth + 1)?;
                if o.insert(k, v).is_some() {
                    return Err(false);
                }
            }
            W::M(o)
        }
        _ => return item(b, i, depth + 1),
    })
}

/// All items with at most `n` nodes.
fn items(n: usize) -> Vec<Vec<C>> {
    // by[k]: items with exactly k nodes
    let mut by: Vec<Vec<C>> = vec![vec![]];
    for k in 1..=n {
        let mut o = vec![];
        if k == 1 {
            for x in [0u64, 1, 4, 5, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX] {
                o.push(C::U(x));
            }
            for x in [0u64, 23, 127, 128, 255, 32767, 32768, 65536, i32::MAX as u64, 1 << 31, i64::MAX as u64] {
                o.push(C::N(x));
            }
            for x in [b"".as_slice(), b"a", &[0xff]] {
                o.push(C::B(x.to_vec()));
            }
            o.push(C::S("".into()));
            o.push(C::S("é".into()));
        }
        if k >= 1 {
            for seq in seqs(&by, k - 1) {
                o.push(C::A(seq.clone()));
                if seq.len() <= 2 {
                    let keys = [["a", "b"], ["b", "a"], ["", "tree"]];
                    for ks in keys.iter().take(if seq.is_empty() { 1 } else { 3 }) {
                        o.push(C::M(seq.iter().zip(ks).map(|(x, k)| (k.to_string(), x.clone())).collect()));
                    }
                }
            }
        }
        if k >= 2 {
            for x in by[k - 1].clone() {
                o.push(C::Tag(55799, Box::new(x.clone())));
                o.push(C::Tag(0, Box::new(x)));
            }
        }
        by.push(o);
    }
    by
}
/// All sequences of items with `n` nodes in total.
fn seqs(by: &[Vec<C>], n: usize) -> Vec<Vec<C>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for k in 1..=n.min(by.len() - 1) {
        for r in seqs(by, n - k) {
            for x in &by[k] {
                let mut s = vec![x.clone()];
                s.extend(r.iter().cloned());
                o.push(s);
            }
        }
    }
    o
}

/// Heads that declare another number than there is: off by one, by powers of two, and extreme.
pub fn c11_lengths(c: &'static Ctx) {
    let mut offs: Vec<i128> = vec![-1, 1];
    for k in 1..64 {
        offs.extend([1i128 << k, -(1i128 << k), (1 << k) + 1, (1 << k) - 1]);
    }
    offs.extend([u64::MAX as i128, u64::MAX as i128 - 1]);
    let wraps: [&dyn Fn(Vec<u8>) -> Vec<u8>; 3] = [&|x| x, &|x| [&[0x81][..], &x].concat(), &|x| [&[0xa1, 0x61, b'a'][..], &x].concat()];
    for major in [2u8, 3, 4, 5] {
        for n in [0u64, 1, 2, 3, 8, 16, 23, 24, 32, 40, 255, 256, 300] {
            for o in &offs {
                let d = n as i128 + o;
                if d < 0 || d > u64::MAX as i128 {
                    continue;
                }
                for w in 0..5 {
                    let mut b = vec![];
                    whead(major, d as u64, w, &mut b);
                    for i in 0..n {
                        match major {
                            2 | 3 => b.push(b'a'),
                            4 => b.push(0),
                            _ => b.extend([0x64, b'a' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i / 676) as u8, b'a', 0]),
                        }
                    }
                    for wrap in wraps {
                        let b = wrap(b.clone());
                        let got = dec(&b);
                        c.trans(1);
                        c.trace(1);
                        c.check(got == Ok(None), "declared-length", || json!({"bytes": hx(&b[..b.len().min(60)]), "declared": d.to_string(), "there": n, "got": format!("{got:?}").chars().take(200).collect::<String>()}));
                    }
                    // the typed decoders
                    let t = HashTree::from_cbor(&[&[0x82, 3][..], &b].concat()).is_ok();
                    let p = major == 4 && (parse_cbor_string_array(&b).is_ok() || parse_cbor_principals_array(&b).is_ok());
                    c.check(!t && !p, "declared-length-typed", || json!({"bytes": hx(&b[..b.len().min(60)]), "declared": d.to_string(), "there": n}));
                }
                c.state(1);
            }
        }
    }
}

pub fn c11(c: &'static Ctx) {
    c11_lengths(c);
    // (1) all small items, in every combination of head widths
    let n = c.pick(3, 4);
    let all: Vec<C> = items(n).into_iter().flatten().collect();
    all.par_iter().for_each(|x| {
        if c.stopped() {
            return;
        }
        c.mark(1, 0, 0, 0);
        let want = x.w();
        let h = x.heads();
        let combos = 5usize.pow(h.min(c.pick(3, 4)) as u32);
        for s in 0..combos {
            let mut q = s;
            let ws: Vec<u8> = (0..h)
                .map(|_| {
                    let w = (q % 5) as u8;
                    q /= 5;
                    w
                })
                .collect();
            let mut b = vec![];
            x.enc(&mut ws.into_iter(), &mut b);
            let got = dec(&b);
            c.trans(1);
            c.trace(1);
            if !c.check(got.as_ref() == Ok(&Some(want.clone())), "item", || json!({"bytes": hx(&b), "got": format!("{got:?}"), "want": format!("{want:?}")})) {
                return;
            }
            if s == 0 {
                // every strict prefix and every extension is rejected
                for i in 0..b.len() {
                    let got = dec(&b[..i]);
                    c.trans(1);
                    if !c.check(got == Ok(None), "prefix", || json!({"bytes": hx(&b[..i]), "got": format!("{got:?}")})) {
                        return;
                    }
                }
                for t in [0u8, 0x40, 0x80, 0xa0, 0xff] {
                    let mut e = b.clone();
                    e.push(t);
                    let got = dec(&e);
                    c.trans(1);
                    if !c.check(got == Ok(None), "trailing", || json!({"bytes": hx(&e), "got": format!("{got:?}")})) {
                        return;
                    }
                }
            }
        }
        c.state(1);
        c.idle();
    });
    c.sample(|| json!({"item": format!("{:?}", all[all.len() / 2]), "bytes": hx(&all[all.len() / 2].bytes())}));

    // (2) every byte string up to a length, against the reference decoder
    let len = c.pick(3usize, 4);
    (0..256usize).into_par_iter().for_each(|first| {
        let mut cnt = [0u64; 4];
        for l in 1..=len {
            // at length 4 the bytes after the first are restricted to heads and boundary values
            let alpha: Vec<u8> = if l < 4 {
                (0..=255).collect()
            } else {
                (0u8..8).flat_map(|m| [0, 1, 2, 3, 23, 24, 25, 26, 27, 28, 31].map(|i| m << 5 | i)).chain([b'a', b'b']).collect()
            };
            let total = alpha.len().pow(l as u32 - 1);
            for mut s in 0..total {
                let mut b = vec![first as u8];
                for _ in 1..l {
                    b.push(alpha[s % alpha.len()]);
                    s /= alpha.len();
                }
                if !cmp(c, &b, &mut cnt) {
                    return;
                }
            }
        }
        c.state(cnt.iter().sum());
        c.trans(cnt.iter().sum());
        c.trace(cnt[0] + cnt[1]);
        c.outcome_n("accepted", cnt[0]);
        c.outcome_n("rejected", cnt[1]);
        c.outcome_n("outside the specified subset", cnt[2]);
    });
    // (3) longer strings over a structural alphabet
    let alpha: [u8; 12] = [0x00, 0x05, 0x20, 0x40, 0x41, 0xf6, 0x80, 0x81, 0x82, 0xa1, 0x61, 0xc0];
    let l3 = c.pick(6usize, 7);
    (0..alpha.len() * alpha.len()).into_par_iter().for_each(|f2| {
        let mut cnt = [0u64; 4];
        for l in 2..=l3 {
            for mut s in 0..alpha.len().pow(l as u32 - 2) {
                let mut b = vec![alpha[f2 / 12], alpha[f2 % 12]];
                for _ in 2..l {
                    b.push(alpha[s % 12]);
                    s /= 12;
                }
                if !cmp(c, &b, &mut cnt) {
                    return;
                }
            }
        }
        c.state(cnt.iter().sum());
        c.trans(cnt.iter().sum());
        c.trace(cnt[0] + cnt[1]);
        c.outcome_n("accepted", cnt[0]);
        c.outcome_n("rejected", cnt[1]);
        c.outcome_n("outside the specified subset", cnt[2]);
    });
    // (4) all integers of up to 16 bits and all boundaries; all string/array/map lengths up to 300 and boundaries
    let mut nums: Vec<u64> = (0..=65_600).collect();
    for s in 16..64 {
        for d in -2i64..=2 {
            nums.push((1u64 << s).wrapping_add(d as u64));
        }
    }
    nums.push(u64::MAX);
    nums.par_iter().for_each(|n| {
        for w in 0..5 {
            for m in 0..2u8 {
                let mut b = vec![];
                whead(m, *n, w, &mut b);
                let want = if m == 0 { Some(W::I(*n as i128)) } else { Some(W::I(-1 - *n as i128)) };
                if m == 1 && *n > i64::MAX as u64 {
                    continue;
                }
                let got = dec(&b);
                c.trans(1);
                c.trace(1);
                c.check(got.as_ref() == Ok(&want), "integer", || json!({"bytes": hx(&b), "got": format!("{got:?}")}));
            }
        }
    });
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend([65535, 65536, 65537]);
    if c.thorough() {
        lens.extend(301..2000);
        lens.extend([1 << 17, 1 << 20]);
    }
    lens.par_iter().for_each(|&n| {
        let data: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let st = String::from_utf8(data.clone()).unwrap();
        let mut cases = vec![C::B(data.clone()), C::S(st.clone()), C::A((0..n).map(|i| C::U(i as u64)).collect())];
        if n <= 2000 {
            cases.push(C::M((0..n).map(|i| (format!("k{i}"), C::U(i as u64))).collect()));
            cases.push(C::A(vec![C::B(data.clone()), C::S("end".into())]));
        }
        for x in cases {
            for w in 0..5u8 {
                let mut b = vec![];
                x.enc(&mut [w, 0].into_iter(), &mut b);
                let got = dec(&b);
                c.trans(1);
                c.trace(1);
                c.check(got == Ok(Some(x.w())), "length", || json!({"length": n, "width": w}));
                // one element too few, one too many
                for cut in [true, false] {
                    let mut e = b.clone();
                    if cut {
                        e.pop();
                    } else {
                        e.push(0);
                    }
                    if cut && n == 0 && e.is_empty() {
                        continue;
                    }
                    let got = dec(&e);
                    c.trans(1);
                    c.check(got == Ok(None), "length-off", || json!({"length": n, "cut": cut, "width": w}));
                }
            }
        }
        // string arrays and principal ranges
        if n <= 300 {
            let strs: Vec<String> = (0..n).map(|i| format!("{}{}", "é".repeat(i % 3), i)).collect();
            let b = C::Tag(55799, Box::new(C::A(strs.iter().map(|s| C::S(s.clone())).collect()))).bytes();
            let got = catch(|| parse_cbor_string_array(&b).ok());
            c.trans(1);
            c.trace(1);
            c.check(got == Ok(Some(strs)), "string-array", || json!({"length": n}));
            let b = C::A((0..n).map(|i| C::A(vec![C::B(vec![i as u8; i % 30]), C::B(vec![255 - i as u8; (i + 7) % 30])])).collect()).bytes();
            let want: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|i| (vec![i as u8; i % 30], vec![255 - i as u8; (i + 7) % 30])).collect();
            let got = catch(|| {
                parse_cbor_principals_array(&b)
                    .ok()
                    .map(|x| x.into_iter().map(|(a, b)| (a.as_slice().to_vec(), b.as_slice().to_vec())).collect::<Vec<_>>())
            });
            c.trans(1);
            c.trace(1);
            c.check(got == Ok(Some(want)), "principal-array", || json!({"length": n}));
        }
        c.state(1);
    });
    // string arrays of every short item sequence: accepted exactly when all are UTF-8 strings
    let pool = [C::S("a".into()), C::B(b"b".to_vec()), C::B(vec![0xff]), C::U(7), C::A(vec![]), C::S("".into()), C::Tag(1, Box::new(C::S("t".into())))];
    for n in 0..=4usize {
        for mut s in 0..pool.len().pow(n as u32) {
            let xs: Vec<C> = (0..n)
                .map(|_| {
                    let x = pool[s % pool.len()].clone();
                    s /= pool.len();
                    x
                })
                .collect();
            let b = C::A(xs.clone()).bytes();
            let want: Option<Vec<String>> = xs.iter().map(|x| match x.w() {
                W::B(b) => String::from_utf8(b).ok(),
                _ => None,
            }).collect();
            let got = catch(|| parse_cbor_string_array(&b).ok());
            c.trans(1);
            c.trace(1);
            c.check(got == Ok(want.clone()), "string-array-items", || json!({"items": format!("{xs:?}"), "got": format!("{got:?}")}));
        }
    }
    for p1 in 0..=32usize {
        for p2 in [0usize, 1, 10, 29, 30] {
            let b = C::A(vec![C::A(vec![C::B(vec![3; p1]), C::B(vec![4; p2])])]).bytes();
            let want = (p1 <= 29 && p2 <= 29).then(|| vec![(vec![3u8; p1], vec![4u8; p2])]);
            let got = catch(|| {
                parse_cbor_principals_array(&b).ok().map(|x| x.into_iter().map(|(a, b)| (a.as_slice().to_vec(), b.as_slice().to_vec())).collect::<Vec<_>>())
            });
            c.trans(1);
            c.trace(1);
            c.check(got == Ok(want), "principal-length", || json!({"lengths": [p1, p2], "got": format!("{got:?}")}));
        }
    }
    for bad in [C::U(9), C::S("x".into()), C::M(vec![])] {
        for x in [bad.clone(), C::A(vec![bad.clone()]), C::A(vec![C::A(vec![bad.clone(), C::B(vec![1])])]), C::A(vec![C::A(vec![C::B(vec![1]), C::A(vec![])])])] {
            let b = x.bytes();
            let isok = matches!(&x, C::A(v) if matches!(&v[0], C::A(w) if matches!((&w[0], &w[1]), (C::S(_), C::B(_)))));
            let got = catch(|| parse_cbor_principals_array(&b).is_ok());
            c.trans(1);
            c.check(got == Ok(isok), "principal-shape", || json!({"bytes": hx(&b), "got": format!("{got:?}")}));
        }
    }
    trees(c);
    certs(c);
    c.note("bound", format!("all CBOR items with <= {n} nodes in every combination of head widths (+ every strict prefix and one-byte extension); all byte strings of length <= 3 (thorough: 4 over heads and boundaries) and of length <= {l3} over 12 structural bytes against a reference decoder; all integers < 65600 and powers of two +-2; all lengths <= 300 and 65535..65537; all hash trees and certificates described in bound2"));
}
fn cmp(c: &'static Ctx, b: &[u8], cnt: &mut [u64; 4]) -> bool {
    let got = dec(b);
    let ok = match reference(b) {
        Ok(w) => {
            cnt[0] += 1;
            got == Ok(Some(w))
        }
        Err(true) => {
            cnt[1] += 1;
            got == Ok(None)
        }
        Err(false) => {
            cnt[2] += 1;
            got.is_ok()
        }
    };
    c.check(ok, "decode", || json!({"bytes": hx(b), "got": format!("{got:?}"), "want": format!("{:?}", reference(b))}))
}

/// All trees (any arrangement, including ill-ordered ones: codecs do not care) up to n nodes.
pub fn any_trees(n: usize) -> Vec<T> {
    let mut by: Vec<Vec<T>> = vec![vec![]];
    for k in 1..=n {
        let mut o = vec![];
        if k == 1 {
            o.extend([T::E, v(""), v("x"), v([0xff; 24]), T::P([0xab; 32])]);
        }
        if k >= 2 {
            for t in &by[k - 1] {
                for lb in [b"".as_slice(), b"a", &[0x80; 24]] {
                    o.push(l(lb, t.clone()));
                }
            }
        }
        for i in 1..k.saturating_sub(1) {
            for a in &by[i] {
                for b in &by[k - 1 - i] {
                    o.push(f(a.clone(), b.clone()));
                }
            }
        }
        by.push(o);
    }
    by.into_iter().flatten().collect()
}
fn trees(c: &'static Ctx) {
    let n = c.pick(5, 6);
    let ts = any_trees(n);
    ts.par_iter().for_each(|t| {
        if c.stopped() {
            return;
        }
        let it = t.to_impl();
        let mut b = vec![];
        t.enc(&mut b);
        for (k, b) in [("plain", b.clone()), ("tagged", t.cbor())] {
            let got = catch(|| HashTree::from_cbor(&b).ok().map(|x| T::from_impl(&x)));
            c.check(got == Ok(Some(t.clone())), "tree-from-cbor", || json!({"tree": t.show(), "kind": k, "bytes": hx(&b)}));
            let got = catch(|| serde_cbor::from_slice::<HashTree>(&b).ok().map(|x| T::from_impl(&x)));
            c.check(got == Ok(Some(t.clone())), "tree-serde-decode", || json!({"tree": t.show(), "kind": k, "bytes": hx(&b)}));
            let got = catch(|| serde_cbor::from_slice::<HashTreeNode<&[u8]>>(&b).ok().map(|x| x.digest()));
            c.check(got == Ok(Some(t.digest())), "tree-serde-decode-ref", || json!({"tree": t.show(), "kind": k}));
            let got = catch(|| serde_cbor::from_slice::<HashTreeNode<std::borrow::Cow<[u8]>>>(&b).ok().map(|x| (x.digest(), serde_cbor::to_vec(&x).ok())));
            let mut plain = vec![];
            t.enc(&mut plain);
            c.check(got == Ok(Some((t.digest(), Some(plain)))), "tree-serde-decode-cow", || json!({"tree": t.show(), "kind": k}));
            c.trans(4);
        }
        let enc = catch(|| serde_cbor::to_vec(&it).ok());
        c.check(enc == Ok(Some(b.clone())), "tree-serde-encode", || json!({"tree": t.show(), "got": enc.as_ref().ok().and_then(|x| x.as_ref()).map(|x| hx(x)), "want": hx(&b)}));
        // every strict prefix
        for i in 0..b.len() {
            let got = catch(|| HashTree::from_cbor(&b[..i]).is_ok() || serde_cbor::from_slice::<HashTree>(&b[..i]).is_ok());
            c.check(got == Ok(false), "tree-prefix", || json!({"tree": t.show(), "prefix": i, "got": format!("{got:?}")}));
        }
        c.trans(b.len() as u64 + 1);
        c.trace(1);
        c.state(1);
        // all single-byte changes: both decoders agree whenever serde's strict one accepts
        if t.size() <= c.pick(3, 4) {
            for i in 0..b.len() {
                for x in 0..=255u8 {
                    let mut m = b.clone();
                    if m[i] == x {
                        continue;
                    }
                    m[i] = x;
                    let a = catch(|| HashTree::from_cbor(&m).ok().map(|x| T::from_impl(&x)));
                    let s = catch(|| serde_cbor::from_slice::<HashTree>(&m).ok().map(|x| T::from_impl(&x)));
                    c.trans(1);
                    let ok = match (&a, &s) {
                        (Ok(a), Ok(Some(s))) => a.is_none() || a.as_ref() == Some(s),
                        (Ok(Some(a)), Ok(None)) => {
                            // accepted although the other decoder objects (text labels, extra elements, wide
                            // heads): re-encoding must be accepted by both and give the same tree
                            let e = a.cbor();
                            serde_cbor::from_slice::<HashTree>(&e).ok().map(|x| T::from_impl(&x)).as_ref() == Some(a)
                        }
                        (Ok(None), Ok(None)) => true,
                        _ => false,
                    };
                    c.check(ok, "tree-mutation", || json!({"bytes": hx(&m), "from_cbor": format!("{a:?}"), "serde": format!("{s:?}")}));
                }
            }
        }
    });
    // malformed nodes are rejected
    let e = vec![0x81, 0];
    let bs = |x: &[u8]| {
        let mut o = vec![];
        bytes(x, &mut o);
        o
    };
    let mut bad: Vec<(String, Vec<u8>)> = vec![
        ("empty array".into(), vec![0x80]),
        ("node is a number".into(), vec![0]),
        ("node is a string".into(), bs(b"x")),
        ("node is a map".into(), vec![0xa0]),
        ("fork without right".into(), [vec![0x82, 1], e.clone()].concat()),
        ("fork without children".into(), vec![0x81, 1]),
        ("label without child".into(), [vec![0x82, 2], bs(b"a")].concat()),
        ("label without label".into(), [vec![0x82, 2], e.clone()].concat()),
        ("label with number label".into(), [vec![0x83, 2, 9], e.clone()].concat()),
        ("leaf without data".into(), vec![0x81, 3]),
        ("leaf with array".into(), [vec![0x82, 3], e.clone()].concat()),
        ("pruned without digest".into(), vec![0x81, 4]),
        ("fork with bad right".into(), [vec![0x83, 1], e.clone(), vec![0x80]].concat()),
        ("fork with bad left".into(), [vec![0x83, 1], vec![0x80], e.clone()].concat()),
        ("label with bad child".into(), [vec![0x83, 2], bs(b"a"), vec![0x81, 9]].concat()),
    ];
    for k in 5..=30u8 {
        let mut x = vec![0x83];
        head(0, k as u64, &mut x);
        x.extend(bs(b"a"));
        x.extend(&e);
        bad.push((format!("node kind {k}"), x));
    }
    for n in 0..=70usize {
        if n != 32 {
            bad.push((format!("digest of {n} bytes"), [vec![0x82, 4], bs(&vec![7; n])].concat()));
        }
    }
    for (n, b) in bad {
        for wrap in 0..3 {
            let b = match wrap {
                0 => b.clone(),
                1 => [vec![0x83, 1], e.clone(), b.clone()].concat(),
                _ => [vec![0x83, 2], bs(b"q"), b.clone()].concat(),
            };
            let a = catch(|| HashTree::from_cbor(&b).is_ok());
            let s = catch(|| serde_cbor::from_slice::<HashTree>(&b).is_ok());
            c.trans(2);
            c.trace(1);
            // serde accepts an array of small numbers in place of a byte string
            c.check(a == Ok(false) && (s == Ok(false) || n == "leaf with array" && s.is_ok()), "tree-malformed", || json!({"case": n, "wrap": wrap, "from_cbor": format!("{a:?}"), "serde": format!("{s:?}")}));
        }
    }
    c.note("bound2", format!("all {} trees with <= {n} nodes (any order of labels), all their prefixes, all single-byte changes of those with <= 3/4 nodes; certificates: tree x signature x delegation x key order", ts.len()));
}

fn certs(c: &'static Ctx) {
    let ts = [T::E, l("a", v("x")), f(l("canister", T::P([1; 32])), l("time", v([0x80; 30])))];
    let sigs: Vec<Vec<u8>> = vec![vec![], vec![1], vec![0xff; 48], vec![0; 300]];
    let mut dels: Vec<Option<(Vec<u8>, Vec<u8>)>> = vec![None];
    for s in [0usize, 1, 29] {
        for n in [0usize, 1, 23, 24, 256] {
            dels.push(Some((vec![0x55; s], vec![0xd9; n])));
        }
    }
    for t in &ts {
        for sg in &sigs {
            for d in &dels {
                let mut tree = vec![];
                t.enc(&mut tree);
                let want = Certificate {
                    tree: t.to_impl(),
                    signature: sg.clone(),
                    delegation: d.clone().map(|(s, x)| Delegation { subnet_id: s, certificate: x }),
                };
                let mut fields: Vec<(&str, Vec<u8>)> = vec![("tree", tree), ("signature", { let mut o = vec![]; bytes(sg, &mut o); o })];
                if let Some((s, x)) = d {
                    for order in 0..2 {
                        let mut o = vec![];
                        head(5, 2, &mut o);
                        for k in if order == 0 { ["subnet_id", "certificate"] } else { ["certificate", "subnet_id"] } {
                            text(k, &mut o);
                            bytes(if k == "subnet_id" { s } else { x }, &mut o);
                        }
                        if order == 0 {
                            fields.push(("delegation", o));
                        } else {
                            fields.push(("delegation2", o));
                        }
                    }
                }
                let names: Vec<Vec<&str>> = if d.is_none() {
                    vec![vec!["tree", "signature"], vec!["signature", "tree"]]
                } else {
                    let mut o = vec![];
                    for dn in ["delegation", "delegation2"] {
                        crate::c_tree::permutations(3, &mut |p| {
                            let base = ["tree", "signature", dn];
                            o.push(p.iter().map(|i| base[*i]).collect());
                        });
                    }
                    o
                };
                for ns in names {
                    for tag in [false, true] {
                        let mut b = if tag { vec![0xd9, 0xd9, 0xf7] } else { vec![] };
                        head(5, ns.len() as u64, &mut b);
                        for k in &ns {
                            text(k.trim_end_matches('2'), &mut b);
                            b.extend(&fields.iter().find(|(n, _)| n == k).unwrap().1);
                        }
                        let a = catch(|| Certificate::from_cbor(&b).ok());
                        let s = catch(|| serde_cbor::from_slice::<Certificate>(&b).ok());
                        c.trans(2);
                        c.trace(1);
                        c.check(a == Ok(Some(want.clone())), "cert-from-cbor", || json!({"order": ns, "bytes": hx(&b)}));
                        c.check(s == Ok(Some(want.clone())), "cert-serde", || json!({"order": ns, "bytes": hx(&b)}));
                        // the same without copying
                        type Parts = ([u8; 32], Vec<u8>, Option<(Vec<u8>, Vec<u8>)>);
                        fn parts<S: AsRef<[u8]>>(x: &ic_certification::certificate::Certificate<S>) -> Parts {
                            let v = |x: &S| x.as_ref().to_vec();
                            (x.tree.digest(), v(&x.signature), x.delegation.as_ref().map(|d| (v(&d.subnet_id), v(&d.certificate))))
                        }
                        let w = parts(&want);
                        let s = catch(|| serde_cbor::from_slice::<ic_certification::certificate::Certificate<&[u8]>>(&b).ok().map(|x| parts(&x)));
                        c.check(s == Ok(Some(w.clone())), "cert-serde-ref", || json!({"order": ns, "bytes": hx(&b)}));
                        let s = catch(|| serde_cbor::from_slice::<ic_certification::certificate::Certificate<std::borrow::Cow<[u8]>>>(&b).ok().map(|x| (parts(&x), serde_cbor::to_vec(&x).ok())));
                        c.check(s == Ok(Some((w, serde_cbor::to_vec(&want).ok()))), "cert-serde-cow", || json!({"order": ns, "bytes": hx(&b)}));
                        for i in 0..b.len() {
                            let a = catch(|| Certificate::from_cbor(&b[..i]).is_ok() || serde_cbor::from_slice::<Certificate>(&b[..i]).is_ok());
                            c.trans(1);
                            c.check(a == Ok(false), "cert-prefix", || json!({"bytes": hx(&b[..i])}));
                        }
                        let mut x = b.clone();
                        x.push(0);
                        let a = catch(|| Certificate::from_cbor(&x).is_ok());
                        c.check(a == Ok(false), "cert-trailing", || json!({"bytes": hx(&x)}));
                    }
                }
                // further members, in the certificate and in the delegation: refused, or without effect
                for extra in 1..=3usize {
                    for at in 0..=2 + d.is_some() as usize {
                        for inside in [false, true] {
                            if inside && d.is_none() {
                                continue;
                            }
                            for val in [vec![0xa0u8], vec![0x40], vec![0x01], vec![0x80]] {
                                let mut m: Vec<(String, Vec<u8>)> = fields.iter().filter(|(n, _)| *n != "delegation2").map(|(k, x)| (k.to_string(), x.clone())).collect();
                                if inside {
                                    let (s, x) = d.as_ref().unwrap();
                                    let mut o = vec![];
                                    head(5, 2 + extra as u64, &mut o);
                                    for i in 0..extra {
                                        text(&format!("x{i}"), &mut o);
                                        o.extend(&val);
                                    }
                                    text("subnet_id", &mut o);
                                    bytes(s, &mut o);
                                    text("certificate", &mut o);
                                    bytes(x, &mut o);
                                    m[2].1 = o;
                                } else {
                                    for i in 0..extra {
                                        m.insert(at, (format!("x{i}"), val.clone()));
                                    }
                                }
                                let mut b = vec![];
                                head(5, m.len() as u64, &mut b);
                                for (k, x) in &m {
                                    text(k, &mut b);
                                    b.extend(x);
                                }
                                let a = catch(|| Certificate::from_cbor(&b).ok());
                                let s = catch(|| serde_cbor::from_slice::<Certificate>(&b).ok());
                                c.trans(2);
                                let ok = |x: &Result<Option<Certificate>, String>| matches!(x, Ok(None)) || x == &Ok(Some(want.clone()));
                                c.check(ok(&a) && ok(&s), "cert-extra-member", || json!({"extra": extra, "at": at, "inside": inside, "bytes": hx(&b)}));
                            }
                        }
                    }
                }
                // serde encoding is decoded by the other decoder
                let e = serde_cbor::to_vec(&want).unwrap();
                let a = catch(|| Certificate::from_cbor(&e).ok());
                c.trans(1);
                c.check(a == Ok(Some(want.clone())), "cert-serde-encode", || json!({"bytes": hx(&e)}));
                c.state(1);
                // missing or wrongly typed members
                let num = vec![9u8];
                let map = vec![0xa0u8];
                for drop in 0..2usize {
                    for repl in [None, Some(&num), Some(&map)] {
                        let mut m: Vec<(&str, Vec<u8>)> = fields.iter().filter(|(n, _)| *n != "delegation2").cloned().collect();
                        match repl {
                            None => {
                                m.remove(drop);
                            }
                            Some(r) => m[drop].1 = r.clone(),
                        }
                        let mut b = vec![];
                        head(5, m.len() as u64, &mut b);
                        for (k, x) in &m {
                            text(k, &mut b);
                            b.extend(x);
                        }
                        let a = catch(|| Certificate::from_cbor(&b).is_ok() || serde_cbor::from_slice::<Certificate>(&b).is_ok());
                        c.trans(1);
                        c.check(a == Ok(false), "cert-missing", || json!({"bytes": hx(&b), "got": format!("{a:?}")}));
                    }
                }
                if d.is_some() {
                    for k in ["subnet_id", "certificate"] {
                        let mut b = vec![];
                        head(5, 3, &mut b);
                        for (n, x) in fields.iter().take(2) {
                            text(n, &mut b);
                            b.extend(x);
                        }
                        text("delegation", &mut b);
                        head(5, 1, &mut b);
                        text(k, &mut b);
                        bytes(b"zz", &mut b);
                        let a = catch(|| Certificate::from_cbor(&b).is_ok() || serde_cbor::from_slice::<Certificate>(&b).is_ok());
                        c.trans(1);
                        c.check(a == Ok(false), "cert-delegation-missing", || json!({"bytes": hx(&b)}));
                    }
                }
            }
        }
    }
}
