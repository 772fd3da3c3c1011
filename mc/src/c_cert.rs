//! C03, C04: acceptance of certificates, signature cache histories.
use crate::crypt::*;
use crate::ctx::{catch, hx, Ctx};
use crate::tree::*;
use ic_cbor::CertificateToCbor;
use ic_certificate_verification::VerifyCertificate;
use ic_certification::Certificate;
use rayon::prelude::*;
use serde_json::json;

fn unleb(b: &[u8]) -> Option<u128> {
    let (mut n, mut s) = (0u128, 0);
    for x in b {
        n |= ((x & 0x7f) as u128) << s;
        if n > u64::MAX as u128 {
            return None;
        }
        if x & 0x80 == 0 {
            return Some(n);
        }
        s += 7;
        if s > 63 {
            return None;
        }
    }
    None
}
fn key_of(der_key: &[u8]) -> Option<u8> {
    if der_key.len() != 133 || &der_key[..37] != DER {
        return None;
    }
    (0..6).find(|i| key(*i).pk == der_key[37..])
}
/// BLS signatures are unique: the only valid signature is the one signing produces.
fn sig_ok(t: &T, sig: &[u8], der_key: &[u8]) -> bool {
    key_of(der_key).is_some_and(|k| sign(k, t) == sig)
}
#[derive(Clone)]
pub struct Cert {
    pub tree: T,
    pub sig: Vec<u8>,
    pub deleg: Option<(Vec<u8>, Dc)>,
}
#[derive(Clone)]
pub struct Dc {
    pub tree: T,
    pub sig: Vec<u8>,
    /// A delegation inside the delegation's certificate.
    pub nested: Option<(Vec<u8>, Vec<u8>)>,
    /// Ground truth of the ranges leaf, if it is well formed
    pub ranges: Option<Vec<(Vec<u8>, Vec<u8>)>>,
}
impl Cert {
    fn bytes(&self) -> Vec<u8> {
        let d = self.deleg.as_ref().map(|(s, d)| {
            let inner = d.nested.clone().map(|(subnet, cert)| Deleg { subnet, cert });
            Deleg { subnet: s.clone(), cert: cert_cbor(&d.tree, &d.sig, inner.as_ref()) }
        });
        cert_cbor(&self.tree, &self.sig, d.as_ref())
    }
    /// The acceptance rule of the interface specification.
    fn accept(&self, canister: &[u8], root: &[u8], now: u128, off: u128) -> bool {
        let Look::Found(tm) = self.tree.lookup(&["time"]) else { return false };
        let Some(tm) = unleb(&tm) else { return false };
        if tm > now.saturating_add(off) || tm < now.saturating_sub(off) {
            return false;
        }
        let k = match &self.deleg {
            None => root.to_vec(),
            Some((s, d)) => {
                if d.nested.is_some() || !sig_ok(&d.tree, &d.sig, root) {
                    return false;
                }
                let Look::Found(_) = d.tree.lookup(&[b"subnet".as_slice(), s, b"canister_ranges"]) else { return false };
                let Some(r) = &d.ranges else { return false };
                if !r.iter().any(|(a, b)| a.as_slice() <= canister && canister <= b.as_slice()) {
                    return false;
                }
                let Look::Found(k) = d.tree.lookup(&[b"subnet".as_slice(), s, b"public_key"]) else { return false };
                k
            }
        };
        sig_ok(&self.tree, &self.sig, &k)
    }
}

fn can(n: u64) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend([1, 1]);
    v
}
const SUB: &[u8] = &[0x11; 29];
const OTHER: &[u8] = &[0x22; 29];

fn deleg_tree(subnet: &[u8], ranges: Option<&[u8]>, pk: Option<&[u8]>) -> T {
    let mut kids = vec![];
    if let Some(r) = ranges {
        kids.push(l("canister_ranges", v(r)));
    }
    if let Some(k) = pk {
        kids.push(l("public_key", v(k)));
    }
    f(l("subnet", l(subnet, balanced(&kids))), l("time", v(leb(5))))
}

fn variants(c: &Ctx) -> (Vec<(String, T)>, Vec<(String, Option<(Vec<u8>, Dc)>)>) {
    // main trees: time variants
    let data = [7u8; 32];
    let mk = |time: Option<T>| {
        let can_part = l("canister", l(CANISTER, l("certified_data", v(data))));
        match time {
            Some(t) => f(can_part, l("time", t)),
            None => can_part,
        }
    };
    let mut mains = vec![
        ("no time".into(), mk(None)),
        ("pruned time".into(), mk(Some(T::P([1; 32])))),
        ("time pruned away".into(), f(l("canister", l(CANISTER, l("certified_data", v(data)))), T::P([2; 32]))),
        ("time subtree".into(), mk(Some(l("x", v(leb(NOW)))))),
        ("empty time".into(), mk(Some(v([])))),
        ("unterminated leb".into(), mk(Some(v([0x80, 0x80])))),
        ("overlong leb".into(), mk(Some(v([0xff; 11])))),
        ("time 2^64".into(), mk(Some(v(leb(1 << 64))))),
    ];
    let mut times: Vec<u128> = vec![NOW, NOW - OFFSET, NOW + OFFSET, NOW - OFFSET - 1, NOW + OFFSET + 1, 0, u64::MAX as u128];
    if c.thorough() {
        times.extend([1, NOW - 1, NOW + 1, NOW - 2 * OFFSET, NOW + 2 * OFFSET, 127, 128, 1 << 63]);
    }
    for t in times {
        mains.push((format!("time {t}"), mk(Some(v(leb(t))))));
    }
    // delegations
    let c0 = 7u64;
    type R = Vec<(Vec<u8>, Vec<u8>)>;
    let rs: Vec<(&str, R)> = vec![
        ("exact", vec![(can(c0), can(c0))]),
        ("low edge", vec![(can(c0), can(c0 + 9))]),
        ("high edge", vec![(can(0), can(c0))]),
        ("inside", vec![(can(c0 - 1), can(c0 + 1))]),
        ("below", vec![(can(0), can(c0 - 1))]),
        ("above", vec![(can(c0 + 1), can(u64::MAX))]),
        ("gap", vec![(can(0), can(c0 - 1)), (can(c0 + 1), can(c0 + 5))]),
        ("second", vec![(can(0), can(1)), (can(c0), can(c0 + 5))]),
        ("none", vec![]),
        ("reversed", vec![(can(c0 + 1), can(c0 - 1))]),
        ("crossed", vec![(can(0), can(3)), (can(c0 + 3), can(c0 + 5))]),
    ];
    let root_sig = |t: &T| sign(0, t);
    let mut ds: Vec<(String, Option<(Vec<u8>, Dc)>)> = vec![("none".into(), None)];
    for (n, r) in &rs {
        let rc: Vec<(&[u8], &[u8])> = r.iter().map(|(a, b)| (a.as_slice(), b.as_slice())).collect();
        let t = deleg_tree(SUB, Some(&ranges_cbor(&rc)), Some(&der(&key(1).pk)));
        let sig = root_sig(&t);
        ds.push((format!("ranges {n}"), Some((SUB.to_vec(), Dc { tree: t, sig, nested: None, ranges: Some(r.clone()) }))));
    }
    let good: R = rs[3].1.clone();
    let gc = {
        let rc: Vec<(&[u8], &[u8])> = good.iter().map(|(a, b)| (a.as_slice(), b.as_slice())).collect();
        ranges_cbor(&rc)
    };
    let pk1 = der(&key(1).pk);
    let mut add = |n: &str, subnet: &[u8], t: T, sig: Vec<u8>, nested: Option<(Vec<u8>, Vec<u8>)>, ranges: Option<R>| {
        ds.push((n.into(), Some((subnet.to_vec(), Dc { tree: t, sig, nested, ranges }))));
    };
    let t = deleg_tree(SUB, Some(&gc), Some(&pk1));
    add("signed by subnet", SUB, t.clone(), sign(1, &t), None, Some(good.clone()));
    add("signed by stranger", SUB, t.clone(), sign(2, &t), None, Some(good.clone()));
    // a delegation inside the delegation: junk, a sound one of the same or another subnet, and a chain
    let inner = cert_cbor(&t, &root_sig(&t), None);
    for (n, s, ct) in [("junk", b"n".to_vec(), vec![0xa0]), ("empty", vec![], vec![]), ("same subnet", SUB.to_vec(), inner.clone()), ("other subnet", OTHER.to_vec(), inner.clone()), ("no subnet", vec![], inner.clone())] {
        add(&format!("nested {n}"), SUB, t.clone(), root_sig(&t), Some((s.clone(), ct.clone())), Some(good.clone()));
        add(&format!("nested {n}, signed by subnet"), SUB, t.clone(), sign(1, &t), Some((s, ct)), Some(good.clone()));
    }
    let chain = deleg_tree(OTHER, Some(&gc), Some(&der(&key(2).pk)));
    add("chain of two", OTHER, chain.clone(), sign(1, &chain), Some((SUB.to_vec(), inner.clone())), Some(good.clone()));
    add("chain of two, signed by root", OTHER, chain.clone(), root_sig(&chain), Some((SUB.to_vec(), inner)), Some(good.clone()));
    // subnet ids of unusual lengths
    for id in [&[][..], &[0], &[0x11; 30], b"subnet"] {
        let x = deleg_tree(id, Some(&gc), Some(&pk1));
        add(&format!("subnet id of {} bytes", id.len()), id, x.clone(), root_sig(&x), None, Some(good.clone()));
        add(&format!("subnet id of {} bytes, not there", id.len()), id, t.clone(), root_sig(&t), None, Some(good.clone()));
    }
    add("empty sig", SUB, t.clone(), vec![], None, Some(good.clone()));
    add("other subnet id", OTHER, t.clone(), root_sig(&t), None, Some(good.clone()));
    add("prefix subnet id", &SUB[..28], t.clone(), root_sig(&t), None, Some(good.clone()));
    let x = deleg_tree(SUB, None, Some(&pk1));
    add("no ranges", SUB, x.clone(), root_sig(&x), None, None);
    let x = deleg_tree(SUB, Some(&gc), None);
    add("no key", SUB, x.clone(), root_sig(&x), None, Some(good.clone()));
    for (n, bad) in [
        ("garbage ranges", vec![0xff]),
        ("empty ranges leaf", vec![]),
        ("ranges map", vec![0xa0]),
        ("short pair", vec![0x81, 0x81, 0x41, 0x01]),
        ("int pair", vec![0x81, 0x82, 0x01, 0x02]),
        ("trailing", [gc.clone(), vec![0]].concat()),
        ("truncated", gc[..gc.len() - 1].to_vec()),
    ] {
        let x = deleg_tree(SUB, Some(&bad), Some(&pk1));
        add(n, SUB, x.clone(), root_sig(&x), None, None);
    }
    for (n, bad) in [
        ("raw key", key(1).pk.to_vec()),
        ("short der", pk1[..132].to_vec()),
        ("long der", [pk1.clone(), vec![0]].concat()),
        ("bad prefix", { let mut p = pk1.clone(); p[3] ^= 1; p }),
        ("last prefix byte", { let mut p = pk1.clone(); p[36] ^= 1; p }),
        ("root key", root_pk()),
        ("third key", der(&key(2).pk)),
    ] {
        let x = deleg_tree(SUB, Some(&gc), Some(&bad));
        add(n, SUB, x.clone(), root_sig(&x), None, Some(good.clone()));
    }
    // pruned pieces
    let x = f(l("subnet", l(SUB, f(l("canister_ranges", v(&gc)), l("public_key", T::P([3; 32]))))), l("time", v(leb(5))));
    add("key pruned", SUB, x.clone(), root_sig(&x), None, Some(good.clone()));
    let x = f(l("subnet", l(SUB, f(l("canister_ranges", T::P([3; 32])), l("public_key", v(&pk1))))), l("time", v(leb(5))));
    add("ranges pruned", SUB, x.clone(), root_sig(&x), None, Some(good.clone()));
    // ranges of another subnet contain the canister, the named one's do not
    let none = ranges_cbor(&[]);
    let x = f(
        l("subnet", f(l(SUB, f(l("canister_ranges", v(&none)), l("public_key", v(&pk1)))), l(OTHER, f(l("canister_ranges", v(&gc)), l("public_key", v(der(&key(2).pk))))))),
        l("time", v(leb(5))),
    );
    add("two subnets, named has no ranges", SUB, x.clone(), root_sig(&x), None, Some(vec![]));
    add("two subnets, other", OTHER, x.clone(), root_sig(&x), None, Some(good.clone()));
    // the delegation certificate is old, and one without a time at all
    let x = l("subnet", l(SUB, f(l("canister_ranges", v(&gc)), l("public_key", v(&pk1)))));
    add("delegation without time", SUB, x.clone(), root_sig(&x), None, Some(good));
    (mains, ds)
}

fn sigs(t: &T, other: &T) -> Vec<(&'static str, Vec<u8>)> {
    let s0 = sign(0, t);
    let s1 = sign(1, t);
    let mut flip = s0.clone();
    flip[47] ^= 1;
    let mut flip1 = s1.clone();
    flip1[20] ^= 0x10;
    let mut neg = s0.clone();
    neg[0] ^= 0x20;
    let mut neg1 = s1.clone();
    neg1[0] ^= 0x20;
    let mut inf = vec![0u8; 48];
    inf[0] = 0xc0;
    vec![
        ("root", s0.clone()),
        ("subnet", s1.clone()),
        ("key2", sign(2, t)),
        ("root over other tree", sign(0, other)),
        ("subnet over other tree", sign(1, other)),
        ("root without domain", sign_msg(0, &t.digest())),
        ("subnet wrong domain", sign_msg(1, &[b"\x0Dic-state-rooT".as_slice(), &t.digest()].concat())),
        ("bit flip", flip),
        ("bit flip subnet", flip1),
        ("negated", neg),
        ("negated subnet", neg1),
        ("truncated", s0[..47].to_vec()),
        ("extended", [s0, vec![0]].concat()),
        ("extended subnet", [s1, vec![0]].concat()),
        ("empty", vec![]),
        ("zeros", vec![0; 48]),
        ("infinity", inf),
    ]
}

pub fn run_cert(bytes: &[u8], can: &[u8], root: &[u8], now: u128, off: u128) -> Result<bool, String> {
    catch(|| match Certificate::from_cbor(bytes) {
        Ok(ct) => ct.verify(can, root, &now, &off).is_ok(),
        Err(_) => false,
    })
}

pub fn c03(c: &'static Ctx) {
    let (mains, ds) = variants(c);
    let roots: Vec<(&str, Vec<u8>)> = vec![
        ("root", root_pk()),
        ("other", der(&key(2).pk)),
        ("subnet", der(&key(1).pk)),
        ("short", root_pk()[..132].to_vec()),
        ("long", [root_pk(), vec![0]].concat()),
        ("bad prefix", { let mut p = root_pk(); p[0] ^= 1; p }),
        ("empty", vec![]),
    ];
    let windows: Vec<(u128, u128)> = vec![
        (NOW, OFFSET),
        (NOW, 0),
        (NOW + OFFSET, OFFSET),
        (NOW - OFFSET, OFFSET),
        (0, OFFSET),
        (u128::MAX, OFFSET),
        (NOW, u128::MAX),
        (0, 0),
        (u128::MAX, u128::MAX),
    ];
    let mut cases = vec![];
    for mi in 0..mains.len() {
        for di in 0..ds.len() {
            // the full product is explored when the delegation or the time is a plain one,
            // otherwise the signature dimension is reduced to the three keys
            for si in 0..17 {
                let plain = mi >= 8 || di <= 4;
                if !plain && si > 2 {
                    continue;
                }
                if !c.thorough() && mi != 8 && di > 4 && si > 2 {
                    continue;
                }
                cases.push((mi, di, si));
            }
        }
    }
    c.note("bound", format!("{} main trees x {} delegations x up to 17 signatures x {} root keys x {} clock settings", mains.len(), ds.len(), roots.len(), windows.len()));
    let other = v("another tree");
    cases.par_iter().for_each(|(mi, di, si)| {
        if c.stopped() {
            return;
        }
        c.mark(*mi as u64, *di as u64, *si as u64, 0);
        let (mn, mt) = &mains[*mi];
        let (dn, d) = &ds[*di];
        let (sn, sig) = sigs(mt, &other).swap_remove(*si);
        let ct = Cert { tree: mt.clone(), sig, deleg: d.clone() };
        let b = ct.bytes();
        for (ri, (rn, root)) in roots.iter().enumerate() {
            for (wi, (now, off)) in windows.iter().enumerate() {
                if ri > 0 && wi > 0 {
                    continue;
                }
                for can_id in [CANISTER.to_vec(), can(8)] {
                    if (ri > 0 || wi > 0) && can_id != CANISTER {
                        continue;
                    }
                    let want = ct.accept(&can_id, root, *now, *off);
                    let got = run_cert(&b, &can_id, root, *now, *off);
                    c.trans(1);
                    c.trace(1);
                    c.check(got == Ok(want), "cert-acceptance", || {
                        json!({"main": mn, "delegation": dn, "signature": sn, "root": rn, "now": now.to_string(), "offset": off.to_string(), "canister": hx(&can_id), "got": format!("{got:?}"), "want": want})
                    });
                    if want {
                        c.outcome("accepted");
                        c.sample(|| json!({"main": mn, "delegation": dn, "signature": sn, "root": rn, "accepted": want}));
                    } else {
                        c.outcome("rejected");
                    }
                }
            }
        }
        c.state(1);
        c.idle();
    });
    // every single-bit change of an accepted certificate's signed content or signature is rejected
    let t = state_tree(CANISTER, &[7; 32], NOW);
    let ct = Cert { tree: t.clone(), sig: sign(0, &t), deleg: None };
    let dl = &ds.iter().find(|(n, _)| n == "ranges inside").unwrap().1;
    let ct2 = Cert { tree: t.clone(), sig: sign(1, &t), deleg: dl.clone() };
    for base in [ct.bytes(), ct2.bytes()] {
        c.check(run_cert(&base, CANISTER, &root_pk(), NOW, OFFSET) == Ok(true), "cert-base", || json!("base certificate"));
        let truth = Certificate::from_cbor(&base).unwrap();
        let step = 1;
        (0..base.len() * 8).into_par_iter().step_by(step).for_each(|i| {
            let mut m = base.clone();
            m[i / 8] ^= 1 << (i % 8);
            let got = run_cert(&m, CANISTER, &root_pk(), NOW, OFFSET);
            c.trans(1);
            c.trace(1);
            // a change may be neutral only if the decoded certificate is the same
            let ok = match got {
                Ok(true) => Certificate::from_cbor(&m).is_ok_and(|x| x.tree == truth.tree && x.signature == truth.signature && same_deleg(&x, &truth)),
                Ok(false) => true,
                Err(_) => false,
            };
            c.check(ok, "cert-bitflip", || json!({"byte": i / 8, "bit": i % 8, "got": format!("{got:?}"), "cert": hx(&m)}));
        });
    }
}
fn same_deleg(a: &Certificate, b: &Certificate) -> bool {
    match (&a.delegation, &b.delegation) {
        (None, None) => true,
        (Some(x), Some(y)) => {
            // compare the decoded inner certificate: neutral bits of its encoding carry no meaning
            x.subnet_id == y.subnet_id
                && match (Certificate::from_cbor(&x.certificate), Certificate::from_cbor(&y.certificate)) {
                    (Ok(p), Ok(q)) => p == q,
                    _ => false,
                }
        }
        _ => false,
    }
}

/// C04, sequential part: the verdict never depends on what was verified before.
pub fn c04(c: &'static Ctx) {
    // Items: (signing key, verifying key, which tree is presented, which tree was signed, damage)
    #[derive(Clone, Copy, Debug)]
    struct It(u8, u8, u8, u8, u8);
    let items = [
        It(0, 0, 0, 0, 0), // valid
        It(0, 0, 1, 1, 0), // valid, other message
        It(1, 1, 0, 0, 0), // valid, other key
        It(0, 1, 0, 0, 0), // right signature, wrong key
        It(0, 0, 0, 1, 0), // signature of the other message
        It(0, 0, 0, 0, 1), // damaged signature
        It(0, 0, 1, 0, 0), // and the other way round
        It(0, 0, 0, 0, 2), // negated signature
        It(0, 0, 0, 0, 3), // damaged at the end of the signature
        It(0, 0, 0, 0, 4), // key damaged at its start
        It(0, 0, 0, 0, 5), // key damaged at its end
    ];
    for (n, d) in c.pick([(11usize, 3usize), (6, 4)], [(11, 4), (7, 5)]) {
    let total = n.pow(d as u32);
    (0..total).into_par_iter().for_each(|s| {
        if c.stopped() {
            return;
        }
        // fresh messages: nothing about them is cached when the history begins
        let trees = [state_tree(CANISTER, &[1; 32], NOW + (s * 10 + d) as u128), state_tree(CANISTER, &[2; 32], NOW + (s * 10 + d) as u128)];
        let mut x = s;
        let mut hist = vec![];
        for _ in 0..d {
            let it = items[x % n];
            x /= n;
            hist.push(it);
            let t = &trees[it.2 as usize];
            let mut sig = sign(it.0, &trees[it.3 as usize]);
            let mut pk = der(&key(it.1).pk);
            match it.4 {
                1 => sig[40] ^= 4,
                2 => sig[0] ^= 0x20,
                3 => sig[47] ^= 1,
                4 => pk[45] ^= 1,
                5 => pk[132] ^= 1,
                _ => {}
            }
            let want = it.0 == it.1 && it.2 == it.3 && it.4 == 0;
            let b = cert_cbor(t, &sig, None);
            let got = run_cert(&b, CANISTER, &pk, NOW, OFFSET);
            c.trans(1);
            c.check(got == Ok(want), "cache-history", || json!({"history": format!("{hist:?}"), "got": format!("{got:?}"), "want": want}));
        }
        c.trace(1);
        c.state(1);
    });
    c.note(&format!("bound {d}"), format!("all {total} histories of {d} verifications over {n} kinds of certificate, each on fresh messages"));
    }
    c.sample(|| json!({"history": "valid, right signature under wrong key, signature of other message, damaged"}));
}
