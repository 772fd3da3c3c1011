//! Builds certificates with real BLS signatures, independent of ic-certification-testing.
use crate::tree::{bytes, f, head, l, text, v, T};
use miracl_core_bls12381::bls12381::bls;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub struct Key {
    pub sk: [u8; 48],
    pub pk: [u8; 96],
}
pub fn key(i: u8) -> &'static Key {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    let ks = K.get_or_init(|| {
        bls::init();
        (0..6u8)
            .map(|i| {
                let (mut sk, mut pk) = ([0u8; 48], [0u8; 96]);
                assert_eq!(bls::key_pair_generate(&[i + 1; 32], &mut sk, &mut pk), 0);
                Key { sk, pk }
            })
            .collect()
    });
    &ks[i as usize]
}
pub const DER: &[u8] = &[
    0x30, 0x81, 0x82, 0x30, 0x1d, 0x06, 0x0d, 0x2b, 0x06, 0x01, 0x04, 0x01, 0x82, 0xdc, 0x7c, 0x05, 0x03, 0x01, 0x02,
    0x01, 0x06, 0x0c, 0x2b, 0x06, 0x01, 0x04, 0x01, 0x82, 0xdc, 0x7c, 0x05, 0x03, 0x02, 0x01, 0x03, 0x61, 0x00,
];
pub fn der(pk: &[u8]) -> Vec<u8> {
    [DER, pk].concat()
}
pub fn root_pk() -> Vec<u8> {
    der(&key(0).pk)
}
/// Sign an arbitrary message.
pub fn sign_msg(k: u8, msg: &[u8]) -> Vec<u8> {
    static C: OnceLock<Mutex<HashMap<(u8, Vec<u8>), Vec<u8>>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(s) = c.lock().unwrap().get(&(k, msg.to_vec())) {
        return s.clone();
    }
    let mut sig = [0u8; 48];
    assert_eq!(bls::core_sign(&mut sig, msg, &key(k).sk), 0);
    c.lock().unwrap().insert((k, msg.to_vec()), sig.to_vec());
    sig.to_vec()
}
pub fn msg(digest: &[u8]) -> Vec<u8> {
    [b"\x0Dic-state-root".as_slice(), digest].concat()
}
pub fn sign(k: u8, t: &T) -> Vec<u8> {
    sign_msg(k, &msg(&t.digest()))
}
pub fn leb(mut n: u128) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
pub const CANISTER: &[u8] = &[0, 0, 0, 0, 0, 0, 0, 7, 1, 1];
pub const NOW: u128 = 1_700_000_000_000_000_000;
pub const OFFSET: u128 = 300_000_000_000;

pub fn state_tree(canister: &[u8], data: &[u8], time: u128) -> T {
    f(l("canister", l(canister, l("certified_data", v(data)))), l("time", v(leb(time))))
}
#[derive(Clone)]
pub struct Deleg {
    pub subnet: Vec<u8>,
    pub cert: Vec<u8>,
}
pub fn cert_cbor(t: &T, sig: &[u8], d: Option<&Deleg>) -> Vec<u8> {
    let mut o = vec![0xd9, 0xd9, 0xf7];
    head(5, 2 + d.is_some() as u64, &mut o);
    text("tree", &mut o);
    t.enc(&mut o);
    text("signature", &mut o);
    bytes(sig, &mut o);
    if let Some(d) = d {
        text("delegation", &mut o);
        head(5, 2, &mut o);
        text("subnet_id", &mut o);
        bytes(&d.subnet, &mut o);
        text("certificate", &mut o);
        bytes(&d.cert, &mut o);
    }
    o
}
/// A certificate for `data` at NOW, signed directly by the root key.
pub fn simple_cert(canister: &[u8], data: &[u8]) -> Vec<u8> {
    simple_cert_at(canister, data, NOW)
}
pub fn simple_cert_at(canister: &[u8], data: &[u8], time: u128) -> Vec<u8> {
    let t = state_tree(canister, data, time);
    cert_cbor(&t, &sign(0, &t), None)
}
pub fn ranges_cbor(r: &[(&[u8], &[u8])]) -> Vec<u8> {
    let mut o = vec![0xd9, 0xd9, 0xf7];
    head(4, r.len() as u64, &mut o);
    for (a, b) in r {
        head(4, 2, &mut o);
        bytes(a, &mut o);
        bytes(b, &mut o);
    }
    o
}
pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
pub fn b64d(s: &str) -> Option<Vec<u8>> {
    let s = s.trim_end_matches('=');
    let (mut o, mut acc, mut n) = (vec![], 0u32, 0);
    for c in s.bytes() {
        let x = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = acc << 6 | x as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    Some(o)
}
