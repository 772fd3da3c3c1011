//! The JavaScript bindings as they are, in a library of its own, and the decoders below them.
use wasm_bindgen::prelude::*;
pub use ic_response_verification_wasm::*;

/// What the decoders make of some bytes: an item, a tree, a certificate.
#[wasm_bindgen(js_name = decodeAll)]
pub fn decode_all(b: &[u8]) -> String {
    use ic_cbor::{parse_cbor_string_array, CertificateToCbor, HashTreeToCbor};
    let item = ic_cbor::parse_cbor(b).map(|v| dump(&v)).unwrap_or_default();
    let strings = parse_cbor_string_array(b).map(|v| format!("{v:?}")).unwrap_or_default();
    let tree = ic_certification::HashTree::from_cbor(b).map(|t| format!("{:?}", t.digest())).unwrap_or_default();
    let cert = ic_certification::Certificate::from_cbor(b).map(|c| format!("{:?}", c)).unwrap_or_default();
    [item, strings, tree, cert].join("\u{1}")
}

/// An item as text, maps in order.
fn dump(v: &ic_cbor::CborValue) -> String {
    use ic_cbor::CborValue::*;
    match v {
        Array(a) => format!("[{}]", a.iter().map(dump).collect::<Vec<_>>().join(" ")),
        Map(m) => {
            let mut e: Vec<_> = m.iter().map(|(k, v)| format!("{k:?}:{}", dump(v))).collect();
            e.sort();
            format!("{{{}}}", e.join(" "))
        }
        x => format!("{x:?}"),
    }
}
