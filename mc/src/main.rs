#![allow(dead_code)]
mod c_asset;
mod c_cbor;
mod c_cel;
mod c_cert;
mod c_e2e;
mod c_http;
mod c_js;
mod c_msg;
mod c_total;
mod c_tree;
mod crypt;
mod ctx;
mod http;
mod tap;
mod tree;

#[global_allocator]
static ALLOC: c_total::Counting = c_total::Counting;

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc <PROPERTY>");
    let run: fn(&'static ctx::Ctx) = match id.as_str() {
        "C01" => c_e2e::c01,
        "C02" => c_e2e::c02,
        "C03" => c_cert::c03,
        "C04" => c_cert::c04,
        "C05" => c_tree::c05,
        "C06" => c_tree::c06,
        "C07" => c_tree::c07,
        "C08" => c_tree::c08,
        "C09" => c_tree::c09,
        "C10" => c_tree::c10,
        "C11" => c_cbor::c11,
        "C12" => c_total::c12,
        "C13" => c_http::c13,
        "C14" => c_cel::c14,
        "C15" => c_http::c15,
        "C16" => c_http::c16,
        "C17" => c_http::c17,
        "C18" => c_http::c18,
        "C19" => c_http::c19,
        "C20" => c_http::c20,
        "C21" => c_e2e::c21,
        "C22" => c_asset::c22,
        "C23" => c_asset::c23,
        "C24" => c_asset::c24,
        "C25" => c_asset::c25,
        "C26" => c_http::c26,
        "C27" => c_msg::c27,
        "C30" => c_asset::c30,
        "C28" => c_js::c28,
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    };
    let c = ctx::Ctx::new(&id);
    // A big stack for the explorer itself; code under test runs on worker threads of bounded size.
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(c)).unwrap();
    if h.join().is_err() {
        c.fail("uncaught-panic", serde_json::json!({"panic": ctx::last_panic()}));
    }
    c.finish()
}
