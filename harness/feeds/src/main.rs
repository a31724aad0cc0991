//! Off-chain services, explored as they are against stand-ins for their runtime: crank (C39), fills
//! feed (C41), order book feed (C42).
#![allow(dead_code)]
mod book;
mod common;
mod crank;
#[path = "../../feeds-src/fills/fill_event_filter.rs"]
mod fill_event_filter;
mod fills;
#[path = "../../feeds-src/crank/mango_v4_perp_crank_sink.rs"]
mod mango_v4_perp_crank_sink;
#[path = "../../feeds-src/crank/openbook_crank_sink.rs"]
mod openbook_crank_sink;
#[path = "../../feeds-src/orderbook/orderbook_filter.rs"]
mod orderbook_filter;
#[path = "../../feeds-src/crank/transaction_builder.rs"]
mod transaction_builder;
mod metrics {
    pub use mango_feeds_connector::metrics::*;
}
extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
}
fn main() {
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    // keep large blocks on the heap: mapping and unmapping them serialises the threads
    unsafe {
        mallopt(-3, 1 << 30);
        mallopt(-1, 1 << 30);
    }
    let id = std::env::args().nth(1).expect("property");
    let r = common::Report::new(&id, std::env::args().nth(2).as_deref() == Some("thorough"));
    let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match id.as_str() {
        "C39" => crank::run(&r),
        "C41" => fills::run(&r),
        "C42" => book::run(&r),
        _ => panic!("unknown property"),
    }));
    if let Err(e) = run {
        r.violation("setup", vec![], &format!("panicked: {}", common::panic_text(&e)));
    }
    std::process::exit(r.finish());
}
