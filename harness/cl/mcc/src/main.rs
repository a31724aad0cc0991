//! Checks of the Rust client library (lib/client) running on the real program.
#[path = "../../../mc/src/explore.rs"]
mod explore;
#[path = "../../../mc/src/refm.rs"]
#[allow(dead_code)]
mod refm;
#[path = "../../../mc/src/svm.rs"]
#[allow(dead_code)]
mod svm;
#[path = "../../../mc/src/world.rs"]
#[allow(dead_code)]
mod world;
mod spec {
    use std::sync::atomic::AtomicU64;
    pub static JUDGED: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
}
mod chain;
mod p_calc;
mod p_client;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, tier) = (a[1].as_str(), a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
    svm::init();
    explore::pool();
    std::process::exit(match id {
        "C36" => p_client::c36(tier),
        "C43" => p_calc::c43(tier),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    });
}
