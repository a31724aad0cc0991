mod checks;
mod p_access;
mod p_account;
mod p_subst;
mod p_config;
mod p_listing;
mod p_margin;
mod explore;
mod oracles;
mod p_buyback;
mod p_fees;
mod p_region;
mod p_flash;
mod p_interest;
mod p_liq;
mod p_health;
mod p_logs;
mod p_mix;
mod p_oracle;
mod p_stable;
mod p_tcs;
mod p_perp;
mod p_perp2;
mod p_serum;
mod p_token;
mod perp_ref;
mod refm;
mod scen;
mod scens;
mod spec;
mod svm;
mod world;

fn main() {
    explore::pool();
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).expect("usage: mc <property> [quick|thorough]");
    let tier = a.get(2).map(|s| s.as_str()).unwrap_or("quick");
    let r = std::panic::catch_unwind(|| checks::run(id, tier));
    std::process::exit(r.unwrap_or_else(|e| {
        // a scenario could not even be set up: operations every scenario relies on are refused
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let rep = explore::Report::new(id, tier);
        rep.violation("the scenarios can't be set up any more", &m);
        rep.finish(&[])
    }));
}
