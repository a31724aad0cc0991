//! New tokens, banks, perp and spot markets: what they start with, and who may list how many.
use crate::explore::Report;
use crate::p_access::*;
use crate::p_config::*;
use crate::refm::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use bytemuck::Zeroable;
use fixed::types::I80F48;
use mango_v4::accounts_ix::*;
use mango_v4::state::*;
use rayon::prelude::*;
use solana_program::instruction::Instruction;
use solana_program::{system_program, sysvar};

fn fi(x: f64) -> I80F48 {
    I80F48::from_num(x)
}
fn f3(x: f32) -> I80F48 {
    I80F48::from_num(x)
}
fn fill<const N: usize>(s: &str) -> [u8; N] {
    let mut v = [0; N];
    v[..s.len()].copy_from_slice(s.as_bytes());
    v
}
fn bump(w: &World, seeds: &[&[u8]]) -> u8 {
    let v: Vec<&[u8]> = [seeds[0], w.group.as_ref()].iter().cloned().chain(seeds[1..].iter().cloned()).collect();
    Pubkey::find_program_address(&v, &mango_v4::ID).1
}
fn stable(price: Option<f64>, now: u64) -> StablePriceModel {
    let mut m = StablePriceModel::zeroed();
    m.delay_interval_seconds = 3600;
    m.delay_growth_limit = 0.06;
    m.stable_growth_limit = 0.0003;
    match price {
        Some(p) => {
            m.stable_price = p;
            m.delay_prices = [p; 24];
            m.last_update_timestamp = now;
        }
        None => m.reset_on_nonzero_price = 1,
    }
    m
}
fn after<T: bytemuck::Pod>(s: &State, k: &Pubkey) -> Option<Vec<u8>> {
    s.accts.get(k).map(|a| a.data[8..8 + std::mem::size_of::<T>()].to_vec())
}
fn diff_at(a: &[u8], b: &[u8]) -> String {
    format!("differ at {:?}", (0..a.len().min(b.len())).filter(|&i| a[i] != b[i]).take(12).collect::<Vec<_>>())
}
fn same<T: bytemuck::Pod>(rep: &Report, key: &str, s: &State, k: &Pubkey, want: &T) {
    let w = bytemuck::bytes_of(want).to_vec();
    match after::<T>(s, k) {
        Some(g) if g == w => {}
        Some(g) => rep.violation(key, &format!("{} {:?} {:?}", diff_at(&g, &w), &g[240..248], &w[240..248])),
        None => rep.violation(key, "no account"),
    }
}
/// nothing but the named accounts (and lamports of the payer) changed
fn only(rep: &Report, key: &str, a: &State, b: &State, new: &[Pubkey]) {
    for (k, x) in &b.accts {
        if !new.contains(k) && a.accts.get(k).map_or(true, |y| y.data != x.data || y.owner != x.owner) && !(x.data.is_empty()) {
            rep.violation(&format!("{key}: another account changed"), &k.to_string());
        }
    }
}
fn pyth() -> Pubkey {
    pk("listing pyth")
}
fn put_pyth(s: &mut State, w: &World) {
    let i = crate::p_oracle::Img { ty: crate::p_oracle::Ty::Pyth, m: 1_234_567, conf: 5, expo: -3, slot: s.slot, time: 0 };
    crate::p_oracle::put_oracle(s, pyth(), w.group, &i);
}
/// dollars per coin to quote native per native
fn pyth_price(decimals: u8) -> f64 {
    1234.567 * 10f64.powi(6 - decimals as i32)
}
/// a first price that's within rounding is as good
fn rounded(want: &mut StablePriceModel, got: &StablePriceModel) {
    let p = got.stable_price;
    if (p / want.stable_price - 1.0).abs() < 1e-7 && got.delay_prices == [p; 24] {
        want.stable_price = p;
        want.delay_prices = [p; 24];
    }
}
fn tx(rep: &Report, s: &State, i: &Instruction) -> (TxResult, State) {
    rep.case();
    run(s, &[i.clone()])
}
type D = mango_v4::instruction::TokenRegister;

fn base_token() -> D {
    D {
        token_index: 9,
        name: "some token".into(),
        oracle_config: OracleConfigParams { conf_filter: 0.109375, max_staleness_slots: Some(123) },
        interest_rate_params: InterestRateParams { util0: 0.40625, rate0: 0.0703125, util1: 0.8125, rate1: 0.90625, max_rate: 1.5, adjustment_factor: 0.01171875 },
        loan_fee_rate: 0.0009765625,
        loan_origination_fee_rate: 0.001953125,
        maint_asset_weight: 0.875,
        init_asset_weight: 0.75,
        maint_liab_weight: 1.125,
        init_liab_weight: 1.25,
        liquidation_fee: 0.0625,
        stable_price_delay_interval_seconds: 1800,
        stable_price_delay_growth_limit: 0.03125,
        stable_price_growth_limit: 0.00048828125,
        min_vault_to_deposits_ratio: 0.1875,
        net_borrow_limit_window_size_ts: 7200,
        net_borrow_limit_per_window_quote: 1_234_567,
        borrow_weight_scale_start_quote: 5.5e9,
        deposit_weight_scale_start_quote: 6.5e9,
        reduce_only: 0,
        token_conditional_swap_taker_fee_rate: 0.0078125,
        token_conditional_swap_maker_fee_rate: 0.015625,
        flash_loan_swap_fee_rate: 0.03125,
        interest_curve_scaling: 3.5,
        interest_target_utilization: 0.59375,
        group_insurance_fund: true,
        deposit_limit: 7_654_321,
        zero_util_rate: 0.0146484375,
        platform_liquidation_fee: 0.046875,
        disable_asset_liquidation: false,
        collateral_fee_per_day: 0.0234375,
        tier: "AB".into(),
    }
}
fn token_keys(w: &World, index: u16, mint: &Pubkey) -> [Pubkey; 3] {
    [w.pda(b"Bank", &[&index.to_le_bytes(), &0u32.to_le_bytes()]), w.pda(b"Vault", &[&index.to_le_bytes(), &0u32.to_le_bytes()]), w.pda(b"MintInfo", &[mint.as_ref()])]
}
fn register(w: &World, d: D, mint: Pubkey, oracle: Pubkey, fallback: Pubkey) -> Instruction {
    let [bank, vault, mint_info] = token_keys(w, d.token_index, &mint);
    ix(
        mango_v4::accounts::TokenRegister { group: w.group, admin: w.admin, mint, bank, vault, mint_info, oracle, fallback_oracle: fallback, payer: w.payer, token_program: spl_token::ID, system_program: system_program::ID, rent: sysvar::rent::ID },
        d,
    )
}
fn trustless(w: &World, admin: Pubkey, index: u16, name: &str, mint: Pubkey, oracle: Pubkey, fallback: Pubkey) -> Instruction {
    let [bank, vault, mint_info] = token_keys(w, index, &mint);
    ix(
        mango_v4::accounts::TokenRegisterTrustless { group: w.group, admin, mint, bank, vault, mint_info, oracle, fallback_oracle: fallback, payer: w.payer, token_program: spl_token::ID, system_program: system_program::ID, rent: sysvar::rent::ID },
        mango_v4::instruction::TokenRegisterTrustless { token_index: index, name: name.into() },
    )
}
fn empty_bank(w: &World, index: u16, mint: Pubkey, decimals: u8, oracle: Pubkey, fallback: Pubkey, now: u64) -> Bank {
    let [_, vault, _] = token_keys(w, index, &mint);
    let mut b = Bank::zeroed();
    b.group = w.group;
    b.mint = mint;
    b.vault = vault;
    b.oracle = oracle;
    b.fallback_oracle = fallback;
    b.token_index = index;
    b.mint_decimals = decimals;
    b.bump = bump(w, &[b"Bank", &index.to_le_bytes(), &0u32.to_le_bytes()]);
    b.deposit_index = fi(1e6);
    b.borrow_index = fi(1e6);
    b.index_last_updated = now;
    b.bank_rate_last_updated = now;
    b.flash_loan_token_account_initial = u64::MAX;
    b
}
fn mint_info(w: &World, index: u16, mint: Pubkey, oracle: Pubkey, fallback: Pubkey, insurance: bool, now: u64) -> MintInfo {
    let [bank, vault, _] = token_keys(w, index, &mint);
    let mut m = MintInfo::zeroed();
    m.group = w.group;
    m.token_index = index;
    m.group_insurance_fund = insurance as u8;
    m.mint = mint;
    m.banks[0] = bank;
    m.vaults[0] = vault;
    m.oracle = oracle;
    m.fallback_oracle = fallback;
    m.registration_time = now;
    m
}
fn expected(w: &World, d: &D, mint: Pubkey, decimals: u8, oracle: Pubkey, fallback: Pubkey, price: Option<f64>, now: u64) -> Bank {
    let mut b = empty_bank(w, d.token_index, mint, decimals, oracle, fallback, now);
    b.name = fill(&d.name);
    b.oracle_config.conf_filter = f3(d.oracle_config.conf_filter);
    b.oracle_config.max_staleness_slots = d.oracle_config.max_staleness_slots.map_or(-1, |x| x as i64);
    b.stable_price_model = stable(price, now);
    b.stable_price_model.delay_interval_seconds = d.stable_price_delay_interval_seconds;
    b.stable_price_model.delay_growth_limit = d.stable_price_delay_growth_limit;
    b.stable_price_model.stable_growth_limit = d.stable_price_growth_limit;
    let r = &d.interest_rate_params;
    b.adjustment_factor = f3(r.adjustment_factor);
    b.util0 = f3(r.util0);
    b.rate0 = f3(r.rate0);
    b.util1 = f3(r.util1);
    b.rate1 = f3(r.rate1);
    b.max_rate = f3(r.max_rate);
    b.loan_fee_rate = f3(d.loan_fee_rate);
    b.loan_origination_fee_rate = f3(d.loan_origination_fee_rate);
    b.maint_asset_weight = f3(d.maint_asset_weight);
    b.init_asset_weight = f3(d.init_asset_weight);
    b.maint_liab_weight = f3(d.maint_liab_weight);
    b.init_liab_weight = f3(d.init_liab_weight);
    b.liquidation_fee = f3(d.liquidation_fee);
    b.min_vault_to_deposits_ratio = d.min_vault_to_deposits_ratio;
    b.net_borrow_limit_window_size_ts = d.net_borrow_limit_window_size_ts;
    b.last_net_borrows_window_start_ts = now - now % d.net_borrow_limit_window_size_ts;
    b.net_borrow_limit_per_window_quote = d.net_borrow_limit_per_window_quote;
    b.borrow_weight_scale_start_quote = d.borrow_weight_scale_start_quote;
    b.deposit_weight_scale_start_quote = d.deposit_weight_scale_start_quote;
    b.reduce_only = d.reduce_only;
    b.disable_asset_liquidation = d.disable_asset_liquidation as u8;
    b.token_conditional_swap_taker_fee_rate = d.token_conditional_swap_taker_fee_rate;
    b.token_conditional_swap_maker_fee_rate = d.token_conditional_swap_maker_fee_rate;
    b.flash_loan_swap_fee_rate = d.flash_loan_swap_fee_rate;
    b.interest_curve_scaling = d.interest_curve_scaling as f64;
    b.interest_target_utilization = d.interest_target_utilization;
    b.deposit_limit = d.deposit_limit;
    b.zero_util_rate = f3(d.zero_util_rate);
    b.platform_liquidation_fee = f3(d.platform_liquidation_fee);
    b.collateral_fee_per_day = d.collateral_fee_per_day;
    b.tier = fill(&d.tier);
    b
}
/// single changes of the parameters
fn variations() -> Vec<(&'static str, fn(&mut D))> {
    let mut v: Vec<(&'static str, fn(&mut D))> = vec![];
    macro_rules! o {
        ($($n:expr, $f:expr;)*) => { $( v.push(($n, $f)); )* };
    }
    o!(
        "as it is", |_| {};
        "index 0", |d| d.token_index = 0;
        "index in use", |d| d.token_index = 2;
        "highest index", |d| d.token_index = u16::MAX - 1;
        "reserved index", |d| d.token_index = u16::MAX;
        "empty name", |d| d.name = "".into();
        "long name", |d| d.name = "x".repeat(16);
        "too long name", |d| d.name = "x".repeat(17);
        "no staleness", |d| d.oracle_config.max_staleness_slots = None;
        "negative conf", |d| d.oracle_config.conf_filter = -0.5;
        "conf 0", |d| d.oracle_config.conf_filter = 0.0;
        "util0 negative", |d| d.interest_rate_params.util0 = -0.25;
        "util0 above util1", |d| d.interest_rate_params.util0 = 0.875;
        "util1 above one", |d| d.interest_rate_params.util1 = 1.25;
        "rate0 negative", |d| d.interest_rate_params.rate0 = -0.25;
        "rate1 negative", |d| d.interest_rate_params.rate1 = -0.25;
        "max rate negative", |d| d.interest_rate_params.max_rate = -0.25;
        "adjustment negative", |d| d.interest_rate_params.adjustment_factor = -0.25;
        "fee negative", |d| d.loan_fee_rate = -0.25;
        "origination negative", |d| d.loan_origination_fee_rate = -0.25;
        "weights equal", |d| d.init_asset_weight = 0.875;
        "init weight above", |d| d.init_asset_weight = 0.9375;
        "init weight negative", |d| d.init_asset_weight = -0.25;
        "liab weights equal", |d| d.maint_liab_weight = 1.25;
        "maint liab above", |d| d.maint_liab_weight = 1.5;
        "maint liab negative", |d| d.maint_liab_weight = -0.25;
        "liq fee negative", |d| d.liquidation_fee = -0.25;
        "platform fee negative", |d| d.platform_liquidation_fee = -0.25;
        "delay limit negative", |d| d.stable_price_delay_growth_limit = -0.25;
        "growth limit negative", |d| d.stable_price_growth_limit = -0.25;
        "ratio one", |d| d.min_vault_to_deposits_ratio = 1.0;
        "ratio above", |d| d.min_vault_to_deposits_ratio = 1.0625;
        "ratio negative", |d| d.min_vault_to_deposits_ratio = -0.25;
        "window 1", |d| d.net_borrow_limit_window_size_ts = 1;
        "no borrow limit", |d| d.net_borrow_limit_per_window_quote = -1;
        "borrow limit negative", |d| d.net_borrow_limit_per_window_quote = -2;
        "borrow scale 0", |d| d.borrow_weight_scale_start_quote = 0.0;
        "deposit scale 0", |d| d.deposit_weight_scale_start_quote = 0.0;
        "scales unlimited", |d| { d.borrow_weight_scale_start_quote = f64::MAX; d.deposit_weight_scale_start_quote = f64::MAX };
        "reduce only 1", |d| d.reduce_only = 1;
        "reduce only 2", |d| d.reduce_only = 2;
        "reduce only 3", |d| d.reduce_only = 3;
        "taker fee negative", |d| d.token_conditional_swap_taker_fee_rate = -0.25;
        "maker fee negative", |d| d.token_conditional_swap_maker_fee_rate = -0.25;
        "swap fee negative", |d| d.flash_loan_swap_fee_rate = -0.25;
        "curve 1", |d| d.interest_curve_scaling = 1.0;
        "curve below", |d| d.interest_curve_scaling = 0.9375;
        "target 1", |d| d.interest_target_utilization = 1.0;
        "target above", |d| d.interest_target_utilization = 1.0625;
        "target negative", |d| d.interest_target_utilization = -0.25;
        "no insurance", |d| d.group_insurance_fund = false;
        "zero util rate negative", |d| d.zero_util_rate = -0.25;
        "collateral fee negative", |d| d.collateral_fee_per_day = -0.25;
        "not liquidatable", |d| d.disable_asset_liquidation = true;
        "not liquidatable, deposits only", |d| { d.disable_asset_liquidation = true; d.reduce_only = 2 };
        "not liquidatable, no weight", |d| { d.disable_asset_liquidation = true; d.init_asset_weight = 0.0; d.maint_asset_weight = 0.0 };
        "not liquidatable, deposits only, no weight", |d| { d.disable_asset_liquidation = true; d.reduce_only = 2; d.init_asset_weight = 0.0; d.maint_asset_weight = 0.0 };
        "not liquidatable, reduce only, no weight", |d| { d.disable_asset_liquidation = true; d.reduce_only = 1; d.init_asset_weight = 0.0; d.maint_asset_weight = 0.0 };
        "tier too long", |d| d.tier = "ABCDE".into();
        "tier", |d| d.tier = "ABCD".into();
    );
    v
}
pub fn listing(rep: &Report) {
    let mut mx = Mx::new();
    mx.s.advance(1_600_000_000 + 12_345 - mx.s.ts);
    let mint = pk("acc fresh mint");
    let w = mx.fx[0].w.clone();
    put_pyth(&mut mx.s, &w);
    for dec in [0u8, 6, 9] {
        let mut s = mx.s.clone();
        put_mint(&mut s, mint, dec);
        tokens(rep, &mx, &s, mint, dec);
    }
    fast(rep, &mx);
    banks_added(rep, &mx);
    perps(rep, &mx);
    spots(rep, &mx);
}
fn tokens(rep: &Report, mx: &Mx, s: &State, mint: Pubkey, dec: u8) {
    let w = &mx.fx[0].w;
    let now = s.ts as u64;
    let vs = variations();
    // stub oracles give the price of the native units, whatever the decimals
    let none = Pubkey::default();
    let oracles = [(w.toks[1].oracle, Some(oracle_price(s, &w.toks[1].oracle))), (w.toks[1].vault, None), (pyth(), Some(pyth_price(dec)))];
    (0..vs.len()).into_par_iter().for_each(|i| {
        for j in i..vs.len() {
            for (oracle, price) in oracles {
                for fallback in [none, w.toks[2].oracle] {
                    if j > i && (fallback != none || price.is_none() || dec != 6) {
                        continue;
                    }
                    let mut d = base_token();
                    (vs[i].1)(&mut d);
                    (vs[j].1)(&mut d);
                    let key = format!("token registration: {} + {}", vs[i].0, vs[j].0);
                    let names_ok = d.name.len() <= 16 && d.tier.len() <= 4;
                    let free = d.token_index != 0 && d.token_index != 2 && d.token_index != u16::MAX;
                    let [bank, _, mi] = token_keys(w, d.token_index, &mint);
                    // a price that isn't certain enough doesn't start the model
                    let price = price.filter(|_| oracle != pyth() || d.oracle_config.conf_filter > 0.0);
                    let mut want_bank = None;
                    let mut ok = names_ok && free;
                    if ok {
                        let b = expected(w, &d, mint, dec, oracle, fallback, price, now);
                        ok = valid_bank(&b);
                        want_bank = Some(b);
                    }
                    let ins = d.group_insurance_fund;
                    let index = d.token_index;
                    let i = register(w, d, mint, oracle, fallback);
                    let (r, p) = tx(rep, s, &i);
                    if r.is_ok() != ok {
                        rep.violation(&format!("{key} {}", if ok { "refused" } else { "accepted" }), &format!("{r:?}"));
                        continue;
                    }
                    if !ok {
                        continue;
                    }
                    let mut b = want_bank.unwrap();
                    if oracle == pyth() {
                        rounded(&mut b.stable_price_model, &p.zc::<Bank>(&bank).stable_price_model);
                    }
                    same(rep, &key, &p, &bank, &b);
                    same(rep, &format!("{key}: mint info"), &p, &mi, &mint_info(w, index, mint, oracle, fallback, ins, now));
                    let [_, vault, _] = token_keys(w, index, &mint);
                    only(rep, &key, s, &p, &[bank, vault, mi]);
                    let v = p.data(&vault);
                    if v[..32] != mint.to_bytes() || v[32..64] != w.group.to_bytes() || p.token_amount(&vault) != 0 {
                        rep.violation(&format!("{key}: vault"), "");
                    }
                    // neither the index nor the mint can be used again
                    for (idx, m) in [(index, pk("acc b fresh mint")), (77, mint)] {
                        let mut d = base_token();
                        d.token_index = idx;
                        let (r, _) = tx(rep, &p, &register(w, d, m, oracle, none));
                        let (r2, _) = tx(rep, &p, &trustless(w, w.admin, idx, "x", m, oracle, none));
                        if r.is_ok() || r2.is_ok() {
                            rep.violation("index or mint registered twice", &key);
                        }
                    }
                }
            }
        }
    });
}
/// Listings without the admin's parameters: fixed ones, and only so many a week
fn fast(rep: &Report, mx: &Mx) {
    let w = &mx.fx[0].w;
    let fastk = admin_key(w, "fast");
    let week = 7 * 86400i64;
    let start = (mx.s.ts / week + 1) * week;
    let oracle = w.toks[1].oracle;
    let price = oracle_price(&mx.s, &oracle);
    let decs = [6u8, 9, 0, 8];
    // every history of four listings at these times after the start of a week
    let gaps = [0i64, 1, week - 1, week, week + 1];
    let starts = [start - 1, start, start + 5 * 86400];
    for allowed in 0..4u16 {
        for t0 in starts {
            let total = gaps.len().pow(3);
            (0..total).into_par_iter().for_each(|h| {
                let mut s = mx.s.clone();
                for n in 0..4 {
                    put_mint(&mut s, pk(&format!("fast mint {n}")), decs[n]);
                }
                s.edit_zc(&w.group, |g: &mut Group| g.allowed_fast_listings_per_interval = allowed);
                let (mut ws, mut cnt) = (0i64, 0u16);
                {
                    let g: Group = s.zc(&w.group);
                    ws = ws.max(g.fast_listing_interval_start as i64);
                    cnt += g.fast_listings_in_interval;
                }
                let mut x = h;
                let d = t0 - s.ts;
                s.advance(d);
                for n in 0..4u16 {
                    if n > 0 {
                        s.advance(gaps[x % gaps.len()]);
                        x /= gaps.len();
                    }
                    let now = s.ts;
                    let (ws1, cnt1) = if now >= ws + week { (now / week * week, 1) } else { (ws, cnt + 1) };
                    let ok = cnt1 <= allowed;
                    let m = pk(&format!("fast mint {n}"));
                    let by = if n % 2 == 0 { fastk } else { w.admin };
                    let dec = decs[n as usize];
                    let (oracle, price) = if n % 2 == 1 { (pyth(), pyth_price(dec)) } else { (oracle, price) };
                    let i = trustless(w, by, 20 + n, "fast", m, oracle, Pubkey::default());
                    let (r, p) = tx(rep, &s, &i);
                    if r.is_ok() != ok {
                        rep.violation(&format!("fast listing {}", if ok { "refused" } else { "beyond the allowed number" }), &format!("{allowed} allowed, {} before in the week, {r:?}", cnt1 - 1));
                        return;
                    }
                    if !ok {
                        continue;
                    }
                    s = p;
                    ws = ws1;
                    cnt = cnt1;
                    let nowu = now as u64;
                    let [bank, vault, mi] = token_keys(w, 20 + n, &m);
                    let mut b = empty_bank(w, 20 + n, m, dec, oracle, Pubkey::default(), nowu);
                    b.name = fill("fast");
                    b.oracle_config.conf_filter = fi(1000.0);
                    b.oracle_config.max_staleness_slots = -1;
                    b.stable_price_model = stable(Some(price), nowu);
                    b.adjustment_factor = fi(0.004);
                    b.util0 = fi(0.5);
                    b.rate0 = fi(0.018);
                    b.util1 = fi(0.75);
                    b.rate1 = fi(0.05);
                    b.max_rate = fi(0.5);
                    b.loan_origination_fee_rate = fi(0.002);
                    b.loan_fee_rate = fi(0.005);
                    b.maint_liab_weight = fi(1.4);
                    b.init_liab_weight = fi(1.8);
                    b.liquidation_fee = fi(0.05);
                    b.platform_liquidation_fee = fi(0.05);
                    b.min_vault_to_deposits_ratio = 0.2;
                    b.net_borrow_limit_window_size_ts = 86400;
                    b.last_net_borrows_window_start_ts = nowu / 86400 * 86400;
                    b.net_borrow_limit_per_window_quote = 5_000_000_000;
                    b.borrow_weight_scale_start_quote = 5e9;
                    b.deposit_weight_scale_start_quote = 5e9;
                    b.reduce_only = 2;
                    b.disable_asset_liquidation = 1;
                    b.interest_target_utilization = 0.5;
                    b.interest_curve_scaling = 4.0;
                    b.tier = fill("C");
                    if oracle == pyth() {
                        rounded(&mut b.stable_price_model, &s.zc::<Bank>(&bank).stable_price_model);
                    }
                    same(rep, "fast listing", &s, &bank, &b);
                    same(rep, "fast listing: mint info", &s, &mi, &mint_info(w, 20 + n, m, oracle, Pubkey::default(), false, nowu));
                    let v = s.data(&vault);
                    if v[..32] != m.to_bytes() || v[32..64] != w.group.to_bytes() {
                        rep.violation("fast listing: vault", "");
                    }
                }
            });
        }
    }
    // reserved indexes, also the insurance fund's
    let mut s = mx.s.clone();
    put_mint(&mut s, pk("fast mint 0"), 6);
    for (idx, ok) in [(0u16, false), (1, false), (u16::MAX, false), (u16::MAX - 1, true)] {
        let (r, _) = tx(rep, &s, &trustless(w, fastk, idx, "x", pk("fast mint 0"), oracle, Pubkey::default()));
        if r.is_ok() != ok {
            rep.violation(&format!("fast listing at index {idx}"), &format!("{r:?}"));
        }
    }
}
/// further banks start empty with the configuration of the first
fn banks_added(rep: &Report, mx: &Mx) {
    let w = &mx.fx[0].w;
    for v in 0..64u32 {
        let mut s = mx.s.clone();
        let x = |n: u32| v >> n & 1 == 1;
        s.edit_zc(&w.toks[2].bank, |b: &mut Bank| {
            if x(0) {
                b.collected_fees_native = fi(5.5);
                b.collected_liquidation_fees = fi(3.5);
                b.collected_collateral_fees = fi(2.5);
                b.fees_withdrawn = 77;
                b.dust = fi(0.5);
            }
            if x(1) {
                b.net_borrows_in_window = 500;
                b.potential_serum_tokens = 300;
                b.flash_loan_approved_amount = 5;
            }
            if x(2) {
                b.deposit_index = fi(1.5e6);
                b.borrow_index = fi(2.5e6);
                b.index_last_updated = 1234;
                b.bank_rate_last_updated = 2345;
                b.avg_utilization = fi(0.25);
            }
            if x(3) {
                b.reduce_only = 1;
                b.force_close = 1;
                b.maint_asset_weight = fi(0.0);
                b.init_asset_weight = fi(0.0);
                b.disable_asset_liquidation = 1;
                b.force_withdraw = 1;
                b.tier = *b"XYZ\0";
            }
            if x(4) {
                b.maint_weight_shift_start = 100;
                b.maint_weight_shift_end = 200;
                b.maint_weight_shift_duration_inv = fi(0.015625);
                b.maint_weight_shift_asset_target = fi(0.25);
                b.maint_weight_shift_liab_target = fi(1.75);
                b.last_net_borrows_window_start_ts = 4321;
                b.deposit_limit = 555;
                b.zero_util_rate = fi(0.125);
                b.collateral_fee_per_day = 0.375;
                b.interest_curve_scaling = 3.5;
                b.interest_target_utilization = 0.625;
                b.token_conditional_swap_taker_fee_rate = 0.5;
                b.token_conditional_swap_maker_fee_rate = 0.25;
                b.flash_loan_swap_fee_rate = 0.125;
            }
            if x(5) {
                b.fallback_oracle = pk("the fallback");
                b.stable_price_model.delay_prices[7] = 3.5;
            }
        });
        let (i, k, vault) = w.add_bank_ix(2, 1);
        let (r, p) = tx(rep, &s, &i);
        if r.is_err() {
            rep.violation("bank addition refused", &format!("{r:?}"));
            continue;
        }
        let mut b: Bank = s.zc(&w.toks[2].bank);
        b.vault = vault;
        b.bank_num = 1;
        b.bump = bump(w, &[b"Bank", &w.toks[2].index.to_le_bytes(), &1u32.to_le_bytes()]);
        b.indexed_deposits = fi(0.0);
        b.indexed_borrows = fi(0.0);
        b.collected_fees_native = fi(0.0);
        b.collected_liquidation_fees = fi(0.0);
        b.collected_collateral_fees = fi(0.0);
        b.fees_withdrawn = 0;
        b.dust = fi(0.0);
        b.flash_loan_approved_amount = 0;
        b.flash_loan_token_account_initial = u64::MAX;
        b.net_borrows_in_window = 0;
        b.potential_serum_tokens = 0;
        same(rep, "added bank", &p, &k, &b);
        let mut m: MintInfo = s.zc(&w.toks[2].mint_info);
        m.banks[1] = k;
        m.vaults[1] = vault;
        same(rep, "added bank: mint info", &p, &w.toks[2].mint_info, &m);
        only(rep, "added bank", &s, &p, &[k, vault, w.toks[2].mint_info]);
        // numbers follow each other
        for n in [0u32, 1, 2, 3, 6] {
            let (r, q) = tx(rep, &p, &w.add_bank_ix(2, n).0);
            if r.is_ok() != (n == 2) {
                rep.violation("bank number", &format!("{n} {r:?}"));
            }
            if n == 2 {
                let mut q = q;
                for n in 3..6 {
                    let (r, z) = tx(rep, &q, &w.add_bank_ix(2, n).0);
                    if r.is_err() {
                        rep.violation("bank addition refused", &format!("{n} {r:?}"));
                    }
                    q = z;
                }
                if banks(&mx.fx[0], &q, 2).len() != 6 || tx(rep, &q, &w.add_bank_ix(2, 6).0).0.is_ok() {
                    rep.violation("number of banks", "");
                }
            }
        }
    }
}
type PD = mango_v4::instruction::PerpCreateMarket;
fn perps(rep: &Report, mx: &Mx) {
    let w = &mx.fx[0].w;
    let s = &mx.s;
    let now = s.ts as u64;
    let vs: Vec<(&str, fn(&mut PD))> = vec![
        ("as it is", |_| {}),
        ("index in use", |d| d.perp_market_index = 1),
        ("index max", |d| d.perp_market_index = u16::MAX),
        ("settle token", |d| d.settle_token_index = 2),
        ("no staleness", |d| d.oracle_config.max_staleness_slots = None),
        ("no insurance", |d| d.group_insurance_fund = false),
        ("long name", |d| d.name = "y".repeat(16)),
        ("too long name", |d| d.name = "y".repeat(17)),
        ("rebate", |d| d.maker_fee = -0.0009765625),
    ];
    for (vn, v) in &vs {
        for decimals in [6u8, 4, 9] {
            for (oracle, price) in [(w.toks[1].oracle, Some(oracle_price(s, &w.toks[1].oracle))), (w.toks[1].vault, None), (pyth(), Some(pyth_price(decimals)))] {
                let mut d = PD {
                    perp_market_index: 5, name: "perp".into(), oracle_config: OracleConfigParams { conf_filter: 0.109375, max_staleness_slots: Some(321) }, base_decimals: decimals, quote_lot_size: 13, base_lot_size: 117,
                    maint_base_asset_weight: 0.90625, init_base_asset_weight: 0.8125, maint_base_liab_weight: 1.0625, init_base_liab_weight: 1.1875, maint_overall_asset_weight: 0.75, init_overall_asset_weight: 0.6875, base_liquidation_fee: 0.0234375,
                    maker_fee: 0.001953125, taker_fee: 0.00390625, min_funding: -0.046875, max_funding: 0.09375, impact_quantity: 1234, group_insurance_fund: true, fee_penalty: 4.5, settle_fee_flat: 5.5, settle_fee_amount_threshold: 6.5,
                    settle_fee_fraction_low_health: 0.28125, settle_token_index: 1, settle_pnl_limit_factor: 0.34375, settle_pnl_limit_window_size_ts: 987, positive_pnl_liquidation_fee: 0.4375, platform_liquidation_fee: 0.0546875,
                };
                v(&mut d);
                let key = format!("perp market creation: {vn}");
                let k = |t: &str| pk(&format!("acc {t}"));
                let idx = d.perp_market_index;
                let market = w.pda(b"PerpMarket", &[&idx.to_le_bytes()]);
                let mut m = PerpMarket::zeroed();
                m.group = w.group;
                m.settle_token_index = d.settle_token_index;
                m.perp_market_index = idx;
                m.group_insurance_fund = d.group_insurance_fund as u8;
                m.bump = bump(w, &[b"PerpMarket", &idx.to_le_bytes()]);
                m.base_decimals = d.base_decimals;
                let ok = d.name.len() <= 16 && idx != 1;
                if d.name.len() <= 16 {
                    m.name = fill(&d.name);
                }
                (m.bids, m.asks, m.event_queue, m.oracle) = (k("nbids"), k("nasks"), k("neq"), oracle);
                m.oracle_config.conf_filter = f3(d.oracle_config.conf_filter);
                m.oracle_config.max_staleness_slots = d.oracle_config.max_staleness_slots.map_or(-1, |x| x as i64);
                m.stable_price_model = stable(price, now);
                m.quote_lot_size = d.quote_lot_size;
                m.base_lot_size = d.base_lot_size;
                m.maint_base_asset_weight = f3(d.maint_base_asset_weight);
                m.init_base_asset_weight = f3(d.init_base_asset_weight);
                m.maint_base_liab_weight = f3(d.maint_base_liab_weight);
                m.init_base_liab_weight = f3(d.init_base_liab_weight);
                m.maint_overall_asset_weight = f3(d.maint_overall_asset_weight);
                m.init_overall_asset_weight = f3(d.init_overall_asset_weight);
                m.registration_time = now;
                m.funding_last_updated = now;
                m.min_funding = f3(d.min_funding);
                m.max_funding = f3(d.max_funding);
                m.impact_quantity = d.impact_quantity;
                m.base_liquidation_fee = f3(d.base_liquidation_fee);
                m.maker_fee = f3(d.maker_fee);
                m.taker_fee = f3(d.taker_fee);
                m.fee_penalty = d.fee_penalty;
                m.settle_fee_flat = d.settle_fee_flat;
                m.settle_fee_amount_threshold = d.settle_fee_amount_threshold;
                m.settle_fee_fraction_low_health = d.settle_fee_fraction_low_health;
                m.settle_pnl_limit_factor = d.settle_pnl_limit_factor;
                m.settle_pnl_limit_window_size_ts = d.settle_pnl_limit_window_size_ts;
                m.positive_pnl_liquidation_fee = f3(d.positive_pnl_liquidation_fee);
                m.platform_liquidation_fee = f3(d.platform_liquidation_fee);
                let mut st = s.clone();
                for (t, n) in [("nbids", std::mem::size_of::<BookSide>()), ("nasks", std::mem::size_of::<BookSide>()), ("neq", std::mem::size_of::<EventQueue>())] {
                    st.set(k(t), Acct::new(RICH, mango_v4::ID, vec![0; 8 + n]));
                }
                let i = ix(
                    mango_v4::accounts::PerpCreateMarket { group: w.group, admin: w.admin, oracle, perp_market: market, bids: k("nbids"), asks: k("nasks"), event_queue: k("neq"), payer: w.payer, system_program: system_program::ID },
                    d,
                );
                let (r, p) = tx(rep, &st, &i);
                if r.is_ok() != ok {
                    rep.violation(&format!("{key} {}", if ok { "refused" } else { "accepted" }), &format!("{r:?}"));
                    continue;
                }
                if !ok {
                    continue;
                }
                if oracle == pyth() {
                    rounded(&mut m.stable_price_model, &p.zc::<PerpMarket>(&market).stable_price_model);
                }
                same(rep, &key, &p, &market, &m);
                only(rep, &key, &st, &p, &[market, k("nbids"), k("nasks"), k("neq")]);
                // books and queue can't be shared
                for n in 3..6 {
                    let mut j = fresh_perp(w, 6);
                    j.accounts[4].pubkey = k("obids");
                    j.accounts[5].pubkey = k("oasks");
                    j.accounts[6].pubkey = k("oeq");
                    let mut q = p.clone();
                    for (t, n) in [("obids", std::mem::size_of::<BookSide>()), ("oasks", std::mem::size_of::<BookSide>()), ("oeq", std::mem::size_of::<EventQueue>())] {
                        q.set(k(t), Acct::new(RICH, mango_v4::ID, vec![0; 8 + n]));
                    }
                    let good = tx(rep, &q, &j).0;
                    j.accounts[n + 1].pubkey = [k("nbids"), k("nasks"), k("neq")][n - 3];
                    let bad = tx(rep, &q, &j).0;
                    if good.is_err() || bad.is_ok() {
                        rep.violation("books or queue shared by two markets", &format!("{good:?} {bad:?}"));
                    }
                }
            }
        }
    }
}
fn fresh_perp(w: &World, index: u16) -> Instruction {
    let k = |t: &str| pk(&format!("acc {t}"));
    ix(
        mango_v4::accounts::PerpCreateMarket {
            group: w.group, admin: w.admin, oracle: w.toks[1].oracle, perp_market: w.pda(b"PerpMarket", &[&index.to_le_bytes()]), bids: k("nbids"), asks: k("nasks"), event_queue: k("neq"), payer: w.payer, system_program: system_program::ID,
        },
        PD {
            perp_market_index: index, name: "p".into(), oracle_config: OracleConfigParams { conf_filter: 0.1, max_staleness_slots: None }, base_decimals: 6, quote_lot_size: 10, base_lot_size: 100,
            maint_base_asset_weight: 0.9, init_base_asset_weight: 0.8, maint_base_liab_weight: 1.1, init_base_liab_weight: 1.2, maint_overall_asset_weight: 1.0, init_overall_asset_weight: 1.0, base_liquidation_fee: 0.01,
            maker_fee: 0.0, taker_fee: 0.0, min_funding: -0.1, max_funding: 0.1, impact_quantity: 100, group_insurance_fund: true, fee_penalty: 0.0, settle_fee_flat: 0.0, settle_fee_amount_threshold: 0.0,
            settle_fee_fraction_low_health: 0.0, settle_token_index: 0, settle_pnl_limit_factor: 0.1, settle_pnl_limit_window_size_ts: 100, positive_pnl_liquidation_fee: 0.0, platform_liquidation_fee: 0.0,
        },
    )
}
/// spot markets: matching mints, and fixed price bands for fast listings
fn spots(rep: &Report, mx: &Mx) {
    let fx = &mx.fx[0];
    let w = &fx.w;
    let now = mx.s.ts as u64;
    for v in 0..128u32 {
        let x = |n: u32| v >> n & 1 == 1;
        let mut s = mx.s.clone();
        s.edit_zc(&w.toks[1].bank, |b: &mut Bank| {
            b.reduce_only = (v & 3) as u8 % 3;
            if x(6) {
                b.init_asset_weight = fi(0.0);
            }
            if x(2) {
                b.maint_asset_weight = fi(0.0);
                b.init_asset_weight = fi(0.0);
            }
        });
        s.edit_zc(&w.toks[0].bank, |b: &mut Bank| {
            b.deposit_weight_scale_start_quote = if x(3) { f64::MAX } else { 1e12 };
            b.deposit_limit = x(4) as u64 * 1000;
        });
        let c_tier = s.zc::<Bank>(&w.toks[1].bank).reduce_only > 0 && x(2);
        let unlimited = x(3) && !x(4);
        for by in [w.admin, admin_key(w, "fast")] {
            for band in [0.0f32, 0.5, 1.0, 1.5, 18.0, 19.0, 19.5, 20.0] {
                for name in ["spot", "0123456789abcdef", "0123456789abcdefg"] {
                    let index = 7u16;
                    let ext = pk("acc ext copy 0");
                    let (market, res) = (w.pda(b"Serum3Market", &[ext.as_ref()]), w.pda(b"Serum3Index", &[&index.to_le_bytes()]));
                    let ok = name.len() <= 16 && (by == w.admin || band == if c_tier && unlimited { 19.0 } else { 1.0 });
                    let i = ix(
                        mango_v4::accounts::Serum3RegisterMarket { group: w.group, admin: by, serum_program: dex_program(), serum_market_external: ext, serum_market: market, index_reservation: res, quote_bank: w.toks[0].bank, base_bank: w.toks[1].bank, payer: w.payer, system_program: system_program::ID },
                        mango_v4::instruction::Serum3RegisterMarket { market_index: index, name: name.into(), oracle_price_band: band },
                    );
                    let (r, p) = tx(rep, &s, &i);
                    let key = format!("spot market registration by the {}", if by == w.admin { "admin" } else { "fast listing admin" });
                    if r.is_ok() != ok {
                        rep.violation(&format!("{key} {}", if ok { "refused" } else { "accepted" }), &format!("band {band}, C tier base {c_tier}, quote without limits {unlimited}: {r:?}"));
                        continue;
                    }
                    if !ok {
                        continue;
                    }
                    let mut m = Serum3Market::zeroed();
                    m.group = w.group;
                    m.base_token_index = w.toks[1].index;
                    m.quote_token_index = w.toks[0].index;
                    m.name = fill(name);
                    m.serum_program = dex_program();
                    m.serum_market_external = ext;
                    m.market_index = index;
                    m.bump = bump(w, &[b"Serum3Market", ext.as_ref()]);
                    m.oracle_price_band = band;
                    m.registration_time = now;
                    same(rep, &key, &p, &market, &m);
                    only(rep, &key, &s, &p, &[market, res]);
                    // the index and the external market are taken
                    for (idx, e) in [(index, pk("acc ext copy 1")), (8, ext)] {
                        let mut j = i.clone();
                        let q = if e == ext { (0, 1) } else { (0, 2) };
                        j.accounts[3].pubkey = e;
                        j.accounts[4].pubkey = w.pda(b"Serum3Market", &[e.as_ref()]);
                        j.accounts[5].pubkey = w.pda(b"Serum3Index", &[&u16::to_le_bytes(idx)]);
                        j.accounts[6].pubkey = w.toks[q.0].bank;
                        j.accounts[7].pubkey = w.toks[q.1].bank;
                        use anchor_lang::InstructionData;
                        j.data = mango_v4::instruction::Serum3RegisterMarket { market_index: idx, name: "again".into(), oracle_price_band: 1.0 }.data();
                        if tx(rep, &p, &j).0.is_ok() {
                            rep.violation("spot market index or external market registered twice", "");
                        }
                    }
                }
            }
        }
    }
}
