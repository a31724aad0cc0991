//! Configuration by the admins: every option of the token, perp and spot market edits, what it sets
//! and who may use it.
use crate::explore::Report;
use crate::p_access::*;
use crate::refm::*;
use crate::scen::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use fixed::types::I80F48;
use mango_v4::accounts_ix::*;
use mango_v4::instruction::{PerpEditMarket, Serum3EditMarket, TokenEdit};
use mango_v4::state::*;
use rayon::prelude::*;
use solana_program::instruction::Instruction;

/// may the security admin do this on its own, given the configuration before
pub type Sec<T> = fn(&T) -> bool;
pub struct Opt<D, T> {
    pub name: &'static str,
    pub set: fn(&mut D),
    pub eff: fn(&mut T),
    pub sec: Sec<T>,
}
fn fi(x: f64) -> I80F48 {
    I80F48::from_num(x)
}
fn f32i(x: f32) -> I80F48 {
    I80F48::from_num(x)
}
fn name16(s: &str) -> [u8; 16] {
    let mut v = [0; 16];
    v[..s.len()].copy_from_slice(s.as_bytes());
    v
}
fn no<T>(_: &T) -> bool {
    false
}
fn yes<T>(_: &T) -> bool {
    true
}
fn shift(b: &mut Bank) {
    b.maint_weight_shift_duration_inv = if b.maint_weight_shift_end > b.maint_weight_shift_start { I80F48::ONE / I80F48::from_num(b.maint_weight_shift_end - b.maint_weight_shift_start) } else { I80F48::ZERO };
}
pub const NOW: i64 = 1_600_100_000;

pub fn token_opts() -> Vec<Opt<TokenEdit, Bank>> {
    let mut v: Vec<Opt<TokenEdit, Bank>> = vec![];
    macro_rules! o {
        ($name:expr, $sec:expr, |$d:ident| $set:expr, |$b:ident| $eff:expr) => {
            v.push(Opt { name: $name, set: |$d: &mut TokenEdit| $set, eff: |$b: &mut Bank| $eff, sec: $sec })
        };
    }
    o!("nothing", yes, |_d| {}, |_b| {});
    o!("oracle", no, |d| d.oracle_opt = Some(new_oracle()), |b| b.oracle = new_oracle());
    o!("oracle config", no, |d| d.oracle_config_opt = Some(OracleConfigParams { conf_filter: 0.25, max_staleness_slots: Some(77) }), |b| {
        b.oracle_config.conf_filter = fi(0.25);
        b.oracle_config.max_staleness_slots = 77;
    });
    o!("oracle config without staleness", no, |d| d.oracle_config_opt = Some(OracleConfigParams { conf_filter: 0.5, max_staleness_slots: None }), |b| {
        b.oracle_config.conf_filter = fi(0.5);
        b.oracle_config.max_staleness_slots = -1;
    });
    o!("negative confidence", no, |d| d.oracle_config_opt = Some(OracleConfigParams { conf_filter: -0.5, max_staleness_slots: None }), |_b| {});
    o!("insurance on", no, |d| d.group_insurance_fund_opt = Some(true), |_b| {});
    o!("insurance off", no, |d| d.group_insurance_fund_opt = Some(false), |_b| {});
    o!("rates", no, |d| d.interest_rate_params_opt = Some(InterestRateParams { util0: 0.375, rate0: 0.0625, util1: 0.75, rate1: 0.5, max_rate: 2.0, adjustment_factor: 0.03125 }), |b| {
        b.util0 = fi(0.375);
        b.rate0 = fi(0.0625);
        b.util1 = fi(0.75);
        b.rate1 = fi(0.5);
        b.max_rate = fi(2.0);
        b.adjustment_factor = fi(0.03125);
    });
    o!("disordered rates", no, |d| d.interest_rate_params_opt = Some(InterestRateParams { util0: 0.75, rate0: 0.0625, util1: 0.375, rate1: 0.5, max_rate: 2.0, adjustment_factor: 0.03125 }), |_b| {});
    o!("loan fee", no, |d| d.loan_fee_rate_opt = Some(0.25), |b| b.loan_fee_rate = fi(0.25));
    o!("origination fee", no, |d| d.loan_origination_fee_rate_opt = Some(0.125), |b| b.loan_origination_fee_rate = fi(0.125));
    o!("negative origination fee", no, |d| d.loan_origination_fee_rate_opt = Some(-0.125), |_b| {});
    o!("maintenance asset weight", no, |d| d.maint_asset_weight_opt = Some(0.96875), |b| b.maint_asset_weight = fi(0.96875));
    o!("maintenance asset weight 0", no, |d| d.maint_asset_weight_opt = Some(0.0), |b| b.maint_asset_weight = fi(0.0));
    o!("initial asset weight", no, |d| d.init_asset_weight_opt = Some(0.25), |b| b.init_asset_weight = fi(0.25));
    o!("initial asset weight up", no, |d| d.init_asset_weight_opt = Some(0.890625), |b| b.init_asset_weight = fi(0.890625));
    o!("initial asset weight 0", yes, |d| d.init_asset_weight_opt = Some(0.0), |b| b.init_asset_weight = fi(0.0));
    o!("negative initial asset weight", no, |d| d.init_asset_weight_opt = Some(-0.25), |_b| {});
    o!("excessive initial asset weight", no, |d| d.init_asset_weight_opt = Some(0.9375), |b| b.init_asset_weight = fi(0.9375));
    o!("maintenance liability weight", no, |d| d.maint_liab_weight_opt = Some(1.0625), |b| b.maint_liab_weight = fi(1.0625));
    o!("excessive maintenance liability weight", no, |d| d.maint_liab_weight_opt = Some(1.5), |b| b.maint_liab_weight = fi(1.5));
    o!("initial liability weight", no, |d| d.init_liab_weight_opt = Some(1.75), |b| b.init_liab_weight = fi(1.75));
    o!("liquidation fee", no, |d| d.liquidation_fee_opt = Some(0.0625), |b| b.liquidation_fee = fi(0.0625));
    o!("stable price interval", no, |d| d.stable_price_delay_interval_seconds_opt = Some(1234), |b| b.stable_price_model.delay_interval_seconds = 1234);
    o!("stable price delay limit", no, |d| d.stable_price_delay_growth_limit_opt = Some(0.375), |b| b.stable_price_model.delay_growth_limit = 0.375);
    o!("stable price limit", no, |d| d.stable_price_growth_limit_opt = Some(0.0625), |b| b.stable_price_model.stable_growth_limit = 0.0625);
    o!("vault ratio", no, |d| d.min_vault_to_deposits_ratio_opt = Some(0.375), |b| b.min_vault_to_deposits_ratio = 0.375);
    o!("excessive vault ratio", no, |d| d.min_vault_to_deposits_ratio_opt = Some(1.375), |_b| {});
    o!("borrow limit", no, |d| d.net_borrow_limit_per_window_quote_opt = Some(98765), |b| b.net_borrow_limit_per_window_quote = 98765);
    o!("no borrow limit", no, |d| d.net_borrow_limit_per_window_quote_opt = Some(-1), |b| b.net_borrow_limit_per_window_quote = -1);
    o!("borrow window", no, |d| d.net_borrow_limit_window_size_ts_opt = Some(4321), |b| b.net_borrow_limit_window_size_ts = 4321);
    o!("borrow window reset", no, |d| d.reset_net_borrow_limit = true, |b| {
        b.net_borrows_in_window = 0;
        b.last_net_borrows_window_start_ts = 0;
    });
    o!("borrow scale", no, |d| d.borrow_weight_scale_start_quote_opt = Some(5e6), |b| b.borrow_weight_scale_start_quote = 5e6);
    o!("deposit scale", no, |d| d.deposit_weight_scale_start_quote_opt = Some(7e6), |b| b.deposit_weight_scale_start_quote = 7e6);
    o!("deposit scale 0", no, |d| d.deposit_weight_scale_start_quote_opt = Some(0.0), |_b| {});
    o!("stable price reset", no, |d| d.reset_stable_price = true, |b| {
        b.stable_price_model.stable_price = 2.0;
        b.stable_price_model.delay_prices = [2.0; 24];
        b.stable_price_model.delay_accumulator_price = 0.0;
        b.stable_price_model.delay_accumulator_time = 0;
        b.stable_price_model.last_update_timestamp = NOW as u64;
    });
    o!("reduce only 0", no, |d| d.reduce_only_opt = Some(0), |b| b.reduce_only = 0);
    o!("reduce only 1", yes, |d| d.reduce_only_opt = Some(1), |b| b.reduce_only = 1);
    o!("reduce only 2", |b| b.reduce_only != 1, |d| d.reduce_only_opt = Some(2), |b| b.reduce_only = 2);
    o!("reduce only 3", no, |d| d.reduce_only_opt = Some(3), |b| b.reduce_only = 3);
    o!("name", no, |d| d.name_opt = Some("new name".into()), |b| b.name = name16("new name"));
    o!("tier", no, |d| d.tier_opt = Some("A+".into()), |b| {
        b.tier = [0; 4];
        b.tier[..2].copy_from_slice(b"A+");
    });
    o!("force close", no, |d| d.force_close_opt = Some(true), |b| b.force_close = 1);
    o!("no force close", no, |d| d.force_close_opt = Some(false), |b| b.force_close = 0);
    o!("swap taker fee", no, |d| d.token_conditional_swap_taker_fee_rate_opt = Some(0.125), |b| b.token_conditional_swap_taker_fee_rate = 0.125);
    o!("swap maker fee", no, |d| d.token_conditional_swap_maker_fee_rate_opt = Some(0.25), |b| b.token_conditional_swap_maker_fee_rate = 0.25);
    o!("negative swap maker fee", no, |d| d.token_conditional_swap_maker_fee_rate_opt = Some(-0.25), |_b| {});
    o!("flash loan swap fee", no, |d| d.flash_loan_swap_fee_rate_opt = Some(0.375), |b| b.flash_loan_swap_fee_rate = 0.375);
    o!("curve scaling", no, |d| d.interest_curve_scaling_opt = Some(3.5), |b| b.interest_curve_scaling = 3.5);
    o!("curve scaling below one", no, |d| d.interest_curve_scaling_opt = Some(0.5), |_b| {});
    o!("target utilization", no, |d| d.interest_target_utilization_opt = Some(0.625), |b| b.interest_target_utilization = 0.625);
    o!("excessive target utilization", no, |d| d.interest_target_utilization_opt = Some(1.625), |_b| {});
    // the weights of this moment stay in force (a quarter of the way)
    o!("shift abort", yes, |d| d.maint_weight_shift_abort = true, |b| {
        if b.maint_weight_shift_duration_inv > 0 {
            b.maint_asset_weight = b.maint_asset_weight * fi(0.75) + b.maint_weight_shift_asset_target * fi(0.25);
            b.maint_liab_weight = b.maint_liab_weight * fi(0.75) + b.maint_weight_shift_liab_target * fi(0.25);
        }
        b.maint_weight_shift_start = 0;
        b.maint_weight_shift_end = 0;
        b.maint_weight_shift_duration_inv = fi(0.0);
        b.maint_weight_shift_asset_target = fi(0.0);
        b.maint_weight_shift_liab_target = fi(0.0);
    });
    o!("shift start", no, |d| d.maint_weight_shift_start_opt = Some(NOW as u64 - 16), |b| {
        b.maint_weight_shift_start = NOW as u64 - 16;
        shift(b)
    });
    o!("shift start after its end", no, |d| d.maint_weight_shift_start_opt = Some(u64::MAX / 2), |b| {
        b.maint_weight_shift_start = u64::MAX / 2;
        shift(b)
    });
    o!("shift end", no, |d| d.maint_weight_shift_end_opt = Some(NOW as u64 + 1000), |b| {
        b.maint_weight_shift_end = NOW as u64 + 1000;
        shift(b)
    });
    o!("shift of one second", no, |d| {
        d.maint_weight_shift_start_opt = Some(NOW as u64 + 5);
        d.maint_weight_shift_end_opt = Some(NOW as u64 + 6);
    }, |b| {
        b.maint_weight_shift_start = NOW as u64 + 5;
        b.maint_weight_shift_end = NOW as u64 + 6;
        shift(b)
    });
    o!("shift asset target", no, |d| d.maint_weight_shift_asset_target_opt = Some(0.375), |b| b.maint_weight_shift_asset_target = fi(0.375));
    o!("shift liability target", no, |d| d.maint_weight_shift_liab_target_opt = Some(1.375), |b| b.maint_weight_shift_liab_target = fi(1.375));
    o!("fallback oracle", no, |d| d.set_fallback_oracle = true, |b| b.fallback_oracle = fallback());
    o!("deposit limit", no, |d| d.deposit_limit_opt = Some(123456), |b| b.deposit_limit = 123456);
    o!("zero utilization rate", no, |d| d.zero_util_rate_opt = Some(0.015625), |b| b.zero_util_rate = fi(0.015625));
    o!("platform liquidation fee", no, |d| d.platform_liquidation_fee_opt = Some(0.03125), |b| b.platform_liquidation_fee = fi(0.03125));
    o!("platform liquidation fee 0", yes, |d| d.platform_liquidation_fee_opt = Some(0.0), |b| b.platform_liquidation_fee = fi(0.0));
    o!("collateral fee", no, |d| d.collateral_fee_per_day_opt = Some(0.0625), |b| b.collateral_fee_per_day = 0.0625);
    o!("collateral fee 0", yes, |d| d.collateral_fee_per_day_opt = Some(0.0), |b| b.collateral_fee_per_day = 0.0);
    o!("no asset liquidation", no, |d| d.disable_asset_liquidation_opt = Some(true), |b| b.disable_asset_liquidation = 1);
    o!("asset liquidation", no, |d| d.disable_asset_liquidation_opt = Some(false), |b| b.disable_asset_liquidation = 0);
    o!("force withdraw", no, |d| d.force_withdraw_opt = Some(true), |b| b.force_withdraw = 1);
    o!("no force withdraw", no, |d| d.force_withdraw_opt = Some(false), |b| b.force_withdraw = 0);
    v
}
pub fn perp_opts() -> Vec<Opt<PerpEditMarket, PerpMarket>> {
    let mut v: Vec<Opt<PerpEditMarket, PerpMarket>> = vec![];
    macro_rules! o {
        ($name:expr, $sec:expr, |$d:ident| $set:expr, |$b:ident| $eff:expr) => {
            v.push(Opt { name: $name, set: |$d: &mut PerpEditMarket| $set, eff: |$b: &mut PerpMarket| $eff, sec: $sec })
        };
    }
    o!("nothing", yes, |_d| {}, |_b| {});
    o!("oracle", no, |d| d.oracle_opt = Some(new_oracle()), |b| b.oracle = new_oracle());
    o!("oracle config", no, |d| d.oracle_config_opt = Some(OracleConfigParams { conf_filter: 0.25, max_staleness_slots: Some(77) }), |b| {
        b.oracle_config.conf_filter = fi(0.25);
        b.oracle_config.max_staleness_slots = 77;
    });
    o!("base decimals", no, |d| d.base_decimals_opt = Some(7), |b| b.base_decimals = 7);
    o!("maintenance base asset weight", no, |d| d.maint_base_asset_weight_opt = Some(0.96875), |b| b.maint_base_asset_weight = fi(0.96875));
    o!("initial base asset weight", no, |d| d.init_base_asset_weight_opt = Some(0.25), |b| b.init_base_asset_weight = fi(0.25));
    o!("initial base asset weight 0", no, |d| d.init_base_asset_weight_opt = Some(0.0), |b| b.init_base_asset_weight = fi(0.0));
    o!("negative initial base asset weight", no, |d| d.init_base_asset_weight_opt = Some(-0.25), |_b| {});
    o!("maintenance base liability weight", no, |d| d.maint_base_liab_weight_opt = Some(1.0625), |b| b.maint_base_liab_weight = fi(1.0625));
    o!("initial base liability weight", no, |d| d.init_base_liab_weight_opt = Some(1.75), |b| b.init_base_liab_weight = fi(1.75));
    o!("maintenance overall weight", no, |d| d.maint_overall_asset_weight_opt = Some(0.5), |b| b.maint_overall_asset_weight = fi(0.5));
    o!("initial overall weight", no, |d| d.init_overall_asset_weight_opt = Some(0.375), |b| b.init_overall_asset_weight = fi(0.375));
    o!("initial overall weight 0", yes, |d| d.init_overall_asset_weight_opt = Some(0.0), |b| b.init_overall_asset_weight = fi(0.0));
    o!("liquidation fee", no, |d| d.base_liquidation_fee_opt = Some(0.0625), |b| b.base_liquidation_fee = fi(0.0625));
    o!("maker fee", no, |d| d.maker_fee_opt = Some(-0.0078125), |b| b.maker_fee = fi(-0.0078125));
    o!("taker fee", no, |d| d.taker_fee_opt = Some(0.015625), |b| b.taker_fee = fi(0.015625));
    o!("funding floor", no, |d| d.min_funding_opt = Some(-0.5), |b| b.min_funding = fi(-0.5));
    o!("funding ceiling", no, |d| d.max_funding_opt = Some(0.5), |b| b.max_funding = fi(0.5));
    o!("impact quantity", no, |d| d.impact_quantity_opt = Some(4321), |b| b.impact_quantity = 4321);
    o!("insurance on", no, |d| d.group_insurance_fund_opt = Some(true), |b| b.group_insurance_fund = 1);
    o!("insurance off", no, |d| d.group_insurance_fund_opt = Some(false), |b| b.group_insurance_fund = 0);
    o!("fee penalty", no, |d| d.fee_penalty_opt = Some(33.5), |b| b.fee_penalty = 33.5);
    o!("settle fee", no, |d| d.settle_fee_flat_opt = Some(11.5), |b| b.settle_fee_flat = 11.5);
    o!("settle fee threshold", no, |d| d.settle_fee_amount_threshold_opt = Some(22.5), |b| b.settle_fee_amount_threshold = 22.5);
    o!("settle fee fraction", no, |d| d.settle_fee_fraction_low_health_opt = Some(0.5), |b| b.settle_fee_fraction_low_health = 0.5);
    o!("stable price interval", no, |d| d.stable_price_delay_interval_seconds_opt = Some(1234), |b| b.stable_price_model.delay_interval_seconds = 1234);
    o!("stable price delay limit", no, |d| d.stable_price_delay_growth_limit_opt = Some(0.375), |b| b.stable_price_model.delay_growth_limit = 0.375);
    o!("stable price limit", no, |d| d.stable_price_growth_limit_opt = Some(0.0625), |b| b.stable_price_model.stable_growth_limit = 0.0625);
    o!("settle limit factor", no, |d| d.settle_pnl_limit_factor_opt = Some(0.625), |b| b.settle_pnl_limit_factor = 0.625);
    o!("settle limit window", no, |d| d.settle_pnl_limit_window_size_ts_opt = Some(7777), |b| b.settle_pnl_limit_window_size_ts = 7777);
    o!("reduce only", yes, |d| d.reduce_only_opt = Some(true), |b| b.reduce_only = 1);
    o!("not reduce only", no, |d| d.reduce_only_opt = Some(false), |b| b.reduce_only = 0);
    o!("stable price reset", no, |d| d.reset_stable_price = true, |b| {
        b.stable_price_model.stable_price = 1.0;
        b.stable_price_model.delay_prices = [1.0; 24];
        b.stable_price_model.delay_accumulator_price = 0.0;
        b.stable_price_model.delay_accumulator_time = 0;
        b.stable_price_model.last_update_timestamp = NOW as u64;
    });
    o!("positive pnl liquidation fee", no, |d| d.positive_pnl_liquidation_fee_opt = Some(0.03125), |b| b.positive_pnl_liquidation_fee = fi(0.03125));
    o!("name", no, |d| d.name_opt = Some("new name".into()), |b| b.name = name16("new name"));
    o!("force close", no, |d| d.force_close_opt = Some(true), |b| b.force_close = 1);
    o!("no force close", no, |d| d.force_close_opt = Some(false), |b| b.force_close = 0);
    o!("platform liquidation fee", no, |d| d.platform_liquidation_fee_opt = Some(0.0625), |b| b.platform_liquidation_fee = f32i(0.0625));
    o!("platform liquidation fee 0", no, |d| d.platform_liquidation_fee_opt = Some(0.0), |b| b.platform_liquidation_fee = f32i(0.0));
    v
}
pub fn serum_opts() -> Vec<Opt<Serum3EditMarket, Serum3Market>> {
    let mut v: Vec<Opt<Serum3EditMarket, Serum3Market>> = vec![];
    macro_rules! o {
        ($name:expr, $sec:expr, |$d:ident| $set:expr, |$b:ident| $eff:expr) => {
            v.push(Opt { name: $name, set: |$d: &mut Serum3EditMarket| $set, eff: |$b: &mut Serum3Market| $eff, sec: $sec })
        };
    }
    o!("nothing", yes, |_d| {}, |_b| {});
    o!("reduce only", yes, |d| d.reduce_only_opt = Some(true), |b| b.reduce_only = 1);
    o!("not reduce only", no, |d| d.reduce_only_opt = Some(false), |b| b.reduce_only = 0);
    o!("force close", no, |d| d.force_close_opt = Some(true), |b| b.force_close = 1);
    o!("no force close", no, |d| d.force_close_opt = Some(false), |b| b.force_close = 0);
    o!("name", no, |d| d.name_opt = Some("new name".into()), |b| b.name = name16("new name"));
    o!("price band", no, |d| d.oracle_price_band_opt = Some(3.5), |b| b.oracle_price_band = 3.5);
    v
}
fn new_oracle() -> Pubkey {
    pk("config new oracle")
}
fn fallback() -> Pubkey {
    pk("config fallback oracle")
}

/// a token edit of token 1 (two banks) with an existing fallback oracle passed in
pub fn token_edit_ix(fx: &Fix, s: &State, d: TokenEdit) -> Instruction {
    let mut i = fx.w.token_edit(s, 1, d);
    i.accounts[4].pubkey = fallback();
    i
}
pub fn serum_edit_ix(fx: &Fix, d: Serum3EditMarket) -> Instruction {
    ix(mango_v4::accounts::Serum3EditMarket { group: fx.w.group, admin: fx.w.admin, market: fx.w.serums[0].market }, d)
}
pub fn serum_edit_default() -> Serum3EditMarket {
    Serum3EditMarket { reduce_only_opt: None, force_close_opt: None, name_opt: None, oracle_price_band_opt: None }
}
/// the starting configurations
pub fn config_states() -> (Mx, Vec<(&'static str, State)>) {
    let mut mx = Mx::new();
    let s = &mut mx.s;
    let fx = &mx.fx[0];
    s.advance(NOW - s.ts);
    for o in [new_oracle(), fallback()] {
        let a = s.accts[&fx.w.toks[1].oracle].clone();
        s.set(o, Acct::new(a.lamports, a.owner, a.data.clone()));
    }
    let banks = s.zc::<MintInfo>(&fx.w.toks[1].mint_info).banks().to_vec();
    assert_eq!(banks.len(), 2);
    for (n, b) in banks.iter().enumerate() {
        s.edit_zc(b, |b: &mut Bank| {
            b.maint_asset_weight = fi(0.90625);
            b.init_asset_weight = fi(0.8125);
            b.maint_liab_weight = fi(1.125);
            b.init_liab_weight = fi(1.25);
            b.platform_liquidation_fee = fi(0.125);
            b.collateral_fee_per_day = 0.5;
            b.net_borrows_in_window = 55 + n as i64;
            b.last_net_borrows_window_start_ts = 1_600_000_000;
        });
    }
    let mut v = vec![];
    for (name, reduce, shifting, zero) in [("open", 0u8, false, 0), ("reduce only 1", 1, true, 0), ("reduce only 2", 2, false, 0), ("no asset weight", 1, false, 1), ("no asset liquidation", 1, false, 2), ("no borrows", 2, false, 2), ("bare", 0, false, 3)] {
        let mut s = mx.s.clone();
        for b in &banks {
            s.edit_zc(b, |b: &mut Bank| {
                b.reduce_only = reduce;
                b.force_close = (reduce == 1) as u8;
                if zero == 3 {
                    b.platform_liquidation_fee = fi(0.0);
                    b.collateral_fee_per_day = 0.0;
                    b.liquidation_fee = fi(0.0);
                    b.loan_fee_rate = fi(0.0);
                    b.loan_origination_fee_rate = fi(0.0);
                    b.flash_loan_swap_fee_rate = 0.0;
                    b.token_conditional_swap_taker_fee_rate = 0.0;
                    b.token_conditional_swap_maker_fee_rate = 0.0;
                    b.deposit_limit = 0;
                    b.net_borrow_limit_per_window_quote = -1;
                    b.deposit_weight_scale_start_quote = f64::MAX;
                    b.borrow_weight_scale_start_quote = f64::MAX;
                    b.fallback_oracle = Pubkey::default();
                } else if zero > 0 {
                    b.maint_asset_weight = fi(0.0);
                    b.init_asset_weight = fi(0.0);
                }
                b.disable_asset_liquidation = (zero == 2) as u8;
                if shifting {
                    b.maint_weight_shift_start = NOW as u64 - 256;
                    b.maint_weight_shift_end = NOW as u64 + 768;
                    b.maint_weight_shift_duration_inv = fi(1.0 / 1024.0);
                    b.maint_weight_shift_asset_target = fi(0.84375);
                    b.maint_weight_shift_liab_target = fi(1.1875);
                }
            });
        }
        if reduce > 0 {
            let k = fx.w.toks[2].oracle;
            s.edit_zc(&fx.w.toks[1].mint_info, |m: &mut MintInfo| m.fallback_oracle = k);
            for b in &banks {
                s.edit_zc(b, |b: &mut Bank| b.fallback_oracle = k);
            }
        }
        s.edit_zc(&fx.w.perps[0].market, |m: &mut PerpMarket| {
            m.reduce_only = (reduce > 0) as u8;
            m.force_close = (reduce == 2) as u8;
            if zero == 3 {
                m.base_liquidation_fee = fi(0.0);
                m.platform_liquidation_fee = fi(0.0);
                m.maker_fee = fi(0.0);
                m.taker_fee = fi(0.0);
                m.fee_penalty = 0.0;
                m.group_insurance_fund = 0;
                m.settle_fee_flat = 0.0;
                m.settle_fee_fraction_low_health = 0.0;
                m.settle_pnl_limit_factor = 0.0;
                m.impact_quantity = 0;
                m.positive_pnl_liquidation_fee = fi(0.0);
                m.max_funding = fi(0.0);
                m.min_funding = fi(0.0);
                m.init_overall_asset_weight = fi(0.0);
                m.maint_overall_asset_weight = fi(0.0);
            }
        });
        s.edit_zc(&fx.w.serums[0].market, |m: &mut Serum3Market| {
            m.reduce_only = (reduce > 0) as u8;
            m.force_close = (reduce == 2) as u8;
        });
        v.push((name, s));
    }
    (mx, v)
}
/// both set the same thing
fn conflict<D: anchor_lang::InstructionData, T>(x: &Opt<D, T>, y: &Opt<D, T>, def: fn() -> D) -> bool {
    let (mut a, mut b) = (def(), def());
    (x.set)(&mut a);
    (y.set)(&mut a);
    (y.set)(&mut b);
    (x.set)(&mut b);
    a.data() != b.data()
}
/// every single edit and pair of edits, in every starting configuration: (label, transaction as admin, may the security admin do it)
pub fn edits(fx: &Fix, s: &State, pairs: bool) -> Vec<(String, Instruction, bool)> {
    let mut out = vec![];
    let b: Bank = s.zc(&fx.w.toks[1].bank);
    let t = token_opts();
    for (i, x) in t.iter().enumerate() {
        for (j, y) in t.iter().enumerate().skip(i).take(if pairs { 999 } else { 1 }) {
            let mut d = World::token_edit_default();
            (x.set)(&mut d);
            (y.set)(&mut d);
            if i != j && conflict(x, y, World::token_edit_default) {
                continue;
            }
            out.push((format!("token {} + {}", x.name, y.name), token_edit_ix(fx, s, d), (x.sec)(&b) && (y.sec)(&b)));
        }
    }
    let m: PerpMarket = s.zc(&fx.w.perps[0].market);
    let t = perp_opts();
    for (i, x) in t.iter().enumerate() {
        for (j, y) in t.iter().enumerate().skip(i).take(if pairs { 999 } else { 1 }) {
            let mut d = World::perp_edit_default();
            (x.set)(&mut d);
            (y.set)(&mut d);
            if i != j && conflict(x, y, World::perp_edit_default) {
                continue;
            }
            out.push((format!("perp {} + {}", x.name, y.name), fx.w.perp_edit(0, d), (x.sec)(&m) && (y.sec)(&m)));
        }
    }
    let m: Serum3Market = s.zc(&fx.w.serums[0].market);
    let t = serum_opts();
    for (i, x) in t.iter().enumerate() {
        for (j, y) in t.iter().enumerate().skip(i).take(if pairs { 999 } else { 1 }) {
            let mut d = serum_edit_default();
            (x.set)(&mut d);
            (y.set)(&mut d);
            if i != j && conflict(x, y, serum_edit_default) {
                continue;
            }
            out.push((format!("spot {} + {}", x.name, y.name), serum_edit_ix(fx, d), (x.sec)(&m) && (y.sec)(&m)));
        }
    }
    // instruction gates
    let g: Group = s.zc(&fx.w.group);
    for i in 0..128u32 {
        for x in [g.ix_gate ^ 1 << i, 1 << i, !(1 << i), g.ix_gate] {
            out.push((format!("gates {:x} -> {x:x}", { g.ix_gate }), fx.w.ix_gate(x), x & g.ix_gate == g.ix_gate));
        }
    }
    out
}
/// who may edit what
pub fn admin_edits(rep: &Report) {
    let (mx, states) = config_states();
    let fx = &mx.fx[0];
    for (name, s) in &states {
        for gates in [0u128, 1 << 5 | 1 << 77, u128::MAX] {
            let mut s = s.clone();
            s.edit_zc(&fx.w.group, |g: &mut Group| g.ix_gate = gates);
            let mut ed = edits(fx, &s, gates == 0);
            if gates != 0 {
                ed.retain(|e| e.0.starts_with("gates"));
            }
            ed.par_iter().for_each(|(label, i, sec)| {
                let by = |k: Pubkey| {
                    let mut i = i.clone();
                    i.accounts[1].pubkey = k;
                    rep.case();
                    let mut p = s.clone();
                    let r = p.tx(&[i]);
                    (r, p)
                };
                let (r, p) = by(fx.w.admin);
                let (r2, p2) = by(admin_key(&fx.w, "security"));
                if r2.is_ok() != (r.is_ok() && *sec) {
                    rep.violation(&format!("security admin: {label}, {name}"), &format!("by the admin {r:?}, by the security admin {r2:?}"));
                } else if r2.is_ok() && p.hash() != p2.hash() {
                    rep.violation(&format!("security admin: other effect of {label}, {name}"), "");
                }
                for k in [admin_key(&fx.w, "fast"), fx.owners[0], mx.fx[1].w.admin, admin_key(&mx.fx[1].w, "security"), pk("stranger")] {
                    let (r, _) = by(k);
                    if r.is_ok() {
                        rep.violation(&format!("not an admin: {label}, {name}"), "");
                    }
                }
                let mut i = i.clone();
                i.accounts[1].is_signer = false;
                if s.clone().tx(&[i]).is_ok() {
                    rep.violation(&format!("no signature: {label}, {name}"), "");
                }
            });
        }
    }
}
/// is this a sound token configuration
pub fn valid_bank(b: &Bank) -> bool {
    let z = fi(0.0);
    b.oracle_config.conf_filter >= z
        && z <= b.util0 && b.util0 <= b.util1 && b.util1 <= 1
        && b.rate0 >= z && b.rate1 >= z && b.max_rate >= z && b.zero_util_rate >= z
        && b.loan_fee_rate >= z && b.loan_origination_fee_rate >= z && b.adjustment_factor >= z
        && b.stable_price_model.delay_growth_limit >= 0.0 && b.stable_price_model.stable_growth_limit >= 0.0
        && b.maint_weight_shift_duration_inv >= z && b.maint_weight_shift_asset_target >= z && b.maint_weight_shift_liab_target >= z
        && z <= b.init_asset_weight && b.init_asset_weight <= b.maint_asset_weight
        && z <= b.maint_liab_weight && b.maint_liab_weight <= b.init_liab_weight
        && b.liquidation_fee >= z && b.platform_liquidation_fee >= z && b.collateral_fee_per_day >= 0.0
        && b.min_vault_to_deposits_ratio >= 0.0 && b.min_vault_to_deposits_ratio <= 1.0
        && b.net_borrow_limit_per_window_quote >= -1
        && b.borrow_weight_scale_start_quote > 0.0 && b.deposit_weight_scale_start_quote > 0.0
        && b.reduce_only <= 2
        && b.token_conditional_swap_taker_fee_rate >= 0.0 && b.token_conditional_swap_maker_fee_rate >= 0.0 && b.flash_loan_swap_fee_rate >= 0.0
        && b.interest_curve_scaling >= 1.0 && b.interest_target_utilization >= 0.0 && b.interest_target_utilization <= 1.0
        && (b.disable_asset_liquidation == 0 || (b.reduce_only > 0 && b.maint_asset_weight == z))
        && (b.force_withdraw == 0 || (b.reduce_only == 1 && b.disable_asset_liquidation == 1 && b.maint_asset_weight == z))
}
fn bytes<T: bytemuck::Pod>(t: &T) -> Vec<u8> {
    bytemuck::bytes_of(t).to_vec()
}
/// what setting x and y must do to the banks and the mint info
fn token_after(fx: &Fix, s: &State, x: &Opt<TokenEdit, Bank>, y: Option<&Opt<TokenEdit, Bank>>) -> (State, Vec<Bank>) {
    let mut e = s.clone();
    let mut v = vec![];
    for k in banks(fx, s, 1) {
        e.edit_zc(&k, |b: &mut Bank| {
            (x.eff)(b);
            if let Some(y) = y {
                (y.eff)(b);
            }
        });
        v.push(e.zc(&k));
    }
    let mut d = World::token_edit_default();
    (x.set)(&mut d);
    if let Some(y) = y {
        (y.set)(&mut d);
    }
    e.edit_zc(&fx.w.toks[1].mint_info, |m: &mut MintInfo| {
        if let Some(o) = d.oracle_opt {
            m.oracle = o;
        }
        if d.set_fallback_oracle {
            m.fallback_oracle = fallback();
        }
        if let Some(i) = d.group_insurance_fund_opt {
            m.group_insurance_fund = i as u8;
        }
    });
    (e, v)
}
/// options that no configuration makes acceptable
fn refused_option(n: &str) -> bool {
    ["negative", "excessive vault", "excessive target", "disordered", "curve scaling below", "deposit scale 0"].iter().any(|x| n.starts_with(x))
}
fn compare(rep: &Report, key: &str, s: &State, t: &Instruction, by: Pubkey, expect: &[State], must: Option<bool>) {
    let mut i = t.clone();
    i.accounts[1].pubkey = by;
    rep.case();
    let mut p = s.clone();
    let r = p.tx(&[i]);
    match (&r, must) {
        (Ok(()), Some(false)) => rep.violation(&format!("accepted: {key}"), ""),
        (Err(e), Some(true)) => rep.violation(&format!("refused: {key}"), &format!("{e:?}")),
        _ => {}
    }
    if r.is_ok() && !expect.iter().any(|e| e.hash() == p.hash()) {
        let d: Vec<String> = p
            .accts
            .iter()
            .filter_map(|(k, a)| {
                let b = expect[0].accts.get(k)?;
                let at: Vec<usize> = (0..a.data.len().min(b.data.len())).filter(|&i| a.data[i] != b.data[i]).take(8).collect();
                (a.data != b.data).then(|| format!("{k} at {at:?}"))
            })
            .collect();
        rep.violation(&format!("other effect than asked for: {key}"), &format!("{d:?}"));
    }
}
/// a single option or a pair sets exactly what it says, on every bank of the token
pub fn edit_effects(rep: &Report) {
    let (mx, states) = config_states();
    let fx = &mx.fx[0];
    let w = &fx.w;
    for (name, s) in &states {
        let t = token_opts();
        (0..t.len()).into_par_iter().for_each(|i| {
            let x = &t[i];
            for j in i..t.len() {
                let y = &t[j];
                if i != j && conflict(x, y, World::token_edit_default) {
                    continue;
                }
                let mut d = World::token_edit_default();
                (x.set)(&mut d);
                (y.set)(&mut d);
                let reads_oracle = d.oracle_opt.is_some() && d.reset_stable_price;
                let y1 = (i != j).then_some(y);
                let (e1, b1) = token_after(fx, s, x, y1);
                let (e2, _) = match y1 {
                    Some(y) => token_after(fx, s, y, Some(x)),
                    None => (e1.clone(), vec![]),
                };
                let fc = d.force_close_opt != Some(true) || b1[0].reduce_only > 0;
                let must = fc && b1.iter().all(valid_bank) && !refused_option(x.name) && !refused_option(y.name) && !reads_oracle;
                compare(rep, &format!("token {} + {}, {name}", x.name, y.name), s, &token_edit_ix(fx, s, d), w.admin, &[e1, e2], Some(must));
            }
        });
        let t = perp_opts();
        (0..t.len()).into_par_iter().for_each(|i| {
            let x = &t[i];
            for j in i..t.len() {
                let y = &t[j];
                if i != j && conflict(x, y, World::perp_edit_default) {
                    continue;
                }
                let mut d = World::perp_edit_default();
                (x.set)(&mut d);
                (y.set)(&mut d);
                let reads_oracle = d.oracle_opt.is_some() && d.reset_stable_price;
                let mut e = s.clone();
                e.edit_zc(&w.perps[0].market, |m: &mut PerpMarket| {
                    (x.eff)(m);
                    (y.eff)(m);
                });
                let m: PerpMarket = e.zc(&w.perps[0].market);
                let must = (d.force_close_opt != Some(true) || m.reduce_only > 0) && !refused_option(x.name) && !refused_option(y.name) && !reads_oracle;
                compare(rep, &format!("perp {} + {}, {name}", x.name, y.name), s, &w.perp_edit(0, d), w.admin, &[e], Some(must));
            }
        });
        let t = serum_opts();
        for (i, x) in t.iter().enumerate() {
            for y in &t[i..] {
                if conflict(x, y, serum_edit_default) {
                    continue;
                }
                let mut d = serum_edit_default();
                (x.set)(&mut d);
                (y.set)(&mut d);
                let mut e = s.clone();
                e.edit_zc(&w.serums[0].market, |m: &mut Serum3Market| {
                    (x.eff)(m);
                    (y.eff)(m);
                });
                let m: Serum3Market = e.zc(&w.serums[0].market);
                let must = d.force_close_opt != Some(true) || m.reduce_only > 0;
                compare(rep, &format!("spot {} + {}, {name}", x.name, y.name), s, &serum_edit_ix(fx, d), w.admin, &[e], Some(must));
            }
        }
    }
    group_edits(rep, &mx);
    account_edits(rep, &mx);
}
type GroupOpt = (&'static str, fn(&mut mango_v4::instruction::GroupEdit), fn(&mut Group));
fn group_edits(rep: &Report, mx: &Mx) {
    let fx = &mx.fx[0];
    let w = &fx.w;
    let t: Vec<GroupOpt> = vec![
        ("nothing", |_| {}, |_| {}),
        ("admin", |d| d.admin_opt = Some(pk("x1")), |g| g.admin = pk("x1")),
        ("fast listing admin", |d| d.fast_listing_admin_opt = Some(pk("x2")), |g| g.fast_listing_admin = pk("x2")),
        ("security admin", |d| d.security_admin_opt = Some(pk("x3")), |g| g.security_admin = pk("x3")),
        ("testing", |d| d.testing_opt = Some(0), |g| g.testing = 0),
        ("version", |d| d.version_opt = Some(7), |g| g.version = 7),
        ("deposit limit", |d| d.deposit_limit_quote_opt = Some(12345), |g| g.deposit_limit_quote = 12345),
        ("buyback off", |d| d.buyback_fees_opt = Some(false), |g| g.buyback_fees = 0),
        ("buyback on", |d| d.buyback_fees_opt = Some(true), |g| g.buyback_fees = 1),
        ("bonus", |d| d.buyback_fees_bonus_factor_opt = Some(1.75), |g| g.buyback_fees_mngo_bonus_factor = 1.75),
        ("swap account", |d| d.buyback_fees_swap_mango_account_opt = Some(pk("x4")), |g| g.buyback_fees_swap_mango_account = pk("x4")),
        ("mngo token", |d| d.mngo_token_index_opt = Some(2), |g| g.mngo_token_index = 2),
        ("buyback expiry", |d| d.buyback_fees_expiry_interval_opt = Some(777), |g| g.buyback_fees_expiry_interval = 777),
        ("fast listings", |d| d.allowed_fast_listings_per_interval_opt = Some(3), |g| g.allowed_fast_listings_per_interval = 3),
        ("collateral fee interval", |d| d.collateral_fee_interval_opt = Some(888), |g| g.collateral_fee_interval = 888),
    ];
    for (i, x) in t.iter().enumerate() {
        for y in &t[i..] {
            if x.0.starts_with("buyback o") && y.0.starts_with("buyback o") && x.0 != y.0 {
                continue;
            }
            let mut d = World::group_edit_default();
            (x.1)(&mut d);
            (y.1)(&mut d);
            let mut e = mx.s.clone();
            e.edit_zc(&w.group, |g: &mut Group| {
                (x.2)(g);
                (y.2)(g);
            });
            compare(rep, &format!("group {} + {}", x.0, y.0), &mx.s, &w.group_edit(d), w.admin, &[e], Some(true));
        }
    }
    // nobody can lock the group
    let mut d = World::group_edit_default();
    d.admin_opt = Some(Pubkey::default());
    compare(rep, "group without admin", &mx.s, &w.group_edit(d), w.admin, &[], Some(false));
}
/// names, delegates and temporary delegates
fn account_edits(rep: &Report, mx: &Mx) {
    let fx = &mx.fx[0];
    let w = &fx.w;
    let s = &mx.s;
    let now = s.ts as u64;
    let week = 7 * 86400;
    for name in [None, Some("a new name".to_string()), Some("".to_string()), Some("x".repeat(32)), Some("x".repeat(33))] {
        for del in [None, Some(pk("d")), Some(Pubkey::default())] {
            for tmp in [None, Some(pk("t"))] {
                for exp in [None, Some(0), Some(now), Some(now + week - 1), Some(now + week), Some(u64::MAX)] {
                    let mut e = s.clone();
                    edit_acc(&mut e, &fx.accts[0], |a| {
                        if let Some(n) = &name {
                            if n.len() <= 32 {
                                a.fixed.name = [0; 32];
                                a.fixed.name[..n.len()].copy_from_slice(n.as_bytes());
                            }
                        }
                        if let Some(d) = del {
                            a.fixed.delegate = d;
                        }
                        if let (Some(t), Some(x)) = (tmp, exp) {
                            a.fixed.temporary_delegate = t;
                            a.fixed.temporary_delegate_expiry = x;
                        }
                    });
                    // temporary delegations are given as a whole and last at most a week
                    let must = (name.is_some() || del.is_some()) && name.as_ref().map_or(true, |n| n.len() <= 32) && tmp.is_some() == exp.is_some() && exp.map_or(true, |x| x < now + week);
                    let i = ix(
                        mango_v4::accounts::AccountEdit { group: w.group, account: fx.accts[0], owner: fx.owners[0] },
                        mango_v4::instruction::AccountEdit { name_opt: name.clone(), delegate_opt: del, temporary_delegate_opt: tmp, temporary_delegate_expiry_opt: exp },
                    );
                    rep.case();
                    let mut p = s.clone();
                    let r = p.tx(&[i]);
                    if r.is_ok() != must || (must && p.hash() != e.hash()) {
                        rep.violation(&format!("account edit name {:?} delegate {} temporary {} expiry {:?}", name.as_ref().map(|n| n.len()), del.is_some(), tmp.is_some(), exp.map(|x| x.wrapping_sub(now) as i64)), &format!("{r:?}"));
                    }
                }
            }
        }
    }
}
