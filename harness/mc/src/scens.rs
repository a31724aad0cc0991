//! Scenario library.
use crate::refm::*;
use crate::scen::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::state::*;

/// borrow/withdraw amount of `tok` that brings the reference init health to about zero
pub fn limit_withdraw(fx: &Fix, s: &State, a: usize, tok: usize) -> f64 {
    let acc = fx.acc(s, a);
    let w = &fx.w;
    let mut h = ref_health(w, s, &acc, Ht::Init);
    if h <= 0.0 {
        return 0.0;
    }
    let b = w.bank(s, tok);
    let rt = RefTok { index: 0, oracle: oracle_price(s, &w.toks[tok].oracle), stable: b.stable_price_model.stable_price, spot: 0.0, perp: 0.0, reserved: 0.0, bank: b };
    let spot = native(w, s, &acc, tok).max(0.0);
    let aw = rt.asset_w(Ht::Init, s.ts as f64) * rt.asset_price(Ht::Init);
    if aw > 0.0 && h / aw <= spot {
        return h / aw;
    }
    h -= spot * aw;
    spot + h / (rt.liab_w(Ht::Init, s.ts as f64) * rt.liab_price(Ht::Init)) / (1.0 + f(b.loan_origination_fee_rate))
}

pub fn fix(name: &str, s: &mut State, toks: &[TokCfg], perps: &[PerpCfg]) -> Fix {
    let mut w = World::new(name, s, 2, 1);
    for t in toks {
        w.add_token(s, t);
    }
    for p in perps {
        w.add_perp(s, p);
    }
    Fix { w, owners: vec![], accts: vec![] }
}
pub fn must(fx: &Fix, s: &mut State, i: solana_program::instruction::Instruction) {
    let _ = fx;
    if let Err(e) = s.tx(&[i]) {
        capture_logs(true);
        panic!("setup transaction failed: {e:?}");
    }
}

pub fn op_deposit(sc: &mut Scen, a: usize, tok: usize, amount: u64, reduce_only: bool) {
    sc.op(format!("deposit a{a} t{tok} {amount}{}", if reduce_only { " reduce-only" } else { "" }), K::Deposit { a, tok, amount, reduce_only }, move |fx, s| {
        tx1(fx.w.deposit(s, fx.accts[a], fx.owners[a], tok, amount, reduce_only))
    });
}
pub fn op_withdraw(sc: &mut Scen, a: usize, tok: usize, amount: u64, borrow: bool) {
    let n = if amount == u64::MAX { "all".to_string() } else { amount.to_string() };
    sc.op(format!("withdraw a{a} t{tok} {n}{}", if borrow { " borrow" } else { "" }), K::Withdraw { a, tok, amount, borrow }, move |fx, s| {
        tx1(fx.w.withdraw(s, fx.accts[a], fx.owners[a], tok, amount, borrow))
    });
}
/// withdraw at the collateral boundary plus an offset
pub fn op_withdraw_limit(sc: &mut Scen, a: usize, tok: usize, off: i64) {
    sc.op(format!("withdraw a{a} t{tok} limit{off:+}"), K::User { a }, move |fx, s| {
        let l = limit_withdraw(fx, s, a, tok).floor() as i64 + off;
        if l <= 0 {
            return Act::Skip;
        }
        tx1(fx.w.withdraw(s, fx.accts[a], fx.owners[a], tok, l as u64, true))
    });
}
pub fn op_index(sc: &mut Scen, tok: usize, secs: i64) {
    sc.op(format!("advance {secs}s + update index t{tok}"), K::UpdateIndex { tok }, move |fx, s| {
        let mi: MintInfo = s.zc(&fx.w.toks[tok].mint_info);
        let banks: Vec<_> = mi.banks.iter().filter(|k| **k != Default::default()).cloned().collect();
        Act::After(secs, vec![fx.w.update_index_banks(tok, &banks)])
    });
}
pub fn op_liq(sc: &mut Scen, liqor: usize, liqee: usize, asset: usize, liab: usize, max: f64) {
    sc.op(format!("liq a{liqee} by a{liqor} asset t{asset} liab t{liab} max {max}"), K::LiqToken { liqee, liqor, asset, liab, max }, move |fx, s| {
        tx1(fx.w.liq_token(s, fx.accts[liqor], fx.owners[liqor], fx.accts[liqee], asset, liab, max))
    });
}
pub fn op_bankrupt(sc: &mut Scen, liqor: usize, liqee: usize, liab: usize, max: f64) {
    sc.op(format!("bankrupt a{liqee} by a{liqor} liab t{liab} max {max}"), K::Bankrupt { liqee, liqor, liab, max }, move |fx, s| {
        tx1(fx.w.liq_bankruptcy(s, fx.accts[liqor], fx.owners[liqor], fx.accts[liqee], liab, max))
    });
}

/// Token deposit / withdraw / borrow / interest / liquidation / bankruptcy with three tokens.
/// a0 lender, a1 borrower, a2 liquidator
pub fn token_scen(insurance: u64) -> (Scen, State) {
    let mut s = State::new();
    let cfg = TokCfg { platform_liq_fee: 0.01, ..TokCfg::default() };
    let mut fx = fix("tok", &mut s, &[TokCfg { loan_fee_rate: 0.01, ..TokCfg::quote() }, cfg.clone(), TokCfg { price: 2.0, insurance: false, deposit_scale: 500_000.0, borrow_scale: 50_000.0, ..cfg }], &[]);
    for n in ["len", "bor", "liq"] {
        fx.user(&mut s, n, 10_000_000);
    }
    if insurance > 0 {
        put_token(&mut s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, insurance);
    }
    for t in 0..3 {
        let i = fx.w.deposit(&s, fx.accts[0], fx.owners[0], t, 1_000_000, false);
        must(&fx, &mut s, i);
    }
    for t in 0..3 {
        let i = fx.w.deposit(&s, fx.accts[2], fx.owners[2], t, 300_000, false);
        must(&fx, &mut s, i);
    }
    let i = fx.w.deposit(&s, fx.accts[1], fx.owners[1], 1, 100_003, false);
    must(&fx, &mut s, i);
    let i = fx.w.withdraw(&s, fx.accts[1], fx.owners[1], 0, 40_007, true);
    must(&fx, &mut s, i);
    let mut sc = Scen::new(&format!("token-insurance{insurance}"), fx);
    op_deposit(&mut sc, 1, 0, 1, false);
    op_deposit(&mut sc, 1, 0, 40_028, false);
    op_deposit(&mut sc, 1, 2, 10_001, false);
    op_deposit(&mut sc, 1, 0, 70_000, true);
    op_withdraw(&mut sc, 1, 1, 33_333, false);
    op_withdraw(&mut sc, 1, 1, u64::MAX, false);
    op_withdraw(&mut sc, 1, 2, 5_000, true);
    op_withdraw_limit(&mut sc, 1, 0, 1);
    op_withdraw_limit(&mut sc, 1, 0, -1);
    op_withdraw_limit(&mut sc, 1, 2, 2);
    op_withdraw_limit(&mut sc, 1, 2, -1);
    op_withdraw_limit(&mut sc, 1, 1, 2);
    op_withdraw(&mut sc, 0, 0, 500_000, false);
    op_withdraw(&mut sc, 0, 2, u64::MAX, false);
    op_index(&mut sc, 0, 86_400 * 30);
    op_index(&mut sc, 2, 3600);
    for p in [0.45, 0.6, 1.6] {
        let o = sc.fx.w.toks[1].oracle;
        sc.price(o, p);
    }
    let o = sc.fx.w.toks[2].oracle;
    sc.price(o, 9.0);
    op_liq(&mut sc, 2, 1, 1, 0, 10_000.0);
    op_liq(&mut sc, 2, 1, 1, 0, 1e9);
    op_liq(&mut sc, 2, 1, 1, 2, 1e9);
    op_liq(&mut sc, 2, 1, 2, 0, 1e9);
    op_bankrupt(&mut sc, 2, 1, 0, 5_000.0);
    op_bankrupt(&mut sc, 2, 1, 0, 1e9);
    op_bankrupt(&mut sc, 2, 1, 2, 1e9);
    (sc, s)
}

/// Bank limits: deposit limit, net borrow window, vault reserve, reduce-only modes, wind-down.
/// a0 lender, a1/a2 borrowers
pub fn limits_scen() -> (Scen, State) {
    let mut s = State::new();
    let cfg = TokCfg { price: 2.0, deposit_limit: 1_100_000, net_borrow_limit: 100_000, net_borrow_window: 3600, min_vault_ratio: 0.3, loan_orig_fee: 0.01, loan_fee_rate: 0.01, ..TokCfg::default() };
    let mut fx = fix("lim", &mut s, &[TokCfg::quote(), cfg], &[]);
    for n in ["len", "bor", "bo2"] {
        fx.user(&mut s, n, 10_000_000);
    }
    for (a, t, n) in [(0, 1, 1_000_000), (1, 0, 2_000_000), (2, 0, 5_000_000)] {
        let i = fx.w.deposit(&s, fx.accts[a], fx.owners[a], t, n, false);
        must(&fx, &mut s, i);
    }
    let mut sc = Scen::new("bank-limits", fx);
    for n in [1, 99_999, 100_001] {
        op_deposit(&mut sc, 0, 1, n, false);
    }
    op_deposit(&mut sc, 1, 1, 10_000, false);
    op_deposit(&mut sc, 1, 1, 60_000, true);
    op_deposit(&mut sc, 1, 1, 60_000, false);
    for n in [20_000, 29_700, 49_504, 49_506] {
        op_withdraw(&mut sc, 1, 1, n, true);
    }
    op_withdraw(&mut sc, 1, 1, 20_000, false);
    op_withdraw(&mut sc, 0, 1, 290_000, false);
    op_withdraw(&mut sc, 0, 1, u64::MAX, false);
    // unlimited net borrows in this one: reach the vault reserve
    sc.env("drop net borrow limit", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.net_borrow_limit_per_window_quote = -1));
    for n in [693_069, 693_070, 640_000] {
        op_withdraw(&mut sc, 2, 1, n, true);
    }
    for secs in [1800i64, 3600] {
        sc.env(format!("advance {secs}s"), move |_, s| s.advance(secs));
    }
    for r in [0u8, 1, 2] {
        sc.env(format!("reduce-only mode {r}"), move |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.reduce_only = r));
    }
    let o = sc.fx.w.toks[1].oracle;
    sc.price(o, 1.5);
    sc.env("stable price 3", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.stable_price_model.stable_price = 3.0));
    op_index(&mut sc, 1, 86_400 * 365);
    (sc, s)
}

/// The same limits with balances that carry no rounding at all (indexes are one, ratios and prices
/// are powers of two), so that the boundary itself is decided. v0: no origination fee; v1: 1/64
pub fn exact_limits_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    s.ts -= s.ts % 3_600;
    let cfg = TokCfg { price: 2.0, deposit_limit: 1_100_000, net_borrow_limit: 100_000, net_borrow_window: 3600, min_vault_ratio: 0.25, loan_orig_fee: v as f32 / 64.0, loan_fee_rate: 0.0, ..TokCfg::default() };
    let mut fx = fix(&format!("xli{v}"), &mut s, &[TokCfg { deposit_limit: 0, ..TokCfg::quote() }, cfg], &[]);
    for t in 0..2 {
        s.edit_zc::<Bank>(&fx.w.toks[t].bank, |b| {
            b.deposit_index = fixed::types::I80F48::ONE;
            b.borrow_index = fixed::types::I80F48::ONE;
        });
    }
    for n in ["len", "bor"] {
        fx.user(&mut s, n, 10_000_000);
    }
    for (a, t, n) in [(0, 1, 1_000_000), (1, 0, 5_000_000)] {
        let i = fx.w.deposit(&s, fx.accts[a], fx.owners[a], t, n, false);
        must(&fx, &mut s, i);
    }
    let mut sc = Scen::new(&format!("bank-limits-exact{v}"), fx);
    for n in [1, 100_000, 100_001] {
        op_deposit(&mut sc, 0, 1, n, false);
    }
    op_deposit(&mut sc, 1, 1, 25_000, false);
    op_deposit(&mut sc, 1, 1, 50_001, true);
    let most = if v == 0 { 50_000 } else { 49_230 };
    for n in [1, 25_000, most, most + 1] {
        op_withdraw(&mut sc, 1, 1, n, true);
    }
    op_withdraw(&mut sc, 0, 1, 250_000, false);
    op_withdraw(&mut sc, 0, 1, 250_001, false);
    for l in [-1i64, 0, 149_999] {
        sc.env(format!("net borrow limit {l}"), move |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.net_borrow_limit_per_window_quote = l));
    }
    let most = if v == 0 { 750_000 } else { 738_461 };
    for n in [most, most + 1] {
        op_withdraw(&mut sc, 1, 1, n, true);
    }
    sc.env("spot orders may bring 99999", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.potential_serum_tokens = 99_999));
    for secs in [3599i64, 1] {
        sc.env(format!("advance {secs}s"), move |_, s| s.advance(secs));
    }
    for r in [1u8, 2] {
        sc.env(format!("reduce-only mode {r}"), move |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.reduce_only = r));
    }
    sc.env("stable price 3", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.stable_price_model.stable_price = 3.0));
    sc.env("stable price 1.5", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.stable_price_model.stable_price = 1.5));
    // 5_000_000 of the quote token weigh 5_000_000; 1_000_000 of the other one 0.6 * 2_000_000
    for l in [1_200_000u64, 5_015_000] {
        sc.env(format!("group deposit limit {l}"), move |fx, s| s.edit_zc::<Group>(&fx.w.group, |g| g.deposit_limit_quote = l));
    }
    (sc, s)
}
/// Deposits and withdrawals of an account whose token slots are held by a conditional swap
pub fn held_scen() -> (Scen, State) {
    let mut s = State::new();
    let mut fx = fix("held", &mut s, &[TokCfg { loan_orig_fee: 0.01, ..TokCfg::quote() }, TokCfg::default()], &[]);
    for n in ["len", "bor"] {
        fx.user(&mut s, n, 10_000_000);
    }
    for (a, t, n) in [(0, 0, 1_000_000), (0, 1, 1_000_000), (1, 1, 100_000)] {
        let i = fx.w.deposit(&s, fx.accts[a], fx.owners[a], t, n, false);
        must(&fx, &mut s, i);
    }
    let mut sc = Scen::new("token-held", fx);
    sc.op("a1 creates swap", K::User { a: 1 }, |fx, _| tx1(fx.w.tcs_create(fx.accts[1], fx.owners[1], 0, 1, 1_000, 1_000, u64::MAX, 0.0, 10.0, 0.0, true, true)));
    sc.op("a1 cancels swap", K::User { a: 1 }, |fx, s| {
        let id = fx.acc(s, 1).tcs[0].id;
        tx1(fx.w.tcs_cancel(fx.accts[1], fx.owners[1], 0, 1, 0, id))
    });
    op_withdraw(&mut sc, 1, 0, 20, true);
    op_withdraw(&mut sc, 1, 0, 11, true);
    op_withdraw(&mut sc, 1, 0, 1, false);
    op_deposit(&mut sc, 1, 0, 21, false);
    op_deposit(&mut sc, 1, 0, 21, true);
    op_deposit(&mut sc, 1, 0, 12, false);
    op_withdraw(&mut sc, 1, 0, u64::MAX, false);
    op_withdraw(&mut sc, 1, 1, u64::MAX, false);
    op_withdraw(&mut sc, 1, 1, 100_000, false);
    op_index(&mut sc, 0, 86_400 * 300);
    (sc, s)
}
