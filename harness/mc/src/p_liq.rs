//! Token liquidation, bankruptcy, forced closing of borrows, forced withdrawal.
use crate::oracles::banks;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::state::*;

pub fn liq_spec(cx: &Cx) -> Result<(), String> {
    match cx.op.k {
        K::LiqToken { liqee, liqor, asset, liab, max } => liq_token(cx, liqee, liqor, asset, liab, max),
        K::ForceClose { liqee, liqor, asset, liab, max } => force_close(cx, liqee, liqor, asset, liab, max),
        K::ForceWithdraw { a, tok } => force_withdraw(cx, a, tok),
        _ => Ok(()),
    }
}
fn fee_factors(asset: &Bank, liab: &Bank) -> (f64, f64) {
    (
        (1.0 + f(liab.liquidation_fee)) * (1.0 + f(asset.liquidation_fee)),
        (1.0 + f(liab.liquidation_fee) + f(liab.platform_liquidation_fee)) * (1.0 + f(asset.liquidation_fee) + f(asset.platform_liquidation_fee)),
    )
}

fn liq_token(cx: &Cx, liqee: usize, liqor: usize, asset: usize, liab: usize, max: f64) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let mut p = Pred::new();
    p.must(liqee != liqor, "account liquidates itself");
    p.must(asset != liab, "asset and liability are the same token");
    let (ee, or) = (fx.acc(s, liqee), fx.acc(s, liqor));
    p.must(!or.being_liquidated, "liquidator is being liquidated itself");
    must_be_past_phase1(&mut p, s, &ee);
    let state = liquidatable(w, s, &ee);
    if state == Liq::Unsure {
        p.fuzz();
    }
    if state != Liq::Go {
        p.judge(cx)?;
        return if cx.ok() && state == Liq::No { liq_noop(cx, liqee) } else { Ok(()) };
    }
    let (ab, lb) = (w.bank(s, asset), w.bank(s, liab));
    p.must(ee.tok(ab.token_index).is_some() && ee.tok(lb.token_index).is_some(), "liqee has no such position");
    p.must(has_slot(&or, ab.token_index) && has_slot(&or, lb.token_index), "liquidator has no free slot");
    p.must(ab.disable_asset_liquidation == 0, "asset may not be liquidated");
    let bals = liq_balances(w, s, &ee);
    let health_bal = |t: usize| bals.iter().find(|x| x.0 == t).map(|x| x.2).unwrap_or(0.0);
    let (an, ln) = (native(w, s, &ee, asset), native(w, s, &ee, liab));
    p.must(an > 0.0, "liqee has no deposit of the asset").must(ln < 0.0, "liqee has no borrow of the liability");
    let max_liab = max.min(-ln).min(-health_bal(liab));
    let max_asset = an.min(health_bal(asset));
    p.must(max_liab > 0.0, "nothing to liquidate on the liability side").must(max_asset > 0.0, "nothing to liquidate on the asset side");
    let (fl, ft) = fee_factors(&ab, &lb);
    let (ap, lp) = (price(fx, s, asset), price(fx, s, liab));
    let h = ref_health(w, s, &ee, Ht::LiqEnd);
    let needed = -h / (lp * f(lb.init_liab_weight) - lp * ft * f(ab.init_asset_weight));
    let possible = max_asset * ap / (lp * ft);
    let x = needed.min(possible).min(max_liab).max(0.0);
    let mut led = Led::new(fx, s);
    led.deposit(liqee, liab, x, true);
    led.withdraw(liqor, liab, x, true, false);
    let base = x * lp / ap;
    led.deposit(liqor, asset, base * fl, false);
    led.withdraw(liqee, asset, base * ft, false, true);
    led.fee(asset, base * (ft - fl));
    let hs = led.hyp();
    if p.refuse.is_none() && !or.in_health_region {
        p.ge(ref_health(w, &hs, &fx.acc(&hs, liqor), Ht::Init), 0.0, 1e-3, "liquidator would not be healthy");
    }
    p.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    frame(cx, &led.keys(&[]))?;
    led.check(cx, 1e-4)?;
    want("recorded liquidation fees", f(w.bank(cx.post, asset).collected_liquidation_fees) - f(ab.collected_liquidation_fees), base * (ft - fl), 1e-4)?;
    want("recorded liquidation fees of the liability token", f(w.bank(cx.post, liab).collected_liquidation_fees) - f(lb.collected_liquidation_fees), 0.0, 0.0)?;
    rest_same(cx, liqee, May { liq: true, ..Default::default() })?;
    rest_same(cx, liqor, May::default())?;
    liq_flag_after(cx, liqee)
}

fn force_close(cx: &Cx, liqee: usize, liqor: usize, asset: usize, liab: usize, max: u64) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let mut p = Pred::new();
    p.must(liqee != liqor, "account closes its own borrow").must(asset != liab, "asset and liability are the same token");
    let (ee, or) = (fx.acc(s, liqee), fx.acc(s, liqor));
    p.must(!or.being_liquidated, "liquidator is being liquidated itself");
    let (ab, lb) = (w.bank(s, asset), w.bank(s, liab));
    p.must(lb.force_close == 1, "liability token is not in force-close mode");
    p.must(ab.reduce_only == 0, "asset token does not allow borrows");
    let (fl, ft) = fee_factors(&ab, &lb);
    p.ge(f(lb.init_liab_weight), f(ab.init_liab_weight) * ft, 1e-9, "liqee health could decrease");
    p.must(ee.tok(ab.token_index).is_some(), "liqee has no position in the asset token");
    let (ln, on) = (native(w, s, &ee, liab), native(w, s, &or, liab));
    p.must(ln < 0.0, "liqee has no borrow").must(on > 0.0, "closer holds no deposit of the token");
    p.must(has_slot(&or, ab.token_index), "closer has no free slot");
    let x = (max as f64).min(-ln).min(on).max(0.0);
    let mut led = Led::new(fx, s);
    led.deposit(liqee, liab, x, true);
    led.withdraw(liqor, liab, x, true, false);
    let base = x * price(fx, s, liab) / price(fx, s, asset);
    led.deposit(liqor, asset, base * fl, false);
    led.withdraw(liqee, asset, base * ft, false, true);
    led.fee(asset, base * (ft - fl));
    let hs = led.hyp();
    if p.refuse.is_none() {
        p.ge(ref_health(w, &hs, &fx.acc(&hs, liqor), Ht::Init), 0.0, 1e-3, "closer would not be healthy");
    }
    if (x - on).abs() < 1e-5 {
        p.fuzz();
    }
    p.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    frame(cx, &led.keys(&[]))?;
    led.check(cx, 1e-4)?;
    want("recorded liquidation fees", f(w.bank(cx.post, asset).collected_liquidation_fees) - f(ab.collected_liquidation_fees), base * (ft - fl), 1e-4)?;
    rest_same(cx, liqee, May { liq: true, ..Default::default() })?;
    rest_same(cx, liqor, May::default())?;
    let (h0, h1) = (ref_health(w, s, &ee, Ht::Init), ref_health(w, cx.post, &fx.acc(cx.post, liqee), Ht::Init));
    ensure(h1 >= h0 - 2.0, || format!("forced closing lowered the account's health | {h0} -> {h1}"))?;
    if ee.being_liquidated {
        liq_flag_after(cx, liqee)
    } else {
        ensure(!fx.acc(cx.post, liqee).being_liquidated, || "forced closing flagged the account".into())
    }
}

fn force_withdraw(cx: &Cx, a: usize, tok: usize) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let acc = fx.acc(s, a);
    let t = &w.toks[tok];
    let b = w.bank(s, tok);
    let mut p = Pred::new();
    p.must(b.force_withdraw == 1, "token is not in force-withdraw mode");
    p.must(acc.tok(t.index).is_some(), "no position");
    let n = native(w, s, &acc, tok);
    p.must(n >= 0.0, "position is a borrow");
    let out = n.max(0.0).floor();
    if n - out > 1.0 - 1e-6 {
        p.fuzz();
    }
    p.must(vault(fx, s, tok) as f64 >= out, "vault does not hold the amount");
    let mut led = Led::new(fx, s);
    led.withdraw(a, tok, out, false, false);
    let hs = led.hyp();
    let hb = w.bank(&hs, tok);
    p.ge(bank_native_deposits(&hb), bank_native_borrows(&hb), 1e-4, "borrows would exceed deposits");
    p.judge(cx)?;
    if !cx.ok() || p.fuzzy {
        return Ok(());
    }
    led.vault(tok, -(out as i128));
    let dest = {
        let k = ata(&fx.owners[a], &t.mint);
        let owner = solana_program::pubkey::Pubkey::new_from_array(s.data(&k)[32..64].try_into().unwrap());
        if owner == fx.owners[a] { k } else { alt_key(fx, a, tok) }
    };
    frame(cx, &led.keys(&[dest]))?;
    led.check(cx, 1e-5)?;
    ensure(cx.post.token_amount(&dest) as i128 - s.token_amount(&dest) as i128 == out as i128, || "owner did not receive the withdrawn tokens".into())?;
    rest_same(cx, a, May { net_deposits: true, ..Default::default() })?;
    let usd = (acc.fixed.net_deposits - fx.acc(cx.post, a).fixed.net_deposits) as f64;
    ensure((usd - (out * price(fx, s, tok)).floor()).abs() <= 1.0, || format!("net deposit value wrong | {usd}"))
}
pub fn alt_key(fx: &Fix, a: usize, tok: usize) -> anchor_lang::prelude::Pubkey {
    pk(&format!("alt {a} {tok} {}", fx.w.name))
}

/// Bankruptcy: insurance first, then socialized loss. Covers tokens with several banks.
pub fn bankruptcy_spec(cx: &Cx) -> Result<(), String> {
    let (liqee, liqor, liab, max) = match cx.op.k {
        K::Bankrupt { liqee, liqor, liab, max } => (liqee, liqor, liab, max),
        _ => return Ok(()),
    };
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let mut p = Pred::new();
    p.must(liqee != liqor, "account liquidates itself");
    let (ee, or) = (fx.acc(s, liqee), fx.acc(s, liqor));
    p.must(!or.being_liquidated, "liquidator is being liquidated itself");
    must_be_past_phase2(&mut p, w, s, &ee);
    let lb = w.bank(s, liab);
    p.must(ee.tok(lb.token_index).is_some(), "liqee has no such position");
    let n = native(w, s, &ee, liab);
    let hb = liq_balances(w, s, &ee).iter().find(|x| x.0 == liab).map(|x| x.2).unwrap_or(0.0);
    p.must(n < 0.0 && hb < 0.0, "no loss in this token");
    let loss = (-n).min(-hb).max(0.0);
    let mi: MintInfo = s.zc(&w.toks[liab].mint_info);
    let same = liab == 0;
    let k = if same { 1.0 } else { price(fx, s, liab) * (1.0 + f(lb.liquidation_fee)) / price(fx, s, 0) };
    let fund = if mi.group_insurance_fund == 1 { s.token_amount(&w.insurance_vault) as f64 } else { 0.0 };
    let req = loss.min(max) * k;
    let near_int = (req - req.round()).abs() < 1e-6;
    let ins = (if near_int { req.round() } else { req.ceil() }).max(0.0).min(fund);
    let exhausted = ins == fund;
    let x = ins / k;
    let mut led = Led::new(fx, s);
    if ins > 0.0 {
        led.deposit(liqee, liab, x, true);
        if !same {
            p.must(has_slot(&or, w.toks[0].index) && has_slot(&or, lb.token_index), "liquidator has no free slot");
            led.deposit(liqor, 0, ins, false);
            led.withdraw(liqor, liab, x, true, false);
            if !or.in_health_region && p.refuse.is_none() {
                let hs = led.hyp();
                p.ge(ref_health(w, &hs, &fx.acc(&hs, liqor), Ht::Init), 0.0, 1e-3, "liquidator would not be healthy");
            }
        }
        led.vault(0, ins as i128);
    }
    let covered = (led.get(liqee, liab) - n).min(loss).max(0.0);
    let socialized = if exhausted && loss - covered > 1e-6 { loss - covered } else { 0.0 };
    let partial_perp = hb > n + 1e-6;
    if exhausted && !same && (loss - covered).abs() <= 1e-6 && ins > 0.0 {
        p.fuzz();
    }
    if socialized > 0.0 && partial_perp {
        // positive perp upnl offsets part of the debt: the program insists on a zero position
        p.must(false, "loss not fully realizable");
    }
    p.judge(cx)?;
    if !cx.ok() || near_int && req.round() != req {
        return Ok(());
    }
    if p.fuzzy && exhausted {
        return Ok(());
    }
    let iv = s.token_amount(&w.insurance_vault) as i128 - cx.post.token_amount(&w.insurance_vault) as i128;
    ensure(iv == ins as i128, || format!("insurance fund paid the wrong amount | {iv} expected {ins}"))?;
    rest_same(cx, liqee, May { liq: true, ..Default::default() })?;
    rest_same(cx, liqor, May::default())?;
    liq_flag_after(cx, liqee)?;
    let (pre, post) = (banks(w, s, &w.toks[liab]), banks(w, cx.post, &w.toks[liab]));
    let dep_total: f64 = pre.iter().map(|b| f(b.indexed_deposits)).sum();
    // other positions taken by the insurance step do not change the total they are socialized over,
    // except through the liquidator
    if socialized == 0.0 {
        let mut keys = led.keys(&[fx.accts[liqee]]);
        if ins > 0.0 {
            keys.push(w.insurance_vault);
            keys.push(w.toks[0].vault);
        }
        frame(cx, &keys)?;
        led.check(cx, 1e-4)?;
        for (b, q) in pre.iter().zip(&post) {
            ensure(b.deposit_index == q.deposit_index && b.borrow_index == q.borrow_index, || "bankruptcy without a socialized loss changed an index".into())?;
        }
        return Ok(());
    }
    let got = native(w, cx.post, &fx.acc(cx.post, liqee), liab);
    ensure(got == 0.0, || format!("position is not zero after its loss was socialized | {got}"))?;
    let hs = led.hyp();
    let dep_hyp: f64 = dep_total - f(lb.indexed_deposits) + f(w.bank(&hs, liab).indexed_deposits);
    let di = f(lb.deposit_index) - socialized / dep_hyp;
    for (i, (b, q)) in pre.iter().zip(&post).enumerate() {
        want(&format!("deposit index of bank {i} after socializing the loss"), f(q.deposit_index), di, 1e-9)?;
        ensure(b.borrow_index == q.borrow_index, || "socializing a loss changed the borrow index".into())?;
        ensure(f(q.deposit_index) > 0.0, || "deposit index not positive".into())?;
    }
    // everyone else loses exactly their share
    for a in 0..fx.accts.len() {
        if a != liqee && a != liqor {
            let (x, y) = (fx.acc(s, a), fx.acc(cx.post, a));
            let b = |a: &Acc| a.tokens.iter().map(|t| (t.token_index, t.indexed_position.to_bits())).collect::<Vec<_>>();
            ensure(b(&x) == b(&y), || "bankruptcy touched a bystander's position".into())?;
        }
    }
    if !same && ins > 0.0 {
        want("liquidator insurance tokens", native(w, cx.post, &fx.acc(cx.post, liqor), 0), led.get(liqor, 0), 1e-4)?;
        let e = led.get(liqor, liab);
        let e = if e > 0.0 { e / f(lb.deposit_index) * di } else { e };
        want("liquidator balance of the liability token", native(w, cx.post, &fx.acc(cx.post, liqor), liab), e, 1e-4)?;
    }
    let vd = vault(fx, cx.post, 0) - vault(fx, s, 0);
    ensure(vd == ins as i128, || format!("insurance tokens did not arrive in the vault | {vd} {ins}"))?;
    let mut keys = vec![fx.accts[liqee], fx.accts[liqor], w.insurance_vault, w.toks[0].vault, w.toks[0].bank];
    keys.extend(mi.banks.iter().filter(|k| **k != Default::default()));
    frame(cx, &keys)
}

/// Token liquidation scenario around the liquidation boundary. a0 lender, a1/a3 borrowers, a2 liquidator (plus a4 delegate-run)
pub fn liq_scen(variant: usize) -> (Scen, State) {
    let mut s = State::new();
    let base = TokCfg { liq_fee: 0.03, platform_liq_fee: 0.015, loan_orig_fee: 0.005, ..TokCfg::default() };
    let toks = [
        TokCfg { liq_fee: 0.01, ..TokCfg::quote() },
        base.clone(),
        TokCfg { price: 3.0, insurance: false, deposit_scale: 2_000_000.0, borrow_scale: 80_000.0, ..base.clone() },
        TokCfg { price: 1.0, maint_asset: 0.0, init_asset: 0.0, reduce_only: 2, disable_liq: true, ..base },
    ];
    let perps = if variant == 1 { vec![PerpCfg { overall_init: 0.9, overall_maint: 0.95, ..PerpCfg::default() }] } else { vec![] };
    let mut fx = fix(&format!("liq{variant}"), &mut s, &toks, &perps);
    for n in ["len", "bor", "liq"] {
        fx.user(&mut s, n, 100_000_000);
    }
    for t in 0..4 {
        let i = fx.w.deposit(&s, fx.accts[0], fx.owners[0], t, 1_000_000, false);
        must(&fx, &mut s, i);
        if t < 3 {
            let i = fx.w.deposit(&s, fx.accts[2], fx.owners[2], t, 20_000, false);
            must(&fx, &mut s, i);
        }
    }
    let i = fx.w.deposit(&s, fx.accts[1], fx.owners[1], 1, 100_003, false);
    must(&fx, &mut s, i);
    let i = fx.w.deposit(&s, fx.accts[1], fx.owners[1], 3, 5_000, false);
    must(&fx, &mut s, i);
    let i = fx.w.withdraw(&s, fx.accts[1], fx.owners[1], 0, 30_007, true);
    must(&fx, &mut s, i);
    let i = fx.w.withdraw(&s, fx.accts[1], fx.owners[1], 2, 6_001, true);
    must(&fx, &mut s, i);
    if variant == 1 {
        // perp position of a1 against a2: settle token is both liability and perp pnl carrier
        for (a, side) in [(2, Side::Ask), (1, Side::Bid)] {
            let i = fx.w.perp_place(&s, fx.accts[a], fx.owners[a], 0, side, 10, 50, i64::MAX, 1, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10);
            must(&fx, &mut s, i);
        }
        let i = fx.w.perp_consume(0, &[fx.accts[1], fx.accts[2]], 10);
        must(&fx, &mut s, i);
    }
    let mut sc = Scen::new(if variant == 1 { "token-liquidation-with-perp" } else { "token-liquidation" }, fx);
    let o1 = sc.fx.w.toks[1].oracle;
    let o2 = sc.fx.w.toks[2].oracle;
    for p in [0.7, 0.62, 0.3] {
        sc.price(o1, p);
    }
    sc.price(o2, 4.0);
    if variant == 1 {
        let po = sc.fx.w.perps[0].oracle;
        sc.price(po, 0.1);
        sc.price(po, 6.5);
        sc.op("perp order by the borrower", K::Other(""), |fx, s| tx1(fx.w.perp_place(s, fx.accts[1], fx.owners[1], 0, Side::Bid, 1, 1, i64::MAX, 9, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10)));
        sc.op("cancel perp orders", K::Other(""), |fx, _| tx1(fx.w.perp_cancel_all(fx.accts[1], fx.owners[1], 0, 5)));
    }
    for max in [1.0, 2_500.5, 1e12] {
        op_liq(&mut sc, 2, 1, 1, 0, max);
    }
    op_liq(&mut sc, 2, 1, 1, 2, 500.25);
    op_liq(&mut sc, 2, 1, 1, 2, 1e12);
    op_liq(&mut sc, 2, 1, 3, 0, 1e12);
    op_liq(&mut sc, 2, 1, 0, 2, 1e12);
    op_liq(&mut sc, 2, 1, 1, 0, 0.0);
    op_liq(&mut sc, 2, 1, 1, 0, -5.0);
    // a recovered account that nobody has unmarked yet
    sc.env("flag a2", |fx, s| s.edit(&fx.accts[2], |d| d[OFF_BEING_LIQ] = 1));
    op_liq(&mut sc, 2, 2, 1, 0, 1e12);
    op_liq(&mut sc, 2, 1, 0, 0, 1e12);
    op_liq(&mut sc, 0, 1, 1, 0, 3_000.0);
    op_deposit(&mut sc, 1, 0, 2_000, false);
    op_deposit(&mut sc, 1, 1, 40_000, false);
    op_withdraw(&mut sc, 2, 1, 15_000, true);
    op_withdraw(&mut sc, 2, 0, 12_000, true);
    op_withdraw(&mut sc, 1, 1, 500, false);
    if variant == 0 {
        sc.env("disable liquidation of asset 1", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.disable_asset_liquidation = 1));
        sc.refuse("liquidate with someone else's signature", |fx, s| tx1(fx.w.liq_token(s, fx.accts[2], fx.owners[0], fx.accts[1], 1, 0, 1e12)));
    }
    (sc, s)
}

/// Bankruptcy scenarios. variant bit 0: insurance funded; bit 1: liability token has two banks
pub fn bankrupt_scen(variant: usize) -> (Scen, State) {
    let (insured, two) = (variant & 1 == 1, variant & 2 == 2);
    let mut s = State::new();
    let base = TokCfg { liq_fee: 0.03, platform_liq_fee: 0.015, loan_orig_fee: 0.005, min_vault_ratio: 0.0, ..TokCfg::default() };
    let toks = [TokCfg { price: 1.25, ..TokCfg::quote() }, TokCfg { price: 2.0, ..base.clone() }, TokCfg { price: 3.0, insurance: false, ..base.clone() }, TokCfg { init_asset: 0.0, maint_asset: 0.0, reduce_only: 2, disable_liq: true, ..base }];
    let mut fx = fix(&format!("bnk{variant}"), &mut s, &toks, &[]);
    for n in ["len", "bor", "liq", "le2", "bo2"] {
        fx.user(&mut s, n, 100_000_000);
    }
    let i = fx.w.deposit(&s, fx.accts[4], fx.owners[4], 0, 200_000, false);
    must(&fx, &mut s, i);
    if insured {
        put_token(&mut s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, 9_000);
    }
    for t in 0..4 {
        let i = fx.w.deposit(&s, fx.accts[0], fx.owners[0], t, 1_000_000, false);
        must(&fx, &mut s, i);
    }
    for t in [0, 1] {
        let i = fx.w.deposit(&s, fx.accts[2], fx.owners[2], t, 30_000, false);
        must(&fx, &mut s, i);
    }
    if two {
        let (i, bank1, vault1) = fx.w.add_bank_ix(1, 1);
        must(&fx, &mut s, i);
        let mut w1 = fx.w.clone();
        w1.toks[1].bank = bank1;
        w1.toks[1].vault = vault1;
        let i = w1.deposit(&s, fx.accts[3], fx.owners[3], 1, 500_000, false);
        must(&fx, &mut s, i);
        // part of the debt sits in the second bank
        let i = fx.w.deposit(&s, fx.accts[1], fx.owners[1], 3, 2_000, false);
        must(&fx, &mut s, i);
        let i = fx.w.deposit(&s, fx.accts[1], fx.owners[1], 0, 100_000, false);
        must(&fx, &mut s, i);
        let i = w1.withdraw(&s, fx.accts[1], fx.owners[1], 1, 6_001, true);
        must(&fx, &mut s, i);
    } else {
        let i = fx.w.deposit(&s, fx.accts[1], fx.owners[1], 3, 2_000, false);
        must(&fx, &mut s, i);
        let i = fx.w.deposit(&s, fx.accts[1], fx.owners[1], 0, 100_000, false);
        must(&fx, &mut s, i);
    }
    for (t, n) in [(1, 8_003), (2, 5_001)] {
        let i = fx.w.withdraw(&s, fx.accts[1], fx.owners[1], t, n, true);
        must(&fx, &mut s, i);
    }
    // the collateral vanishes: everything it is worth is taken by the liquidator beforehand
    set_native(&fx, &mut s, 1, 0, if two { -1_503.0 } else { 0.0 });
    let d = native(&fx.w, &s, &fx.acc(&s, 1), 0);
    let idx0 = fx.w.bank(&s, 0);
    // keep the books balanced: the vault loses what the position lost
    let v = vault(&fx, &s, 0) - (100_000.0 - d).round() as i128;
    let _ = idx0;
    put_token(&mut s, fx.w.toks[0].vault, fx.w.toks[0].mint, fx.w.group, v as u64);
    let mut sc = Scen::new(&format!("bankruptcy-{}{}", if insured { "insured" } else { "uninsured" }, if two { "-two-banks" } else { "" }), fx);
    op_bankrupt(&mut sc, 2, 1, 1, 1_000.5);
    op_bankrupt(&mut sc, 2, 1, 1, 0.0);
    op_bankrupt(&mut sc, 2, 1, 1, 1e12);
    op_bankrupt(&mut sc, 2, 1, 2, 2_000.0);
    op_bankrupt(&mut sc, 2, 1, 2, 1e12);
    op_bankrupt(&mut sc, 2, 1, 0, 500.0);
    op_bankrupt(&mut sc, 2, 1, 0, 1e12);
    op_bankrupt(&mut sc, 2, 1, 3, 1e12);
    op_bankrupt(&mut sc, 2, 2, 1, 1e12);
    op_bankrupt(&mut sc, 2, 0, 1, 1e12);
    let o1 = sc.fx.w.toks[1].oracle;
    sc.price(o1, 2.7);
    let o0 = sc.fx.w.toks[0].oracle;
    sc.price(o0, 0.9);
    sc.env("insurance fund gets 1000", |fx, s| {
        let n = s.token_amount(&fx.w.insurance_vault) + 1000;
        put_token(s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, n)
    });
    op_deposit(&mut sc, 1, 1, 300, false);
    op_deposit(&mut sc, 1, 0, 2_000, false);
    op_deposit(&mut sc, 1, 0, 80_000, false);
    op_liq(&mut sc, 2, 1, 0, 1, 1e12);
    op_withdraw(&mut sc, 2, 1, 29_000, false);
    op_withdraw(&mut sc, 2, 0, u64::MAX, false);
    op_withdraw(&mut sc, 4, 1, 20_000, true);
    op_index(&mut sc, 1, 3000);
    // a recovered account that nobody has unmarked yet
    sc.env("flag a2", |fx, s| s.edit(&fx.accts[2], |d| d[OFF_BEING_LIQ] = 1));
    if insured {
        sc.refuse("bankruptcy with another vault as insurance", |fx, s| {
            let mut i = fx.w.liq_bankruptcy(s, fx.accts[2], fx.owners[2], fx.accts[1], 1, 1e12);
            for m in i.accounts.iter_mut() {
                if m.pubkey == fx.w.insurance_vault {
                    m.pubkey = fx.w.toks[0].vault;
                }
            }
            tx1(i)
        });
    }
    if two {
        let o = sc.fx.w.toks[1].mint_info;
        let _ = o;
        sc.refuse("bankruptcy with only one of the banks", |fx, s| {
            let mi: MintInfo = s.zc(&fx.w.toks[1].mint_info);
            let mut i = fx.w.liq_bankruptcy(s, fx.accts[2], fx.owners[2], fx.accts[1], 1, 1e12);
            let k = i.accounts.iter().position(|m| m.pubkey == mi.banks[1]).unwrap();
            i.accounts.remove(k);
            tx1(i)
        });
        sc.refuse("bankruptcy with the same bank twice", |fx, s| {
            let mi: MintInfo = s.zc(&fx.w.toks[1].mint_info);
            let mut i = fx.w.liq_bankruptcy(s, fx.accts[2], fx.owners[2], fx.accts[1], 1, 1e12);
            let k = i.accounts.iter().position(|m| m.pubkey == mi.banks[1]).unwrap();
            i.accounts[k].pubkey = mi.banks[0];
            tx1(i)
        });
    }
    (sc, s)
}

/// Force-close and force-withdraw of tokens that are wound down.
pub fn wind_down_scen() -> (Scen, State) {
    let mut s = State::new();
    let base = TokCfg { liq_fee: 0.02, platform_liq_fee: 0.01, loan_orig_fee: 0.005, min_vault_ratio: 0.0, ..TokCfg::default() };
    let toks = [TokCfg { liq_fee: 0.005, ..TokCfg::quote() }, TokCfg { price: 2.0, ..base.clone() }, TokCfg { price: 3.0, init_liab: 1.3, ..base.clone() }, TokCfg { init_asset: 0.0, maint_asset: 0.0, ..base }];
    let mut fx = fix("wnd", &mut s, &toks, &[]);
    for n in ["len", "bor", "clo"] {
        fx.user(&mut s, n, 100_000_000);
    }
    for t in 0..4 {
        let i = fx.w.deposit(&s, fx.accts[0], fx.owners[0], t, 1_000_000, false);
        must(&fx, &mut s, i);
    }
    for (a, t, n) in [(1, 0, 60_000), (1, 3, 777), (2, 1, 5_000), (2, 0, 10_000)] {
        let i = fx.w.deposit(&s, fx.accts[a], fx.owners[a], t, n, false);
        must(&fx, &mut s, i);
    }
    for (t, n) in [(1, 8_003), (2, 5_001)] {
        let i = fx.w.withdraw(&s, fx.accts[1], fx.owners[1], t, n, true);
        must(&fx, &mut s, i);
    }
    for a in 0..2 {
        let k = alt_key(&fx, a, 3);
        put_token(&mut s, k, fx.w.toks[3].mint, fx.owners[a], 0);
        let k = alt_key(&fx, a, 1);
        put_token(&mut s, k, fx.w.toks[1].mint, fx.owners[a], 0);
    }
    let mut sc = Scen::new("wind-down", fx);
    for (asset, liab, max) in [(0, 1, 1_000), (0, 1, u64::MAX), (2, 1, 3_000), (0, 2, u64::MAX), (3, 1, 10), (1, 1, 5)] {
        sc.op(format!("force close a1's t{liab} borrow by a2 for t{asset} max {max}"), K::ForceClose { liqee: 1, liqor: 2, asset, liab, max }, move |fx, s| {
            tx1(fx.w.force_close_borrows(s, fx.accts[2], fx.owners[2], fx.accts[1], asset, liab, max))
        });
    }
    sc.op("force close own borrow", K::ForceClose { liqee: 2, liqor: 2, asset: 0, liab: 1, max: 5 }, |fx, s| tx1(fx.w.force_close_borrows(s, fx.accts[2], fx.owners[2], fx.accts[2], 0, 1, 5)));
    sc.refuse("force close with someone else's signature", |fx, s| tx1(fx.w.force_close_borrows(s, fx.accts[2], fx.owners[0], fx.accts[1], 0, 1, 5)));
    for (a, tok) in [(0, 3), (1, 3), (0, 1), (1, 1)] {
        sc.op(format!("force withdraw a{a} t{tok}"), K::ForceWithdraw { a, tok }, move |fx, s| tx1(fx.w.force_withdraw(s, fx.accts[a], tok, ata(&fx.owners[a], &fx.w.toks[tok].mint), alt_key(fx, a, tok))));
    }
    sc.refuse("force withdraw to a stranger's token account", |fx, s| tx1(fx.w.force_withdraw(s, fx.accts[0], 3, ata(&fx.owners[1], &fx.w.toks[3].mint), alt_key(fx, 1, 3))));
    sc.refuse("force withdraw with a stranger's alternate account", |fx, s| tx1(fx.w.force_withdraw(s, fx.accts[0], 3, ata(&fx.owners[0], &fx.w.toks[3].mint), alt_key(fx, 1, 3))));
    sc.env("token 3 in force-withdraw mode", |fx, s| {
        s.edit_zc::<Bank>(&fx.w.toks[3].bank, |b| {
            b.reduce_only = 1;
            b.disable_asset_liquidation = 1;
            b.force_withdraw = 1;
        })
    });
    sc.env("token 1 in force-close mode", |fx, s| {
        s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| {
            b.reduce_only = 1;
            b.force_close = 1;
        })
    });
    // a recovered account that nobody has unmarked yet
    sc.env("flag a2", |fx, s| s.edit(&fx.accts[2], |d| d[OFF_BEING_LIQ] = 1));
    sc.env("token 2 in reduce-only mode", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[2].bank, |b| b.reduce_only = 2));
    sc.env("ownership of a0's token account moved", |fx, s| {
        let k = ata(&fx.owners[0], &fx.w.toks[3].mint);
        let n = s.token_amount(&k);
        put_token(s, k, fx.w.toks[3].mint, fx.owners[1], n)
    });
    let o1 = sc.fx.w.toks[1].oracle;
    for p in [2.6, 5.0] {
        sc.price(o1, p);
    }
    sc.op("borrower borrows token 3", K::Withdraw { a: 1, tok: 3, amount: 1_500, borrow: true }, |fx, s| tx1(fx.w.withdraw(s, fx.accts[1], fx.owners[1], 3, 1_500, true)));
    op_liq(&mut sc, 2, 1, 0, 1, 700.0);
    op_deposit(&mut sc, 2, 1, 20_000, false);
    op_withdraw(&mut sc, 2, 0, 9_000, false);
    op_withdraw(&mut sc, 2, 2, 4_000, true);
    op_index(&mut sc, 3, 1_000);
    (sc, s)
}
