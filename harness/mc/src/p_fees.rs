//! Collateral fees.
use crate::p_perp::*;
use crate::p_perp2::{deposits, freeze_env, trade};
use crate::perp_ref::*;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::accounts_ix::*;
use mango_v4::state::*;

/// value of everything owed, at oracle prices
fn ref_liabs(w: &World, s: &State, a: &Acc, toks: &[RefTok]) -> f64 {
    let mut x: f64 = toks.iter().map(|t| (-t.spot).max(0.0) * t.oracle).sum();
    for p in a.active_perps() {
        let m: PerpMarket = s.zc(&w.perps[w.perp_by_index(p.market_index)].market);
        let settle = toks.iter().find(|t| t.index == m.settle_token_index).unwrap().oracle;
        let quote = f(p.quote_position_native) - ref_funding(&m, p) + (p.taker_quote_lots * m.quote_lot_size) as f64;
        let base = ((p.base_position_lots + p.taker_base_lots) * m.base_lot_size) as f64 * oracle_price(s, &m.oracle);
        x += ((-quote).max(0.0) + (-base).max(0.0)) * settle;
    }
    x
}

/// Charging collateral fees: when due, how much, from which balances, to which banks
pub fn collateral_spec(cx: &Cx) -> Result<(), String> {
    let a = match &cx.op.k {
        K::Collateral { a } => *a,
        _ => return Ok(()),
    };
    let fx = cx.fx;
    let w = &fx.w;
    let acc = fx.acc(cx.pre, a);
    let now = cx.pre.ts as u64;
    let mut pr = Pred::new();
    pr.must(acc.operational(cx.pre), "account is frozen");
    let g: Group = cx.pre.zc(&w.group);
    let interval = g.collateral_fee_interval;
    let last = acc.fixed.last_collateral_fee_charge;
    let due = interval > 0 && last > 0 && now >= last + interval;
    let new_last = if interval == 0 {
        0
    } else if last == 0 || due {
        now
    } else {
        last
    };
    let mut led = Led::new(fx, cx.pre);
    let mut collected = std::collections::BTreeMap::<usize, f64>::new();
    if due {
        let (_, toks) = ref_health_toks(w, cx.pre, &acc, Ht::Maint, false);
        let liabs = ref_liabs(w, cx.pre, &acc, &toks);
        if (liabs - 1e8).abs() < 1e-2 {
            return Ok(());
        }
        let mut bal: Vec<f64> = toks.iter().map(|t| t.spot + t.perp).collect();
        for o in acc.active_serum() {
            let d = oo(cx.pre, &o.open_orders);
            for (i, x) in [(o.base_token_index, d.native_coin_total - d.native_coin_free), (o.quote_token_index, d.native_pc_total - d.native_pc_free)] {
                bal[toks.iter().position(|t| t.index == i).unwrap()] += x as f64;
            }
        }
        let health: Vec<f64> = toks.iter().zip(&bal).map(|(t, b)| t.value(Ht::Maint, *b, now as f64)).collect();
        let asset: f64 = health.iter().filter(|x| **x > 0.0).sum();
        let liab: f64 = -health.iter().filter(|x| **x < 0.0).sum::<f64>();
        if liabs >= 1e8 && asset > 0.0 && liab > 0.0 {
            let days = ((now - last).min(2 * interval)) as f64 * f(I80F48::from_num(1.157407407407e-5));
            let scale = (liab / asset).min(1.0) * days;
            let mut usd = 0.0;
            for (t, b) in toks.iter().zip(&bal) {
                let rate = t.bank.collateral_fee_per_day as f64;
                if rate > 0.0 && t.bank.maint_asset_weight != 0 && *b > 0.0 {
                    let fee = b * scale * rate;
                    usd += fee * t.oracle;
                    collected.insert(w.tok_by_index(t.index), fee);
                }
            }
            for (i, t) in toks.iter().enumerate() {
                if health[i] < 0.0 {
                    let k = w.tok_by_index(t.index);
                    let fee = -health[i] / liab * usd / t.oracle;
                    led.withdraw(a, k, fee, false, false);
                    led.fee(k, fee);
                }
            }
        }
    }
    pr.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    let post = fx.acc(cx.post, a);
    ensure(post.fixed.last_collateral_fee_charge == new_last, || format!("time of the last charge is wrong | got {} expected {new_last}", post.fixed.last_collateral_fee_charge))?;
    led.check(cx, 1e-3)?;
    for t in 0..w.toks.len() {
        let (b, pb) = (w.bank(cx.pre, t), w.bank(cx.post, t));
        want(&format!("collateral fees recorded for token {t}"), f(pb.collected_collateral_fees) - f(b.collected_collateral_fees), collected.get(&t).cloned().unwrap_or(0.0), 1e-3)?;
    }
    rest_same(cx, a, May { fee_charge: true, ..Default::default() })?;
    let mut keys = led.keys(&[fx.accts[a]]);
    keys.extend(collected.keys().map(|t| w.toks[*t].bank));
    frame(cx, &keys)
}

pub fn op_collateral(sc: &mut Scen, a: usize) {
    sc.op(format!("charge collateral fees of a{a}"), K::Collateral { a }, move |fx, s| tx1(fx.w.charge_collateral_fees(s, fx.accts[a])));
}

/// a0: spot borrow against three assets; a1: perp position settling in token 1; a2: spot orders
pub fn collateral_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let c = TokCfg { min_vault_ratio: 0.0, loan_orig_fee: 0.0, net_borrow_limit: i64::MAX, ..TokCfg::default() };
    let toks = [
        TokCfg { min_vault_ratio: 0.0, net_borrow_limit: i64::MAX, collateral_fee: 0.0, ..TokCfg::quote() },
        TokCfg { price: 2.0, collateral_fee: 0.013, ..c.clone() },
        TokCfg { price: 0.7, collateral_fee: 0.000_9, ..c.clone() },
        TokCfg { price: 3.0, collateral_fee: 0.07, maint_asset: 0.0, init_asset: 0.0, ..c },
    ];
    let mut fx = fix(&format!("col{v}"), &mut s, &toks, &[PerpCfg { settle_tok: 1, ..PerpCfg::default() }]);
    for i in 0..5 {
        fx.user(&mut s, &format!("u{i}"), 100_000_000_000);
    }
    deposits(&fx, &mut s, &[(4, 0, 10_000_000_000), (4, 1, 10_000_000_000), (4, 2, 10_000_000_000)]);
    s.edit_zc::<Group>(&fx.w.group, |g| g.collateral_fee_interval = 1000);
    let wd = |fx: &Fix, s: &mut State, a: usize, t: usize, n: u64| {
        let i = fx.w.withdraw(s, fx.accts[a], fx.owners[a], t, n, true);
        must(fx, s, i);
    };
    // token 2 first, so position order differs from token order
    deposits(&fx, &mut s, &[(0, 2, 400_000_000), (0, 1, 30_000_001), (0, 3, 20_000_000), (0, 0, 5)]);
    wd(&fx, &mut s, 0, 0, 100_000_005);
    deposits(&fx, &mut s, &[(1, 1, 1_000), (1, 2, 300_000_000)]);
    if v == 2 {
        // three borrows at once
        deposits(&fx, &mut s, &[(4, 3, 10_000_000_000), (1, 2, 2_000_000_000)]);
        wd(&fx, &mut s, 1, 0, 150_000_000);
        wd(&fx, &mut s, 1, 1, 120_001_000);
        wd(&fx, &mut s, 1, 3, 7_000_001);
    } else if v == 0 {
        trade(&fx, &mut s, 1, 4, 0, 10, 450_000);
    } else {
        fx.w.add_serum(&mut s, 1, 0, 100, 10, 0.0);
        deposits(&fx, &mut s, &[(2, 2, 300_000_000), (2, 1, 40_000_000)]);
        let i = fx.w.serum_create_oo(fx.accts[2], fx.owners[2], 0);
        must(&fx, &mut s, i);
        wd(&fx, &mut s, 2, 0, 99_000_000);
        // a sell order locking up token 1, and a bid paid by borrowing
        for (side, px, base, quote) in [(Serum3Side::Ask, 30, 200_000, 1 << 40), (Serum3Side::Bid, 18, 10_000, 20_000_000)] {
            let i = fx.w.serum_place(&s, fx.accts[2], fx.owners[2], 0, side, px, base, quote, 1, Serum3OrderType::Limit, Serum3SelfTradeBehavior::DecrementTake, 10);
            must(&fx, &mut s, i);
        }
    }
    let mut sc = Scen::new(&format!("collateral-fees-{v}"), fx);
    for a in [vec![0, 1], vec![0, 2], vec![0, 1]][v].clone() {
        op_collateral(&mut sc, a);
    }
    op_collateral(&mut sc, 3);
    for secs in [999i64, 1, 2500] {
        sc.env(format!("advance {secs}s"), move |_, s| s.advance(secs));
    }
    let o: Vec<_> = sc.fx.w.toks.iter().map(|t| t.oracle).collect();
    sc.price(o[1], 2.6);
    sc.price(o[2], 0.3);
    let x = if v == 0 { sc.fx.w.perps[0].oracle } else { o[0] };
    sc.price(x, 0.83);
    if v == 0 {
        sc.price(x, 1.31);
        sc.env("funding", |fx, s| s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| m.long_funding += I80F48::from_num(7.5)));
        op_perp(&mut sc, PK::Place(ord(1, 1, 1, 2, 300)));
        sc.op("a4 rests a bid", K::Other(""), |fx, s| tx1(place_ix(fx, s, &ord(4, 0, 0, 9, 200_000))));
    }
    if v == 2 {
        op_deposit(&mut sc, 1, 3, 7_000_002, false);
        op_deposit(&mut sc, 1, 1, 60_000_000, false);
    }
    op_deposit(&mut sc, 0, 0, 100_000_100, false);
    op_deposit(&mut sc, 0, 0, 1, false);
    op_withdraw(&mut sc, 0, 1, 30_000_000, false);
    if v == 1 {
        op_withdraw(&mut sc, 2, 0, 1_000_000, true);
        op_deposit(&mut sc, 2, 0, 99_500_000, false);
        op_index(&mut sc, 0, 500);
    }
    sc.env("fees switched off", |fx, s| s.edit_zc::<Group>(&fx.w.group, |g| g.collateral_fee_interval = 0));
    sc.env("interval 400s", |fx, s| s.edit_zc::<Group>(&fx.w.group, |g| g.collateral_fee_interval = 400));
    sc.env("no fee on token 2", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[2].bank, |b| b.collateral_fee_per_day = 0.0));
    freeze_env(&mut sc, 0);
    (sc, s)
}
