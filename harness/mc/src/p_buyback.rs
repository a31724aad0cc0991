//! Buying back fees with MNGO; taking collected fees and insurance money out.
use crate::p_perp::*;
use crate::p_perp2::{deposits, freeze_env, trade};
use crate::perp_ref::*;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use fixed::types::I80F48;
use mango_v4::state::*;

#[derive(Clone, Debug, PartialEq)]
pub enum FK {
    Buyback { a: usize, dao: usize, max: u64, mngo: usize, fees: usize },
    TokFees { tok: usize },
    PerpFees { p: usize },
    Insurance { amount: u64 },
}
fn admin_tok(w: &World, n: usize) -> Pubkey {
    pk(&format!("{} admin token {n}", w.name))
}
pub fn buyback_ix(fx: &Fix, a: usize, dao: usize, max: u64, mngo: usize, fees: usize) -> solana_program::instruction::Instruction {
    let w = &fx.w;
    ix(
        mango_v4::accounts::AccountBuybackFeesWithMngo {
            group: w.group, account: fx.accts[a], owner: fx.owners[a], dao_account: fx.accts[dao], mngo_bank: w.toks[mngo].bank, mngo_oracle: w.toks[mngo].oracle, fees_bank: w.toks[fees].bank, fees_oracle: w.toks[fees].oracle,
        },
        mango_v4::instruction::AccountBuybackFeesWithMngo { max_buyback_usd: max },
    )
}
fn fees_ix(fx: &Fix, s: &State, k: &FK) -> solana_program::instruction::Instruction {
    let w = &fx.w;
    match k {
        FK::Buyback { a, dao, max, mngo, fees } => buyback_ix(fx, *a, *dao, *max, *mngo, *fees),
        FK::TokFees { tok } => {
            let t = &w.toks[*tok];
            ix(
                mango_v4::accounts::AdminTokenWithdrawFees { group: w.group, bank: t.bank, vault: t.vault, token_account: admin_tok(w, *tok), token_program: spl_token::ID, admin: w.admin },
                mango_v4::instruction::AdminTokenWithdrawFees {},
            )
        }
        FK::PerpFees { p } => {
            let n = w.settle_tok(s, *p);
            let t = &w.toks[n];
            ix(
                mango_v4::accounts::AdminPerpWithdrawFees { group: w.group, perp_market: w.perps[*p].market, bank: t.bank, vault: t.vault, token_account: admin_tok(w, n), token_program: spl_token::ID, admin: w.admin },
                mango_v4::instruction::AdminPerpWithdrawFees {},
            )
        }
        FK::Insurance { amount } => ix(
            mango_v4::accounts::GroupWithdrawInsuranceFund { group: w.group, admin: w.admin, insurance_vault: w.insurance_vault, destination: admin_tok(w, 0), token_program: spl_token::ID },
            mango_v4::instruction::GroupWithdrawInsuranceFund { amount: *amount },
        ),
    }
}
/// accrued fees (current, previous, expiry) after dropping what is too old
fn expire(a: &Acc, now: u64, iv: u64) -> (u64, u64, u64) {
    let p = &a.fixed;
    let (c, pr, t) = (p.buyback_fees_accrued_current, p.buyback_fees_accrued_previous, p.buyback_fees_expiry_timestamp);
    if iv == 0 || now < t {
        (c, pr, t)
    } else {
        (0, if now < t + iv { c } else { 0 }, (now / iv + 1) * iv)
    }
}
pub fn fees_spec(cx: &Cx) -> Result<(), String> {
    let k = match &cx.op.k {
        K::Fees(k) => k,
        _ => return Ok(()),
    };
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let mut pr = Pred::new();
    let moved = |from: Pubkey, to: Pubkey, n: u64| {
        let d = |k: &Pubkey| cx.post.token_amount(k) as i128 - s.token_amount(k) as i128;
        ensure(d(&from) == -(n as i128) && d(&to) == n as i128, || format!("paid out the wrong amount | vault {} receiver {} expected {n}", d(&from), d(&to)))
    };
    match k {
        FK::TokFees { tok } => {
            pr.judge(cx)?;
            let t = &w.toks[*tok];
            let mut b: Bank = s.zc(&t.bank);
            let n = (f(b.collected_fees_native).floor() as u64 - b.fees_withdrawn).min(s.token_amount(&t.vault));
            moved(t.vault, admin_tok(w, *tok), n)?;
            b.fees_withdrawn += n;
            ensure(bytemuck::bytes_of(&b) == bytemuck::bytes_of(&cx.post.zc::<Bank>(&t.bank)), || "bank changed otherwise than by the fees taken out".into())?;
            frame(cx, &[t.bank, t.vault, admin_tok(w, *tok)])
        }
        FK::PerpFees { p } => {
            pr.judge(cx)?;
            let t = &w.toks[w.settle_tok(s, *p)];
            let mk = w.perps[*p].market;
            let mut m: PerpMarket = s.zc(&mk);
            let n = (f(m.fees_settled).floor() as u64 - m.fees_withdrawn).min(s.token_amount(&t.vault));
            moved(t.vault, admin_tok(w, w.settle_tok(s, *p)), n)?;
            m.fees_withdrawn += n;
            ensure(bytemuck::bytes_of(&m) == bytemuck::bytes_of(&cx.post.zc::<PerpMarket>(&mk)), || "perp market changed otherwise than by the fees taken out".into())?;
            frame(cx, &[mk, t.vault, admin_tok(w, w.settle_tok(s, *p))])
        }
        FK::Insurance { amount } => {
            pr.judge(cx)?;
            let n = (*amount).min(s.token_amount(&w.insurance_vault));
            moved(w.insurance_vault, admin_tok(w, 0), n)?;
            frame(cx, &[w.insurance_vault, admin_tok(w, 0)])
        }
        FK::Buyback { a, dao, max, mngo, fees } => {
            let g: Group = s.zc(&w.group);
            let (ua, da) = (fx.acc(s, *a), fx.acc(s, *dao));
            pr.must(g.buyback_fees == 1, "buybacks are switched off");
            pr.must(fx.accts[*dao] == g.buyback_fees_swap_mango_account, "not the account that buys back");
            pr.must(a != dao, "the buying account cannot trade with itself");
            pr.must(w.toks[*mngo].index == g.mngo_token_index && g.mngo_token_index != 0, "not the MNGO token");
            pr.must(w.toks[*fees].index == 0, "fees are paid in the quote token");
            pr.must(ua.operational(s) && da.operational(s), "account is frozen");
            let acc = expire(&ua, s.ts as u64, g.buyback_fees_expiry_interval);
            let (mb, fb) = (w.bank(s, *mngo), w.bank(s, *fees));
            let mp = price(fx, s, *mngo).min(mb.stable_price_model.stable_price) * g.buyback_fees_mngo_bonus_factor as f64;
            let fp = price(fx, s, *fees).max(fb.stable_price_model.stable_price);
            let asked = (*max).min(acc.0.saturating_add(acc.1)) as f64;
            let dao_has = native(w, s, &da, *fees) * fp;
            let mut usd = asked.min(dao_has);
            let user_mngo = native(w, s, &ua, *mngo);
            let mut led = Led::new(fx, s);
            let mut reduce = 0.0;
            let mut sure = true;
            if pr.refuse.is_none() && usd > 0.0 && user_mngo > 0.0 {
                pr.must(native(w, s, &da, *mngo) >= 0.0, "the buying account owes MNGO");
                let can = user_mngo * mp;
                sure = usd == asked && can > usd + 1e-6;
                usd = usd.min(can);
                led.withdraw(*a, *mngo, usd / mp, false, false);
                led.deposit(*dao, *mngo, usd / mp, false);
                led.withdraw(*dao, *fees, usd / fp, false, false);
                led.deposit(*a, *fees, usd / fp, false);
                reduce = if sure { usd } else { (usd - 1e-9).ceil() };
                for t in &w.toks {
                    pr.must(da.tok(t.index).map_or(true, |p| p.indexed_position >= 0), "the buying account has debts");
                }
                pr.must(da.active_perps().count() == 0, "the buying account has a perp position");
                pr.must(da.active_serum().count() == 0, "the buying account has spot orders");
                for (x, t) in [(&ua, *fees), (&da, *mngo)] {
                    pr.must(has_slot(x, w.toks[t].index), "no free token position");
                }
            }
            pr.judge(cx)?;
            if !cx.ok() {
                return Ok(());
            }
            led.check(cx, 1e-5)?;
            let pa = fx.acc(cx.post, *a);
            let take = |r: u64| {
                let prev = acc.1.saturating_sub(r);
                (acc.0 - r.saturating_sub(acc.1), prev, acc.2)
            };
            let got = (pa.fixed.buyback_fees_accrued_current, pa.fixed.buyback_fees_accrued_previous, pa.fixed.buyback_fees_expiry_timestamp);
            let r = reduce as u64;
            // the price conversion may round a value just above a whole number either way
            let near = !sure && (usd - usd.round()).abs() < 1e-6;
            ensure(got == take(r) || (near && (got == take((usd.round()) as u64) || got == take(usd.round() as u64 + 1))), || format!("fees left to buy back | got {got:?} expected {:?}", take(r)))?;
            rest_same(cx, *a, May { buyback: true, ..Default::default() })?;
            rest_same(cx, *dao, May::default())?;
            frame(cx, &led.keys(&[fx.accts[*a], fx.accts[*dao]]))
        }
    }
}
fn op_fees(sc: &mut Scen, k: FK) {
    let n = format!("{k:?}");
    sc.op(n, K::Fees(k.clone()), move |fx, s| tx1(fees_ix(fx, s, &k)));
}
fn set_group(sc: &mut Scen, n: &str, g: impl Fn(&Fix, &mut Group) + Send + Sync + Clone + 'static) {
    sc.env(n, move |fx, s| {
        let k = fx.w.group;
        s.edit_zc::<Group>(&k, |x| g(fx, x))
    });
}
/// a0, a3 users; a1 the buying account; a2 another account with tokens only; a4 trader
pub fn buyback_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let c = TokCfg { min_vault_ratio: 0.0, net_borrow_limit: i64::MAX, loan_orig_fee: 0.000_7, ..TokCfg::default() };
    let toks = [TokCfg { min_vault_ratio: 0.0, net_borrow_limit: i64::MAX, ..TokCfg::quote() }, TokCfg { price: 0.037_1, ..c.clone() }, TokCfg { price: 3.0, ..c }];
    let mut fx = fix(&format!("buyback{v}"), &mut s, &toks, &[PerpCfg { settle_tok: if v == 2 { 2 } else { 0 }, ..PerpCfg::default() }]);
    for i in 0..5 {
        fx.user(&mut s, &format!("u{i}"), 10_000_000_000);
    }
    for n in 0..3 {
        let (k, m, ad) = (admin_tok(&fx.w, n), fx.w.toks[n].mint, fx.w.admin);
        put_token(&mut s, k, m, ad, 5);
    }
    put_token(&mut s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, 1_234);
    let dao = fx.accts[1];
    s.edit_zc::<Group>(&fx.w.group, |g| {
        g.buyback_fees = 1;
        g.buyback_fees_swap_mango_account = dao;
        g.mngo_token_index = 1;
        g.buyback_fees_mngo_bonus_factor = 1.25;
        g.buyback_fees_expiry_interval = 1000;
    });
    let mut sc;
    let dv = |fx: &Fix, s: &mut State, l: &[(usize, usize, u64)]| deposits(fx, s, l);
    if v == 2 {
        // fees taken out of the vaults, with vaults nearly empty
        dv(&fx, &mut s, &[(4, 0, 1_000_000), (4, 2, 1_000_000), (0, 2, 900_000), (3, 0, 1_000_000_000)]);
        trade(&fx, &mut s, 0, 4, 0, 10, 3_000);
        // the loser pays the market's fees
        fx.w.set_price(&mut s, fx.w.perps[0].oracle, 1.3);
        let wd = fx.w.withdraw(&s, fx.accts[3], fx.owners[3], 2, 800_000, true);
        must(&fx, &mut s, wd);
        let w2 = fx.w.withdraw(&s, fx.accts[3], fx.owners[3], 1, 0, true);
        let _ = s.tx(&[w2]);
        sc = Scen::new("fee-withdrawals", fx);
        for tok in [0, 2] {
            op_fees(&mut sc, FK::TokFees { tok });
        }
        op_fees(&mut sc, FK::PerpFees { p: 0 });
        for amount in [0, 1_000, u64::MAX] {
            op_fees(&mut sc, FK::Insurance { amount });
        }
        for (a, max) in [(4, 7), (4, u64::MAX), (0, u64::MAX)] {
            op_perp(&mut sc, PK::SettleFees { a, p: 0, max });
        }
        op_withdraw(&mut sc, 3, 2, 99_999, true);
        op_withdraw(&mut sc, 0, 2, u64::MAX, false);
        op_withdraw(&mut sc, 4, 2, u64::MAX, false);
        op_withdraw(&mut sc, 4, 2, 950_000, false);
        op_withdraw(&mut sc, 3, 2, 1_098_000, true);
        // the vault ends up with less than the fees in it
        for (a, tok) in [(3usize, 2usize), (3, 0)] {
            sc.op(format!("a{a} leaves 7 tokens {tok}"), K::Other(""), move |fx, s| match s.token_amount(&fx.w.toks[tok].vault).saturating_sub(7) {
                0 => Act::Skip,
                n => tx1(fx.w.withdraw(s, fx.accts[a], fx.owners[a], tok, n, true)),
            });
        }
        op_withdraw(&mut sc, 3, 0, u64::MAX, false);
        op_withdraw(&mut sc, 4, 0, 900_000, true);
        op_deposit(&mut sc, 3, 2, 500_000, false);
        // (when borrows exceed deposits, part of the interest stays in the vault: keep it below the tolerance)
        op_index(&mut sc, 2, 60);
        let o = sc.fx.w.perps[0].oracle;
        sc.price(o, 0.8);
        return (sc, s);
    }
    // lender of everything
    dv(&fx, &mut s, &[(4, 0, 1_000_000), (4, 1, 1_000_000_000), (4, 2, 1_000_000), (2, 0, 700_000), (2, 1, 50_000), (1, 0, 2_500), (0, 1, 12_345), (0, 2, 1_000), (3, 2, 500_000)]);
    let fees = |fx: &Fix, s: &mut State, a: usize, c: u64, p: u64| {
        let ts = s.ts as u64;
        edit_acc(s, &fx.accts[a], |x| {
            x.fixed.buyback_fees_accrued_current = c;
            x.fixed.buyback_fees_accrued_previous = p;
            x.fixed.buyback_fees_expiry_timestamp = ts / 1000 * 1000 + 1000;
        })
    };
    fees(&fx, &mut s, 0, 300, 111);
    fees(&fx, &mut s, 1, 300, 0);
    fees(&fx, &mut s, 3, 50, 4_000);
    // MNGO has earned interest
    let b = fx.w.toks[1].bank;
    s.edit_zc::<Bank>(&b, |b| {
        b.deposit_index = I80F48::from_num(1_000_000);
        b.borrow_index = I80F48::from_num(1_000_000);
    });
    if v == 1 {
        s.edit_zc::<Group>(&fx.w.group, |g| g.buyback_fees_mngo_bonus_factor = 0.8);
        let i = fx.w.withdraw(&s, fx.accts[0], fx.owners[0], 0, 17, true);
        must(&fx, &mut s, i);
        fx.w.add_serum(&mut s, 2, 0, 100, 10, 0.0);
    }
    sc = Scen::new(&format!("buyback-{v}"), fx);
    let bb = |a, dao, max| FK::Buyback { a, dao, max, mngo: 1, fees: 0 };
    for max in [0, 1, 150, u64::MAX] {
        op_fees(&mut sc, bb(0, 1, max));
    }
    op_fees(&mut sc, bb(3, 1, u64::MAX));
    for k in [bb(0, 2, 10), bb(1, 1, 10), bb(0, 0, 10), FK::Buyback { a: 0, dao: 1, max: 10, mngo: 2, fees: 0 }, FK::Buyback { a: 0, dao: 1, max: 10, mngo: 0, fees: 0 }, FK::Buyback { a: 0, dao: 1, max: 10, mngo: 1, fees: 2 }] {
        op_fees(&mut sc, k);
    }
    sc.refuse("buyback by a stranger", |fx, _| {
        let mut i = buyback_ix(fx, 0, 1, 10, 1, 0);
        i.accounts[2].pubkey = fx.owners[1];
        tx1(i)
    });
    op_deposit(&mut sc, 3, 1, 200_000, false);
    op_withdraw(&mut sc, 0, 1, u64::MAX, false);
    op_withdraw(&mut sc, 0, 1, 12_500, true);
    op_withdraw(&mut sc, 0, 1, 12_344, true);
    op_withdraw(&mut sc, 1, 0, 2_499, false);
    op_withdraw(&mut sc, 1, 0, u64::MAX, false);
    if v == 0 {
        op_withdraw(&mut sc, 1, 2, 5, true);
        op_withdraw(&mut sc, 1, 1, 5, true);
        op_deposit(&mut sc, 1, 2, 7, false);
        op_perp(&mut sc, PK::Place(PerpOrd { p: 0, ..ord(1, 0, 0, 1, 1) }));
        freeze_env(&mut sc, 1);
        freeze_env(&mut sc, 0);
    } else {
        op_deposit(&mut sc, 0, 0, 17, false);
        sc.op("a1 opens spot orders", K::Other(""), |fx, _| tx1(fx.w.serum_create_oo(fx.accts[1], fx.owners[1], 0)));
        set_group(&mut sc, "bonus 2", |_, g| g.buyback_fees_mngo_bonus_factor = 2.0);
        set_group(&mut sc, "off", |_, g| g.buyback_fees = 0);
        set_group(&mut sc, "MNGO is token 2", |_, g| g.mngo_token_index = 2);
        set_group(&mut sc, "MNGO unset", |_, g| g.mngo_token_index = 0);
        set_group(&mut sc, "a2 buys", |fx, g| g.buyback_fees_swap_mango_account = fx.accts[2]);
        set_group(&mut sc, "never expire", |_, g| g.buyback_fees_expiry_interval = 0);
    }
    for secs in [400i64, 1000] {
        sc.env(format!("advance {secs}s"), move |_, s| s.advance(secs));
    }
    sc.env("a0 accrues 1 000 000", |fx, s| {
        let k = fx.accts[0];
        edit_acc(s, &k, |a| a.fixed.buyback_fees_accrued_current += 1_000_000)
    });
    sc.env("stable prices", |fx, s| {
        s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.stable_price_model.stable_price = 0.031);
        s.edit_zc::<Bank>(&fx.w.toks[0].bank, |b| b.stable_price_model.stable_price = 1.07);
    });
    let o: Vec<_> = sc.fx.w.toks.iter().map(|t| t.oracle).collect();
    sc.price(o[0], 1.1);
    sc.price(o[1], 0.029);
    sc.price(o[1], 0.5);
    (sc, s)
}
