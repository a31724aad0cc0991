//! The events a transaction emits, against the balances it leaves behind.
use crate::refm::*;
use crate::scen::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::{AnchorDeserialize, Discriminator};
use mango_v4::logs::*;
use mango_v4::state::*;
use std::collections::BTreeMap;

fn get<T: Discriminator + AnchorDeserialize>(e: &[u8]) -> Option<T> {
    if e.len() < 8 || e[..8] != T::discriminator() {
        return None;
    }
    T::deserialize(&mut &e[8..]).ok()
}
fn all<T: Discriminator + AnchorDeserialize>(cx: &Cx) -> Vec<(usize, T)> {
    cx.events.iter().enumerate().filter_map(|(i, e)| get::<T>(e).map(|x| (i, x))).collect()
}
fn q(bits: i128) -> f64 {
    bits as f64 / (1u64 << 48) as f64
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol + 1e-9 * a.abs().max(b.abs())
}
/// mango accounts before and after, by address
struct Both {
    pre: BTreeMap<Pubkey, Acc>,
    post: BTreeMap<Pubkey, Acc>,
}
fn both(cx: &Cx) -> Both {
    let one = |s: &State| {
        s.accts
            .iter()
            .filter(|(_, x)| x.owner == mango_v4::ID && x.data.len() > 408 && x.data[..8] == MangoAccount::DISCRIMINATOR)
            .filter(|(_, x)| x.data[8..40] == *cx.fx.w.group.as_ref())
            .map(|(k, x)| (*k, parse(&x.data)))
            .collect()
    };
    Both { pre: one(cx.pre), post: one(cx.post) }
}
fn tokn(cx: &Cx, index: TokenIndex) -> Result<usize, String> {
    cx.fx.w.toks.iter().position(|t| t.index == index).ok_or_else(|| format!("event names an unknown token | {index}"))
}
fn perpn(cx: &Cx, index: PerpMarketIndex) -> Result<usize, String> {
    cx.fx.w.perps.iter().position(|t| t.index == index).ok_or_else(|| format!("event names an unknown perp market | {index}"))
}

/// last balance reported for a token position is what the account holds; every change is reported
fn token_balances(cx: &Cx, b: &Both) -> Result<(), String> {
    let mut last: BTreeMap<(Pubkey, TokenIndex), (usize, TokenBalanceLog)> = BTreeMap::new();
    for (i, l) in all::<TokenBalanceLog>(cx) {
        ensure(l.mango_group == cx.fx.w.group, || "token balance of another group reported".into())?;
        last.insert((l.mango_account, l.token_index), (i, l));
    }
    let mut gone: BTreeMap<(Pubkey, TokenIndex), usize> = BTreeMap::new();
    for (i, l) in all::<DeactivateTokenPositionLog>(cx) {
        gone.insert((l.mango_account, l.token_index), i);
    }
    for ((k, t), (_, l)) in &last {
        let a = b.post.get(k).ok_or("balance reported for an account that does not exist")?;
        let n = tokn(cx, *t)?;
        let (b0, b1) = (cx.fx.w.bank(cx.pre, n), cx.fx.w.bank(cx.post, n));
        match a.tok(*t) {
            Some(p) => ensure(p.indexed_position.to_bits() == l.indexed_position, || format!("reported token balance is not the account's balance | {k} token {t}: {} vs {}", q(l.indexed_position), p.indexed_position))?,
            None => {
                ensure(gone.contains_key(&(*k, *t)), || format!("balance reported for a token the account does not hold | {k} token {t}"))?;
                ensure(q(l.indexed_position).abs() * f(b1.deposit_index).max(f(b1.borrow_index)) < 1.0 + 1e-9, || format!("reported balance of a closed token position is not dust | {k} token {t}"))?;
            }
        }
        let same = |x: &Bank| x.deposit_index.to_bits() == l.deposit_index && x.borrow_index.to_bits() == l.borrow_index;
        ensure(same(&b1) || same(&b0) && l.indexed_position != 0 && b0.deposit_index > b1.deposit_index, || format!("reported index is not the bank's | {k} token {t}"))?;
    }
    for (k, a) in &b.post {
        for t in &cx.fx.w.toks {
            let bits = |x: Option<&Acc>| x.and_then(|a| a.tok(t.index)).map(|p| p.indexed_position.to_bits()).unwrap_or(0);
            let (p0, p1) = (bits(b.pre.get(k)), bits(Some(a)));
            if p0 != p1 && !(matches!(cx.op.k, K::Fees(_)) && cx.fx.accts[0] != *k) {
                ensure(last.contains_key(&(*k, t.index)) || gone.contains_key(&(*k, t.index)), || format!("token balance changed without a report | {k} token {} {} -> {}", t.index, q(p0), q(p1)))?;
            }
            let had = b.pre.get(k).map_or(false, |a| a.tok(t.index).is_some());
            let has = a.tok(t.index).is_some();
            if had && !has {
                ensure(gone.contains_key(&(*k, t.index)), || format!("token position closed without a report | {k} token {}", t.index))?;
            }
            if has && had {
                ensure(!gone.contains_key(&(*k, t.index)), || format!("open token position reported as closed | {k} token {}", t.index))?;
            }
        }
    }
    for ((k, t), _) in &gone {
        ensure(b.post.get(k).map_or(true, |a| a.tok(*t).is_none()), || format!("open token position reported as closed | {k} token {t}"))?;
    }
    Ok(())
}
fn perp_balances(cx: &Cx, b: &Both) -> Result<(), String> {
    let mut last: BTreeMap<(Pubkey, u16), PerpBalanceLog> = BTreeMap::new();
    for (_, l) in all::<PerpBalanceLog>(cx) {
        ensure(l.mango_group == cx.fx.w.group, || "perp balance of another group reported".into())?;
        last.insert((l.mango_account, l.market_index), l);
    }
    for ((k, i), l) in &last {
        let m: PerpMarket = cx.post.zc(&cx.fx.w.perps[perpn(cx, *i)?].market);
        let p = b.post.get(k).and_then(|a| a.perp(*i)).ok_or_else(|| format!("perp balance reported for an account without the position | {k} {i}"))?;
        let is = (l.base_position, l.quote_position, l.long_settled_funding, l.short_settled_funding);
        let want = (p.base_position_lots, p.quote_position_native.to_bits(), p.long_settled_funding.to_bits(), p.short_settled_funding.to_bits());
        ensure(is == want, || format!("reported perp balance is not the account's balance | {k} market {i}: {is:?} vs {want:?}"))?;
        ensure((l.long_funding, l.short_funding) == (m.long_funding.to_bits(), m.short_funding.to_bits()), || format!("reported funding is not the market's | {k} market {i}"))?;
    }
    let gone: Vec<(Pubkey, u16)> = all::<DeactivatePerpPositionLog>(cx).into_iter().map(|x| (x.1.mango_account, x.1.market_index)).collect();
    let takes: Vec<(Pubkey, u16)> = all::<PerpTakerTradeLog>(cx).into_iter().map(|x| (x.1.mango_account, x.1.perp_market_index)).collect();
    for (k, a) in &b.post {
        for w in &cx.fx.w.perps {
            let p0 = b.pre.get(k).and_then(|a| a.perp(w.index));
            let p1 = a.perp(w.index);
            let key = (*k, w.index);
            match (p0, p1) {
                (Some(_), None) => ensure(gone.contains(&key), || format!("perp position closed without a report | {k} {}", w.index))?,
                (p0, Some(p1)) => {
                    ensure(!gone.contains(&key), || format!("open perp position reported as closed | {k} {}", w.index))?;
                    let base0 = p0.map_or(0, |p| p.base_position_lots);
                    let q0 = p0.map_or(0.0, |p| f(p.quote_position_native));
                    let fund0 = p0.map_or(0.0, |p| p.cumulative_long_funding - p.cumulative_short_funding);
                    ensure(base0 == p1.base_position_lots || last.contains_key(&key), || format!("perp base position changed without a report | {k} {}", w.index))?;
                    // charging funding that is already due does not need a report of its own
                    let dq = f(p1.quote_position_native) - q0 + (p1.cumulative_long_funding - p1.cumulative_short_funding - fund0);
                    ensure(dq.abs() < 1e-6 || last.contains_key(&key) || takes.contains(&key) || unfilled_ioc(cx, k, dq), || format!("perp quote position changed without a report | {k} {} by {dq}", w.index))?;
                }
                _ => ensure(!gone.contains(&key), || "perp position closed that was not open".into())?,
            }
        }
    }
    Ok(())
}
/// an immediate-or-cancel order that finds nothing to take pays the fixed penalty, which has no report
fn unfilled_ioc(cx: &Cx, k: &Pubkey, dq: f64) -> bool {
    match &cx.op.k {
        K::Perp(crate::p_perp::PK::Place(o)) => cx.fx.accts[o.a] == *k && dq < 0.0 && near(-dq, cx.fx.w.perp(cx.pre, o.p).fee_penalty as f64, 1e-6),
        _ => false,
    }
}
fn orders(cx: &Cx) -> Result<(), String> {
    let mut last: BTreeMap<(Pubkey, u16), Serum3OpenOrdersBalanceLogV2> = BTreeMap::new();
    for (_, l) in all::<Serum3OpenOrdersBalanceLogV2>(cx) {
        last.insert((l.mango_account, l.market_index), l);
    }
    for ((k, i), l) in &last {
        let n = cx.fx.w.serums.iter().position(|x| x.index == *i).ok_or("event names an unknown spot market")?;
        let x = oo(cx.post, &cx.fx.w.oo_key(k, n));
        if cx.ixs.iter().any(|i| i.program_id != mango_v4::ID) {
            continue; // the exchange itself moves the balances later in the transaction
        }
        let is = (l.base_total, l.base_free, l.quote_total, l.quote_free, l.referrer_rebates_accrued);
        let want = (x.native_coin_total, x.native_coin_free, x.native_pc_total, x.native_pc_free, x.referrer_rebates_accrued);
        ensure(is == want, || format!("reported spot order balance is not what the orders hold | {k} market {i}: {is:?} vs {want:?}"))?;
        let s = &cx.fx.w.serums[n];
        ensure(l.base_token_index == cx.fx.w.toks[s.base].index && l.quote_token_index == cx.fx.w.toks[s.quote].index, || "spot order report names the wrong tokens".into())?;
    }
    for (n, s) in cx.fx.w.serums.iter().enumerate() {
        for k in &cx.fx.accts {
            let o = cx.fx.w.oo_key(k, n);
            if cx.pre.has(&o) && cx.post.has(&o) && !matches!(cx.op.k, K::Env) {
                let t = |s: &State| {
                    let x = crate::refm::oo(s, &o);
                    (x.native_coin_total, x.native_pc_total)
                };
                ensure(t(cx.pre) == t(cx.post) || last.contains_key(&(*k, s.index)) || cranked(cx), || format!("spot order balance changed without a report | {k} market {}", s.index))?;
            }
        }
    }
    Ok(())
}
/// somebody else's order or the exchange's own event processing moved the balance
fn cranked(cx: &Cx) -> bool {
    !cx.ixs.iter().any(|i| i.program_id == mango_v4::ID)
}

/// the amounts reported add up to the balance changes
fn amounts(cx: &Cx, b: &Both) -> Result<(), String> {
    let mut tok: BTreeMap<(Pubkey, TokenIndex), f64> = BTreeMap::new();
    let mut perp: BTreeMap<(Pubkey, u16), (i64, f64)> = BTreeMap::new();
    let mut t = |k: Pubkey, i: TokenIndex, x: f64| *tok.entry((k, i)).or_default() += x;
    let mut p = |k: Pubkey, i: u16, b: i64, x: f64| {
        let e = perp.entry((k, i)).or_default();
        e.0 += b;
        e.1 += x;
    };
    let mut skip_tok = vec![];
    let settle = |i: u16| -> Result<TokenIndex, String> { Ok(cx.fx.w.perp(cx.pre, perpn(cx, i)?).settle_token_index) };
    for (_, l) in all::<DepositLog>(cx) {
        t(l.mango_account, l.token_index, l.quantity as f64);
        spot(cx, l.token_index, l.price)?;
    }
    for (_, l) in all::<WithdrawLog>(cx) {
        t(l.mango_account, l.token_index, -(l.quantity as f64));
        spot(cx, l.token_index, l.price)?;
    }
    for (_, l) in all::<ForceWithdrawLog>(cx) {
        t(l.mango_account, l.token_index, -(l.quantity as f64));
        spot(cx, l.token_index, l.price)?;
        let got = |s: &State| s.token_amount(&l.to_token_account) as i128;
        ensure(got(cx.post) - got(cx.pre) == l.quantity as i128, || "force withdrawal reports the wrong amount or account".into())?;
    }
    for (_, l) in all::<WithdrawLoanLog>(cx) {
        t(l.mango_account, l.token_index, -q(l.loan_origination_fee));
        let bank = cx.fx.w.bank(cx.post, tokn(cx, l.token_index)?);
        // the reported loan includes its fee; a fee charged later comes without a loan
        let made = q(l.loan_amount) - q(l.loan_origination_fee);
        ensure(l.loan_amount == 0 || near(q(l.loan_origination_fee), made * f(bank.loan_origination_fee_rate), 1e-4), || format!("reported loan fee is not the rate of the reported loan | {} of {}", q(l.loan_origination_fee), q(l.loan_amount)))?;
        if let Some(x) = l.price {
            spot(cx, l.token_index, x)?;
        }
    }
    for (_, l) in all::<FlashLoanLogV3>(cx) {
        for x in &l.token_loan_details {
            t(l.mango_account, x.token_index, q(x.change_amount) - q(x.loan_origination_fee) - q(x.swap_fee));
            spot(cx, x.token_index, x.price)?;
            let bank = cx.fx.w.bank(cx.post, tokn(cx, x.token_index)?);
            ensure((x.deposit_index, x.borrow_index) == (bank.deposit_index.to_bits(), bank.borrow_index.to_bits()), || "flash loan report has wrong indexes".into())?;
            ensure(near(q(x.loan_origination_fee), q(x.loan) * f(bank.loan_origination_fee_rate), 1e-6), || "flash loan report: fee is not the rate of the loan".into())?;
        }
        if let K::Flash { loans, .. } = &cx.op.k {
            for (n, amount, _) in loans {
                let d = l.token_loan_details.iter().find(|d| d.token_index == cx.fx.w.toks[*n].index);
                ensure(d.map_or(false, |d| d.approved_amount == *amount), || "flash loan report has the wrong loan amount".into())?;
            }
        }
    }
    for (_, l) in all::<TokenLiqWithTokenLogV2>(cx) {
        t(l.liqee, l.asset_token_index, -q(l.asset_transfer_from_liqee));
        t(l.liqor, l.asset_token_index, q(l.asset_transfer_to_liqor));
        t(l.liqee, l.liab_token_index, q(l.liab_transfer));
        t(l.liqor, l.liab_token_index, -q(l.liab_transfer));
        ensure(near(q(l.asset_transfer_from_liqee), q(l.asset_transfer_to_liqor) + q(l.asset_liquidation_fee), 1e-6), || "liquidation report: asset amounts do not add up".into())?;
        spot(cx, l.asset_token_index, l.asset_price)?;
        spot(cx, l.liab_token_index, l.liab_price)?;
    }
    for (_, l) in all::<TokenForceCloseBorrowsWithTokenLogV2>(cx) {
        t(l.liqee, l.asset_token_index, -q(l.asset_transfer_from_liqee));
        t(l.liqor, l.asset_token_index, q(l.asset_transfer_to_liqor));
        t(l.liqee, l.liab_token_index, q(l.liab_transfer));
        t(l.liqor, l.liab_token_index, -q(l.liab_transfer));
        ensure(near(q(l.asset_transfer_from_liqee), q(l.asset_transfer_to_liqor) + q(l.asset_liquidation_fee), 1e-6), || "force close report: asset amounts do not add up".into())?;
        spot(cx, l.asset_token_index, l.asset_price)?;
        spot(cx, l.liab_token_index, l.liab_price)?;
    }
    for (_, l) in all::<TokenLiqBankruptcyLog>(cx) {
        let n = tokn(cx, l.liab_token_index)?;
        let (b0, b1) = (cx.fx.w.bank(cx.pre, n), cx.fx.w.bank(cx.post, n));
        ensure(l.starting_liab_deposit_index == b0.deposit_index.to_bits() && l.ending_liab_deposit_index == b1.deposit_index.to_bits(), || "bankruptcy report has the wrong deposit index".into())?;
        let had = b.pre.get(&l.liqee).and_then(|a| a.tok(l.liab_token_index)).map(|p| native_of(p, &b0)).unwrap_or(0.0);
        ensure(near(q(l.initial_liab_native), had, 1e-6), || "bankruptcy report has the wrong debt".into())?;
        let fund = |s: &State| s.token_amount(&cx.fx.w.insurance_vault) as i128;
        ensure(near(q(l.insurance_transfer), (fund(cx.pre) - fund(cx.post)) as f64, 1e-6), || "bankruptcy report has the wrong insurance amount".into())?;
        let lost: f64 = bank_loss(cx, n);
        ensure(near(q(l.socialized_loss), lost, 1e-3), || format!("bankruptcy report has the wrong socialized loss | {} vs {lost}", q(l.socialized_loss)))?;
        skip_tok.push(l.liab_token_index);
        if l.insurance_token_index != l.liab_token_index {
            t(l.liqor, l.insurance_token_index, q(l.insurance_transfer));
        }
        spot(cx, l.liab_token_index, l.liab_price)?;
    }
    let mut charged: BTreeMap<Pubkey, f64> = BTreeMap::new();
    for (_, l) in all::<TokenCollateralFeeLog>(cx) {
        // reported in the collateral it is due for, paid in the tokens the account owes
        spot(cx, l.token_index, l.price)?;
        *charged.entry(l.mango_account).or_default() += q(l.fee) * q(l.price);
    }
    let mut trig: BTreeMap<Pubkey, ()> = BTreeMap::new();
    for (_, l) in all::<TokenConditionalSwapTriggerLogV3>(cx) {
        trig.insert(l.liqee, ());
        t(l.liqee, l.buy_token_index, l.buy_amount as f64);
        t(l.liqor, l.buy_token_index, -(l.buy_amount as f64));
        t(l.liqee, l.sell_token_index, -(l.sell_amount as f64));
        t(l.liqor, l.sell_token_index, l.sell_amount as f64 - l.maker_fee as f64 - l.taker_fee as f64);
        spot(cx, l.buy_token_index, l.buy_token_price)?;
        spot(cx, l.sell_token_index, l.sell_token_price)?;
        let find = |m: &BTreeMap<Pubkey, Acc>| m.get(&l.liqee).and_then(|a| a.tcs.iter().find(|t| t.is_configured == 1 && t.id == l.token_conditional_swap_id).cloned());
        let (c0, c1) = (find(&b.pre), find(&b.post));
        let c0 = c0.ok_or("trigger report names a swap that was not there")?;
        ensure(l.closed == c1.is_none(), || "trigger report is wrong about the swap being closed".into())?;
        ensure((l.buy_token_index, l.sell_token_index) == (c0.buy_token_index, c0.sell_token_index), || "trigger report names the wrong tokens".into())?;
        if let Some(c1) = c1 {
            ensure((c1.bought - c0.bought, c1.sold - c0.sold) == (l.buy_amount, l.sell_amount), || "trigger report differs from what the swap records".into())?;
        }
    }
    for (_, l) in all::<TokenConditionalSwapStartLog>(cx) {
        skip_tok.push(l.incentive_token_index);
        let n = tokn(cx, l.incentive_token_index)?;
        let (b0, b1) = (cx.fx.w.bank(cx.pre, n), cx.fx.w.bank(cx.post, n));
        let at = |m: &BTreeMap<Pubkey, Acc>, b: &Bank| m.get(&l.caller).and_then(|a| a.tok(l.incentive_token_index)).map(|p| native_of(p, b)).unwrap_or(0.0);
        let got = at(&b.post, &b1) - at(&b.pre, &b0);
        ensure(got > l.incentive_amount as f64 - 1e-6 && got < l.incentive_amount as f64 + 1.0 + 1e-6, || "start report has the wrong incentive".into())?;
    }
    for (_, l) in all::<AccountBuybackFeesWithMngoLog>(cx) {
        let g: Group = cx.pre.zc(&cx.fx.w.group);
        t(l.mango_account, g.mngo_token_index, -q(l.buyback_mngo));
        t(l.mango_account, cx.fx.w.toks[0].index, q(l.buyback_fees));
        skip_tok.push(u16::MAX);
        spot(cx, g.mngo_token_index, l.oracle_price)?;
    }
    let mut skip_perp = vec![];
    for (_, l) in all::<PerpSettlePnlLog>(cx) {
        let (st, x, fee) = (settle(l.perp_market_index)?, q(l.settlement), q(l.fee));
        t(l.mango_account_a, st, x - fee);
        t(l.mango_account_b, st, -x);
        t(l.settler, st, fee);
        p(l.mango_account_a, l.perp_market_index, 0, -x);
        p(l.mango_account_b, l.perp_market_index, 0, x);
    }
    for (_, l) in all::<PerpSettleFeesLog>(cx) {
        t(l.mango_account, settle(l.perp_market_index)?, -q(l.settlement));
        p(l.mango_account, l.perp_market_index, 0, q(l.settlement));
    }
    for (_, l) in all::<PerpLiqBaseOrPositivePnlLogV3>(cx) {
        let st = settle(l.perp_market_index)?;
        // the liqor pays for the pnl less the liquidation fee on it
        let fee = f(cx.fx.w.perp(cx.pre, perpn(cx, l.perp_market_index)?).positive_pnl_liquidation_fee);
        t(l.liqee, st, q(l.pnl_transfer) * (1.0 - fee));
        t(l.liqor, st, -q(l.pnl_transfer) * (1.0 - fee));
        p(l.liqee, l.perp_market_index, l.base_transfer_liqee, q(l.quote_transfer_liqee) - q(l.pnl_transfer));
        p(l.liqor, l.perp_market_index, -l.base_transfer_liqee, q(l.quote_transfer_liqor) + q(l.pnl_transfer));
        ensure(near(q(l.quote_transfer_liqee) + q(l.quote_transfer_liqor) + q(l.quote_platform_fee), 0.0, 1e-6), || "perp liquidation report: quote amounts do not add up".into())?;
        perp_spot(cx, l.perp_market_index, l.price)?;
    }
    for (_, l) in all::<PerpLiqNegativePnlOrBankruptcyLog>(cx) {
        let st = settle(l.perp_market_index)?;
        t(l.liqee, st, -q(l.settlement));
        t(l.liqor, st, q(l.settlement));
        p(l.liqee, l.perp_market_index, 0, q(l.settlement));
        p(l.liqor, l.perp_market_index, 0, -q(l.settlement));
    }
    for (_, l) in all::<PerpLiqBankruptcyLog>(cx) {
        let n = perpn(cx, l.perp_market_index)?;
        let (m0, m1) = (cx.fx.w.perp(cx.pre, n), cx.fx.w.perp(cx.post, n));
        ensure(l.starting_long_funding == m0.long_funding.to_bits() && l.starting_short_funding == m0.short_funding.to_bits(), || "perp bankruptcy report has the wrong starting funding".into())?;
        ensure(l.ending_long_funding == m1.long_funding.to_bits() && l.ending_short_funding == m1.short_funding.to_bits(), || "perp bankruptcy report has the wrong ending funding".into())?;
        let fund = |s: &State| s.token_amount(&cx.fx.w.insurance_vault) as i128;
        ensure(near(q(l.insurance_transfer), (fund(cx.pre) - fund(cx.post)) as f64, 1e-6), || "perp bankruptcy report has the wrong insurance amount".into())?;
        let lost = (q(l.ending_long_funding) - q(l.starting_long_funding)) * m0.open_interest as f64;
        ensure(near(q(l.socialized_loss), lost, 1e-3), || format!("perp bankruptcy report has the wrong socialized loss | {} vs {lost}", q(l.socialized_loss)))?;
        t(l.liqor, cx.fx.w.toks[0].index, q(l.insurance_transfer));
        skip_perp.push(l.perp_market_index);
    }
    for (_, l) in all::<PerpForceClosePositionLog>(cx) {
        p(l.account_a, l.perp_market_index, -l.base_transfer, q(l.quote_transfer));
        p(l.account_b, l.perp_market_index, l.base_transfer, -q(l.quote_transfer));
        perp_spot(cx, l.perp_market_index, l.price)?;
    }
    for (_, l) in all::<PerpTakerTradeLog>(cx) {
        p(l.mango_account, l.perp_market_index, 0, -q(l.taker_fees_paid) - q(l.fee_penalty));
    }
    for (_, l) in all::<FillLogV3>(cx) {
        let m = cx.fx.w.perp(cx.pre, perpn(cx, l.market_index)?);
        let quote = (l.price * l.quantity * m.quote_lot_size) as f64;
        let side = if l.taker_side == 0 { 1 } else { -1 };
        p(l.taker, l.market_index, side * l.quantity, -side as f64 * quote);
        p(l.maker, l.market_index, -side * l.quantity, side as f64 * quote - if l.maker == l.taker { quote * l.maker_fee as f64 } else { quote * l.maker_fee as f64 });
    }
    drop((t, p));
    // what a taker has taken but not yet been filled
    let mut taken: BTreeMap<(Pubkey, u16), (i64, i64)> = BTreeMap::new();
    let mut take = |k: Pubkey, i: u16, side: u8, base: i64, quote: i64| {
        let s = if side == 0 { 1 } else { -1 };
        let e = taken.entry((k, i)).or_default();
        e.0 += s * base;
        e.1 -= s * quote;
    };
    for (_, l) in all::<PerpTakerTradeLog>(cx) {
        take(l.mango_account, l.perp_market_index, l.taker_side, l.total_base_lots_taken, l.total_quote_lots_taken);
    }
    for (_, l) in all::<FillLogV3>(cx) {
        take(l.taker, l.market_index, l.taker_side, -l.quantity, -l.price * l.quantity);
    }
    for (k, want) in &charged {
        let mut paid = 0.0;
        for (n, x) in cx.fx.w.toks.iter().enumerate() {
            let at = |m: &BTreeMap<Pubkey, Acc>, s: &State| m.get(k).and_then(|a| a.tok(x.index)).map(|p| native_of(p, &cx.fx.w.bank(s, n))).unwrap_or(0.0);
            paid += (at(&b.pre, cx.pre) - at(&b.post, cx.post)) * oracle_price(cx.post, &x.oracle);
        }
        ensure(near(paid, *want, 1e-3), || format!("collateral fees reported are not the fees paid | {k}: {paid} vs {want}"))?;
    }
    if !orders_moved(cx) && charged.is_empty() {
        for (k, a) in &b.post {
            for (n, x) in cx.fx.w.toks.iter().enumerate() {
                let (b0, b1) = (cx.fx.w.bank(cx.pre, n), cx.fx.w.bank(cx.post, n));
                let moved = b0.deposit_index != b1.deposit_index || b0.borrow_index != b1.borrow_index;
                let dao = skip_tok.contains(&u16::MAX) && cx.fx.accts[0] != *k;
                if moved || skip_tok.contains(&x.index) || dao {
                    continue;
                }
                let at = |a: Option<&Acc>, b: &Bank| a.and_then(|a| a.tok(x.index)).map(|p| native_of(p, b));
                let (n0, n1) = (at(b.pre.get(k), &b0), at(Some(a), &b1));
                let want = tok.remove(&(*k, x.index)).unwrap_or(0.0);
                let is = n1.unwrap_or(0.0) - n0.unwrap_or(0.0);
                let tol = if n1.is_none() { 1.0 } else { 1e-6 };
                ensure(near(is, want, tol), || format!("reported amounts do not add up to the change of a token balance | {k} token {}: {is} vs {want}", x.index))?;
            }
        }
    }
    for (k, a) in &b.post {
        for w in &cx.fx.w.perps {
            let Some(p1) = a.perp(w.index) else { continue };
            let p0 = b.pre.get(k).and_then(|a| a.perp(w.index));
            let (base, quote) = perp.remove(&(*k, w.index)).unwrap_or_default();
            let (tb, tq) = taken.remove(&(*k, w.index)).unwrap_or_default();
            let d = (p1.taker_base_lots - p0.map_or(0, |p| p.taker_base_lots), p1.taker_quote_lots - p0.map_or(0, |p| p.taker_quote_lots));
            ensure(d == (tb, tq), || format!("reported takes and fills do not add up to the pending takes | {k} market {}: {d:?} vs {:?}", w.index, (tb, tq)))?;
            let db = p1.base_position_lots - p0.map_or(0, |p| p.base_position_lots);
            ensure(db == base, || format!("reported amounts do not add up to the change of a perp position | {k} market {}: {db} vs {base}", w.index))?;
            if skip_perp.contains(&w.index) {
                continue;
            }
            let fund = p1.cumulative_long_funding - p1.cumulative_short_funding - p0.map_or(0.0, |p| p.cumulative_long_funding - p.cumulative_short_funding);
            let dq = f(p1.quote_position_native) - p0.map_or(0.0, |p| f(p.quote_position_native)) + fund;
            ensure(near(dq, quote, 1e-3) || unfilled_ioc(cx, k, dq), || format!("reported amounts do not add up to the change of a perp quote balance | {k} market {}: {dq} vs {quote}", w.index))?;
        }
    }
    Ok(())
}
fn orders_moved(cx: &Cx) -> bool {
    !all::<Serum3OpenOrdersBalanceLogV2>(cx).is_empty()
}
/// what all depositors of a token lost through its deposit index
fn bank_loss(cx: &Cx, n: usize) -> f64 {
    let all0: f64 = crate::oracles::banks(&cx.fx.w, cx.post, &cx.fx.w.toks[n]).iter().map(|b| f(b.indexed_deposits)).sum();
    let (b0, b1) = (cx.fx.w.bank(cx.pre, n), cx.fx.w.bank(cx.post, n));
    all0 * (f(b0.deposit_index) - f(b1.deposit_index))
}
fn spot(cx: &Cx, i: TokenIndex, price: i128) -> Result<(), String> {
    let n = tokn(cx, i)?;
    let want = oracle_price(cx.post, &cx.fx.w.toks[n].oracle);
    ensure(near(q(price), want, 1e-9), || format!("event has the wrong price | token {i}: {} vs {want}", q(price)))
}
fn perp_spot(cx: &Cx, i: u16, price: i128) -> Result<(), String> {
    let want = oracle_price(cx.post, &cx.fx.w.perps[perpn(cx, i)?].oracle);
    ensure(near(q(price), want, 1e-9), || format!("event has the wrong price | perp market {i}: {} vs {want}", q(price)))
}
/// index and funding updates report the values they leave behind
fn rates(cx: &Cx) -> Result<(), String> {
    let last: BTreeMap<TokenIndex, UpdateIndexLog> = all::<UpdateIndexLog>(cx).into_iter().map(|(_, l)| (l.token_index, l)).collect();
    for l in last.values() {
        let n = tokn(cx, l.token_index)?;
        let bs = crate::oracles::banks(&cx.fx.w, cx.post, &cx.fx.w.toks[n]);
        let b = &bs[0];
        ensure((l.deposit_index, l.borrow_index, l.avg_utilization) == (b.deposit_index.to_bits(), b.borrow_index.to_bits(), b.avg_utilization.to_bits()), || "index report differs from the bank".into())?;
        ensure(near(q(l.stable_price), b.stable_price_model.stable_price, 1e-9), || "index report has the wrong stable price".into())?;
        let sum = |g: fn(&Bank) -> f64| bs.iter().map(g).sum::<f64>();
        ensure(near(q(l.total_deposits), sum(bank_native_deposits), 1e-6) && near(q(l.total_borrows), sum(bank_native_borrows), 1e-6), || "index report has the wrong totals".into())?;
        spot(cx, l.token_index, l.price)?;
        ensure(bs.iter().any(|b| b.collected_fees_native.to_bits() == l.collected_fees), || "index report has the wrong fees".into())?;
    }
    for (_, l) in all::<UpdateRateLogV2>(cx) {
        let b = cx.fx.w.bank(cx.post, tokn(cx, l.token_index)?);
        ensure((l.rate0, l.rate1, l.max_rate, l.util0, l.util1) == (b.rate0.to_bits(), b.rate1.to_bits(), b.max_rate.to_bits(), b.util0.to_bits(), b.util1.to_bits()), || "rate report differs from the bank".into())?;
        ensure((l.curve_scaling, l.target_utilization) == (b.interest_curve_scaling, b.interest_target_utilization), || "rate report differs from the bank".into())?;
    }
    for (_, l) in all::<PerpUpdateFundingLogV2>(cx) {
        let n = perpn(cx, l.market_index)?;
        let m = cx.fx.w.perp(cx.post, n);
        ensure((l.long_funding, l.short_funding) == (m.long_funding.to_bits(), m.short_funding.to_bits()) && ((l.fees_accrued, l.fees_settled) == (m.fees_accrued.to_bits(), m.fees_settled.to_bits()) || !updates_only(cx)), || "funding report differs from the market".into())?;
        ensure(l.open_interest == m.open_interest || !updates_only(cx), || "funding report has the wrong open interest".into())?;
        ensure(near(q(l.stable_price), m.stable_price_model.stable_price, 1e-9), || "funding report has the wrong stable price".into())?;
        perp_spot(cx, l.market_index, l.price)?;
    }
    Ok(())
}
fn updates_only(cx: &Cx) -> bool {
    use anchor_lang::Discriminator;
    cx.ixs.len() == 1 && cx.ixs[0].data.starts_with(&mango_v4::instruction::PerpUpdateFunding::DISCRIMINATOR)
}
/// the interest an account is shown is what its balance earned and paid
fn interest(cx: &Cx, b: &Both) -> Result<(), String> {
    for (k, a) in &b.post {
        let Some(a0) = b.pre.get(k) else { continue };
        for (n, t) in cx.fx.w.toks.iter().enumerate() {
            let Some(p0) = a0.tok(t.index) else { continue };
            let (b0, b1) = (cx.fx.w.bank(cx.pre, n), cx.fx.w.bank(cx.post, n));
            if b0.deposit_index != b1.deposit_index || b0.borrow_index != b1.borrow_index {
                continue;
            }
            let x = f(p0.indexed_position);
            let Some(p1) = a.tok(t.index) else {
                let l = all::<DeactivateTokenPositionLog>(cx).into_iter().map(|x| x.1).filter(|l| l.mango_account == *k && l.token_index == t.index).last().ok_or("token position closed without a report")?;
                let (d, bo) = (l.cumulative_deposit_interest - p0.cumulative_deposit_interest, l.cumulative_borrow_interest - p0.cumulative_borrow_interest);
                let due = (x.max(0.0) * (f(b0.deposit_index) - f(p0.previous_index)), -x.min(0.0) * (f(b0.borrow_index) - f(p0.previous_index)));
                ensure(near(d, due.0, 1e-6) && near(bo, due.1, 1e-6) || d == 0.0 && bo == 0.0 && x == 0.0, || format!("interest reported for a closed position is not the interest earned | {k} token {}: {d} {bo} vs {due:?}", t.index))?;
                continue;
            };
            let (d, bo) = (p1.cumulative_deposit_interest - p0.cumulative_deposit_interest, p1.cumulative_borrow_interest - p0.cumulative_borrow_interest);
            let due = (x.max(0.0) * (f(b0.deposit_index) - f(p0.previous_index)), -x.min(0.0) * (f(b0.borrow_index) - f(p0.previous_index)));
            let touched = p0.indexed_position != p1.indexed_position || p0.previous_index != p1.previous_index;
            let is_due = |t: f64| near(d, if x > 0.0 { due.0 } else { 0.0 }, t) && near(bo, if x < 0.0 { due.1 } else { 0.0 }, t);
            ensure(if touched { is_due(1e-6) } else { d == 0.0 && bo == 0.0 || is_due(1e-6) }, || format!("interest shown is not the interest earned | {k} token {}: {d} {bo} vs {due:?}", t.index))?;
            if touched {
                let i = if p1.indexed_position > 0 { b1.deposit_index } else { b1.borrow_index };
                ensure(p1.previous_index == i || p1.indexed_position == 0, || format!("interest shown restarts from the wrong index | {k} token {}", t.index))?;
            }
        }
    }
    Ok(())
}
pub fn logs_spec(cx: &Cx) -> Result<(), String> {
    if !cx.ok() || cx.ixs.is_empty() {
        return Ok(());
    }
    let b = both(cx);
    token_balances(cx, &b)?;
    perp_balances(cx, &b)?;
    orders(cx)?;
    amounts(cx, &b)?;
    rates(cx)?;
    interest(cx, &b)
}
