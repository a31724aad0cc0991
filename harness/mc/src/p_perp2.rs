//! Perp markets: settling pnl and fees, liquidation, bankruptcy, wind-down.
use crate::p_perp::*;
use crate::perp_ref::*;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::state::*;
use std::collections::BTreeMap;

/// Decisions that depend on a comparison the reference arithmetic cannot settle exactly: every outcome
/// of these is tried, and one of them has to explain what happened.
pub struct Choice {
    given: Vec<bool>,
    pos: usize,
}
impl Choice {
    fn ask(&mut self) -> bool {
        let r = self.given.get(self.pos).cloned().unwrap_or(false);
        self.pos += 1;
        r
    }
    /// x < y
    pub fn lt(&mut self, x: f64, y: f64) -> bool {
        if (x - y).abs() < 1e-6 {
            self.ask()
        } else {
            x < y
        }
    }
    pub fn ceil(&mut self, x: f64) -> f64 {
        if (x - x.round()).abs() < 1e-6 {
            x.round() + if self.ask() { 1.0 } else { 0.0 }
        } else {
            x.ceil()
        }
    }
}
pub fn alternatives(f: impl Fn(&mut Choice) -> Result<(), String>) -> Result<(), String> {
    let mut c = Choice { given: vec![], pos: 0 };
    let r = f(&mut c);
    if r.is_ok() || c.pos == 0 {
        return r;
    }
    for bits in 1u32..1 << 8 {
        let mut c = Choice { given: (0..8).map(|i| bits >> i & 1 == 1).collect(), pos: 0 };
        if f(&mut c).is_ok() {
            return Ok(());
        }
    }
    r
}

/// expected changes of the accounts' perp-spot transfer totals (value before rounding to an integer)
type Transfers = BTreeMap<usize, Vec<f64>>;
fn trunc_sum(v: &[f64]) -> (i64, i64) {
    let slack = v.iter().filter(|x| (*x - x.round()).abs() < 1e-6).count() as i64;
    (v.iter().map(|x| x.trunc() as i64).sum(), slack)
}
fn transfer(m: &mut RM, tr: &mut Transfers, a: usize, x: f64) {
    let (n, sl) = trunc_sum(&[x]);
    let p = m.ra(a).p();
    p.transfers += n;
    p.slack += sl;
    tr.entry(a).or_default().push(x);
}
fn settle_tok(m: &RM) -> usize {
    m.fx.w.tok_by_index(m.m.settle_token_index)
}
/// state and account with modelled balances and perp position in place
fn hyp_full(m: &RM, led: &Led, a: usize) -> (State, Acc) {
    let s = m.hyp_on(led.hyp());
    let h = m.fx.acc(&s, a);
    let mut acc = m.put_pos(a, m.ras[&a].acc.clone());
    for t in h.active_tokens() {
        let i = acc.tokens.iter().position(|x| x.token_index == t.token_index).or_else(|| acc.tokens.iter().position(|x| x.token_index == TokenIndex::MAX));
        if let Some(i) = i {
            acc.tokens[i] = *t;
        }
    }
    (s, acc)
}
/// the outcome matches market, accounts, balances and statistics as modelled, and nothing else changed
fn finish(cx: &Cx, m: &RM, led: &Led, tr: &Transfers, extra: &[anchor_lang::prelude::Pubkey]) -> Result<(), String> {
    m.check(cx, 1e-4)?;
    led.check(cx, 1e-4)?;
    let w = &cx.fx.w;
    for a in m.ras.keys().chain(led.accts().iter()) {
        let moved: Vec<_> = led.bal.keys().filter(|k| k.0 == *a).map(|k| w.toks[k.1].index).collect();
        balances_same(cx, *a, &moved)?;
        let d = cx.fx.acc(cx.post, *a).fixed.perp_spot_transfers - cx.fx.acc(cx.pre, *a).fixed.perp_spot_transfers;
        let (n, sl) = trunc_sum(tr.get(a).map(|v| &v[..]).unwrap_or(&[]));
        ensure((d - n).abs() <= sl, || format!("perp-spot transfer total of a{a} changed by {d} instead of {n}"))?;
        rest_same(cx, *a, May { liq: true, perps: true, oos: true, spot_transfers: true, ..Default::default() })?;
    }
    let mut keys = m.keys(extra);
    keys.extend(led.keys(&[]));
    frame(cx, &keys)
}
fn not_frozen(cx: &Cx, pr: &mut Pred, accts: &[usize]) {
    for &a in accts {
        pr.must(cx.fx.acc(cx.pre, a).operational(cx.pre), "account is frozen");
    }
}
fn pos_exists(m: &mut RM, pr: &mut Pred, a: usize) -> bool {
    let c = m.ra(a).pos.is_some();
    pr.must(c, "no perp position in this market");
    c
}
fn upnl(m: &RM, p: &RP) -> f64 {
    p.quote + (p.base * m.base_lot) as f64 * m.oracle
}
/// strictly positive, undecided close to zero
fn positive(pr: &mut Pred, x: f64, why: &str) {
    if x.abs() < 1e-7 {
        pr.fuzz();
    } else {
        pr.must(x > 0.0, why);
    }
}
fn flag_same(cx: &Cx, a: usize) -> Result<(), String> {
    ensure(cx.fx.acc(cx.pre, a).being_liquidated == cx.fx.acc(cx.post, a).being_liquidated, || "the being-liquidated flag changed".into())
}

/// byte offset of `frozen_until` in an account
pub const OFF_FROZEN: usize = 8 + 32 * 4 + 4 + 4 + 8 * 3;

pub fn freeze_env(sc: &mut Scen, a: usize) {
    sc.env(format!("a{a} frozen for 500s"), move |fx, s| {
        let until = (s.ts + 500) as u64;
        s.edit(&fx.accts[a], |d| d[OFF_FROZEN..OFF_FROZEN + 8].copy_from_slice(&until.to_le_bytes()))
    });
}

pub fn perp_spec2(cx: &Cx, k: &PK) -> Result<(), String> {
    match k {
        PK::Settle { settler, a, b, p } => alternatives(|c| settle(cx, c, *settler, *a, *b, *p)),
        PK::SettleFees { a, p, max } => settle_fees(cx, *a, *p, *max),
        PK::ForceClose { a, b, p } => force_close(cx, *a, *b, *p),
        PK::Deactivate { a, p } => deactivate(cx, *a, *p),
        PK::ForceCancel { a, p, limit } => force_cancel(cx, *a, *p, *limit),
        PK::LiqBase { liqor, liqee, p, max_base, max_pnl } => alternatives(|c| liq_base(cx, c, *liqor, *liqee, *p, *max_base, *max_pnl)),
        PK::LiqNeg { liqor, liqee, p, max } => alternatives(|c| liq_neg(cx, c, *liqor, *liqee, *p, *max)),
        _ => Err(format!("no specification for {k:?}")),
    }
}

fn settle(cx: &Cx, c: &mut Choice, settler: usize, a: usize, b: usize, p: usize) -> Result<(), String> {
    let fx = cx.fx;
    let w = &fx.w;
    let mut pr = Pred::new();
    let mut m = RM::new(fx, cx.pre, p)?;
    let mut led = Led::new(fx, cx.pre);
    let mut tr = Transfers::new();
    let st = settle_tok(&m);
    let idx = w.toks[st].index;
    not_frozen(cx, &mut pr, &[settler, a, b]);
    pr.must(a != b, "settling with itself");
    if !pos_exists(&mut m, &mut pr, a) | !pos_exists(&mut m, &mut pr, b) || a == b {
        return pr.judge(cx);
    }
    let (aa, ba) = (fx.acc(cx.pre, a), fx.acc(cx.pre, b));
    let b_max = ref_max_settle(w, cx.pre, &ba, idx);
    let (le, ma) = (ref_health(w, cx.pre, &aa, Ht::LiqEnd), ref_health(w, cx.pre, &aa, Ht::Maint));
    let now = m.now;
    for x in [a, b] {
        m.with_pos(x, |p, m| {
            p.settle_funding(m);
            p.update_window(m, now);
        });
    }
    let mut pnl = [0.0; 2];
    let mut lim = [0.0; 2];
    for (i, x) in [a, b].into_iter().enumerate() {
        m.with_pos(x, |p, m| {
            pnl[i] = upnl(m, p);
            lim[i] = p.limited(m, pnl[i]);
        });
    }
    positive(&mut pr, pnl[0], "first account has no profit");
    positive(&mut pr, -pnl[1], "second account has no loss");
    positive(&mut pr, lim[0], "first account's profit is not settleable");
    positive(&mut pr, -lim[1], "second account's loss is not settleable");
    positive(&mut pr, b_max, "nothing backs the loss");
    let has = fx.acc(cx.pre, settler);
    pr.must(has_slot(&has, idx), "settler has no room for the settle token");
    let x = lim[0].min(-lim[1]).min(b_max).max(0.0);
    m.with_pos(a, |p, m| p.settle(m, x));
    m.with_pos(b, |p, m| p.settle(m, -x));
    // settler's fee
    let base_value = (m.ra(a).p().base.abs() * m.base_lot) as f64 * m.oracle;
    let mut fee = 0.0;
    if c.lt(base_value, 100.0 * pnl[0] * price(fx, cx.pre, st)) {
        let frac = m.m.settle_fee_fraction_low_health as f64;
        let low = if le >= 0.0 {
            0.0
        } else if ma < 0.0 {
            x * frac
        } else {
            x * frac * -le / (ma - le)
        };
        let flat = m.m.settle_fee_flat as f64;
        fee = if c.lt(x, m.m.settle_fee_amount_threshold as f64) { low.min(2.0 * flat) } else { flat };
        fee = fee.min(x);
    }
    for (who, v) in [(a, vec![x, -fee]), (b, vec![-x])] {
        for y in v {
            transfer(&mut m, &mut tr, who, y);
        }
    }
    led.deposit(a, st, x - fee, false);
    led.withdraw(b, st, x, false, false);
    led.deposit(settler, st, fee, false);
    pr.judge(cx)?;
    if cx.ok() {
        finish(cx, &m, &led, &tr, &[])?;
        for x in [a, b, settler] {
            flag_same(cx, x)?;
        }
    }
    Ok(())
}

fn settle_fees(cx: &Cx, a: usize, p: usize, max: u64) -> Result<(), String> {
    let fx = cx.fx;
    let mut pr = Pred::new();
    let mut m = RM::new(fx, cx.pre, p)?;
    let mut led = Led::new(fx, cx.pre);
    let mut tr = Transfers::new();
    let st = settle_tok(&m);
    not_frozen(cx, &mut pr, &[a]);
    pr.must(max > 0, "zero amount");
    if !pos_exists(&mut m, &mut pr, a) {
        return pr.judge(cx);
    }
    let mut lim = 0.0;
    let now = m.now;
    m.with_pos(a, |p, m| {
        p.settle_funding(m);
        p.update_window(m, now);
        lim = p.limited(m, upnl(m, p));
    });
    let x = (-lim).min(m.fees).min(max as f64).max(0.0);
    if x > 0.0 {
        m.with_pos(a, |p, m| p.settle(m, -x));
        m.fees -= x;
        m.fees_settled += x;
        let r = m.ra(a).p();
        r.transfers -= (x + 0.5).floor() as i64;
        r.slack += ((x + 0.5 - (x + 0.5).round()).abs() < 1e-6) as i64;
        tr.entry(a).or_default().push(-(x + 0.5).floor());
        led.withdraw(a, st, x, false, false);
        let (s, acc) = hyp_full(&m, &led, a);
        pr.ge(ref_health(&fx.w, &s, &acc, Ht::Init), 0.0, 1e-3, "account would not be healthy");
    }
    pr.judge(cx)?;
    if cx.ok() {
        finish(cx, &m, &led, &tr, &[])?;
        flag_same(cx, a)?;
    }
    Ok(())
}

fn force_close(cx: &Cx, a: usize, b: usize, p: usize) -> Result<(), String> {
    let fx = cx.fx;
    let mut pr = Pred::new();
    let mut m = RM::new(fx, cx.pre, p)?;
    let led = Led::new(fx, cx.pre);
    pr.must(m.m.force_close == 1, "market is not in force-close mode");
    not_frozen(cx, &mut pr, &[a, b]);
    pr.must(a != b, "same account");
    if !pos_exists(&mut m, &mut pr, a) | !pos_exists(&mut m, &mut pr, b) || a == b {
        return pr.judge(cx);
    }
    let (x, y) = (m.ra(a).p().base, m.ra(b).p().base);
    pr.must(x > 0 && y < 0, "needs a long and a short position");
    if pr.refuse.is_none() {
        let n = x.min(-y);
        let q = (n * m.base_lot) as f64 * m.oracle;
        m.with_pos(a, |p, m| {
            p.settle_funding(m);
            p.trade(m, -n, q);
        });
        m.with_pos(b, |p, m| {
            p.settle_funding(m);
            p.trade(m, n, -q);
        });
    }
    pr.judge(cx)?;
    if cx.ok() {
        finish(cx, &m, &led, &Transfers::new(), &[])?;
        flag_same(cx, a)?;
        flag_same(cx, b)?;
    }
    Ok(())
}

fn deactivate(cx: &Cx, a: usize, p: usize) -> Result<(), String> {
    let fx = cx.fx;
    let mut pr = Pred::new();
    let mut m = RM::new(fx, cx.pre, p)?;
    let led = Led::new(fx, cx.pre);
    if !pos_exists(&mut m, &mut pr, a) {
        return pr.judge(cx);
    }
    not_frozen(cx, &mut pr, &[a]);
    let st = m.m.settle_token_index;
    let key = fx.accts[a];
    let waiting = m.ev.iter().any(|e| match e {
        Ev::Fill { maker, taker, .. } => *maker == key || *taker == key,
        Ev::Out { owner, .. } => *owner == key,
    });
    pr.must(!waiting, "fills or removals of the account are not processed");
    let r = m.ra(a);
    let x = r.acc.perps[r.slot];
    pr.must(x.base_position_lots == 0 && x.quote_position_native.to_bits() == 0, "position is not empty");
    pr.must(x.bids_base_lots == 0 && x.asks_base_lots == 0, "orders are open");
    pr.must(x.taker_base_lots == 0 && x.taker_quote_lots == 0, "fills are not processed");
    r.pos = None;
    for t in r.acc.tokens.iter_mut().filter(|t| t.token_index == st) {
        t.in_use_count -= 1;
    }
    pr.judge(cx)?;
    if cx.ok() {
        finish(cx, &m, &led, &Transfers::new(), &[])?;
        flag_same(cx, a)?;
    }
    Ok(())
}

fn force_cancel(cx: &Cx, a: usize, p: usize, limit: u8) -> Result<(), String> {
    let fx = cx.fx;
    let w = &fx.w;
    let mut pr = Pred::new();
    let acc = fx.acc(cx.pre, a);
    let mut m = RM::new(fx, cx.pre, p)?;
    let frozen = !acc.operational(cx.pre);
    let liq = liquidatable(w, cx.pre, &acc);
    if liq == Liq::Unsure {
        return Ok(());
    }
    let go = frozen || liq == Liq::Go || m.m.force_close == 1;
    if !go {
        pr.judge(cx)?;
        return if cx.ok() { liq_noop(cx, a) } else { Ok(()) };
    }
    m.ra(a);
    if m.ra(a).pos.is_none() {
        pr.must(false, "no perp position in this market");
        return pr.judge(cx);
    }
    m.cancel_all(a, None, limit, &mut pr);
    pr.judge(cx)?;
    if cx.ok() && !m.unsure {
        finish(cx, &m, &Led::new(fx, cx.pre), &Transfers::new(), &[])?;
        let h = ref_health(w, cx.post, &fx.acc(cx.post, a), Ht::LiqEnd);
        if (h + 1.0).abs() > 1e-3 {
            let e = liq == Liq::Go && h <= -1.0;
            let got = fx.acc(cx.post, a).being_liquidated;
            ensure(got == e, || format!("being-liquidated flag is wrong after the forced cancel | {got} expected {e}, liquidation end health {h}"))?;
        }
    }
    Ok(())
}

/// (base lots to reduce by, pnl to take over, gain per lot, health-unsettled pnl left)
#[allow(clippy::too_many_arguments)]
fn liq_base_amounts(c: &mut Choice, m: &RM, h0: f64, tok0: f64, u0: f64, base: i64, max_base: i64, max_pnl: f64, aw: f64, lw: f64) -> (i64, f64, f64, f64) {
    let px = m.oracle * m.base_lot as f64;
    let fee = f(m.m.base_liquidation_fee);
    let plat = f(m.m.platform_liquidation_fee);
    let per_lot = if base > 0 { px * (1.0 - fee - plat - f(m.m.init_base_asset_weight)) } else { px * (f(m.m.init_base_liab_weight) - 1.0 - fee - plat) };
    let gain = 1.0 - f(m.m.positive_pnl_liquidation_fee);
    let wo = f(m.m.init_overall_asset_weight);
    let val = |x: f64| if x >= 0.0 { x * aw } else { x * lw };
    let (mut h, mut tok, mut u) = (h0, tok0, u0);
    let (mut red, mut pnl) = (0i64, 0.0f64);
    let reduce = |c: &mut Choice, lim: f64, expected: f64, actual: f64, h: &mut f64, tok: &mut f64, u: &mut f64, red: &mut i64| {
        let need = given_to_zero(*h, *tok, aw, lw).min(lim);
        let n = (c.ceil(need / expected).min(1e17) as i64).min(base.abs() - *red).min(max_base.abs() - *red).max(0);
        let t = *tok + actual * n as f64;
        *h += val(t) - val(*tok);
        *tok = t;
        *u += per_lot * n as f64;
        *red += n;
    };
    let settle = |h: &mut f64, tok: &mut f64, u: &mut f64, pnl: &mut f64| {
        let per = gain - wo;
        let x = (given_to_zero(*h, *tok, aw, lw) / per).min(max_pnl - *pnl).min(*u).max(0.0);
        let t = *tok + x * per;
        *h += val(t) - val(*tok);
        *tok = t;
        *u -= x;
        *pnl += x;
    };
    if u < 0.0 {
        reduce(c, -u, per_lot, per_lot, &mut h, &mut tok, &mut u, &mut red);
    }
    if gain > wo && !c.lt(u, 0.0) {
        settle(&mut h, &mut tok, &mut u, &mut pnl);
    }
    if !c.lt(u, 0.0) && pnl < max_pnl {
        reduce(c, max_pnl - pnl, per_lot * gain, per_lot * wo, &mut h, &mut tok, &mut u, &mut red);
    }
    if gain > wo && !c.lt(u, 0.0) {
        settle(&mut h, &mut tok, &mut u, &mut pnl);
    }
    if wo > 0.0 && c.lt(h, -0.5) {
        reduce(c, f64::INFINITY, per_lot * wo, per_lot * wo, &mut h, &mut tok, &mut u, &mut red);
    }
    (red, pnl, per_lot, u)
}

fn liq_base(cx: &Cx, c: &mut Choice, liqor: usize, liqee: usize, p: usize, max_base: i64, max_pnl: u64) -> Result<(), String> {
    let fx = cx.fx;
    let w = &fx.w;
    let mut pr = Pred::new();
    let mut m = RM::new(fx, cx.pre, p)?;
    let mut led = Led::new(fx, cx.pre);
    let mut tr = Transfers::new();
    let st = settle_tok(&m);
    let idx = w.toks[st].index;
    not_frozen(cx, &mut pr, &[liqor, liqee]);
    pr.must(liqor != liqee, "liquidating itself");
    if liqor == liqee {
        return pr.judge(cx);
    }
    let (ee, or) = (fx.acc(cx.pre, liqee), fx.acc(cx.pre, liqor));
    pr.must(!or.being_liquidated, "liquidator is being liquidated itself");
    must_be_past_phase1(&mut pr, cx.pre, &ee);
    match liquidatable(w, cx.pre, &ee) {
        Liq::Unsure => return Ok(()),
        Liq::No => {
            pr.judge(cx)?;
            return if cx.ok() { liq_noop(cx, liqee) } else { Ok(()) };
        }
        Liq::Go => {}
    }
    if !pos_exists(&mut m, &mut pr, liqee) {
        return pr.judge(cx);
    }
    let q = ee.perps[m.ra(liqee).slot];
    pr.must(q.taker_base_lots == 0 && q.taker_quote_lots == 0, "fills are not processed");
    if !m.ensure(liqor, &mut pr) {
        return pr.judge(cx);
    }
    led.held.insert((liqor, st));
    // what health sees
    let (h0, toks) = ref_health_toks(w, cx.pre, &ee, Ht::LiqEnd, false);
    let t = toks.iter().find(|x| x.index == idx).unwrap();
    let (aw, lw) = (t.asset_w(Ht::LiqEnd, cx.pre.ts as f64) * t.asset_price(Ht::LiqEnd), t.liab_w(Ht::LiqEnd, cx.pre.ts as f64) * t.liab_price(Ht::LiqEnd));
    let tok0 = t.spot + t.perp;
    let u0 = ref_hupnl_both(w, cx.pre, &q, Ht::LiqEnd).1;
    let now = m.now;
    let (mut limit, mut limit_slack) = (0.0, 0);
    m.with_pos(liqee, |p, m| {
        p.settle_funding(m);
        p.update_window(m, now);
        let s0 = p.slack;
        limit = p.settle_limit(m).1;
        limit_slack = p.slack - s0;
    });
    m.with_pos(liqor, |p, m| p.settle_funding(m));
    let base = q.base_position_lots;
    pr.must(if base > 0 { max_base >= 0 } else { max_base <= 0 }, "requested transfer has the wrong sign");
    if pr.refuse.is_some() {
        return pr.judge(cx);
    }
    let max_base = max_base.max(i64::MIN + 1);
    let (red, pnl, per_lot, u_left) = liq_base_amounts(c, &m, h0, tok0, u0, base, max_base, max_pnl as f64, aw, lw);
    pr.must(per_lot > 0.0, "fees exceed the weights");
    let n = if base > 0 { -red } else { red };
    let px = m.oracle * m.base_lot as f64;
    let (fee, plat) = (f(m.m.base_liquidation_fee), f(m.m.platform_liquidation_fee));
    let sg = if base > 0 { -1.0 } else { 1.0 };
    let qb = -(n as f64) * px;
    let (q_ee, q_or) = (qb * (1.0 + sg * (fee + plat)), -qb * (1.0 + sg * fee));
    if n != 0 {
        m.with_pos(liqee, |p, m| p.trade(m, n, q_ee));
        m.with_pos(liqor, |p, m| p.trade(m, -n, q_or));
    }
    let pf = (-q_or - q_ee).max(0.0);
    m.fees += pf;
    m.liq_fees += pf;
    // a remainder that is only rounding may or may not be taken over
    if pnl > 1e-6 || (u_left.abs() < 1e-6 && c.ask()) {
        let lim = if limit >= i64::MAX as f64 { i64::MAX as i128 } else { limit as i128 };
        let near = |x: f64| (x - x.round()).abs() < 1e-6;
        let r = m.ra(liqee).p().clone();
        let one = (r.oneshot.ceil() as i128).max(0);
        let rec = (lim - one).max(0);
        let tot0 = upnl(&m, &r);
        let settled = pnl.floor() as i128;
        let total = (tot0.ceil() as i128).max(1).max(settled);
        let cap = pnl.ceil() as i64;
        let tr_rec = ((rec * settled / total) as i64).min(cap).max(1);
        let tr_one = ((one * settled / total) as i64).min(cap - tr_rec).max(0);
        let loose = near(pnl) || near(tot0) || near(r.oneshot) || limit_slack > 0;
        let got = f(cx.post.zc_opt_oneshot(fx, liqor, m.m.perp_market_index));
        let x = m.ra(liqor).p();
        x.quote += pnl;
        x.recurring += tr_rec;
        x.oneshot += tr_one as f64;
        if loose {
            // integer roundings that may go either way
            x.slack += 2;
            if (got - x.oneshot).abs() <= 2.0 {
                x.oneshot = got;
            }
        }
        m.with_pos(liqee, |p, m| p.settle(m, pnl));
        let y = pnl * (1.0 - f(m.m.positive_pnl_liquidation_fee));
        transfer(&mut m, &mut tr, liqor, -y);
        transfer(&mut m, &mut tr, liqee, y);
        led.deposit(liqee, st, y, false);
        led.withdraw(liqor, st, y, false, false);
    }
    let (s, acc) = hyp_full(&m, &led, liqee);
    let h1 = ref_health(w, &s, &acc, Ht::LiqEnd);
    pr.ge(h1, h0, 1e-4, "liquidation would lower the liqee's health");
    if !or.in_health_region {
        let (s, acc) = hyp_full(&m, &led, liqor);
        pr.ge(ref_health(w, &s, &acc, Ht::Init), 0.0, 1e-3, "liquidator would not be healthy");
    }
    pr.judge(cx)?;
    if cx.ok() {
        finish(cx, &m, &led, &tr, &[])?;
        liq_flag_after(cx, liqee)?;
        flag_same(cx, liqor)?;
    }
    Ok(())
}
trait Oneshot {
    fn zc_opt_oneshot(&self, fx: &Fix, a: usize, idx: PerpMarketIndex) -> fixed::types::I80F48;
}
impl Oneshot for State {
    fn zc_opt_oneshot(&self, fx: &Fix, a: usize, idx: PerpMarketIndex) -> fixed::types::I80F48 {
        fx.acc(self, a).perp(idx).map(|p| p.oneshot_settle_pnl_allowance).unwrap_or_default()
    }
}

fn liq_neg(cx: &Cx, c: &mut Choice, liqor: usize, liqee: usize, p: usize, max: u64) -> Result<(), String> {
    let fx = cx.fx;
    let w = &fx.w;
    let mut pr = Pred::new();
    let mut m = RM::new(fx, cx.pre, p)?;
    let mut led = Led::new(fx, cx.pre);
    let mut tr = Transfers::new();
    let st = settle_tok(&m);
    let idx = w.toks[st].index;
    not_frozen(cx, &mut pr, &[liqor, liqee]);
    pr.must(liqor != liqee, "liquidating itself");
    if liqor == liqee {
        return pr.judge(cx);
    }
    let (ee, or) = (fx.acc(cx.pre, liqee), fx.acc(cx.pre, liqor));
    pr.must(!or.being_liquidated, "liquidator is being liquidated itself");
    must_be_past_phase2(&mut pr, w, cx.pre, &ee);
    match liquidatable(w, cx.pre, &ee) {
        Liq::Unsure => return Ok(()),
        Liq::No => {
            pr.judge(cx)?;
            return if cx.ok() { liq_noop(cx, liqee) } else { Ok(()) };
        }
        Liq::Go => {}
    }
    if !pos_exists(&mut m, &mut pr, liqee) || !m.ensure(liqor, &mut pr) || pr.refuse.is_some() {
        return pr.judge(cx);
    }
    led.held.insert((liqor, st));
    let (h0, toks) = ref_health_toks(w, cx.pre, &ee, Ht::LiqEnd, false);
    let t = toks.iter().find(|x| x.index == idx).unwrap();
    let sp = price(fx, cx.pre, st);
    let (aw, lw) = (f(t.bank.init_asset_weight) * sp, f(t.bank.init_liab_weight) * sp);
    let tok0 = t.spot + t.perp;
    let cap = ref_max_settle(w, cx.pre, &ee, idx);
    let now = m.now;
    let (mut pnl, mut lim) = (0.0, 0.0);
    m.with_pos(liqee, |p, m| {
        p.settle_funding(m);
        p.update_window(m, now);
        pnl = upnl(m, p);
        lim = p.limited(m, pnl);
    });
    m.with_pos(liqor, |p, m| p.settle_funding(m));
    positive(&mut pr, -pnl, "no loss to liquidate");
    let quote_change = |m: &mut RM, a: usize, x: f64| {
        let r = m.ra(a).p();
        r.quote += x;
        r.oneshot += x;
    };
    let max_settle = cap.min(-lim).max(0.0);
    let x = max_settle.min(max as f64);
    if x > 0.0 {
        quote_change(&mut m, liqor, -x);
        m.with_pos(liqee, |p, m| p.settle(m, -x));
        transfer(&mut m, &mut tr, liqor, x);
        transfer(&mut m, &mut tr, liqee, -x);
        led.deposit(liqor, st, x, false);
        led.withdraw(liqee, st, x, false, false);
        pnl += x;
    }
    let full = max_settle <= max as f64 - 1e-6 || (max_settle < max as f64 + 1e-6 && c.ask());
    if full && pnl < -1e-7 {
        let from = (-pnl).min(given_to_zero(h0, tok0, aw, lw)).max(0.0);
        let to = from.min(max as f64 - x).max(0.0);
        let fund = if m.m.group_insurance_fund == 1 { cx.pre.token_amount(&w.insurance_vault) } else { 0 };
        let k = sp * (1.0 + f(m.m.base_liquidation_fee));
        let ip = price(fx, cx.pre, 0);
        let ins = (c.ceil(to * k / ip).max(0.0) as u64).min(fund);
        let ins = if to < 1e-9 { 0 } else { ins };
        let liab = (ins as f64 * ip / k).min(to);
        if ins > 0 {
            led.deposit(liqor, 0, ins as f64, false);
            led.vault(0, ins as i128);
            m.with_pos(liqee, |p, m| p.settle(m, -liab));
            quote_change(&mut m, liqor, -liab);
            pr.must(or.tok(w.toks[0].index).is_some() || st == 0 || m.ras[&liqor].acc.tokens.iter().any(|t| t.token_index == TokenIndex::MAX), "liquidator has no room for the insurance token");
        }
        let rest = from - liab;
        if ins == fund && rest > 0.0 {
            let d = if m.oi == 0 { 0.0 } else { rest / m.oi as f64 };
            m.long += d;
            m.short -= d;
            m.with_pos(liqee, |p, m| p.settle(m, -rest));
        }
        let d = cx.pre.token_amount(&w.insurance_vault) as i128 - if cx.ok() { cx.post.token_amount(&w.insurance_vault) as i128 } else { cx.pre.token_amount(&w.insurance_vault) as i128 - ins as i128 };
        ensure(d == ins as i128, || format!("insurance fund paid the wrong amount | {d} expected {ins}"))?;
    } else if cx.ok() {
        ensure(cx.pre.token_amount(&w.insurance_vault) == cx.post.token_amount(&w.insurance_vault), || "insurance fund paid although no bankruptcy loss is left".into())?;
    }
    if !or.in_health_region {
        let (s, acc) = hyp_full(&m, &led, liqor);
        pr.ge(ref_health(w, &s, &acc, Ht::Init), 0.0, 1e-3, "liquidator would not be healthy");
    }
    pr.judge(cx)?;
    if cx.ok() {
        finish(cx, &m, &led, &tr, &[w.insurance_vault])?;
        liq_flag_after(cx, liqee)?;
        flag_same(cx, liqor)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ scenarios
pub fn deposits(fx: &Fix, s: &mut State, v: &[(usize, usize, u64)]) {
    for &(a, t, n) in v {
        let i = fx.w.deposit(s, fx.accts[a], fx.owners[a], t, n, false);
        must(fx, s, i);
    }
}
pub fn trade(fx: &Fix, s: &mut State, buyer: usize, seller: usize, p: usize, px: i64, lots: i64) {
    perp_do(fx, s, PK::Place(PerpOrd { p, ..ord(seller, 1, 0, px, lots) }));
    perp_do(fx, s, PK::Place(PerpOrd { p, ..ord(buyer, 0, 0, px, lots) }));
    perp_do(fx, s, all_consume(fx, p));
}
fn add_funding(sc: &mut Scen, long: f64, short: f64) {
    sc.env(format!("funding counters +{long} +{short}"), move |fx, s| {
        s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| {
            m.long_funding += fixed::types::I80F48::from_num(long);
            m.short_funding += fixed::types::I80F48::from_num(short);
        })
    });
}
fn toks3() -> [TokCfg; 3] {
    let c = TokCfg { min_vault_ratio: 0.0, loan_orig_fee: 0.005, ..TokCfg::default() };
    [TokCfg { min_vault_ratio: 0.0, loan_orig_fee: 0.005, ..TokCfg::quote() }, TokCfg { price: 2.0, ..c.clone() }, TokCfg { price: 1.5, ..c }]
}
fn perp_world(name: &str, s: &mut State, cfg: PerpCfg, users: usize) -> Fix {
    let mut fx = fix(name, s, &toks3(), &[cfg]);
    for i in 0..users {
        fx.user(s, &format!("u{i}"), 1_000_000_000);
    }
    // liquidity
    let last = users - 1;
    deposits(&fx, s, &[(last, 0, 100_000_000), (last, 1, 100_000_000), (last, 2, 100_000_000)]);
    fx
}

/// settling pnl between accounts, and fees: limits, windows, fees, funding. Settle token is token 0 or 1
pub fn settle_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let base = PerpCfg { settle_flat: 7.5, settle_threshold: 1_500.5, settle_fraction: 0.031, settle_limit_window: 1_000, taker_fee: 0.002_1, maker_fee: -0.000_3, ..PerpCfg::default() };
    let cfg = match v {
        0 => base,
        1 => PerpCfg { settle_tok: 1, settle_limit_factor: -1.0, overall_maint: 0.8, overall_init: 0.6, settle_threshold: 3_000.0, ..base },
        _ => PerpCfg { settle_limit_factor: 0.05, settle_threshold: 1e9, overall_maint: 0.5, overall_init: 0.0, ..base },
    };
    let fx = perp_world(&format!("set{v}"), &mut s, cfg, 5);
    deposits(&fx, &mut s, &[(0, 0, 20_003), (1, 0, 9_001), (2, 0, 5_000), (2, 1, 2_500), (0, 1, 10)]);
    if v != 0 {
        deposits(&fx, &mut s, &[(1, 2, 2_000)]);
    }
    trade(&fx, &mut s, 0, 1, 0, 10, 200);
    trade(&fx, &mut s, 2, 1, 0, 10, 40);
    let i = fx.w.withdraw(&s, fx.accts[0], fx.owners[0], 2, 4_000, true);
    must(&fx, &mut s, i);
    let mut sc = Scen::new(&format!("settling-{v}"), fx);
    let o = sc.fx.w.perps[0].oracle;
    for p in [1.37, 0.77, 1.004] {
        sc.price(o, p);
    }
    let o2 = sc.fx.w.toks[2].oracle;
    sc.price(o2, if v == 0 { 3.9 } else { 4.6 });
    for (settler, a, b) in [(2, 0, 1), (0, 0, 1), (1, 1, 0), (3, 1, 0), (2, 2, 1), (3, 0, 2)] {
        op_perp(&mut sc, PK::Settle { settler, a, b, p: 0 });
    }
    op_perp(&mut sc, PK::Settle { settler: 3, a: 0, b: 0, p: 0 });
    op_perp(&mut sc, PK::Settle { settler: 2, a: 0, b: 3, p: 0 });
    sc.refuse("settle with someone else's signature for the settler", |fx, s| tx1(fx.w.perp_settle_pnl(s, fx.accts[3], fx.owners[2], fx.accts[0], fx.accts[1], 0)));
    for secs in [600i64, 1000] {
        sc.env(format!("advance {secs}s"), move |_, s| s.advance(secs));
    }
    for (a, max) in [(0, 1 << 40), (1, 1 << 40), (1, 3)] {
        op_perp(&mut sc, PK::SettleFees { a, p: 0, max });
    }
    add_funding(&mut sc, 3.7, 2.3);
    sc.op("a0 sells 90 lots to a4 and fills are processed", K::Other(""), |fx, s| {
        let mut t = s.clone();
        let mut v = vec![];
        for o in [ord(4, 0, 0, 11, 90), ord(0, 1, 0, 11, 90)] {
            let i = place_ix(fx, &t, &o);
            if t.tx(&[i.clone()]).is_err() {
                return Act::Skip;
            }
            v.push(i);
        }
        v.push(perp_ix(fx, &t, &all_consume(fx, 0)).unwrap());
        Act::Tx(v)
    });
    op_withdraw(&mut sc, 1, 0, 3_700, true);
    op_deposit(&mut sc, 1, 0, 500, false);
    sc.env("stable price 0.9", |fx, s| s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| m.stable_price_model.stable_price = 0.9));
    (sc, s)
}

/// liquidation of perp base positions and positive pnl; liqee is a1, liquidators a2 and a3
pub fn liq_base_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let base = PerpCfg { liq_fee: 0.011, platform_liq_fee: 0.006, pos_pnl_liq_fee: 0.03, settle_limit_window: 1_000, ..PerpCfg::default() };
    let cfg = match v {
        0 => base,
        1 => PerpCfg { overall_maint: 0.5, overall_init: 0.0, ..base },
        2 => PerpCfg { settle_tok: 1, overall_maint: 0.9, overall_init: 0.4, pos_pnl_liq_fee: 0.02, settle_limit_factor: -1.0, ..base },
        3 => PerpCfg { settle_tok: 1, overall_maint: 0.8, overall_init: 0.7, pos_pnl_liq_fee: 0.3, ..base },
        4 => PerpCfg { overall_maint: 0.6, overall_init: 0.2, settle_limit_factor: 0.012, maker_fee: -0.007, taker_fee: 0.01, ..base },
        _ => PerpCfg { overall_maint: 0.5, overall_init: 0.0, settle_limit_factor: 0.02, maker_fee: -0.004, taker_fee: 0.01, ..base },
    };
    let fx = perp_world(&format!("plq{v}"), &mut s, cfg, 5);
    deposits(&fx, &mut s, &[(1, 0, 5_003), (0, 0, 200_000), (2, 0, 60_000), (3, 0, 900)]);
    // a second market, to see that it is left alone
    let short = v % 2 == 1;
    let (b, sl) = if short { (0, 1) } else { (1, 0) };
    trade(&fx, &mut s, b, sl, 0, 10, 210);
    // part of the position is closed at a profit or a loss
    trade(&fx, &mut s, sl, b, 0, if short { 9 } else { 11 }, 30);
    if v >= 1 {
        // other debt makes liquidation possible while perp pnl is positive
        deposits(&fx, &mut s, &[(1, 0, 1_500), (2, 1, 5_000), (2, 2, 3_000)]);
        let i = fx.w.withdraw(&s, fx.accts[1], fx.owners[1], 2, 900, true);
        must(&fx, &mut s, i);
    }
    let mut sc = Scen::new(&format!("perp-liquidation-{v}"), fx);
    // a recovered account that nobody has unmarked yet
    sc.env("flag a2", |fx, s| s.edit(&fx.accts[2], |d| d[OFF_BEING_LIQ] = 1));
    let o = sc.fx.w.perps[0].oracle;
    for p in if short { [1.23, 0.81, 1.33, 0.93] } else { [0.81, 1.27, 0.72, 1.05] } {
        sc.price(o, p);
    }
    let o2 = sc.fx.w.toks[2].oracle;
    sc.price(o2, 3.4);
    sc.price(o2, 5.9);
    let sg = if short { 1 } else { -1 };
    let _ = sg;
    let dir = if short { -1i64 } else { 1 };
    for (mb, mp) in [(i64::MAX, u64::MAX >> 2), (i64::MAX, 610), (i64::MAX, 1_450), (37 * dir, 0), (100 * dir, 350), (0, 200), (-1, 10), (1, 10)] {
        let mb = if mb == i64::MAX { if short { i64::MIN } else { i64::MAX } } else { mb };
        op_perp(&mut sc, PK::LiqBase { liqor: 2, liqee: 1, p: 0, max_base: mb, max_pnl: mp });
    }
    op_perp(&mut sc, PK::LiqBase { liqor: 3, liqee: 1, p: 0, max_base: 90 * dir, max_pnl: 900 });
    op_perp(&mut sc, PK::LiqBase { liqor: 1, liqee: 1, p: 0, max_base: 10 * dir, max_pnl: 10 });
    op_perp(&mut sc, PK::LiqBase { liqor: 0, liqee: 1, p: 0, max_base: 60 * dir, max_pnl: 500 });
    sc.refuse("liquidate with someone else's signature", move |fx, s| tx1(fx.w.perp_liq_base(s, fx.accts[2], fx.owners[3], fx.accts[1], 0, 10 * dir, 10)));
    op_perp(&mut sc, PK::Place(ord(1, 0, 0, 2, 5)));
    op_perp(&mut sc, PK::CancelAll { a: 1, p: 0, side: None, limit: 9 });
    sc.op("a4 rests an order", K::Other(""), move |fx, s| tx1(place_ix(fx, s, &if short { ord(4, 1, 0, 13, 4) } else { ord(4, 0, 0, 9, 4) })));
    op_perp(&mut sc, PK::Place(PerpOrd { reduce: true, ..ord(1, if short { 0 } else { 1 }, 1, if short { 14 } else { 1 }, 3) }));
    let k = all_consume(&sc.fx, 0);
    op_perp(&mut sc, k);
    add_funding(&mut sc, 1.3, 0.9);
    op_perp(&mut sc, PK::Settle { settler: 3, a: 1, b: 0, p: 0 });
    op_deposit(&mut sc, 1, 0, 700, false);
    op_deposit(&mut sc, 3, 0, 50_000, false);
    op_withdraw(&mut sc, 1, 0, 400, true);
    sc.env("advance 1000s", |_, s| s.advance(1000));
    (sc, s)
}

/// negative pnl takeover, insurance fund and socialized loss; bankrupt account is a1
pub fn liq_neg_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let base = PerpCfg { liq_fee: 0.02, platform_liq_fee: 0.004, settle_limit_window: 1_000, ..PerpCfg::default() };
    let cfg = match v {
        0 => base,
        1 => PerpCfg { settle_tok: 1, settle_limit_factor: -1.0, ..base },
        2 => PerpCfg { insurance: false, ..base },
        _ => PerpCfg { settle_limit_factor: 0.01, overall_maint: 0.5, overall_init: 0.0, ..base },
    };
    let mut s2 = toks3();
    s2[0].price = 1.25;
    let mut fx = fix(&format!("png{v}"), &mut s, &s2, &[cfg]);
    for i in 0..5 {
        fx.user(&mut s, &format!("u{i}"), 1_000_000_000);
    }
    deposits(&fx, &mut s, &[(4, 0, 10_000_000), (4, 1, 10_000_000), (4, 2, 10_000_000)]);
    put_token(&mut s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, if v == 3 { 0 } else { 1_100 });
    deposits(&fx, &mut s, &[(1, 0, 2_503), (0, 0, 200_000), (2, 0, 60_000), (3, 0, 400)]);
    if v == 1 {
        deposits(&fx, &mut s, &[(1, 2, 2_700)]);
        let i = fx.w.withdraw(&s, fx.accts[1], fx.owners[1], 0, 800, true);
        must(&fx, &mut s, i);
    }
    trade(&fx, &mut s, 1, 0, 0, 10, 210);
    trade(&fx, &mut s, 4, 2, 0, 10, 35);
    let mut sc = Scen::new(&format!("perp-bankruptcy-{v}"), fx);
    // a recovered account that nobody has unmarked yet
    sc.env("flag a2", |fx, s| s.edit(&fx.accts[2], |d| d[OFF_BEING_LIQ] = 1));
    let o = sc.fx.w.perps[0].oracle;
    for p in [0.86, 0.72, 0.63] {
        sc.price(o, p);
    }
    op_perp(&mut sc, PK::LiqBase { liqor: 2, liqee: 1, p: 0, max_base: i64::MAX, max_pnl: u64::MAX >> 2 });
    op_perp(&mut sc, PK::LiqBase { liqor: 0, liqee: 1, p: 0, max_base: 150, max_pnl: 0 });
    for (liqor, max) in [(2, 0), (2, 701), (2, 1 << 50), (3, 350), (0, 1 << 50), (1, 50)] {
        op_perp(&mut sc, PK::LiqNeg { liqor, liqee: 1, p: 0, max });
    }
    op_perp(&mut sc, PK::LiqNeg { liqor: 2, liqee: 0, p: 0, max: 1_000 });
    sc.refuse("bankruptcy with someone else's signature", |fx, s| tx1(fx.w.perp_liq_bankruptcy(s, fx.accts[2], fx.owners[3], fx.accts[1], 0, 1_000)));
    sc.refuse("bankruptcy with another vault as insurance", |fx, s| {
        let mut i = fx.w.perp_liq_bankruptcy(s, fx.accts[2], fx.owners[2], fx.accts[1], 0, 1 << 40);
        for m in i.accounts.iter_mut() {
            if m.pubkey == fx.w.insurance_vault {
                m.pubkey = fx.w.toks[1].vault;
            }
        }
        tx1(i)
    });
    sc.env("insurance fund empty", |fx, s| put_token(s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, 0));
    sc.env("insurance fund 100000", |fx, s| put_token(s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, 100_000));
    op_perp(&mut sc, PK::Settle { settler: 3, a: 0, b: 1, p: 0 });
    op_liq(&mut sc, 2, 1, if v == 1 { 2 } else { 0 }, if v == 1 { 0 } else { 1 }, 1e12);
    op_deposit(&mut sc, 1, 0, 300, false);
    op_deposit(&mut sc, 1, 0, 9_000, false);
    add_funding(&mut sc, 1.3, -0.9);
    sc.env("advance 1000s", |_, s| s.advance(1000));
    let o0 = sc.fx.w.toks[0].oracle;
    sc.price(o0, 0.8);
    (sc, s)
}

/// giving up perp positions in two markets that share the settle token; no fees, so positions become exactly flat
pub fn perp_close_scen() -> (Scen, State) {
    let mut s = State::new();
    let cfg = PerpCfg { maker_fee: 0.0, taker_fee: 0.0, ..PerpCfg::default() };
    let mut fx = fix("pcl", &mut s, &toks3(), &[cfg.clone(), cfg]);
    for i in 0..4 {
        fx.user(&mut s, &format!("u{i}"), 1_000_000_000);
    }
    deposits(&fx, &mut s, &[(0, 0, 1_000_000), (1, 1, 50_000), (2, 0, 1_000_000)]);
    let mut sc = Scen::new("perp-position-closing", fx);
    perp_do(&sc.fx, &mut s, PK::Place(ord(0, 1, 0, 10, 1)));
    perp_do(&sc.fx, &mut s, PK::Place(ord(0, 1, 0, 11, 1)));
    perp_do(&sc.fx, &mut s, PK::Place(ord(0, 0, 0, 9, 2)));
    // a1 trades: buys and sells against those, and rests orders
    for o in [ord(1, 0, 1, 10, 1), ord(1, 1, 1, 9, 1), ord(1, 1, 1, 10, 1), ord(1, 0, 0, 7, 2), ord(1, 1, 0, 14, 1), PerpOrd { p: 1, ..ord(1, 0, 0, 7, 2) }] {
        op_perp(&mut sc, PK::Place(o));
    }
    sc.op("a2 bids 10", K::Other(""), |fx, s| tx1(place_ix(fx, s, &ord(2, 0, 0, 10, 1))));
    for p in 0..2 {
        op_perp(&mut sc, PK::CancelAll { a: 1, p, side: None, limit: 9 });
        op_perp(&mut sc, PK::Deactivate { a: 1, p });
    }
    op_perp(&mut sc, PK::Deactivate { a: 2, p: 0 });
    let k = all_consume(&sc.fx, 0);
    op_perp(&mut sc, k);
    add_funding(&mut sc, 0.125, -0.125);
    freeze_env(&mut sc, 1);
    op_deposit(&mut sc, 1, 0, 300, false);
    op_withdraw(&mut sc, 1, 0, u64::MAX, false);
    sc.refuse("close someone else's perp position", |fx, _| tx1(fx.w.perp_deactivate(fx.accts[1], fx.owners[2], 0)));
    (sc, s)
}

/// forced cancels, force close of positions, settling of fees, closing of positions
pub fn perp_wind_down_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let cfg = PerpCfg { maker_fee: 0.000_4, taker_fee: 0.003_1, settle_limit_window: 1_000, settle_tok: if v == 1 { 1 } else { 0 }, settle_limit_factor: if v == 1 { -1.0 } else { 0.2 }, ..PerpCfg::default() };
    let fx = perp_world(&format!("pwd{v}"), &mut s, cfg, 5);
    deposits(&fx, &mut s, &[(0, 0, 9_003), (1, 0, 4_001), (2, 0, 5_000)]);
    s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| {
        m.long_funding = fixed::types::I80F48::from_num(-1.5);
        m.short_funding = fixed::types::I80F48::from_num(2.75);
    });
    trade(&fx, &mut s, 0, 1, 0, 10, 100);
    trade(&fx, &mut s, 2, 4, 0, 10, 40);
    let mut sc = Scen::new(&format!("perp-wind-down-{v}"), fx);
    if v == 0 {
        // orders resting in both trees for a0 and a1
        for o in [ord(0, 0, 0, 8, 50), PerpOrd { peg: Some(-1), ..ord(0, 1, 0, 3, 60) }, ord(1, 1, 0, 12, 30), ord(0, 1, 0, 14, 5)] {
            perp_do(&sc.fx, &mut s, PK::Place(o));
        }
        for (a, limit) in [(0, 9), (1, 9), (0, 1), (2, 9), (3, 9)] {
            op_perp(&mut sc, PK::ForceCancel { a, p: 0, limit });
        }
        freeze_env(&mut sc, 0);
        sc.env("a1 being liquidated", |fx, s| s.edit(&fx.accts[1], |d| d[OFF_BEING_LIQ] = 1));
        op_perp(&mut sc, PK::LiqBase { liqor: 2, liqee: 1, p: 0, max_base: -20, max_pnl: 0 });
    } else {
        for (a, max) in [(1, 1 << 40), (0, 1 << 40), (0, 57)] {
            op_perp(&mut sc, PK::SettleFees { a, p: 0, max });
        }
        op_perp(&mut sc, PK::Settle { settler: 3, a: 0, b: 1, p: 0 });
        op_perp(&mut sc, PK::Settle { settler: 3, a: 1, b: 0, p: 0 });
        sc.refuse("zero fee settlement", |fx, s| tx1(fx.w.perp_settle_fees(s, fx.accts[0], 0, 0)));
        op_perp(&mut sc, PK::Place(ord(1, 0, 0, 9, 5)));
        op_perp(&mut sc, PK::Place(ord(0, 1, 1, 9, 3)));
        let k = all_consume(&sc.fx, 0);
        op_perp(&mut sc, k);
    }
    for (a, b) in [(0, 1), (2, 1), (2, 4), (1, 0), (0, 0), (0, 3)] {
        op_perp(&mut sc, PK::ForceClose { a, b, p: 0 });
    }
    for a in [0, 1, 3] {
        op_perp(&mut sc, PK::Deactivate { a, p: 0 });
    }
    sc.refuse("close someone else's perp position", |fx, _| tx1(fx.w.perp_deactivate(fx.accts[0], fx.owners[1], 0)));
    sc.env("market in force-close mode", |fx, s| {
        s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| {
            m.reduce_only = 1;
            m.force_close = 1;
        })
    });
    let o = sc.fx.w.perps[0].oracle;
    for p in [1.21, 0.83, if v == 0 { 1.6 } else { 0.5 }, 1.13] {
        if v == 1 && p == 1.13 {
            continue;
        }
        sc.price(o, p);
    }
    add_funding(&mut sc, 1.3, -0.9);
    sc.env("advance 1000s", |_, s| s.advance(1000));
    op_withdraw(&mut sc, 1, 0, 1_900, true);
    op_perp(&mut sc, PK::CancelAll { a: 0, p: 0, side: None, limit: 9 });
    (sc, s)
}
