//! Stable price: the slow-moving price that health uses besides the oracle's.
use crate::p_interest::banks_keys;
use crate::p_perp::*;
use crate::p_perp2::deposits;
use crate::perp_ref::*;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::state::*;
use solana_program::instruction::Instruction;

/// what the step should have done to a stable price model
fn expect(what: &str, got: &StablePriceModel, e: &StablePriceModel) -> Result<(), String> {
    let near = |x: f64, y: f64| (x - y).abs() <= 1e-9 * x.abs().max(y.abs());
    let show = |m: &StablePriceModel| {
        let d: Vec<f64> = m.delay_prices.to_vec();
        format!("price {} at {} interval {} sum {} over {} waiting {} delayed {d:?}", m.stable_price, m.last_update_timestamp, m.last_delay_interval_index, m.delay_accumulator_price, m.delay_accumulator_time, m.reset_on_nonzero_price)
    };
    let same = near(got.stable_price, e.stable_price)
        && (0..24).all(|i| near(got.delay_prices[i], e.delay_prices[i]))
        && near(got.delay_accumulator_price, e.delay_accumulator_price)
        && got.delay_accumulator_time == e.delay_accumulator_time
        && got.last_update_timestamp == e.last_update_timestamp
        && got.last_delay_interval_index == e.last_delay_interval_index
        && got.reset_on_nonzero_price == e.reset_on_nonzero_price
        && got.delay_interval_seconds == e.delay_interval_seconds
        && got.delay_growth_limit == e.delay_growth_limit
        && got.stable_growth_limit == e.stable_growth_limit;
    ensure(same, || format!("stable price of {what} differs from specification | got {} expected {}", show(got), show(e)))
}
fn reset(m: &StablePriceModel, price: f64, now: u64) -> StablePriceModel {
    StablePriceModel { stable_price: price, delay_prices: [price; 24], delay_accumulator_price: 0.0, delay_accumulator_time: 0, last_update_timestamp: now, reset_on_nonzero_price: (price <= 0.0) as u8, ..*m }
}

pub const RESET: &str = "stable price reset";

pub fn stable_spec(cx: &Cx) -> Result<(), String> {
    let w = &cx.fx.w;
    let now = cx.pre.ts as u64;
    if matches!(cx.op.k, K::Env) {
        return Ok(());
    }
    for (ti, t) in w.toks.iter().enumerate() {
        let keys = banks_keys(w, cx.pre, ti);
        let m: StablePriceModel = cx.pre.zc::<Bank>(&keys[0]).stable_price_model;
        let px = oracle_price(cx.pre, &t.oracle);
        let e = match &cx.op.k {
            K::UpdateIndex { tok } if *tok == ti => stable_ref(&m, now, px),
            K::Other(n) if *n == RESET && ti == 1 => reset(&m, px, now),
            _ => m,
        };
        if matches!(cx.op.k, K::UpdateIndex { .. } | K::Other(RESET)) {
            ensure(cx.ok(), || format!("update refused | {:?}", cx.res.as_ref().err()))?;
        }
        if cx.ok() {
            for k in &keys {
                expect(&format!("token {ti}"), &cx.post.zc::<Bank>(k).stable_price_model, &e)?;
            }
            let (x, y) = (m.stable_price, e.stable_price);
            let waiting = m.reset_on_nonzero_price == 1;
            ensure(waiting || matches!(cx.op.k, K::Other(_)) || (y - x).abs() <= x * m.stable_growth_limit as f64 * 600.0 * (1.0 + 1e-9), || "stable price moved faster than its limit".into())?;
        }
    }
    for (pi, p) in w.perps.iter().enumerate() {
        let pm: PerpMarket = cx.pre.zc(&p.market);
        let m = pm.stable_price_model;
        let px = oracle_price(cx.pre, &p.oracle);
        let e = match &cx.op.k {
            K::Perp(PK::Funding { p }) if *p == pi && now > pm.funding_last_updated => stable_ref(&m, now, px),
            K::Perp(PK::Place(o)) if o.p == pi && now > pm.funding_last_updated => stable_ref(&m, now, px),
            K::Other(n) if *n == RESET && pi == 0 => reset(&m, px, now),
            _ => m,
        };
        if matches!(cx.op.k, K::Perp(PK::Funding { .. })) {
            ensure(cx.ok(), || format!("funding update refused | {:?}", cx.res.as_ref().err()))?;
        }
        if cx.ok() {
            expect(&format!("perp market {pi}"), &cx.post.zc::<PerpMarket>(&p.market).stable_price_model, &e)?;
        }
    }
    Ok(())
}

const DTS: [i64; 15] = [0, 5, 9, 10, 60, 599, 600, 601, 3599, 3600, 7_201, 61_000, 86_399, 86_401, 90_001];
const FACTORS: [f64; 6] = [1.0, 0.5, 0.997, 1.004, 1.08, 40.0];

/// v: 0 fresh start, 1..=3 with a day of distinct delay prices at different points of the cycle,
/// 4 short intervals and other growth limits, 5 no price yet
pub fn stable_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let cfg = TokCfg { price: 2.0, ..TokCfg::default() };
    let mut fx = fix(&format!("sta{v}"), &mut s, &[TokCfg::quote(), cfg], &[PerpCfg::default()]);
    fx.user(&mut s, "u", 1_000_000_000);
    deposits(&fx, &mut s, &[(0, 0, 1_000_000)]);
    let (i, _, _) = fx.w.add_bank_ix(1, 1);
    must(&fx, &mut s, i);
    let day = 86_400;
    let at = |s: &mut State, t: i64| {
        let now = s.ts;
        s.advance((t - now % day + day) % day);
    };
    match v {
        1 => at(&mut s, 3_600 * 5 + 3_000),
        2 => at(&mut s, day - 40),
        3 => at(&mut s, 3_600 + 10),
        _ => {}
    }
    let now = s.ts as u64;
    let edit = move |m: &mut StablePriceModel| {
        if v == 4 {
            m.delay_interval_seconds = 300;
            m.delay_growth_limit = 0.2;
            m.stable_growth_limit = 0.002;
        }
        if (1..5).contains(&v) {
            let p = m.stable_price;
            m.last_update_timestamp = now - 30;
            m.last_delay_interval_index = m.delay_interval_index(now - 30);
            let last = m.last_delay_interval_index as usize;
            for i in 0..24 {
                // oldest at `last`, ever higher after it
                m.delay_prices[(last + i) % 24] = p * (0.7 + i as f64 * 0.02);
            }
            m.delay_accumulator_price = p * 1.1 * 500.0;
            m.delay_accumulator_time = 500;
            m.stable_price = p * 0.93;
        }
        if v == 5 {
            *m = StablePriceModel { reset_on_nonzero_price: 1, delay_interval_seconds: m.delay_interval_seconds, delay_growth_limit: m.delay_growth_limit, stable_growth_limit: m.stable_growth_limit, ..StablePriceModel::default() };
        }
    };
    for k in banks_keys(&fx.w, &s, 1) {
        s.edit_zc::<Bank>(&k, |b| edit(&mut b.stable_price_model));
    }
    s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| edit(&mut m.stable_price_model));
    let mut sc = Scen::new(&format!("stable-price-{v}"), fx);
    let perp = v % 2 == 1;
    let (o, base) = if perp { (sc.fx.w.perps[0].oracle, oracle_price(&s, &sc.fx.w.perps[0].oracle)) } else { (sc.fx.w.toks[1].oracle, 2.0) };
    // wait, new price, update
    for dt in DTS {
        for f in FACTORS {
            if v != 5 && dt == 0 && f != 1.0 || f > 2.0 && dt % 600 != 0 {
                continue;
            }
            let f = if v == 5 && f == 0.5 { 0.0 } else { f };
            let name = format!("after {dt}s at price x{f}");
            let change = move |fx: &Fix, s: &State, ixs: Vec<Instruction>| {
                let mut v = vec![fx.w.oracle_ix(o, base * f)];
                v.extend(ixs);
                let _ = s;
                v
            };
            // the price is set by a transaction of its own: only index updates may run together
            if perp {
                sc.op(name, K::Perp(PK::Funding { p: 0 }), move |fx, s| Act::After2(dt, change(fx, s, vec![]), vec![fx.w.perp_update_funding(0)]));
            } else {
                sc.op(name, K::UpdateIndex { tok: 1 }, move |fx, s| Act::After2(dt, change(fx, s, vec![]), vec![fx.w.update_index_banks(1, &banks_keys(&fx.w, s, 1))]));
            }
        }
    }
    if perp {
        let o = ord(0, 0, 0, 3, 1);
        sc.op("after 100s, order", K::Perp(PK::Place(o.clone())), move |fx, s| Act::After(100, vec![place_ix(fx, s, &o)]));
    }
    sc.op("after 100s, admin reset", K::Other(RESET), |fx, s| {
        let e = mango_v4::instruction::TokenEdit { reset_stable_price: true, ..World::token_edit_default() };
        let p = mango_v4::instruction::PerpEditMarket { reset_stable_price: true, ..World::perp_edit_default() };
        Act::After(100, vec![fx.w.token_edit(s, 1, e), fx.w.perp_edit(0, p)])
    });
    (sc, s)
}
