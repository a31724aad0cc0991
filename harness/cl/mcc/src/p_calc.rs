//! C43: the client library's trade size calculators against the health a trade of that size leaves.
use crate::chain::*;
use crate::explore::*;
use crate::p_client::*;
use crate::refm::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::accounts_ix::*;
use mango_v4::health::HealthCache;
use mango_v4::state::*;
use mango_v4_client::*;
use solana_sdk::pubkey::Pubkey;

type I80 = fixed::types::I80F48;
type OpFn = Box<dyn Fn(&Fx, &mut State) -> Option<bool> + Send + Sync>;
struct M {
    name: String,
    fx: Fx,
    ops: Vec<(String, OpFn)>,
    scaled: bool,
}
fn x(v: f64) -> I80 {
    I80::from_num(v)
}
fn run(s: &mut State, i: solana_program::instruction::Instruction) -> Option<bool> {
    Some(s.tx(&[i]).is_ok())
}

/// change a token balance by an exact amount
fn shift(s: &mut State, w: &World, k: &Pubkey, tok: usize, by: f64) {
    let b = w.bank(s, tok);
    let (mut old, mut new) = (0.0, 0.0);
    edit_acc(s, k, |a| {
        let p = a.tokens.iter_mut().find(|p| p.token_index == w.toks[tok].index).unwrap();
        old = f(p.indexed_position);
        let n = native_of(p, &b) + by;
        p.indexed_position = x(n / f(if n > 0.0 { b.deposit_index } else { b.borrow_index }));
        new = f(p.indexed_position);
    });
    s.edit_zc::<Bank>(&w.toks[tok].bank, |b| {
        b.indexed_deposits += x(new.max(0.0) - old.max(0.0));
        b.indexed_borrows += x((-new).max(0.0) - (-old).max(0.0));
    });
}
/// init health and init health ratio
fn ratio(w: &World, s: &State, a: &Acc) -> (f64, f64) {
    let now = s.ts as f64;
    let t = Ht::Init;
    let (health, toks) = ref_health_toks(w, s, a, t, false);
    let mut liabs = 0.0;
    for x in &toks {
        let (mut pos, mut neg) = (x.spot.max(0.0), (-x.spot).max(0.0));
        for p in a.active_perps() {
            let m = w.perp(s, w.perp_by_index(p.market_index));
            if m.settle_token_index == x.index {
                let h = ref_hupnl(w, s, p, t);
                pos += h.max(0.0);
                neg += (-h).max(0.0);
            }
        }
        let _ = pos;
        liabs += neg * x.liab_w(t, now) * x.liab_price(t);
    }
    (health, if liabs > 1e-9 { 100.0 * health / liabs } else { f64::INFINITY })
}

const RATIOS: [f64; 4] = [0.0, 1.0, 50.0, 200.0];
/// how close to the wanted ratio the calculators search
const SLACK: f64 = 0.1;
fn eps(r: f64) -> f64 {
    if r.is_finite() {
        1e-4 + r.abs() * 1e-6
    } else {
        0.0
    }
}

struct Case<'a> {
    what: String,
    /// (health, ratio) after trading this much
    at: &'a dyn Fn(f64) -> (f64, f64),
    grid: Vec<f64>,
    min: f64,
    /// what the search may stop short by
    step: f64,
    /// trading more than this changes nothing but the size of both sides
    span: f64,
}
impl Case<'_> {
    fn err(&self, m: &str, amount: f64) -> String {
        format!("{m}|{}: minimum ratio {}, amount {amount}, ratio there {}, at zero {}", self.what, self.min, (self.at)(amount).1, (self.at)(0.0).1)
    }
    /// the amount reaches the wanted ratio and no larger one does
    fn reaches(&self, m: f64) -> bool {
        // a thousandth of a token less makes up for rounding
        [m, if self.step != 1.0 { (m - 1e-3).max(0.0) } else { m }].iter().any(|m| {
            let r = (self.at)(*m).1;
            r >= self.min - eps(r)
        })
    }
    fn maximal(&self, m: f64) -> Result<(), String> {
        for x in self.grid.iter().copied().chain([m + self.step, m + 2.0 * self.step, m + 10.0, m * 1.1 + 2.0 * self.step, m * 2.0 + 2.0 * self.step]) {
            let x = if self.step == 1.0 { x.floor() } else { x };
            if x >= m + self.step {
                let r = (self.at)(x).1;
                if r > self.min + SLACK + eps(r) {
                    return Err(self.err(&format!("the calculated amount is too small: {x} leaves a ratio of {r}"), m));
                }
            }
        }
        Ok(())
    }
}

fn grid(scale: &[f64]) -> Vec<f64> {
    let mut g = vec![0.0, 1.0, 3.0];
    for s in scale {
        for k in [0.25, 0.5, 0.75, 0.99, 1.0, 1.01, 1.5, 2.0, 4.0] {
            g.push(s.abs() * k);
        }
    }
    let mut v = 10.0;
    while v < 1e7 {
        g.push(v);
        v *= 2.0;
    }
    g
}

impl M {
    fn judge(&self, s: &State) -> Result<(), String> {
        let fx = &self.fx;
        let k = fx.acc[0];
        let load = |s: &State| {
            let (r, _, _) = on_chain(s, || {
                let c = client(&fx.w, s, k, &fx.keys[0], &fx.fee, &FallbackOracleConfig::Never, &Fetch::Chain)?;
                mango_v4_client::health_cache::new_sync(&c.context, &chain_fetcher(s), &fx.value(s, 0))
            });
            r.map_err(|e| format!("no health cache|{e:#}"))
        };
        let mut liq = s.clone();
        edit_acc(&mut liq, &k, |a| a.fixed.set_being_liquidated(true));
        self.liquidatable(&liq, &load(&liq)?)?;
        let cache = load(s)?;
        self.liquidatable(s, &cache)?;
        self.swaps(s, &cache)?;
        self.borrows(s, &cache)?;
        self.perps(s, &cache)
    }
    fn liquidatable(&self, s: &State, c: &HealthCache) -> Result<(), String> {
        let a = acc(s, &self.fx.acc[0]);
        let t = if a.fixed.being_liquidated() { Ht::LiqEnd } else { Ht::Maint };
        let h = ref_health(&self.fx.w, s, &a, t);
        if h.abs() > 1e-6 && c.is_liquidatable() != (h < 0.0) {
            return Err(format!("wrong answer to whether the account can be liquidated|health {h}"));
        }
        Ok(())
    }
    fn swaps(&self, s: &State, c: &HealthCache) -> Result<(), String> {
        let w = &self.fx.w;
        let k = self.fx.acc[0];
        let a = acc(s, &k);
        let v = self.fx.value(s, 0);
        let toks: Vec<usize> = a.active_tokens().map(|p| w.tok_by_index(p.token_index)).collect();
        let span = |i: usize| {
            let (_, t) = ref_health_toks(w, s, &a, Ht::Init, false);
            let t = t.iter().find(|t| t.index == w.toks[i].index).unwrap();
            (t.spot + t.perp).abs()
        };
        // with reserved spot orders or perp positions the ratio can have several peaks
        let orders = a.active_perps().count() > 0 || a.active_serum().any(|o| {
            let d = oo(s, &o.open_orders);
            d.native_coin_total > d.native_coin_free || d.native_pc_total > d.native_pc_free
        });
        for &i in &toks {
            for &j in &toks {
                if i == j {
                    continue;
                }
                let (bi, bj) = (w.bank(s, i), w.bank(s, j));
                let (pi, pj) = (oracle_price(s, &w.toks[i].oracle), oracle_price(s, &w.toks[j].oracle));
                for q in [0.9, 1.0, 1.2, 2.6] {
                    let price = f(x(pi / pj * q));
                    let at = |m: f64| {
                        let mut s = s.clone();
                        shift(&mut s, w, &k, i, -m);
                        shift(&mut s, w, &k, j, m * price);
                        ratio(w, &s, &acc(&s, &k))
                    };
                    for min in RATIOS {
                        let case = Case {
                            what: format!("swap T{i} to T{j} at {price}"),
                            at: &at,
                            grid: grid(&[native(w, s, &a, i), native(w, s, &a, j) / price]),
                            min,
                            step: 0.101,
                            span: if orders { 0.0 } else { span(i).max(span(j) / price) },
                        };
                        let u = c
                            .max_swap_source_for_health_ratio_ignoring_limits(&v, &bi, x(pi), &bj, x(price), x(min))
                            .map_err(|e| format!("the calculator fails|{}, minimum {min}: {e}", case.what))?;
                        self.one_swap(&case, u)?;
                        let l = c
                            .max_swap_source_for_health_ratio_with_limits(&v, &bi, x(pi), &bj, x(price), x(min))
                            .map_err(|e| format!("the calculator fails|{}, minimum {min}: {e}", case.what))?;
                        // what the banks' limits leave
                        let px = pi.max(bi.stable_price_model.stable_price);
                        let src = if bi.net_borrows_in_window < 0 || bi.net_borrow_limit_per_window_quote < 0 {
                            f64::INFINITY
                        } else {
                            ((bi.net_borrow_limit_per_window_quote as f64 / px) - bi.net_borrows_in_window as f64).max(0.0) + native(w, s, &a, i).max(0.0)
                        };
                        let tgt = if bj.deposit_limit == 0 {
                            f64::INFINITY
                        } else {
                            (bj.deposit_limit as f64 - bank_native_deposits(&bj) - bj.potential_serum_tokens as f64).max(0.0) + (-native(w, s, &a, j)).max(0.0)
                        };
                        let want = (if u == I80::MAX { f64::INFINITY } else { f(u) }).min(src).min(tgt / price);
                        if if want.is_infinite() { f(l) < 1e15 } else { !near(f(l), want, 2.0 + want * 1e-6) } {
                            return Err(case.err(&format!("the amount within limits should be {want} (net borrows leave {src}, deposits {tgt})"), f(l)));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn one_swap(&self, c: &Case, u: I80) -> Result<(), String> {
        let (far, further) = ((c.at)(1e8).0, (c.at)(2e8).0);
        if !self.scaled && (u == I80::MAX) != (further >= far) {
            return Err(format!("unlimited amount expected: {}|{}: got {u}", further >= far, c.what));
        }
        if u == I80::MAX {
            return Ok(());
        }
        let m = f(u);
        if m < 0.0 {
            return Err(c.err("negative amount", m));
        }
        if c.reaches(m) {
            return c.maximal(m);
        }
        let r = (c.at)(m).1;
        let slope = [m + 0.11, (m - 0.11).max(0.0)].iter().map(|y| ((c.at)(*y).1 - r).abs()).fold(0.0, f64::max);
        for y in &c.grid {
            let ry = (c.at)(*y).1;
            if ry > c.min + SLACK + eps(ry) {
                return Err(c.err(&format!("the ratio could have been reached: {y} leaves a ratio of {ry}"), m));
            }
            if (*y == 0.0 || *y <= c.span) && ry > r + slope + eps(r) {
                return Err(c.err(&format!("the amount is not the best possible: {y} leaves a ratio of {ry}"), m));
            }
        }
        Ok(())
    }
    fn borrows(&self, s: &State, c: &HealthCache) -> Result<(), String> {
        let w = &self.fx.w;
        let k = self.fx.acc[0];
        let a = acc(s, &k);
        let v = self.fx.value(s, 0);
        for p in a.active_tokens() {
            let i = w.tok_by_index(p.token_index);
            let b = w.bank(s, i);
            let px = oracle_price(s, &w.toks[i].oracle).max(b.stable_price_model.stable_price);
            let n0 = native(w, s, &a, i).max(0.0);
            let limited = b.net_borrow_limit_per_window_quote >= 0;
            // an amount beyond the limit counts as unreachable
            let room = (b.net_borrow_limit_per_window_quote as f64 / px) - b.net_borrows_in_window as f64;
            if limited && room < 0.0 {
                continue;
            }
            let at = |m: f64| {
                let mut s = s.clone();
                shift(&mut s, w, &k, i, -m);
                ratio(w, &s, &acc(&s, &k))
            };
            for min in RATIOS {
                let case = Case { what: format!("borrow T{i}"), at: &at, grid: grid(&[native(w, s, &a, i)]), min, step: 1.001, span: 0.0 };
                let m = f(c.max_borrow_for_health_ratio(&v, &b, x(min)).map_err(|e| format!("the calculator fails|{}, minimum {min}: {e}", case.what))?);
                if m < 0.0 {
                    return Err(case.err("negative amount", m));
                }
                let r0 = at(0.0).1;
                if r0 <= min - eps(r0) {
                    if m != 0.0 {
                        return Err(case.err("an amount although the ratio is too low", m));
                    }
                    continue;
                }
                if m > 0.0 && !case.reaches(m) {
                    return Err(case.err("the amount is too large", m));
                }
                if limited && m > room + n0 + 2.0 {
                    return Err(case.err(&format!("the amount is beyond the net borrow limit ({room} + {n0})"), m));
                }
                if !(limited && m + 2.5 > room + n0) {
                    case.maximal(m)?;
                }
            }
        }
        Ok(())
    }
    fn perps(&self, s: &State, c: &HealthCache) -> Result<(), String> {
        let w = &self.fx.w;
        let k = self.fx.acc[0];
        let a = acc(s, &k);
        for p in a.active_perps() {
            let pi = w.perp_by_index(p.market_index);
            let mk = w.perp(s, pi);
            let oracle = oracle_price(s, &w.perps[pi].oracle);
            let lots = p.base_position_lots() as f64;
            for side in [Side::Bid, Side::Ask] {
                let dir = if side == Side::Bid { 1.0 } else { -1.0 };
                for q in [0.5, 0.9, 1.0, 1.1, 1.6] {
                    let price = f(x(oracle * q));
                    let at = |m: f64| {
                        let mut a = acc(s, &k);
                        let mut mk = mk;
                        let p = a.perps.iter_mut().find(|y| y.market_index == p.market_index).unwrap();
                        let q = x(-dir * m * mk.base_lot_size as f64 * price);
                        p.record_trade(&mut mk, (dir * m) as i64, q);
                        ratio(w, s, &a)
                    };
                    let (far, further) = (at(1e7).0, at(2e7).0);
                    for min in RATIOS {
                        let case = Case { what: format!("perp {pi} {side:?} at {price}"), at: &at, grid: grid(&[lots]).into_iter().map(|x| x.floor()).collect(), min, step: 1.0, span: 0.0 };
                        let m = c.max_perp_for_health_ratio(p.market_index, x(price), side, x(min)).map_err(|e| format!("the calculator fails|{}, minimum {min}: {e}", case.what))?;
                        let r0 = at(0.0).1;
                        // nothing to lose, before or after closing
                        if [0.0, (-dir * lots).max(0.0)].iter().any(|m| at(*m).0.abs() < 1.0) {
                            continue;
                        }
                        if r0 < 0.0 {
                            if m != 0 {
                                return Err(case.err("an amount although health is negative", m as f64));
                            }
                            continue;
                        }
                        if (m == i64::MAX) != (further >= far) {
                            return Err(format!("unlimited amount expected: {}|{}: got {m}", further >= far, case.what));
                        }
                        if m == i64::MAX {
                            continue;
                        }
                        let m = m as f64;
                        if m < 0.0 {
                            return Err(case.err("negative amount", m));
                        }
                        if case.reaches(m) {
                            case.maximal(m)?;
                            continue;
                        }
                        // out of reach: close the position if that helps, otherwise do nothing
                        let close = (-dir * lots).max(0.0);
                        let (r, rc) = (at(m).1, at(close).1);
                        if m != 0.0 && m != close || r < r0.max(rc) - eps(r) {
                            return Err(case.err(&format!("the amount is not the better one of 0 and {close} (ratio {rc})"), m));
                        }
                        if r0.max(rc) > min + eps(min) {
                            return Err(case.err("the ratio could have been reached", m));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
impl Model for M {
    type G = ();
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> Vec<String> {
        self.ops.iter().map(|o| o.0.clone()).collect()
    }
    fn step(&self, op: usize, n: &Node<()>) -> Result<Step<()>, String> {
        let mut s = n.s.clone();
        match (self.ops[op].1)(&self.fx, &mut s) {
            None => return Ok(Step::Disabled),
            Some(false) => return Ok(Step::Rejected),
            Some(true) => {}
        }
        self.judge(&s)?;
        Ok(Step::Next(Node { s, g: () }))
    }
}

fn scenario(kind: usize) -> (M, State) {
    let name = ["sizes", "sizes with limits", "sizes with scaled weights"][kind];
    let (fx, mut s) = fixture(name, Cfg { sizes: (4, 3, 2), fallbacks: false, variants: vec![] });
    for (i, t) in fx.w.toks.iter().enumerate() {
        s.edit_zc::<Bank>(&t.bank, |b| {
            b.loan_origination_fee_rate = x(0.0);
            b.last_net_borrows_window_start_ts = 4_000_000_000;
            if kind == 1 {
                b.net_borrow_limit_per_window_quote = [2_500, 900, 2_000][i];
                b.deposit_limit = [1_000_020_000, 1_000_000_900, 1_000_005_000][i];
            }
            if kind == 2 {
                b.borrow_weight_scale_start_quote = 3_000.0;
                b.deposit_weight_scale_start_quote = 1_000_001_000.0 * [1.0, 10.0, 5.0][i];
            }
        });
    }
    if kind > 0 {
        s.edit_zc::<Bank>(&fx.w.toks[2].bank, |b| b.init_asset_weight = x(if kind == 1 { 0.0 } else { 0.4 }));
        s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| m.init_overall_asset_weight = x(0.5));
    }
    if kind == 2 {
        s.edit_zc::<Bank>(&fx.w.toks[0].bank, |b| {
            b.init_asset_weight = x(0.9);
            b.init_liab_weight = x(1.2);
        });
    }
    let mut ops: Vec<(String, OpFn)> = vec![];
    let mut op = |n: String, g: OpFn| ops.push((n, g));
    for (t, n) in [(0, 5_000), (1, 700), (2, 1_100)] {
        op(format!("deposit T{t} {n}"), Box::new(move |x, s| {
            let i = x.w.deposit(s, x.acc[0], x.own[0], t, n, false);
            run(s, i)
        }));
    }
    for (t, n) in [(0, 1_500), (1, 130), (2, 310)] {
        op(format!("borrow T{t} {n}"), Box::new(move |x, s| {
            let i = x.w.withdraw(s, x.acc[0], x.own[0], t, n, true);
            run(s, i)
        }));
    }
    for p in [7.0, 13.0] {
        op(format!("T1 at {p}"), Box::new(move |x, s| {
            let o = x.w.toks[1].oracle;
            if oracle_price(s, &o) == p {
                return None;
            }
            x.w.set_price(s, o, p);
            Some(true)
        }));
    }
    for p in [8.0, 12.0] {
        op(format!("perp 0 at {p}"), Box::new(move |x, s| {
            let o = x.w.perps[0].oracle;
            if oracle_price(s, &o) == p || acc(s, &x.acc[0]).active_perps().count() == 0 {
                return None;
            }
            x.w.set_price(s, o, p);
            Some(true)
        }));
    }
    for (side, px, lots) in [(0, 90, 4), (1, 110, 3)] {
        op(format!("spot {} {lots} at {px}", ["bid", "ask"][side]), Box::new(move |x, s| {
            let (k, o) = (x.acc[0], x.own[0]);
            let mut ixs = vec![];
            if !acc(s, &k).active_serum().any(|o| o.market_index == x.w.serums[0].index) {
                ixs.push(x.w.serum_create_oo(k, o, 0));
            }
            let mut t = s.clone();
            if !ixs.is_empty() && t.tx(&ixs).is_err() {
                return Some(false);
            }
            let sd = if side == 0 { Serum3Side::Bid } else { Serum3Side::Ask };
            ixs.push(x.w.serum_place(&t, k, o, 0, sd, px, lots, px * lots * 10, 5, Serum3OrderType::Limit, Serum3SelfTradeBehavior::DecrementTake, 5));
            Some(s.tx(&ixs).is_ok())
        }));
    }
    // perp positions with some quote entry
    for (p, lots, px) in [(0, 20, 9.5), (0, -20, 10.5), (1, 15, 12.0)] {
        op(format!("perp {p} trade {lots} at {px}"), Box::new(move |fx, s| {
            let mut mk = fx.w.perp(s, p);
            let mut t = s.clone();
            let i = fx.w.perp_place(&t, fx.acc[0], fx.own[0], p, Side::Bid, 1, 1, i64::MAX, 1, PlaceOrderType::ImmediateOrCancel, SelfTradeBehavior::DecrementTake, false, 0, 1);
            if t.tx(&[i]).is_err() {
                return Some(false);
            }
            edit_acc(&mut t, &fx.acc[0], |a| {
                let p = a.perps.iter_mut().find(|y| y.market_index == mk.perp_market_index).unwrap();
                let q = x(-(lots * mk.base_lot_size) as f64 * px);
                p.record_trade(&mut mk, lots, q);
            });
            *s = t;
            Some(true)
        }));
    }
    (M { name: name.into(), fx, ops, scaled: kind == 2 }, s)
}

pub fn c43(tier: &str) -> i32 {
    let r = Report::new("C43", tier);
    let d = if r.thorough { 4 } else { 3 };
    for kind in 0..3 {
        let (m, s) = scenario(kind);
        r.explore(&m, Node { s, g: () }, d, if r.thorough { 600.0 } else { 200.0 });
    }
    r.finish(&["the search stops within 0.1 points of ratio or one step (0.1 source tokens, one lot, one borrowed token)"])
}
