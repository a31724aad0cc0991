//! The health formula, including which health accounts may be left out.
use crate::p_perp2::deposits;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::AccountMeta;
use mango_v4::accounts_ix::HealthCheckKind;
use mango_v4::state::*;
use solana_program::instruction::Instruction;

#[derive(Clone, Debug, PartialEq)]
pub enum Probe {
    /// kind, banks left out, reversed account order
    Check { kind: u8, missing: Vec<usize>, rev: bool },
    /// everything passed and needed
    Data,
    /// withdraw without some of the banks
    Withdraw { tok: usize, amount: u64, missing: Vec<usize> },
    /// bank listed twice
    Duplicate,
    /// bank of another group listed in addition
    Foreign,
}

fn oracle_ok(s: &State, key: &anchor_lang::prelude::Pubkey, c: &OracleConfig) -> bool {
    let o: StubOracle = s.zc(key);
    let fresh = c.max_staleness_slots < 0 || o.last_update_slot == 0 || o.last_update_slot + c.max_staleness_slots as u64 >= s.slot;
    fresh && (o.deviation == 0 || f(o.deviation) <= f(c.conf_filter) * f(o.price))
}

pub struct H {
    pub health: f64,
    pub assets: f64,
    pub liabs: f64,
    pub known: Vec<TokenIndex>,
}
/// Health with some banks missing. `skip`: assets with an unusable oracle or without bank may be left out
pub fn health_view(w: &World, s: &State, a: &Acc, t: Ht, missing: &[usize], skip: bool) -> Result<H, String> {
    let now = s.ts as f64;
    let mut known = vec![];
    for p in a.active_tokens() {
        let i = w.tok_by_index(p.token_index);
        let b = w.bank(s, i);
        let neg = p.indexed_position < 0;
        if missing.contains(&i) {
            if neg || !skip {
                return Err(format!("bank {i} is missing"));
            }
        } else if !oracle_ok(s, &w.toks[i].oracle, &b.oracle_config) {
            if neg || !skip {
                return Err(format!("oracle of token {i} is unusable"));
            }
        } else {
            known.push(p.token_index)
        }
    }
    let mut v = a.clone();
    for o in v.serum3.iter_mut() {
        if o.market_index != u16::MAX && !(known.contains(&o.base_token_index) && known.contains(&o.quote_token_index)) {
            o.market_index = u16::MAX;
        }
    }
    for p in v.tokens.iter_mut() {
        if !known.contains(&p.token_index) {
            p.token_index = TokenIndex::MAX;
        }
    }
    for p in v.active_perps() {
        let pi = w.perp_by_index(p.market_index);
        let m = w.perp(s, pi);
        if !oracle_ok(s, &w.perps[pi].oracle, &m.oracle_config) {
            return Err(format!("oracle of perp market {pi} is unusable"));
        }
        if !known.contains(&m.settle_token_index) {
            return Err(format!("settle token of perp market {pi} is missing"));
        }
    }
    let (health, toks) = ref_health_toks(w, s, &v, t, false);
    // split into assets and liabilities, with liabilities independent of what else is held
    let (mut assets, mut liabs) = (0.0, 0.0);
    let mut tok_value = 0.0;
    for x in &toks {
        let (mut pos, mut neg) = (x.spot.max(0.0), (-x.spot).max(0.0));
        for p in v.active_perps() {
            let m = w.perp(s, w.perp_by_index(p.market_index));
            if m.settle_token_index == x.index {
                let h = ref_hupnl(w, s, p, t);
                pos += h.max(0.0);
                neg += (-h).max(0.0);
            }
        }
        let l = neg * x.liab_w(t, now) * x.liab_price(t);
        liabs += l;
        assets += l + x.value(t, pos - neg, now);
        tok_value += x.value(t, x.spot + x.perp, now);
    }
    // spot orders never reduce health
    assets += health - tok_value;
    Ok(H { health, assets, liabs, known })
}

fn probe_accounts(w: &World, s: &State, a: &Acc, missing: &[usize], rev: bool) -> Vec<AccountMeta> {
    let mut banks: Vec<usize> = a.active_tokens().map(|p| w.tok_by_index(p.token_index)).filter(|t| !missing.contains(t)).collect();
    let mut perps: Vec<usize> = a.active_perps().map(|p| w.perp_by_index(p.market_index)).collect();
    let mut oos: Vec<_> = a.active_serum().map(|o| o.open_orders).collect();
    if rev {
        banks.reverse();
        perps.reverse();
        oos.reverse();
    }
    let _ = s;
    let mut v: Vec<_> = banks.iter().map(|t| ro(w.toks[*t].bank)).collect();
    v.extend(banks.iter().map(|t| ro(w.toks[*t].oracle)));
    v.extend(perps.iter().map(|p| ro(w.perps[*p].market)));
    v.extend(perps.iter().map(|p| ro(w.perps[*p].oracle)));
    v.extend(oos.into_iter().map(ro));
    v
}
fn kind_of(k: u8) -> (HealthCheckKind, Ht, bool) {
    match k {
        0 => (HealthCheckKind::Maint, Ht::Maint, false),
        1 => (HealthCheckKind::Init, Ht::Init, false),
        2 => (HealthCheckKind::LiquidationEnd, Ht::LiqEnd, false),
        3 => (HealthCheckKind::MaintRatio, Ht::Maint, true),
        4 => (HealthCheckKind::InitRatio, Ht::Init, true),
        _ => (HealthCheckKind::LiquidationEndRatio, Ht::LiqEnd, true),
    }
}
pub fn check_ix(fx: &Fix, s: &State, kind: u8, missing: &[usize], rev: bool, min_value: f64) -> Instruction {
    ix(
        mango_v4::accounts::HealthCheck { group: fx.w.group, account: fx.accts[0] },
        mango_v4::instruction::HealthCheck { min_health_value: min_value, check_kind: kind_of(kind).0 },
    )
    .with(probe_accounts(&fx.w, s, &fx.acc(s, 0), missing, rev))
}
/// expected value for a probe
fn value(fx: &Fix, s: &State, kind: u8, missing: &[usize]) -> Result<(f64, f64), String> {
    let (_, t, ratio) = kind_of(kind);
    let h = health_view(&fx.w, s, &fx.acc(s, 0), t, missing, true)?;
    let tol = 1e-6 + 1e-9 * (h.assets.abs() + h.liabs.abs());
    Ok(if !ratio {
        (h.health, tol)
    } else if h.liabs == 0.0 {
        (f64::MAX, 0.0)
    } else {
        (100.0 * (h.assets - h.liabs) / h.liabs, 100.0 * tol * (1.0 + h.assets / h.liabs) / h.liabs)
    })
}
const BIG: f64 = 1e21;

pub fn health_spec(cx: &Cx) -> Result<(), String> {
    let p = match &cx.op.k {
        K::Health(p) => p,
        _ => return Ok(()),
    };
    let fx = cx.fx;
    let mut pr = Pred::new();
    match p {
        Probe::Check { kind, missing, rev } => {
            let v = value(fx, cx.pre, *kind, missing);
            if let Err(e) = &v {
                pr.must(false, e);
            }
            // the probe asked for slightly less than expected
            pr.judge(cx)?;
            if let Ok((x, tol)) = v {
                ensure(changed(cx.pre, cx.post).is_empty(), || "reading health changed something".into())?;
                let above = if x == f64::MAX { return Ok(()) } else { x + tol };
                let mut s = cx.pre.clone();
                let r = s.tx(&[check_ix(fx, cx.pre, *kind, missing, *rev, above)]);
                ensure(r.is_err(), || format!("health is larger than it should be | kind {kind} expected at most {x}"))?;
            }
            Ok(())
        }
        Probe::Data => {
            let a = fx.acc(cx.pre, 0);
            let (i, m) = (health_view(&fx.w, cx.pre, &a, Ht::Init, &[], false), health_view(&fx.w, cx.pre, &a, Ht::Maint, &[], false));
            if let Err(e) = &i {
                pr.must(false, e);
            }
            pr.judge(cx)?;
            if let (Ok(i), Ok(m)) = (i, m) {
                let e = cx.events.iter().find_map(|e| MangoData::read(e)).ok_or("no account data reported")?;
                let tol = 1e-6 + 1e-9 * (i.assets.abs() + i.liabs.abs());
                want("reported initial health", e.init, i.health, tol)?;
                want("reported maintenance health", e.maint, m.health, tol)?;
                let w = &fx.w;
                for p in a.active_tokens() {
                    let t = w.tok_by_index(p.token_index);
                    let mut n = native_of(p, &w.bank(cx.pre, t));
                    for o in a.active_serum() {
                        let d = oo(cx.pre, &o.open_orders);
                        if o.base_token_index == p.token_index {
                            n += d.native_coin_total as f64;
                        } else if o.quote_token_index == p.token_index {
                            n += d.native_pc_total as f64;
                        }
                    }
                    let got: Vec<f64> = e.tokens.iter().filter(|x| x.0 == p.token_index).map(|x| x.1).collect();
                    ensure(got.len() == 1, || format!("token {t} is reported {} times", got.len()))?;
                    want(&format!("reported equity in token {t}"), got[0], n * oracle_price(cx.pre, &w.toks[t].oracle), tol)?;
                }
            }
            Ok(())
        }
        Probe::Withdraw { tok, amount, missing } => {
            let a = fx.acc(cx.pre, 0);
            let w = &fx.w;
            let b = w.bank(cx.pre, *tok);
            let pos = a.tok(w.toks[*tok].index).unwrap();
            let bal = native_of(pos, &b);
            let borrow = *amount as f64 > bal;
            match health_view(w, cx.pre, &a, Ht::Init, missing, true) {
                Err(e) => {
                    pr.must(false, &e);
                }
                Ok(h) => {
                    pr.must(!borrow || oracle_ok(cx.pre, &w.toks[*tok].oracle, &b.oracle_config), "borrowing with an unusable oracle");
                    if h.known.contains(&w.toks[*tok].index) {
                        let mut hyp = cx.pre.clone();
                        let di = -(*amount as f64);
                        edit_acc(&mut hyp, &fx.accts[0], |a| {
                            let p = a.tokens.iter_mut().find(|p| p.token_index == b.token_index).unwrap();
                            let n = bal + di;
                            p.indexed_position = fxp(if n > 0.0 { n / f(b.deposit_index) } else { n / f(b.borrow_index) });
                        });
                        let p2 = fx.acc(&hyp, 0).tok(b.token_index).unwrap().indexed_position;
                        let split = |p: fixed::types::I80F48| if p > 0 { (f(p), 0.0) } else { (0.0, -f(p)) };
                        let (d0, b0) = split(pos.indexed_position);
                        let (d1, b1) = split(p2);
                        hyp.edit_zc(&w.toks[*tok].bank, |b: &mut Bank| {
                            b.indexed_deposits += fxp(d1 - d0);
                            b.indexed_borrows += fxp(b1 - b0);
                        });
                        let h1 = health_view(w, &hyp, &fx.acc(&hyp, 0), Ht::Init, missing, true).map_err(|e| format!("model: {e}"))?;
                        let tol = 1e-6 + 1e-9 * (h1.assets.abs() + h1.liabs.abs());
                        if h1.health < -tol {
                            // only allowed if it did not get worse
                            pr.ge(h1.health, h.health, tol, "health would be negative");
                        } else {
                            pr.ge(h1.health, 0.0, tol, "health would be negative");
                        }
                    } else {
                        pr.must(!borrow, "borrowing without the bank's health account");
                        pr.ge(h.health, 0.0, 1e-6 + 1e-9 * (h.assets + h.liabs), "known health is negative");
                    }
                }
            }
            pr.judge(cx)
        }
        Probe::Duplicate | Probe::Foreign => {
            pr.must(false, "not exactly one bank per token of the group");
            pr.judge(cx)
        }
    }
}
pub struct MangoData {
    pub init: f64,
    pub maint: f64,
    pub tokens: Vec<(TokenIndex, f64)>,
}
impl MangoData {
    pub fn read(e: &[u8]) -> Option<Self> {
        use anchor_lang::Discriminator;
        if e.len() < 40 || e[..8] != mango_v4::events::MangoAccountData::discriminator() {
            return None;
        }
        let q = |i: usize| i128::from_le_bytes(e[i..i + 16].try_into().unwrap()) as f64 / (1u64 << 48) as f64;
        let n = u32::from_le_bytes(e[40..44].try_into().unwrap()) as usize;
        let tokens = (0..n).map(|i| 44 + i * 18).map(|i| (u16::from_le_bytes([e[i], e[i + 1]]), q(i + 2))).collect();
        Some(MangoData { init: q(8), maint: q(24), tokens })
    }
}
fn fxp(x: f64) -> fixed::types::I80F48 {
    fixed::types::I80F48::from_num(x)
}

/// a0: account under test; a1 lends
pub fn health_scen(thorough: bool) -> (Scen, State) {
    let mut s = State::new();
    let cfg = TokCfg { min_vault_ratio: 0.0, max_staleness: Some(100), conf_filter: 0.1, loan_orig_fee: 0.0, ..TokCfg::default() };
    let quote = TokCfg { init_asset: 0.97, maint_asset: 0.99, init_liab: 1.04, maint_liab: 1.02, ..cfg.clone() };
    let pcfg = PerpCfg { price: 4.0, quote_lot: 1, base_lot: 10, overall_maint: 0.9, overall_init: 0.75, ..PerpCfg::default() };
    let mut fx = fix("health", &mut s, &[quote, TokCfg { price: 8.0, ..cfg.clone() }, TokCfg { price: 2.0, maint_asset: 0.9, init_asset: 0.75, maint_liab: 1.1, init_liab: 1.25, ..cfg }], &[]);
    fx.w.add_perp(&mut s, &pcfg);
    fx.w.add_perp(&mut s, &PerpCfg { price: 16.0, settle_tok: 1, overall_maint: 0.8, overall_init: 0.5, ..pcfg });
    for p in 0..2 {
        s.edit_zc(&fx.w.perps[p].market, |m: &mut PerpMarket| {
            m.oracle_config.conf_filter = fxp(0.1);
            m.oracle_config.max_staleness_slots = 100;
        });
    }
    fx.w.add_serum(&mut s, 1, 0, 10, 1, 0.0);
    fx.w.add_serum(&mut s, 2, 1, 10, 1, 0.0);
    fx.user(&mut s, "tested", 1 << 40);
    fx.user(&mut s, "lender", 1 << 40);
    deposits(&fx, &mut s, &[(1, 0, 1_000_000), (1, 1, 1_000_000), (1, 2, 1_000_000), (0, 0, 1000), (0, 1, 100), (0, 2, 50)]);
    for n in 0..2 {
        let i = fx.w.serum_create_oo(fx.accts[0], fx.owners[0], n);
        must(&fx, &mut s, i);
    }
    // indexes that are not one; a lot of slots to be stale in
    for (t, d, b) in [(0, 1_250_000.0, 1_500_000.0), (1, 1_000_000.0, 1_000_000.0), (2, 2_000_000.0, 2_500_000.0)] {
        s.edit_zc(&fx.w.toks[t].bank, |k: &mut Bank| {
            k.deposit_index = fxp(d);
            k.borrow_index = fxp(b);
        });
    }
    let bal = |fx: &Fix, s: &mut State, t: usize, n: f64| {
        let b = fx.w.bank(s, t);
        edit_acc(s, &fx.accts[0], |a| {
            a.tokens.iter_mut().find(|p| p.token_index == b.token_index).unwrap().indexed_position = fxp(n / if n > 0.0 { f(b.deposit_index) } else { f(b.borrow_index) });
        });
    };
    bal(&fx, &mut s, 2, 0.0);
    let mut sc = Scen::new("health", fx);
    sc.want_events = true;
    for (t, vs) in [(0, vec![-500.25, 0.0, 300.0]), (1, vec![-40.5, 0.0]), (2, vec![37.5, -60.0])] {
        for v in vs {
            sc.env(format!("balance t{t} {v}"), move |fx, s| bal(fx, s, t, v));
        }
    }
    for (t, p) in [(0, 0.9), (1, 10.0), (1, 6.0), (2, 1.5)] {
        sc.env(format!("oracle t{t} {p}"), move |fx, s| fx.w.set_price(s, fx.w.toks[t].oracle, p));
    }
    for (t, p) in [(0, 1.1), (2, 2.5)] {
        sc.env(format!("stable price t{t} {p}"), move |fx, s| s.edit_zc(&fx.w.toks[t].bank, |b: &mut Bank| b.stable_price_model.stable_price = p));
    }
    // many deposits, many borrows, large potential serum deposits
    sc.env("deposits of t1 over their scaling start", |fx, s| {
        s.edit_zc(&fx.w.toks[1].bank, |b: &mut Bank| {
            b.deposit_weight_scale_start_quote = 5_000_000.0;
            b.borrow_weight_scale_start_quote = 1e12;
        })
    });
    sc.env("borrows of t1 over their scaling start", |fx, s| {
        s.edit_zc(&fx.w.toks[1].bank, |b: &mut Bank| {
            b.indexed_borrows = fxp(0.4);
            b.borrow_weight_scale_start_quote = 3_000_000.0;
        })
    });
    sc.env("spot orders of t1 over the deposit scaling start", |fx, s| {
        s.edit_zc(&fx.w.toks[1].bank, |b: &mut Bank| {
            b.deposit_weight_scale_start_quote = 9_000_000.0;
            b.potential_serum_tokens = 300_000;
        })
    });
    for (n, k) in [("half way", 500i64), ("done", 1000), ("not started", -5)] {
        sc.env(format!("maintenance weight shift of t1 {n}"), move |fx, s| {
            let now = s.ts;
            s.edit_zc(&fx.w.toks[1].bank, |b: &mut Bank| {
                b.maint_weight_shift_start = (now - k) as u64;
                b.maint_weight_shift_end = (now - k + 1000) as u64;
                b.maint_weight_shift_duration_inv = fxp(1.0) / fxp(1000.0);
                b.maint_weight_shift_asset_target = fxp(0.5);
                b.maint_weight_shift_liab_target = fxp(1.5);
            })
        });
    }
    // spot orders: base (free, total), quote (free, total), rebates, 1/highest bid, lowest ask
    type O = (u64, u64, u64, u64, u64, f64, f64);
    let orders: [(usize, &str, O); 7] = [
        (0, "ask", (5, 25, 0, 0, 0, 0.0, 0.0)),
        (0, "bid", (0, 0, 30, 330, 3, 0.0, 0.0)),
        (0, "bid above and ask below market", (0, 20, 0, 300, 0, 1.0 / 12.0, 5.0)),
        (0, "bid below and ask above market", (0, 20, 0, 300, 0, 1.0 / 4.0, 12.0)),
        (0, "free only", (7, 7, 70, 70, 5, 0.0, 0.0)),
        (1, "bid and ask", (3, 43, 2, 22, 1, 0.0, 0.0)),
        (1, "bid", (0, 0, 0, 30, 0, 0.0, 0.0)),
    ];
    for (n, name, o) in orders {
        sc.env(format!("spot market {n}: {name}"), move |fx, s| {
            edit_oo(s, &fx.w.oo_key(&fx.accts[0], n), |x| {
                x.native_coin_free = o.0;
                x.native_coin_total = o.1;
                x.native_pc_free = o.2;
                x.native_pc_total = o.3;
                x.referrer_rebates_accrued = o.4;
            });
            let key = fx.w.oo_key(&fx.accts[0], n);
            edit_acc(s, &fx.accts[0], |a| {
                let m = a.serum3.iter_mut().find(|m| m.open_orders == key).unwrap();
                m.highest_placed_bid_inv = o.5;
                m.lowest_placed_ask = o.6;
            });
        });
    }
    // perp positions: base, quote, bids, asks, taker base, taker quote
    type P = (i64, f64, i64, i64, i64, i64);
    let pos: [(usize, &str, P); 9] = [
        (0, "long at a loss", (5, -350.5, 0, 0, 0, 0)),
        (0, "long at a profit", (5, -20.25, 0, 0, 0, 0)),
        (0, "short with asks", (-4, 170.0, 0, 6, 0, 0)),
        (0, "long with bids and asks", (3, -100.0, 7, 9, 0, 0)),
        (0, "taker fills", (2, -80.0, 0, 3, 4, -160)),
        (0, "quote only", (0, 120.0, 0, 0, 0, 0)),
        (1, "short at a profit", (-2, 50.0, 0, 0, 0, 0)),
        (1, "negative quote with bids", (0, -9.5, 1, 0, 0, 0)),
        (1, "short at a loss", (-1, 1.0, 0, 0, 0, 0)),
    ];
    for (p, name, v) in pos {
        sc.env(format!("perp {p}: {name}"), move |fx, s| {
            let m = fx.w.perp(s, p);
            edit_acc(s, &fx.accts[0], |a| {
                let x = &mut a.perps[p];
                *x = PerpPosition { market_index: m.perp_market_index, ..PerpPosition::default() };
                x.base_position_lots = v.0;
                x.quote_position_native = fxp(v.1);
                x.bids_base_lots = v.2;
                x.asks_base_lots = v.3;
                x.taker_base_lots = v.4;
                x.taker_quote_lots = v.5;
            });
        });
    }
    sc.env("funding of perp 0", |fx, s| {
        s.edit_zc(&fx.w.perps[0].market, |m: &mut PerpMarket| {
            m.long_funding = fxp(11.5);
            m.short_funding = fxp(-7.25);
        })
    });
    for (p, v) in [(0, 5.0), (0, 2.5), (1, 20.0)] {
        sc.env(format!("oracle perp {p} {v}"), move |fx, s| fx.w.set_price(s, fx.w.perps[p].oracle, v));
    }
    for t in 0..4 {
        sc.env(format!("unusable oracle {}", if t == 3 { "perp 0".into() } else { format!("t{t}") }), move |fx, s| {
            let k = if t == 3 { fx.w.perps[0].oracle } else { fx.w.toks[t].oracle };
            let p = oracle_price(s, &k);
            // alternate between the two reasons
            let i = if t % 2 == 0 { fx.w.oracle_set_test_ix(k, p, s.slot - 101, 0.0) } else { fx.w.oracle_set_test_ix(k, p, s.slot, p * 0.11) };
            s.tx(&[i]).expect("oracle");
        });
    }
    for kind in 0..6u8 {
        probe(&mut sc, kind, vec![], false);
    }
    for m in 0..3 {
        probe(&mut sc, [1, 0, 4][m], vec![m], false);
        probe(&mut sc, [5, 3, 2][m], vec![m], true);
    }
    probe(&mut sc, 1, vec![], true);
    probe(&mut sc, 0, vec![1, 2], false);
    sc.op("account data", K::Health(Probe::Data), |fx, s| {
        tx1(ix(mango_v4::accounts::ComputeAccountData { group: fx.w.group, account: fx.accts[0] }, mango_v4::instruction::ComputeAccountData {}).with(probe_accounts(&fx.w, s, &fx.acc(s, 0), &[], false)))
    });
    for t in 0..3 {
        sc.op(format!("health with bank {t} listed twice"), K::Health(Probe::Duplicate), move |fx, s| {
            let mut i = check_ix(fx, s, 1, &[], false, -BIG);
            i.accounts.insert(5, ro(fx.w.toks[t].bank));
            i.accounts.insert(9, ro(fx.w.toks[t].oracle));
            tx1(i)
        });
    }
    sc.refuse("open orders account left out", |fx, s| {
        let mut i = check_ix(fx, s, 1, &[], false, -BIG);
        i.accounts.pop();
        tx1(i)
    });
    sc.op("health without the first perp market", K::Refuse("perp market left out"), |fx, s| {
        let a = fx.acc(s, 0);
        let first = match a.active_perps().next() {
            Some(p) => fx.w.perps[fx.w.perp_by_index(p.market_index)].clone(),
            None => return Act::Skip,
        };
        let mut i = check_ix(fx, s, 1, &[], false, -BIG);
        i.accounts.retain(|m| m.pubkey != first.market && m.pubkey != first.oracle);
        tx1(i)
    });
    sc.refuse("oracle of another token", |fx, s| {
        let mut i = check_ix(fx, s, 1, &[], false, -BIG);
        i.accounts.swap(6, 7);
        tx1(i)
    });
    let other = other_bank(&mut s);
    sc.op("bank of another group in addition", K::Health(Probe::Foreign), move |fx, s| {
        let mut i = check_ix(fx, s, 1, &[], false, -BIG);
        i.accounts.insert(5, ro(other.0));
        i.accounts.insert(9, ro(other.1));
        tx1(i)
    });
    sc.op("bank of another group instead", K::Health(Probe::Foreign), move |fx, s| {
        let mut i = check_ix(fx, s, 1, &[], false, -BIG);
        let n = i.accounts.iter().position(|m| m.pubkey == fx.w.toks[1].bank).unwrap();
        i.accounts[n].pubkey = other.0;
        i.accounts[n + 3].pubkey = other.1;
        tx1(i)
    });
    let wd: &[(usize, u64, &[usize])] = &[(2, 38, &[2]), (2, 37, &[2]), (1, 101, &[1]), (0, 301, &[0]), (1, 20, &[1]), (1, 20, &[2]), (0, 250, &[1]), (2, 30, &[2]), (0, 250, &[0])];
    for &(tok, amount, missing) in wd {
        let missing = missing.to_vec();
        sc.op(format!("withdraw {amount} t{tok} without banks {missing:?}"), K::Health(Probe::Withdraw { tok, amount, missing: missing.clone() }), move |fx, s| {
            let mut i = fx.w.withdraw(s, fx.accts[0], fx.owners[0], tok, amount, true);
            let n = i.accounts.len() - fx.w.health(s, &fx.accts[0], Some(tok), None, false).len();
            i.accounts.truncate(n);
            i.accounts.extend(probe_accounts(&fx.w, s, &fx.acc(s, 0), &missing, false));
            tx1(i)
        });
    }
    let _ = thorough;
    (sc, s)
}
/// a group with the same token indexes, whose oracles say other things
fn other_bank(s: &mut State) -> (anchor_lang::prelude::Pubkey, anchor_lang::prelude::Pubkey) {
    let mut fx = fix("other", s, &[TokCfg::quote(), TokCfg { price: 1000.0, ..TokCfg::default() }], &[]);
    fx.user(s, "someone", 1000);
    (fx.w.toks[1].bank, fx.w.toks[1].oracle)
}
fn probe(sc: &mut Scen, kind: u8, missing: Vec<usize>, rev: bool) {
    sc.op(format!("health kind {kind} without {missing:?}{}", if rev { " reversed" } else { "" }), K::Health(Probe::Check { kind, missing: missing.clone(), rev }), move |fx, s| {
        let min = match value(fx, s, kind, &missing) {
            Ok((x, _)) if x == f64::MAX => BIG,
            Ok((x, tol)) => x - tol,
            Err(_) => -BIG,
        };
        tx1(check_ix(fx, s, kind, &missing, rev, min))
    });
}
