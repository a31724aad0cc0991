//! Perp markets: placing, cancelling, processing events, funding.
use crate::perp_ref::*;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::state::*;

/// perp operation
#[derive(Clone, PartialEq, Debug)]
pub enum PK {
    Place(PerpOrd),
    Cancel { a: usize, p: usize, slot: usize },
    CancelCid { a: usize, p: usize, cid: u64 },
    CancelAll { a: usize, p: usize, side: Option<u8>, limit: u8 },
    Consume { p: usize, accts: Vec<usize>, limit: usize },
    Funding { p: usize },
    Settle { settler: usize, a: usize, b: usize, p: usize },
    SettleFees { a: usize, p: usize, max: u64 },
    ForceClose { a: usize, b: usize, p: usize },
    Deactivate { a: usize, p: usize },
    LiqBase { liqor: usize, liqee: usize, p: usize, max_base: i64, max_pnl: u64 },
    ForceCancel { a: usize, p: usize, limit: u8 },
    LiqNeg { liqor: usize, liqee: usize, p: usize, max: u64 },
}
fn side(n: u8) -> Side {
    if n == 0 {
        Side::Bid
    } else {
        Side::Ask
    }
}
pub fn place_ix(fx: &Fix, s: &State, o: &PerpOrd) -> solana_program::instruction::Instruction {
    let kind = match o.kind {
        0 => PlaceOrderType::Limit,
        1 => PlaceOrderType::ImmediateOrCancel,
        2 => PlaceOrderType::PostOnly,
        3 => PlaceOrderType::Market,
        _ => PlaceOrderType::PostOnlySlide,
    };
    let stb = match o.stb {
        0 => SelfTradeBehavior::DecrementTake,
        1 => SelfTradeBehavior::CancelProvide,
        _ => SelfTradeBehavior::AbortTransaction,
    };
    let expiry = if o.expiry == 0 { 0 } else { (s.ts + o.expiry) as u64 };
    let (k, u) = (fx.accts[o.a], fx.owners[o.a]);
    if o.v1 {
        use anchor_lang::InstructionData;
        let (side, order_type) = (side(o.side), kind);
        let mut i = place_ix(fx, s, &PerpOrd { v1: false, ..*o });
        i.data = match o.peg {
            None => mango_v4::instruction::PerpPlaceOrder { side, price_lots: o.price, max_base_lots: o.base, max_quote_lots: o.quote, client_order_id: o.cid, order_type, reduce_only: o.reduce, expiry_timestamp: expiry, limit: o.limit }.data(),
            Some(l) => mango_v4::instruction::PerpPlaceOrderPegged { side, price_offset_lots: o.price, peg_limit: l, max_base_lots: o.base, max_quote_lots: o.quote, client_order_id: o.cid, order_type, reduce_only: o.reduce, expiry_timestamp: expiry, limit: o.limit, max_oracle_staleness_slots: -1 }.data(),
        };
        return i;
    }
    match o.peg {
        None => fx.w.perp_place(s, k, u, o.p, side(o.side), o.price, o.base, o.quote, o.cid, kind, stb, o.reduce, expiry, o.limit),
        Some(l) => fx.w.perp_place_pegged(s, k, u, o.p, side(o.side), o.price, l, o.base, o.quote, o.cid, kind, stb, o.reduce, expiry, o.limit),
    }
}
pub fn perp_ix(fx: &Fix, s: &State, k: &PK) -> Option<solana_program::instruction::Instruction> {
    let w = &fx.w;
    let (ac, ow) = (|a: usize| fx.accts[a], |a: usize| fx.owners[a]);
    Some(match k {
        PK::Place(o) => place_ix(fx, s, o),
        PK::Cancel { a, p, slot } => {
            let x = fx.acc(s, *a).oos[*slot];
            if x.market != w.perps[*p].index {
                return None;
            }
            w.perp_cancel(ac(*a), ow(*a), *p, x.id)
        }
        PK::CancelCid { a, p, cid } => w.perp_cancel_cid(ac(*a), ow(*a), *p, *cid),
        PK::CancelAll { a, p, side: None, limit } => w.perp_cancel_all(ac(*a), ow(*a), *p, *limit),
        PK::CancelAll { a, p, side: Some(sd), limit } => w.perp_cancel_all_side(ac(*a), ow(*a), *p, Some(side(*sd)), *limit),
        PK::Consume { p, accts, limit } => {
            let v: Vec<_> = accts.iter().map(|a| ac(*a)).collect();
            w.perp_consume(*p, &v, *limit)
        }
        PK::Funding { p } => w.perp_update_funding(*p),
        PK::Settle { settler, a, b, p } => w.perp_settle_pnl(s, ac(*settler), ow(*settler), ac(*a), ac(*b), *p),
        PK::SettleFees { a, p, max } => w.perp_settle_fees(s, ac(*a), *p, *max),
        PK::ForceClose { a, b, p } => w.perp_force_close(ac(*a), ac(*b), *p),
        PK::Deactivate { a, p } => w.perp_deactivate(ac(*a), ow(*a), *p),
        PK::LiqBase { liqor, liqee, p, max_base, max_pnl } => w.perp_liq_base(s, ac(*liqor), ow(*liqor), ac(*liqee), *p, *max_base, *max_pnl),
        PK::ForceCancel { a, p, limit } => w.perp_liq_force_cancel(s, ac(*a), *p, *limit),
        PK::LiqNeg { liqor, liqee, p, max } => w.perp_liq_bankruptcy(s, ac(*liqor), ow(*liqor), ac(*liqee), *p, *max),
    })
}
pub fn op_perp(sc: &mut Scen, k: PK) {
    op_perp_after(sc, 0, k)
}
pub fn op_perp_after(sc: &mut Scen, secs: i64, k: PK) {
    let name = if secs > 0 { format!("advance {secs}s + {k:?}") } else { format!("{k:?}") };
    sc.op(name, K::Perp(k.clone()), move |fx, s| {
        let mut t = s.clone();
        t.advance(secs);
        match perp_ix(fx, &t, &k) {
            None => Act::Skip,
            Some(i) if secs > 0 => Act::After(secs, vec![i]),
            Some(i) => tx1(i),
        }
    });
}

/// token positions of account a keep their balances (slots may be opened or closed)
pub fn balances_same(cx: &Cx, a: usize, except: &[TokenIndex]) -> Result<(), String> {
    let (x, y) = (cx.fx.acc(cx.pre, a), cx.fx.acc(cx.post, a));
    for t in &cx.fx.w.toks {
        let b = |a: &Acc| a.tok(t.index).map(|p| p.indexed_position.to_bits()).unwrap_or(0);
        if !except.contains(&t.index) && b(&x) != b(&y) {
            return Err(format!("a token balance changed that is not part of the operation | a{a} token {}", t.index));
        }
    }
    Ok(())
}
fn flag(cx: &Cx, a: usize) -> bool {
    cx.fx.acc(cx.post, a).being_liquidated
}

pub fn perp_spec(cx: &Cx) -> Result<(), String> {
    let k = match &cx.op.k {
        K::Perp(k) => k,
        _ => return Ok(()),
    };
    let fx = cx.fx;
    let mut pr = Pred::new();
    match k {
        PK::Place(o) => {
            let mut m = RM::new(fx, cx.pre, o.p)?;
            let noop = o.expiry != 0 && o.expiry <= 0 && (o.peg.is_some() || o.price >= 0) && o.peg.unwrap_or(-1) >= -1;
            if noop {
                pr.judge(cx)?;
                return if cx.ok() { frame(cx, &[]) } else { Ok(()) };
            }
            m.place(o, &mut pr);
            pr.judge(cx)?;
            if cx.ok() && !m.unsure {
                m.check(cx, 1e-4)?;
                frame(cx, &m.keys(&[]))?;
                balances_same(cx, o.a, &[])?;
                ensure(!flag(cx, o.a), || "account stays flagged as being liquidated".into())?;
            }
            Ok(())
        }
        PK::Cancel { .. } | PK::CancelCid { .. } | PK::CancelAll { .. } => {
            let (a, p) = match k {
                PK::Cancel { a, p, .. } | PK::CancelCid { a, p, .. } | PK::CancelAll { a, p, .. } => (*a, *p),
                _ => unreachable!(),
            };
            let mut m = RM::new(fx, cx.pre, p)?;
            let idx = m.m.perp_market_index;
            m.ra(a);
            match k {
                PK::Cancel { slot, .. } => m.cancel_slot(a, *slot, &mut pr, false),
                PK::CancelCid { cid, .. } => match fx.acc(cx.pre, a).oos.iter().position(|x| x.market == idx && x.client_id == *cid) {
                    Some(i) => m.cancel_slot(a, i, &mut pr, false),
                    None => {
                        pr.must(false, "no such order");
                    }
                },
                PK::CancelAll { side, limit, .. } => m.cancel_all(a, *side, *limit, &mut pr),
                _ => {}
            }
            pr.judge(cx)?;
            if cx.ok() && !m.unsure {
                m.check(cx, 1e-9)?;
                frame(cx, &m.keys(&[]))?;
                balances_same(cx, a, &[])?;
                ensure(flag(cx, a) == fx.acc(cx.pre, a).being_liquidated, || "cancelling changed the liquidation flag".into())?;
            }
            Ok(())
        }
        PK::Consume { p, accts, limit } => {
            let mut m = RM::new(fx, cx.pre, *p)?;
            m.consume(accts, *limit);
            pr.judge(cx)?;
            if cx.ok() {
                m.check(cx, 1e-4)?;
                let ks = m.keys(&[]);
                frame(cx, &ks)?;
                for a in m.ras.keys() {
                    balances_same(cx, *a, &[])?;
                }
            }
            Ok(())
        }
        PK::Funding { p } => {
            let mut m = RM::new(fx, cx.pre, *p)?;
            m.update_funding();
            pr.judge(cx)?;
            if cx.ok() {
                m.check(cx, 1e-9)?;
                frame(cx, &[fx.w.perps[*p].market])?;
            }
            Ok(())
        }
        _ => crate::p_perp2::perp_spec2(cx, k),
    }
}

/// three traders with collateral and one perp market
pub fn perp_fix(name: &str, s: &mut State, cfg: PerpCfg, users: usize, each: u64) -> Fix {
    let mut fx = fix(name, s, &[TokCfg::quote()], &[cfg]);
    for i in 0..users {
        fx.user(s, &format!("u{i}"), 1_000_000_000);
        let ix = fx.w.deposit(s, fx.accts[i], fx.owners[i], 0, each, false);
        must(&fx, s, ix);
    }
    fx
}
pub fn perp_do(fx: &Fix, s: &mut State, k: PK) {
    let i = perp_ix(fx, s, &k).unwrap_or_else(|| panic!("setup {k:?}"));
    if let Err(e) = s.tx(&[i]) {
        panic!("setup {k:?}: {e:?}");
    }
}
pub fn all_consume(fx: &Fix, p: usize) -> PK {
    PK::Consume { p, accts: (0..fx.accts.len()).collect(), limit: 8 }
}

/// matching scenarios
pub fn match_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let cfg = PerpCfg { maker_fee: if v == 1 { 0.0003 } else { -0.0001 }, taker_fee: 0.000_71, fee_penalty: 3.5, impact: 3, ..PerpCfg::default() };
    let fx = perp_fix(&format!("match{v}"), &mut s, cfg, 3, 10_000_000);
    let mut sc = Scen::new(&format!("matching-{v}"), fx);
    let pl = |sc: &mut Scen, o: PerpOrd| op_perp(sc, PK::Place(o));
    s.edit_zc::<Group>(&sc.fx.w.group, |g| g.buyback_fees_expiry_interval = 3600);
    match v {
        // price-time priority over two trees, several makers, all order types
        0 => {
            pl(&mut sc, PerpOrd { cid: 1, ..ord(0, 1, 0, 11, 10) });
            pl(&mut sc, PerpOrd { cid: 2, ..ord(1, 1, 0, 10, 7) });
            pl(&mut sc, PerpOrd { peg: Some(-1), cid: 3, ..ord(0, 1, 0, 1, 5) });
            pl(&mut sc, PerpOrd { cid: 4, ..ord(1, 0, 0, 10, 6) });
            pl(&mut sc, PerpOrd { peg: Some(10), cid: 5, ..ord(0, 0, 2, -1, 4) });
            pl(&mut sc, PerpOrd { cid: 6, ..ord(2, 0, 0, 11, 14) });
            pl(&mut sc, PerpOrd { limit: 1, ..ord(2, 0, 0, 11, 14) });
            pl(&mut sc, PerpOrd { quote: 75, v1: true, ..ord(2, 0, 1, 11, 100) });
            pl(&mut sc, PerpOrd { quote: 160, ..ord(2, 0, 0, 11, 100) });
            pl(&mut sc, PerpOrd { quote: 61, v1: true, ..ord(2, 1, 3, 0, 100) });
            pl(&mut sc, ord(2, 0, 2, 10, 3));
            pl(&mut sc, PerpOrd { v1: true, ..ord(2, 0, 4, 12, 3) });
            pl(&mut sc, ord(2, 1, 4, 8, 3));
            pl(&mut sc, PerpOrd { peg: Some(-1), v1: true, ..ord(2, 1, 4, -3, 2) });
            let o = sc.fx.w.perps[0].oracle;
            sc.price(o, 1.13);
            sc.price(o, 0.94);
        }
        // self trades, reduce-only, limits on what may be posted
        1 => {
            for st in 0..3 {
                pl(&mut sc, PerpOrd { stb: st, ..ord(0, 0, 0, 10, 5) });
            }
            pl(&mut sc, ord(0, 1, 0, 10, 8));
            pl(&mut sc, PerpOrd { stb: 1, limit: 1, ..ord(0, 1, 0, 9, 3) });
            pl(&mut sc, ord(1, 0, 0, 10, 4));
            pl(&mut sc, ord(1, 1, 1, 10, 6));
            pl(&mut sc, PerpOrd { reduce: true, ..ord(1, 1, 0, 10, 20) });
            pl(&mut sc, PerpOrd { reduce: true, v1: true, ..ord(1, 0, 0, 10, 20) });
            pl(&mut sc, ord(2, 1, 0, 10, 6));
            pl(&mut sc, ord(2, 0, 0, 11, 5));
            sc.env("market reduce-only", |fx, s| s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| m.reduce_only = 1));
            let k = all_consume(&sc.fx, 0);
            op_perp(&mut sc, k);
            op_perp(&mut sc, PK::Consume { p: 0, accts: vec![0, 1], limit: 1 });
        }
        // expiry and invalid orders
        2 => {
            pl(&mut sc, PerpOrd { expiry: 10, ..ord(0, 1, 0, 10, 3) });
            pl(&mut sc, PerpOrd { expiry: 20, cid: 9, ..ord(0, 1, 0, 11, 3) });
            pl(&mut sc, PerpOrd { expiry: 70_000, ..ord(1, 1, 0, 10, 2) });
            pl(&mut sc, PerpOrd { expiry: -1, ..ord(1, 1, 0, 10, 2) });
            pl(&mut sc, PerpOrd { expiry: -1, v1: true, ..ord(1, 1, 0, 10, 2) });
            pl(&mut sc, PerpOrd { expiry: -1, peg: Some(-1), ..ord(1, 1, 0, 1, 2) });
            pl(&mut sc, PerpOrd { expiry: -1, peg: Some(-1), v1: true, ..ord(1, 1, 0, 1, 2) });
            pl(&mut sc, PerpOrd { peg: Some(9), expiry: 15, ..ord(1, 1, 0, 0, 4) });
            pl(&mut sc, PerpOrd { peg: Some(9), v1: true, ..ord(1, 0, 0, -1, 4) });
            pl(&mut sc, PerpOrd { peg: Some(-2), ..ord(1, 0, 0, -1, 4) });
            pl(&mut sc, PerpOrd { peg: Some(-1), ..ord(2, 0, 0, -8, 4) });
            pl(&mut sc, PerpOrd { expiry: 12, v1: true, ..ord(2, 0, 0, 10, 4) });
            pl(&mut sc, ord(2, 0, 2, 9, 5));
            pl(&mut sc, ord(2, 1, 0, 9, 5));
            for secs in [9, 1, 6] {
                sc.env(format!("advance {secs}s"), move |_, s| s.advance(secs));
            }
            let o = sc.fx.w.perps[0].oracle;
            sc.price(o, 1.25);
            sc.price(o, 0.65);
            let k = all_consume(&sc.fx, 0);
            op_perp(&mut sc, k);
        }
        // cancels in all variants
        3 => {
            pl(&mut sc, PerpOrd { cid: 7, ..ord(0, 1, 0, 10, 3) });
            pl(&mut sc, PerpOrd { cid: 8, ..ord(0, 0, 0, 9, 3) });
            pl(&mut sc, PerpOrd { cid: 7, peg: Some(-1), ..ord(0, 1, 0, 2, 3) });
            pl(&mut sc, PerpOrd { cid: 7, ..ord(1, 1, 0, 10, 3) });
            pl(&mut sc, ord(1, 0, 1, 10, 2));
            pl(&mut sc, ord(1, 0, 1, 10, 3));
            for slot in 0..2 {
                op_perp(&mut sc, PK::Cancel { a: 0, p: 0, slot });
            }
            for cid in [7, 8, 9] {
                op_perp(&mut sc, PK::CancelCid { a: 0, p: 0, cid });
            }
            for (sd, l) in [(None, 10), (None, 1), (Some(0), 10), (Some(1), 10), (Some(1), 1)] {
                op_perp(&mut sc, PK::CancelAll { a: 0, p: 0, side: sd, limit: l });
            }
            // orders from before slots kept the quantity
            sc.env("orders become old ones", |fx, s| {
                edit_acc(s, &fx.accts[0], |a| a.oos.iter_mut().for_each(|o| o.quantity = 0));
            });
            // someone else's order id
            sc.refuse("cancel an order of another account by id", |fx, s| match fx.acc(s, 0).active_oos().next() {
                Some(o) => tx1(fx.w.perp_cancel(fx.accts[1], fx.owners[1], 0, o.id)),
                None => Act::Skip,
            });
            let k = all_consume(&sc.fx, 0);
            op_perp(&mut sc, k);
            op_perp(&mut sc, PK::Consume { p: 0, accts: vec![1], limit: 8 });
        }
        // full book
        4 => {
            for (side, a) in [(0u8, 0usize), (1, 1)] {
                perp_do(&sc.fx, &mut s, PK::Place(ord(a, side, 0, if side == 0 { 8 } else { 12 }, 2)));
                perp_do(&sc.fx, &mut s, PK::Place(PerpOrd { peg: Some(-1), ..ord(a, side, 0, if side == 0 { -2 } else { 2 }, 2) }));
                perp_do(&sc.fx, &mut s, PK::Place(PerpOrd { expiry: 30, ..ord(a, side, 0, if side == 0 { 7 } else { 13 }, 2) }));
            }
            for side in 0..2 {
                let k = if side == 0 { sc.fx.w.perps[0].bids } else { sc.fx.w.perps[0].asks };
                // everything up to the end of the node array counts as used
                s.edit(&k, |d| d[NODES_HEAD + 4..NODES_HEAD + 8].copy_from_slice(&1023u32.to_le_bytes()));
            }
            for (sd, px) in [(0u8, 9), (0, 8), (0, 6), (1, 11), (1, 12), (1, 14)] {
                pl(&mut sc, ord(2, sd, 0, px, 1));
            }
            pl(&mut sc, PerpOrd { peg: Some(-1), ..ord(2, 0, 0, -1, 1) });
            pl(&mut sc, PerpOrd { peg: Some(-1), ..ord(2, 0, 0, -4, 1) });
            pl(&mut sc, PerpOrd { peg: Some(-1), ..ord(2, 1, 0, 1, 1) });
            pl(&mut sc, ord(2, 0, 1, 12, 3));
            sc.env("advance 40s", |_, s| s.advance(40));
            let o = sc.fx.w.perps[0].oracle;
            sc.price(o, 1.1);
            sc.price(o, 0.95);
            let k = all_consume(&sc.fx, 0);
            op_perp(&mut sc, k);
        }
        // many invalid orders in front: at most five are dropped per order
        _ => {
            for i in 0..7 {
                perp_do(&sc.fx, &mut s, PK::Place(PerpOrd { expiry: 5 + i, ..ord(if i < 4 { 0 } else { 1 }, 1, 0, 10, 1 + i) }));
            }
            perp_do(&sc.fx, &mut s, PK::Place(PerpOrd { expiry: 200, ..ord(1, 1, 0, 11, 4) }));
            s.advance(9);
            for (base, px) in [(3, 10), (3, 11), (30, 11)] {
                pl(&mut sc, ord(2, 0, 0, px, base));
                pl(&mut sc, ord(2, 0, 1, px, base));
            }
            pl(&mut sc, ord(2, 0, 4, 12, 2));
            pl(&mut sc, ord(2, 1, 0, 10, 2));
            pl(&mut sc, ord(0, 1, 0, 11, 2));
            sc.env("advance 1s", |_, s| s.advance(1));
            sc.env("advance 2s", |_, s| s.advance(2));
            op_perp(&mut sc, PK::CancelAll { a: 0, p: 0, side: None, limit: 2 });
            let k = all_consume(&sc.fx, 0);
            op_perp(&mut sc, k);
        }
    }
    (sc, s)
}
/// place/cancel/consume/funding over a position's life: increase, reduce, flip, close
pub fn trade_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let cfg = PerpCfg { maker_fee: if v == 0 { 0.000_3 } else { -0.000_15 }, taker_fee: 0.000_71, fee_penalty: 3.5, impact: 5, ..PerpCfg::default() };
    let fx = perp_fix(&format!("trade{v}"), &mut s, cfg, 3, 1_000_000);
    s.edit_zc::<Group>(&fx.w.group, |g| g.buyback_fees_expiry_interval = 3600);
    // after a socialized loss, longs and shorts have different funding counters
    s.edit_zc::<PerpMarket>(&fx.w.perps[0].market, |m| {
        m.long_funding = fixed::types::I80F48::from_num(-1.5);
        m.short_funding = fixed::types::I80F48::from_num(2.75);
    });
    let mut sc = Scen::new(&format!("trading-{v}"), fx);
    let pl = |sc: &mut Scen, o: PerpOrd| op_perp(sc, PK::Place(o));
    // open positions: a0 long 30, a1 short 30
    perp_do(&sc.fx, &mut s, PK::Place(ord(0, 0, 0, 10, 30)));
    perp_do(&sc.fx, &mut s, PK::Place(ord(1, 1, 0, 10, 30)));
    let k = all_consume(&sc.fx, 0);
    perp_do(&sc.fx, &mut s, k.clone());
    if v == 0 {
        // an order of a0 that is dropped by the next match, while its slot may be used again
        perp_do(&sc.fx, &mut s, PK::Place(PerpOrd { expiry: 10, ..ord(0, 0, 0, 9, 20) }));
        s.advance(20);
        pl(&mut sc, ord(0, 0, 0, 9, 20));
        pl(&mut sc, ord(0, 1, 0, 11, 45));
        pl(&mut sc, ord(1, 0, 1, 11, 30));
        pl(&mut sc, ord(1, 1, 3, 0, 13));
        pl(&mut sc, ord(2, 0, 0, 11, 17));
        pl(&mut sc, ord(2, 1, 1, 9, 50));
        op_perp(&mut sc, k);
        op_perp(&mut sc, PK::Consume { p: 0, accts: vec![0, 1, 2], limit: 1 });
        op_perp(&mut sc, PK::Consume { p: 0, accts: vec![0, 2], limit: 8 });
        op_perp(&mut sc, PK::CancelAll { a: 0, p: 0, side: None, limit: 10 });
        op_perp_after(&mut sc, 1800, PK::Funding { p: 0 });
        op_perp_after(&mut sc, 40_000, PK::Funding { p: 0 });
        op_perp(&mut sc, PK::Funding { p: 0 });
        let o = sc.fx.w.perps[0].oracle;
        sc.price(o, 1.3);
    } else {
        // close to the collateral limit
        let o = sc.fx.w.perps[0].oracle;
        for (sd, px) in [(0u8, 10i64), (1, 10)] {
            for n in [90_000, 180_000, 200_000] {
                pl(&mut sc, PerpOrd { quote: 1 << 50, ..ord(0, sd, 0, px, n) });
            }
        }
        pl(&mut sc, PerpOrd { quote: 1 << 50, ..ord(1, 1, 0, 10, 190_000) });
        pl(&mut sc, PerpOrd { quote: 1 << 50, ..ord(1, 0, 0, 9, 150_000) });
        pl(&mut sc, PerpOrd { quote: 1 << 50, ..ord(2, 0, 1, 11, 100_000) });
        op_perp(&mut sc, k);
        op_perp(&mut sc, PK::CancelAll { a: 0, p: 0, side: Some(0), limit: 10 });
        op_perp_after(&mut sc, 30, PK::Funding { p: 0 });
        sc.price(o, 0.9);
        sc.price(o, 1.06);
        sc.env("a0 being liquidated", |fx, s| s.edit(&fx.accts[0], |d| d[OFF_BEING_LIQ] = 1));
        op_withdraw(&mut sc, 0, 0, 800_000, true);
    }
    (sc, s)
}
/// funding rate from the book against the oracle, with the clock moving
pub fn funding_scen() -> (Scen, State) {
    let mut s = State::new();
    let cfg = PerpCfg { impact: 10, min_funding: -0.05, max_funding: 0.07, ..PerpCfg::default() };
    let fx = perp_fix("funding", &mut s, cfg, 3, 100_000_000);
    let mut sc = Scen::new("funding", fx);
    perp_do(&sc.fx, &mut s, PK::Place(ord(0, 0, 0, 10, 30)));
    perp_do(&sc.fx, &mut s, PK::Place(ord(1, 1, 0, 10, 30)));
    let k = all_consume(&sc.fx, 0);
    perp_do(&sc.fx, &mut s, k.clone());
    for (a, sd, px, n) in [(0usize, 0u8, 9i64, 9i64), (0, 0, 9, 20), (0, 0, 10, 10), (1, 1, 11, 10), (1, 1, 10, 9), (1, 1, 12, 3)] {
        op_perp(&mut sc, PK::Place(ord(a, sd, 0, px, n)));
    }
    op_perp(&mut sc, PK::Place(PerpOrd { expiry: 60, ..ord(1, 1, 0, 11, 15) }));
    op_perp(&mut sc, PK::Place(PerpOrd { peg: Some(11), ..ord(0, 0, 0, -1, 15) }));
    op_perp(&mut sc, PK::CancelAll { a: 0, p: 0, side: None, limit: 9 });
    op_perp(&mut sc, PK::CancelAll { a: 1, p: 0, side: None, limit: 9 });
    for t in [0, 1, 59, 3599, 3601, 90_000] {
        op_perp_after(&mut sc, t, PK::Funding { p: 0 });
    }
    op_perp_after(&mut sc, 1000, PK::Place(ord(2, 0, 1, 12, 4)));
    op_perp(&mut sc, k);
    let o = sc.fx.w.perps[0].oracle;
    for p in [1.04, 0.95, 1.25] {
        sc.price(o, p);
    }
    (sc, s)
}
