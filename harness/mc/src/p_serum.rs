//! Spot (order book DEX) orders: two-sided specification of placing, cancelling, settling and force-cancelling.
//! What the DEX itself does is taken from the DEX: the equivalent DEX instructions are run directly on a copy of the state.
use crate::p_perp2::{deposits, freeze_env};
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use mango_v4::accounts_ix::*;
use mango_v4::state::*;
use serum_dex::instruction::MarketInstruction as MI;
use solana_program::instruction::Instruction;
use std::num::NonZeroU64;

#[derive(Clone, Debug, PartialEq)]
pub struct Spo {
    pub a: usize,
    pub n: usize,
    /// 0 bid, 1 ask
    pub side: u8,
    pub px: u64,
    pub base: u64,
    pub quote: u64,
    /// 0 limit, 1 ioc, 2 post only
    pub ty: u8,
    /// 0 decrement take, 1 cancel provide, 2 abort
    pub stb: u8,
    pub limit: u16,
    pub cid: u64,
    /// instruction version
    pub v2: bool,
    /// receiving bank writable among the health accounts
    pub rw: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SK {
    Place(Spo),
    Cancel { a: usize, n: usize, slot: usize },
    CancelCid { a: usize, n: usize, cid: u64 },
    CancelAll { a: usize, n: usize, limit: u8 },
    Settle { a: usize, n: usize, dao: bool },
    Force { a: usize, n: usize, limit: u8 },
    Create { a: usize, n: usize },
    Close { a: usize, n: usize },
}
pub fn spo(a: usize, n: usize, side: u8, px: u64, base: u64, quote: u64) -> Spo {
    Spo { a, n, side, px, base, quote, ty: 0, stb: 0, limit: 5, cid: 7, v2: true, rw: true }
}
fn side(x: u8) -> Serum3Side {
    if x == 0 {
        Serum3Side::Bid
    } else {
        Serum3Side::Ask
    }
}

pub fn serum_ix(fx: &Fix, s: &State, k: &SK) -> Option<Instruction> {
    let w = &fx.w;
    let (ac, ow) = (&fx.accts, &fx.owners);
    let slot = |a: usize, n: usize| fx.acc(s, a).active_serum().any(|o| o.market_index == w.serums[n].index);
    Some(match k {
        SK::Place(o) => {
            let m = &w.serums[o.n];
            let ty = [Serum3OrderType::Limit, Serum3OrderType::ImmediateOrCancel, Serum3OrderType::PostOnly][o.ty as usize];
            let stb = [Serum3SelfTradeBehavior::DecrementTake, Serum3SelfTradeBehavior::CancelProvide, Serum3SelfTradeBehavior::AbortTransaction][o.stb as usize];
            let mut i = w.serum_place(s, ac[o.a], ow[o.a], o.n, side(o.side), o.px, o.base, o.quote, o.cid, ty, stb, o.limit);
            if !o.rw {
                let recv = if o.side == 0 { m.base } else { m.quote };
                let r = w.toks[recv].bank;
                for x in i.accounts.iter_mut().filter(|x| x.pubkey == r) {
                    x.is_writable = false;
                }
            }
            if !o.v2 {
                use anchor_lang::InstructionData;
                i.data = mango_v4::instruction::Serum3PlaceOrder { side: side(o.side), limit_price: o.px, max_base_qty: o.base, max_native_quote_qty_including_fees: o.quote, self_trade_behavior: stb, order_type: ty, client_order_id: o.cid, limit: o.limit }.data();
            }
            i
        }
        SK::Cancel { a, n, slot: j } => {
            if !slot(*a, *n) {
                return None;
            }
            let d = oo(s, &w.oo_key(&ac[*a], *n));
            if (d.free_slot_bits >> j) & 1 == 1 {
                return None;
            }
            let ids = d.orders;
            w.serum_cancel(ac[*a], ow[*a], *n, side(1 - ((d.is_bid_bits >> j) & 1) as u8), ids[*j])
        }
        SK::CancelCid { a, n, cid } => {
            use anchor_lang::InstructionData;
            let mut i = w.serum_cancel(ac[*a], ow[*a], *n, Serum3Side::Bid, 0);
            i.data = mango_v4::instruction::Serum3CancelOrderByClientOrderId { client_order_id: *cid }.data();
            i
        }
        SK::CancelAll { a, n, limit } => w.serum_cancel_all(ac[*a], ow[*a], *n, *limit),
        SK::Settle { a, n, dao } => w.serum_settle(ac[*a], ow[*a], *n, *dao),
        SK::Force { a, n, limit } => {
            if !slot(*a, *n) {
                return None;
            }
            w.serum_force_cancel(s, ac[*a], *n, *limit)
        }
        SK::Create { a, n } => w.serum_create_oo(ac[*a], ow[*a], *n),
        SK::Close { a, n } => w.serum_close_oo(ac[*a], ow[*a], *n),
    })
}

// ------------------------------------------------------------------ the DEX on its own
fn dex(s: &State, accounts: Vec<solana_program::instruction::AccountMeta>, i: MI) -> Option<State> {
    let mut s = s.clone();
    s.tx(&[Instruction { program_id: dex_program(), accounts, data: i.pack() }]).ok().map(|_| s)
}
fn signer(k: Pubkey) -> solana_program::instruction::AccountMeta {
    solana_program::instruction::AccountMeta::new_readonly(k, true)
}
fn dex_place(w: &World, s: &State, ok: Pubkey, o: &Spo) -> Option<State> {
    let m = &w.serums[o.n];
    let payer = w.toks[if o.side == 0 { m.quote } else { m.base }].vault;
    let nz = NonZeroU64::new;
    let d = serum_dex::instruction::NewOrderInstructionV3 {
        side: if o.side == 0 { serum_dex::matching::Side::Bid } else { serum_dex::matching::Side::Ask },
        limit_price: nz(o.px)?,
        max_coin_qty: nz(o.base)?,
        max_native_pc_qty_including_fees: nz(o.quote)?,
        self_trade_behavior: o.stb.try_into().ok()?,
        order_type: o.ty.try_into().ok()?,
        client_order_id: o.cid,
        limit: o.limit,
        max_ts: i64::MAX,
    };
    dex(s, vec![rw(m.ext), rw(ok), rw(m.req_q), rw(m.event_q), rw(m.bids), rw(m.asks), rw(payer), signer(w.group), rw(m.coin_vault), rw(m.pc_vault), ro(spl_token::ID)], MI::NewOrderV3(d))
}
fn dex_cancel(w: &World, s: &State, n: usize, ok: Pubkey, i: MI) -> Option<State> {
    let m = &w.serums[n];
    dex(s, vec![rw(m.ext), rw(m.bids), rw(m.asks), rw(ok), signer(w.group), rw(m.event_q)], i)
}
fn dex_settle(w: &World, s: &State, n: usize, ok: Pubkey) -> Option<State> {
    let m = &w.serums[n];
    let (b, q) = (w.toks[m.base].vault, w.toks[m.quote].vault);
    dex(s, vec![rw(m.ext), rw(ok), signer(w.group), rw(m.coin_vault), rw(m.pc_vault), rw(b), rw(q), ro(m.signer), ro(spl_token::ID), rw(q)], MI::SettleFunds)
}
/// keys of the orders in a book side
fn book(s: &State, k: &Pubkey) -> Vec<(u128, Pubkey)> {
    let mut d = s.data(k).to_vec();
    let l = d.len();
    let sl = serum_dex::critbit::Slab::new(&mut d[13..l - 7]);
    sl.iter().iter().map(|x| (x.key, Pubkey::new_from_array(bytemuck::cast({ x.owner })))).collect()
}
fn live(w: &World, s: &State, n: usize, ok: &Pubkey) -> Vec<(u128, bool)> {
    let m = &w.serums[n];
    let mut v: Vec<_> = book(s, &m.bids).into_iter().filter(|x| x.1 == *ok).map(|x| (x.0, true)).collect();
    v.extend(book(s, &m.asks).into_iter().filter(|x| x.1 == *ok).map(|x| (x.0, false)));
    v
}
/// the DEX after cancelling those orders of `ok` that are gone in `post`; None if the number is not what was asked for
fn dex_cancel_some(w: &World, pre: &State, post: &State, n: usize, ok: Pubkey, limit: u8) -> Result<State, String> {
    let (a, b) = (live(w, pre, n, &ok), live(w, post, n, &ok));
    let exp = a.len().min(limit as usize);
    ensure(a.len() - b.len() == exp, || format!("cancelled {} orders, expected {exp}", a.len() - b.len()))?;
    let ids = oo(pre, &ok).orders;
    let mut gone: Vec<_> = a.iter().filter(|x| !b.contains(x)).collect();
    gone.sort_by_key(|x| ids.iter().position(|i| *i == x.0));
    let mut s = pre.clone();
    for (key, bid) in gone {
        let side = if *bid { serum_dex::matching::Side::Bid } else { serum_dex::matching::Side::Ask };
        s = dex_cancel(w, &s, n, ok, MI::CancelOrderV2(serum_dex::instruction::CancelOrderInstructionV2 { side, order_id: *key })).ok_or("reference cancel failed")?;
    }
    Ok(s)
}
fn same_but(post: &State, reference: &State, allowed: &[Pubkey]) -> Result<(), String> {
    for k in changed(reference, post) {
        if !allowed.contains(&k) {
            return Err(format!("an account differs from what the DEX operation alone does | {k}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ specification
fn slot_of<'a>(a: &'a mut Acc, idx: u16) -> &'a mut Serum3Orders {
    a.serum3.iter_mut().find(|o| o.market_index == idx).unwrap()
}
fn totals(d: &serum_dex::state::OpenOrders) -> (u64, u64, u64, u64) {
    (d.native_coin_total, d.native_pc_total, d.native_coin_total - d.native_coin_free, d.native_pc_total - d.native_pc_free)
}
/// largest amounts of base and quote that could come out of the open orders
fn potential(o: &Serum3Orders, d: &serum_dex::state::OpenOrders) -> (u64, u64) {
    let (b, q, rb, rq) = totals(d);
    (b + (rq as f64 * o.lowest_placed_bid_inv) as u64, q + (rb as f64 * o.highest_placed_ask) as u64)
}
fn exact_banks(w: &World, s: &State, toks: &[usize]) -> bool {
    toks.iter().all(|t| {
        let b = w.bank(s, *t);
        b.deposit_index == 1 && b.borrow_index == 1
    })
}
/// expected changes of the mango side besides balances
struct Exp {
    /// spot market slot after the operation
    slot: Serum3Orders,
    /// (token, potential tokens of its bank)
    pot: Vec<(usize, u64)>,
    /// tolerance of the tracked loans
    slack: u64,
}
fn check_slot(cx: &Cx, a: usize, idx: u16, e: &Exp) -> Result<(), String> {
    let (x, y) = (cx.fx.acc(cx.pre, a), cx.fx.acc(cx.post, a));
    for (p, q) in x.serum3.iter().zip(y.serum3.iter()) {
        if p.market_index != idx && bytemuck::bytes_of(p) != bytemuck::bytes_of(q) {
            return Err("the slot of another spot market changed".into());
        }
    }
    let got = match y.serum3.iter().find(|o| o.market_index == idx) {
        Some(o) => *o,
        None => return Err("the spot market slot vanished".into()),
    };
    let w = &e.slot;
    ensure(got.open_orders == w.open_orders && got.base_token_index == w.base_token_index && got.quote_token_index == w.quote_token_index, || "identity of the spot market slot changed".into())?;
    let d = |n: &str, g: u64, x: u64, t: u64| ensure(g.abs_diff(x) <= t, || format!("{n} differs from specification | got {g} expected {x}"));
    d("tracked base loan", got.base_borrows_without_fee, w.base_borrows_without_fee, e.slack)?;
    d("tracked quote loan", got.quote_borrows_without_fee, w.quote_borrows_without_fee, e.slack)?;
    let px = |o: &Serum3Orders| [o.highest_placed_bid_inv, o.lowest_placed_ask, o.lowest_placed_bid_inv, o.highest_placed_ask];
    for (i, (g, x)) in px(&got).iter().zip(px(w)).enumerate() {
        ensure((g - x).abs() <= 1e-12 * x.abs(), || format!("{} differs from specification | got {g} expected {x}", ["highest bid", "lowest ask", "lowest bid", "highest ask"][i]))?;
    }
    d("potential base tokens of the account", got.potential_base_tokens, w.potential_base_tokens, 1)?;
    d("potential quote tokens of the account", got.potential_quote_tokens, w.potential_quote_tokens, 1)?;
    for (t, p) in &e.pot {
        d(&format!("potential tokens of bank {t}"), cx.fx.w.bank(cx.post, *t).potential_serum_tokens, *p, 1)?;
    }
    Ok(())
}

/// the state the operation should lead to, as far as health is concerned
fn expected_state(led: &Led, key: Pubkey, idx: u16, e: &Exp) -> State {
    let mut h = led.hyp();
    for (t, p) in &e.pot {
        h.edit_zc::<Bank>(&led.fx.w.toks[*t].bank, |b| b.potential_serum_tokens = *p);
    }
    edit_acc(&mut h, &key, |a| *slot_of(a, idx) = e.slot);
    h
}

pub fn serum_spec(cx: &Cx) -> Result<(), String> {
    let k = match &cx.op.k {
        K::Serum(k) => k,
        _ => return Ok(()),
    };
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let (a, n) = match *k {
        SK::Place(ref o) => (o.a, o.n),
        SK::Cancel { a, n, .. } | SK::CancelCid { a, n, .. } | SK::CancelAll { a, n, .. } | SK::Settle { a, n, .. } | SK::Force { a, n, .. } | SK::Create { a, n } | SK::Close { a, n } => (a, n),
    };
    let m = &w.serums[n];
    let key = fx.accts[a];
    let ok = w.oo_key(&key, n);
    let acc = fx.acc(s, a);
    let has = acc.active_serum().any(|o| o.market_index == m.index);
    let mut p = Pred::new();
    if !matches!(k, SK::Create { .. }) {
        p.must(has, "no open orders account for this market");
    }
    if !has && !matches!(k, SK::Create { .. }) {
        return p.judge(cx);
    }
    let sm: Serum3Market = s.zc(&m.market);
    match k {
        SK::Place(o) => place(cx, p, o, &acc, ok, &sm),
        SK::Cancel { slot, .. } => {
            let d = oo(s, &ok);
            let ids = d.orders;
            let side = if (d.is_bid_bits >> slot) & 1 == 1 { serum_dex::matching::Side::Bid } else { serum_dex::matching::Side::Ask };
            let r = dex_cancel(w, s, n, ok, MI::CancelOrderV2(serum_dex::instruction::CancelOrderInstructionV2 { side, order_id: ids[*slot] }));
            only_dex(cx, p, r)
        }
        SK::CancelCid { cid, .. } => only_dex(cx, p, dex_cancel(w, s, n, ok, MI::CancelOrderByClientIdV2(*cid))),
        SK::CancelAll { limit, .. } => {
            p.judge(cx)?;
            if cx.ok() {
                same_but(cx.post, &dex_cancel_some(w, s, cx.post, n, ok, *limit)?, &[])?;
            }
            Ok(())
        }
        SK::Settle { dao, .. } => {
            let d = dex_settle(w, s, n, ok);
            p.must(d.is_some(), "the DEX refuses to settle");
            p.judge(cx)?;
            if !cx.ok() {
                return Ok(());
            }
            settled(cx, a, n, &d.unwrap(), *dao, *dao)?;
            rest_same(cx, a, May { serum: true, buyback: true, ..Default::default() })
        }
        SK::Force { limit, .. } => {
            let go = liquidatable(w, s, &acc);
            let other = !acc.operational(s) || sm.force_close == 1;
            p.judge(cx)?;
            if !cx.ok() {
                return Ok(());
            }
            if go == Liq::Unsure {
                return Ok(());
            }
            if go == Liq::No && !other {
                return liq_noop(cx, a);
            }
            let d = dex_cancel_some(w, s, cx.post, n, ok, *limit)?;
            let d = dex_settle(w, &d, n, ok).ok_or("the DEX refuses to settle")?;
            settled(cx, a, n, &d, true, false)?;
            rest_same(cx, a, May { serum: true, liq: true, ..Default::default() })?;
            // marked as being liquidated exactly if it was liquidated and has not recovered
            let post = fx.acc(cx.post, a);
            let h = ref_health(w, cx.post, &post, Ht::LiqEnd);
            if (h + 1.0).abs() > 1e-3 {
                let e = go == Liq::Go && h <= -1.0;
                ensure(post.being_liquidated == e, || format!("being-liquidated flag does not match recovery | flag {} liquidation end health {h}", post.being_liquidated))?;
            }
            Ok(())
        }
        SK::Create { .. } => {
            p.must(!has, "open orders exist already");
            p.must(acc.serum3.iter().any(|o| o.market_index == u16::MAX), "no free spot market slot");
            let missing = [m.base, m.quote].iter().filter(|t| acc.tok(w.toks[**t].index).is_none()).count();
            p.must(acc.tokens.iter().filter(|t| t.token_index == TokenIndex::MAX).count() >= missing, "no free token slot");
            p.judge(cx)?;
            if !cx.ok() {
                return Ok(());
            }
            let post = fx.acc(cx.post, a);
            frame(cx, &[key, ok, w.payer])?;
            let new: Vec<_> = post.serum3.iter().zip(acc.serum3.iter()).filter(|(y, x)| bytemuck::bytes_of(*y) != bytemuck::bytes_of(*x)).collect();
            ensure(new.len() == 1 && new[0].1.market_index == u16::MAX, || "creating open orders did not use exactly one free slot".into())?;
            let e = Serum3Orders { open_orders: ok, market_index: m.index, base_token_index: w.toks[m.base].index, quote_token_index: w.toks[m.quote].index, ..Default::default() };
            let g = Serum3Orders { padding: e.padding, reserved: e.reserved, ..*new[0].0 };
            ensure(bytemuck::bytes_of(&g) == bytemuck::bytes_of(&e), || "the new spot market slot is not pristine".into())?;
            let d = oo(cx.post, &ok);
            ensure(d.native_coin_total == 0 && d.native_pc_total == 0 && { d.owner } == bytemuck::cast::<[u8; 32], [u64; 4]>(w.group.to_bytes()), || "open orders account not initialised for the group".into())?;
            in_use_delta(cx, a, &[m.base, m.quote], 1)?;
            rest_same(cx, a, May { serum: true, ..Default::default() })
        }
        SK::Close { .. } => {
            let r = dex(s, vec![rw(ok), signer(w.group), rw(fx.owners[a]), ro(m.ext)], MI::CloseOpenOrders);
            p.must(r.is_some(), "open orders account is not empty");
            p.judge(cx)?;
            if !cx.ok() {
                return Ok(());
            }
            same_but(cx.post, &r.unwrap(), &[key])?;
            let post = fx.acc(cx.post, a);
            ensure(!post.active_serum().any(|o| o.market_index == m.index), || "the spot market slot is still in use".into())?;
            for (x, y) in acc.serum3.iter().zip(post.serum3.iter()) {
                ensure(x.market_index == m.index || bytemuck::bytes_of(x) == bytemuck::bytes_of(y), || "the slot of another spot market changed".into())?;
            }
            in_use_delta(cx, a, &[m.base, m.quote], -1)?;
            rest_same(cx, a, May { serum: true, ..Default::default() })
        }
    }
}
fn in_use_delta(cx: &Cx, a: usize, toks: &[usize], d: i32) -> Result<(), String> {
    let (x, y) = (cx.fx.acc(cx.pre, a), cx.fx.acc(cx.post, a));
    for (i, t) in cx.fx.w.toks.iter().enumerate() {
        let g = |a: &Acc| a.tok(t.index).map(|p| (p.indexed_position.to_bits(), p.in_use_count as i32)).unwrap_or((0, 0));
        let e = g(&x).1 + if toks.contains(&i) { d } else { 0 };
        ensure(g(&y) == (g(&x).0, e), || format!("token position {i} after opening or closing a spot market slot | {:?} expected use count {e}", g(&y)))?;
        ensure(e == 0 || y.tok(t.index).is_some(), || "token position missing".into())?;
    }
    Ok(())
}
fn only_dex(cx: &Cx, mut p: Pred, r: Option<State>) -> Result<(), String> {
    p.must(r.is_some(), "the DEX refuses");
    p.judge(cx)?;
    if cx.ok() {
        same_but(cx.post, &r.unwrap(), &[])?;
    }
    Ok(())
}

fn place(cx: &Cx, mut p: Pred, o: &Spo, acc: &Acc, ok: Pubkey, sm: &Serum3Market) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let m = &w.serums[o.n];
    let a = o.a;
    let key = fx.accts[a];
    let (payer, recv) = if o.side == 0 { (m.quote, m.base) } else { (m.base, m.quote) };
    p.must(o.px > 0, "price has to be positive");
    p.must(sm.reduce_only == 0, "market is in reduce-only mode");
    let g: Group = s.zc(&w.group);
    let on = |x: IxGate| g.ix_gate & (1u128 << x as u8) == 0;
    let (v1, v2) = (on(IxGate::Serum3PlaceOrder), on(IxGate::Serum3PlaceOrderV2));
    let as_v2 = o.v2 || !v1 || (o.rw && v2);
    p.must(if as_v2 { v2 } else { v1 }, "instruction is disabled");
    p.must(!as_v2 || o.rw, "receiving bank has to be writable");
    liq_flag_gate(&mut p, w, s, acc);
    let d = dex_place(w, s, ok, o);
    p.must(d.is_some(), "the DEX refuses the order");
    let d = match d {
        Some(d) => d,
        None => return p.judge(cx),
    };
    let (o0, o1) = (oo(s, &ok), oo(&d, &ok));
    let moved = vault(fx, s, payer) - vault(fx, &d, payer);
    // tracked prices
    let mut e = Exp { slot: *acc.serum3.iter().find(|x| x.market_index == m.index).unwrap(), pot: vec![], slack: 1 };
    let sl = &mut e.slot;
    let (used0, bids0) = (!o0.free_slot_bits, o0.is_bid_bits);
    if used0 & bids0 == 0 {
        sl.highest_placed_bid_inv = 0.0;
        sl.lowest_placed_bid_inv = 0.0;
    }
    if used0 & !bids0 == 0 {
        sl.lowest_placed_ask = 0.0;
        sl.highest_placed_ask = 0.0;
    }
    let (coin_lot, pc_lot) = serum_lots(s, &m.ext);
    let px = o.px as f64 * pc_lot as f64 / coin_lot as f64;
    let posted = o0.free_slot_bits != o1.free_slot_bits;
    if posted {
        let upd = |x: &mut f64, v: f64, f: fn(f64, f64) -> f64| *x = if *x == 0.0 { v } else { f(*x, v) };
        if o.side == 0 {
            upd(&mut sl.highest_placed_bid_inv, 1.0 / px, f64::min);
            upd(&mut sl.lowest_placed_bid_inv, 1.0 / px, f64::max);
        } else {
            upd(&mut sl.lowest_placed_ask, px, f64::min);
            upd(&mut sl.highest_placed_ask, px, f64::max);
        }
    }
    // potential tokens
    let pot = potential(sl, &o1);
    for t in [m.base, m.quote] {
        if as_v2 || t == payer {
            let (old, new) = if t == m.base { (&mut sl.potential_base_tokens, pot.0) } else { (&mut sl.potential_quote_tokens, pot.1) };
            e.pot.push((t, (w.bank(s, t).potential_serum_tokens + new).saturating_sub(*old)));
            *old = new;
        }
    }
    // balances
    let mut led = Led::new(fx, &d);
    let n0 = led.get(a, payer);
    led.withdraw(a, payer, moved as f64, false, false);
    led.vault(payer, -moved);
    let n1 = led.get(a, payer);
    let new_borrow = (moved as f64).min((-n1).max(0.0));
    let exact = exact_banks(w, s, &[payer, recv]) && n0.fract() == 0.0;
    let nb = (new_borrow + if exact { 1e-9 } else { 0.0 }).floor() as u64;
    if exact {
        e.slack = 0;
    }
    if o.side == 0 {
        e.slot.quote_borrows_without_fee += nb;
    } else {
        e.slot.base_borrows_without_fee += nb;
    }
    let h = expected_state(&led, key, m.index, &e);
    let hacc = fx.acc(&h, a);
    // limits
    gate_deposit_limit(&mut p, &w.bank(&h, recv));
    let pb = w.bank(&h, payer);
    let oracle = price(fx, s, payer);
    if moved as f64 > n0 + 1e-6 {
        p.must(pb.reduce_only == 0, "borrows of the paid token are reduce-only");
        gate_borrow(&mut p, &pb, led.nb_of(payer), oracle);
        gate_deposit_limit(&mut p, &pb);
    } else {
        if moved as f64 > n0 - 1e-6 && !exact {
            p.fuzz();
        }
        gate_no_borrow(&mut p, &pb);
    }
    let band = sm.oracle_price_band;
    if posted && band != f32::MAX {
        let usd = px * price(fx, s, m.quote);
        let f = 1.0 + band as f64;
        let ob = price(fx, s, m.base);
        if o.side == 0 {
            p.ge(usd * f, ob, 1e-9 * ob, "bid too far below the oracle price");
        } else {
            p.ge(ob * f, usd, 1e-9 * usd, "ask too far above the oracle price");
        }
    }
    if w.bank(s, recv).reduce_only == 1 {
        let toks = ref_health_toks(w, &h, &hacc, Ht::Maint, false).1;
        let t = toks.iter().find(|t| t.index == w.toks[recv].index).unwrap();
        let x = t.spot + t.reserved;
        if (x - 1.0).abs() < 1e-5 {
            if x != 1.0 || !exact {
                p.fuzz();
            }
        }
        p.must(x < 1.0 - if exact { 0.0 } else { 1e-5 }, "deposits of the received token are reduce-only");
    }
    health_rule(&mut p, ref_health(w, s, acc, Ht::Init), ref_health(w, &h, &hacc, Ht::Init));
    p.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    let mut may = vec![key, w.toks[payer].bank];
    if as_v2 {
        may.push(w.toks[recv].bank);
    }
    same_but(cx.post, &d, &may)?;
    led.check(cx, 1e-6)?;
    other_bank_same(cx, recv)?;
    rest_same(cx, a, May { liq: true, serum: true, ..Default::default() })?;
    ensure(!fx.acc(cx.post, a).being_liquidated, || "account still marked as being liquidated".into())?;
    check_slot(cx, a, m.index, &e)
}
/// the bank is unchanged apart from its potential spot order tokens
fn other_bank_same(cx: &Cx, t: usize) -> Result<(), String> {
    let k = cx.fx.w.toks[t].bank;
    let (mut x, mut y): (Bank, Bank) = (cx.pre.zc(&k), cx.post.zc(&k));
    x.potential_serum_tokens = 0;
    y.potential_serum_tokens = 0;
    ensure(x.indexed_deposits == y.indexed_deposits && x.indexed_borrows == y.indexed_borrows && x.net_borrows_in_window == y.net_borrows_in_window && x.collected_fees_native == y.collected_fees_native && x.dust == y.dust, || "the bank of the received token changed".into())
}
fn serum_lots(s: &State, ext: &Pubkey) -> (u64, u64) {
    let d = s.data(ext);
    let n = std::mem::size_of::<serum_dex::state::MarketState>();
    let ms: serum_dex::state::MarketState = bytemuck::pod_read_unaligned(&d[5..5 + n]);
    (ms.coin_lot_size, ms.pc_lot_size)
}

/// accounting of settling: loan fees that became due, tokens received, referrer rebates, potential tokens.
/// `d`: the state after only the DEX part
fn settled(cx: &Cx, a: usize, n: usize, d: &State, dao: bool, buyback: bool) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let m = &w.serums[n];
    let key = fx.accts[a];
    let ok = w.oo_key(&key, n);
    let acc = fx.acc(s, a);
    let (o0, o1) = (oo(s, &ok), oo(d, &ok));
    let mut e = Exp { slot: *acc.serum3.iter().find(|x| x.market_index == m.index).unwrap(), pot: vec![], slack: 0 };
    let mut led = Led::new(fx, d);
    let rebates = if dao { o0.referrer_rebates_accrued - o1.referrer_rebates_accrued } else { 0 };
    for (t, total, loan) in [(m.base, o0.native_coin_total, &mut e.slot.base_borrows_without_fee), (m.quote, o0.native_pc_total, &mut e.slot.quote_borrows_without_fee)] {
        let over = loan.saturating_sub(total);
        if over > 0 {
            *loan = total;
            let fee = over as f64 * f(w.bank(s, t).loan_origination_fee_rate);
            led.withdraw(a, t, fee, false, false);
            led.fee(t, fee);
        }
        let got = vault(fx, d, t) - vault(fx, s, t);
        let mine = got - if t == m.quote { rebates as i128 } else { 0 };
        led.deposit(a, t, mine as f64, false);
        led.vault(t, got);
        *loan = loan.saturating_sub(mine as u64);
    }
    led.fee(m.quote, rebates as f64);
    let pot = potential(&e.slot, &o1);
    for (t, old, new) in [(m.base, &mut e.slot.potential_base_tokens, pot.0), (m.quote, &mut e.slot.potential_quote_tokens, pot.1)] {
        e.pot.push((t, (w.bank(s, t).potential_serum_tokens + new).saturating_sub(*old)));
        *old = new;
    }
    same_but(cx.post, d, &[key, w.toks[m.base].bank, w.toks[m.quote].bank])?;
    led.check(cx, 1e-5)?;
    check_slot(cx, a, m.index, &e)?;
    let post = fx.acc(cx.post, a);
    let b = |a: &Acc| (a.fixed.buyback_fees_accrued_current, a.fixed.buyback_fees_accrued_previous, a.fixed.buyback_fees_expiry_timestamp);
    let (mut cur, mut prev, mut exp) = b(&acc);
    let mut slack = 0;
    if buyback {
        let g: Group = s.zc(&w.group);
        let (now, iv) = (s.ts as u64, g.buyback_fees_expiry_interval);
        if iv > 0 && now >= exp {
            prev = if now < exp + iv { cur } else { 0 };
            cur = 0;
            exp = (now / iv + 1) * iv;
        }
        let px = price(fx, s, m.quote).min(w.bank(s, m.quote).stable_price_model.stable_price);
        let worth = rebates as f64 * px;
        // the price is a rounded number: next to a whole number either side is right
        slack = (rebates > 0 && (worth - worth.round()).abs() < 1e-6) as u64;
        cur += (worth + 1e-9).floor() as u64;
    }
    let g = b(&post);
    ensure(g.0.abs_diff(cur) <= slack && g.1 == prev && g.2 == exp, || format!("buyback fees | got {g:?} expected {:?}", (cur, prev, exp)))
}

/// sums over accounts: potential tokens of a bank, and every order's tokens are somewhere
/// `old`: old-style orders, which only keep the books of the paid side, are among the operations
pub fn serum_invariants(cx: &Cx, old: bool) -> Result<(), String> {
    if !cx.ok() || matches!(cx.op.k, K::Env) {
        return Ok(());
    }
    let w = &cx.fx.w;
    let accs = crate::oracles::all_accounts(w, cx.post);
    for (i, t) in w.toks.iter().enumerate() {
        let mut sum = 0u64;
        for a in &accs {
            for o in a.active_serum() {
                sum += if o.base_token_index == t.index { o.potential_base_tokens } else { 0 };
                sum += if o.quote_token_index == t.index { o.potential_quote_tokens } else { 0 };
            }
        }
        let b = w.bank(cx.post, i).potential_serum_tokens;
        ensure(b == sum, || format!("token {i}: potential spot order tokens of the bank are not the sum over all accounts | bank {b} accounts {sum}"))?;
    }
    for a in &accs {
        for o in a.active_serum() {
            let d = oo(cx.post, &o.open_orders);
            for (t, pot, total) in [(o.base_token_index, o.potential_base_tokens, d.native_coin_total), (o.quote_token_index, o.potential_quote_tokens, d.native_pc_total)] {
                ensure(old || pot + 2 >= total, || format!("open orders hold more of token {t} than the potential tokens tracked | {pot} of {total}"))?;
            }
            // every token held by open orders keeps its position slot
            for t in [o.base_token_index, o.quote_token_index] {
                ensure(a.tok(t).map(|p| p.in_use_count > 0).unwrap_or(false), || format!("token {t} has open spot orders but its position is not held"))?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ scenarios
pub fn op_serum(sc: &mut Scen, k: SK) {
    let name = match &k {
        SK::Place(o) => format!(
            "a{} m{} {} {}@{} max {}{}{}{}{}",
            o.a,
            o.n,
            ["bid", "ask"][o.side as usize],
            o.base,
            o.px,
            o.quote,
            ["", " ioc", " post-only"][o.ty as usize],
            ["", " cancel-provide", " abort"][o.stb as usize],
            if o.v2 { "" } else { " v1" },
            if o.rw { "" } else { " ro" }
        ),
        x => format!("{x:?}"),
    };
    sc.op(name, K::Serum(k.clone()), move |fx, s| match serum_ix(fx, s, &k) {
        Some(i) => tx1(i),
        None => Act::Skip,
    });
}
pub fn op_serum_crank(sc: &mut Scen, n: usize, limit: u16) {
    sc.op(format!("crank m{n} {limit}"), K::Other("DEX crank"), move |fx, s| {
        let mut oos: Vec<_> = fx.accts.iter().map(|a| fx.w.oo_key(a, n)).filter(|k| s.has(k)).collect();
        oos.sort_by_key(|k| bytemuck::cast::<_, [u64; 4]>(k.to_bytes()));
        tx1(fx.w.serum_crank(n, &oos, limit))
    });
}

fn base_fix(name: &str, s: &mut State, cfg: TokCfg, quote: TokCfg) -> Fix {
    let toks = [quote, cfg.clone(), TokCfg { price: 0.5, ..cfg }];
    let mut fx = fix(name, s, &toks, &[]);
    for u in ["usr", "mak", "len"] {
        fx.user(s, u, 100_000_000);
    }
    for t in 0..3 {
        deposits(&fx, s, &[(2, t, 1_000_000)]);
    }
    fx
}
fn create(fx: &Fix, s: &mut State, v: &[(usize, usize)]) {
    for (a, n) in v {
        let i = fx.w.serum_create_oo(fx.accts[*a], fx.owners[*a], *n);
        must(fx, s, i);
    }
}
fn run_sk(fx: &Fix, s: &mut State, k: SK) {
    let i = serum_ix(fx, s, &k).unwrap();
    must(fx, s, i);
}
pub const SERUM_SCENS: usize = 5;
/// spot trading of a0 against a1. One lot is 100 base tokens, a price unit 0.1 quote per base; oracle price is 20 units
pub fn serum_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let lof = TokCfg { loan_orig_fee: 0.01, ..TokCfg::default() };
    let cfg = match v {
        1 => TokCfg { price: 2.0, deposit_limit: 1_112_000, net_borrow_limit: 20_000, net_borrow_window: 3600, min_vault_ratio: 0.9, ..lof.clone() },
        4 => TokCfg { price: 2.0, borrow_scale: 30_000.0, deposit_scale: 2_100_000.0, ..lof.clone() },
        _ => TokCfg { price: 2.0, ..lof.clone() },
    };
    let quote = match v {
        1 => TokCfg { deposit_limit: 1_160_000, net_borrow_limit: 20_000, net_borrow_window: 3600, min_vault_ratio: 0.5, loan_orig_fee: 0.01, ..TokCfg::quote() },
        4 => TokCfg { maint_asset: 0.95, init_asset: 0.9, maint_liab: 1.05, init_liab: 1.1, borrow_scale: 40_000.0, deposit_scale: 1_100_000.0, loan_orig_fee: 0.01, ..TokCfg::quote() },
        _ => TokCfg { loan_orig_fee: 0.01, ..TokCfg::quote() },
    };
    let mut fx = base_fix(&format!("spot{v}"), &mut s, cfg, quote);
    let band = if v == 1 { 0.1 } else { 1000.0 };
    fx.w.add_serum(&mut s, 1, 0, 100, 10, band);
    if v >= 2 {
        // a market that is not quoted in USD
        fx.w.add_serum(&mut s, 2, 1, 100, 1, band);
    }
    s.edit_zc::<Group>(&fx.w.group, |g| g.buyback_fees_expiry_interval = 3600);
    deposits(&fx, &mut s, &[(0, 0, 10_003), (0, 1, 3_000), (1, 0, 50_000), (1, 1, 50_000)]);
    create(&fx, &mut s, &[(0, 0), (1, 0)]);
    if v == 0 {
        // a1 has rebates to settle
        create(&fx, &mut s, &[(2, 0)]);
        deposits(&fx, &mut s, &[(1, 0, 40_000)]);
        run_sk(&fx, &mut s, SK::Place(spo(2, 0, 1, 20, 250, 1_000_000)));
        run_sk(&fx, &mut s, SK::Place(spo(1, 0, 0, 20, 250, 60_000)));
        let mut oos = [1, 2].map(|a| fx.w.oo_key(&fx.accts[a], 0));
        oos.sort_by_key(|k| bytemuck::cast::<_, [u64; 4]>(k.to_bytes()));
        let c = fx.w.serum_crank(0, &oos, 10);
        must(&fx, &mut s, c);
        assert!(oo(&s, &fx.w.oo_key(&fx.accts[1], 0)).referrer_rebates_accrued > 3);
    }
    if v == 2 {
        // indexes that are not one
        for t in 0..3 {
            s.edit_zc::<Bank>(&fx.w.toks[t].bank, |b| {
                b.deposit_index *= fixed::types::I80F48::from_num(1.0371);
                b.borrow_index *= fixed::types::I80F48::from_num(1.2113);
                b.indexed_deposits *= fixed::types::I80F48::ONE;
            });
            let need = bank_native_deposits(&fx.w.bank(&s, t)) - bank_native_borrows(&fx.w.bank(&s, t));
            let m = fx.w.toks[t].mint;
            let au = fx.w.group;
            let d = need.floor() as u64;
            put_token(&mut s, fx.w.toks[t].vault, m, au, d);
            s.edit_zc::<Bank>(&fx.w.toks[t].bank, |b| b.dust += fixed::types::I80F48::from_num(d as f64 - need));
        }
    }
    let mut sc = Scen::new(&format!("spot-orders-{v}"), fx);
    let pl = |sc: &mut Scen, o: Spo| op_serum(sc, SK::Place(o));
    match v {
        // fills, loans and settlement
        0 => {
            pl(&mut sc, spo(0, 0, 0, 19, 20, 3_800));
            pl(&mut sc, spo(0, 0, 0, 20, 60, 12_005));
            pl(&mut sc, spo(0, 0, 1, 21, 40, 1_000_000));
            pl(&mut sc, spo(0, 0, 1, 20, 10, 1_000_000));
            pl(&mut sc, spo(1, 0, 1, 20, 30, 1_000_000));
            pl(&mut sc, spo(1, 0, 0, 21, 25, 5_300));
            op_serum_crank(&mut sc, 0, 10);
            op_serum_crank(&mut sc, 0, 1);
            op_serum(&mut sc, SK::Cancel { a: 0, n: 0, slot: 0 });
            op_serum(&mut sc, SK::CancelAll { a: 0, n: 0, limit: 9 });
            op_serum(&mut sc, SK::Settle { a: 0, n: 0, dao: true });
            op_serum(&mut sc, SK::Settle { a: 0, n: 0, dao: false });
            op_serum(&mut sc, SK::Settle { a: 1, n: 0, dao: true });
            op_serum(&mut sc, SK::Close { a: 0, n: 0 });
            op_deposit(&mut sc, 0, 1, 2_000, false);
            op_withdraw(&mut sc, 0, 0, 10_000, false);
            sc.env("quote stable price 0.4", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[0].bank, |b| b.stable_price_model.stable_price = 0.4));
            sc.env("advance 3000s", |_, s| s.advance(3000));
        }
        // limits
        1 => {
            for (px, n, q) in [(18u64, 20u64, 3_600u64), (19, 50, 9_500), (19, 62, 11_780), (20, 160, 32_000)] {
                pl(&mut sc, spo(0, 0, 0, px, n, q));
            }
            for (px, n) in [(22u64, 20u64), (23, 20), (21, 30), (21, 31), (21, 140)] {
                pl(&mut sc, spo(0, 0, 1, px, n, 1_000_000));
            }
            pl(&mut sc, spo(1, 0, 1, 19, 40, 1_000_000));
            op_serum_crank(&mut sc, 0, 10);
            op_serum(&mut sc, SK::Settle { a: 0, n: 0, dao: true });
            for t in 0..2 {
                for r in [0u8, 1, 2] {
                    sc.env(format!("reduce-only mode {r} of t{t}"), move |fx, s| s.edit_zc::<Bank>(&fx.w.toks[t].bank, |b| b.reduce_only = r));
                }
            }
            sc.env("market reduce-only", |fx, s| s.edit_zc::<Serum3Market>(&fx.w.serums[0].market, |b| b.reduce_only = 1));
            sc.env("no net borrow limits", |fx, s| for t in 0..2 { s.edit_zc::<Bank>(&fx.w.toks[t].bank, |b| b.net_borrow_limit_per_window_quote = -1) });
            sc.env("stable prices", |fx, s| for t in 0..2 { s.edit_zc::<Bank>(&fx.w.toks[t].bank, |b| b.stable_price_model.stable_price *= 1.6) });
            op_deposit(&mut sc, 2, 1, 56_000, false);
            op_deposit(&mut sc, 2, 0, 95_000, false);
            op_withdraw(&mut sc, 2, 1, 930_000, false);
            op_withdraw(&mut sc, 2, 0, 960_000, false);
            sc.env("advance 3600s", |_, s| s.advance(3600));
            let o = sc.fx.w.toks[1].oracle;
            sc.price(o, 1.7);
        }
        // two markets, fractional balances
        2 => {
            let i = sc.fx.w.serum_create_oo(sc.fx.accts[0], sc.fx.owners[0], 1);
            must(&sc.fx, &mut s, i);
            let i = sc.fx.w.serum_create_oo(sc.fx.accts[1], sc.fx.owners[1], 1);
            must(&sc.fx, &mut s, i);
            pl(&mut sc, spo(0, 0, 0, 20, 56, 11_200));
            pl(&mut sc, spo(0, 0, 1, 21, 33, 1_000_000));
            pl(&mut sc, spo(1, 0, 1, 20, 60, 1_000_000));
            // t2 costs 0.25 t1, i.e. 25 units of 0.01
            pl(&mut sc, spo(0, 1, 0, 25, 70, 1_750));
            pl(&mut sc, spo(0, 1, 1, 26, 17, 1_000_000));
            pl(&mut sc, spo(1, 1, 1, 25, 50, 1_000_000));
            pl(&mut sc, spo(1, 1, 0, 27, 30, 900));
            op_serum_crank(&mut sc, 0, 10);
            op_serum_crank(&mut sc, 1, 10);
            for n in 0..2 {
                op_serum(&mut sc, SK::CancelAll { a: 0, n, limit: 9 });
                op_serum(&mut sc, SK::Settle { a: 0, n, dao: n == 0 });
                op_serum(&mut sc, SK::Close { a: 0, n });
            }
            op_index(&mut sc, 1, 86_400 * 30);
            op_deposit(&mut sc, 0, 1, 1_000, false);
            let o = sc.fx.w.toks[1].oracle;
            sc.price(o, 1.5);
            sc.price(o, 2.6);
        }
        // order types, self trades, cancelling, opening and closing
        3 => {
            pl(&mut sc, spo(0, 0, 0, 19, 10, 1_900));
            pl(&mut sc, Spo { cid: 8, ..spo(0, 0, 0, 17, 10, 1_700) });
            pl(&mut sc, Spo { cid: 9, ..spo(0, 0, 1, 24, 12, 1_000_000) });
            pl(&mut sc, Spo { ty: 2, ..spo(0, 0, 0, 20, 5, 1_000) });
            for stb in 0..3 {
                pl(&mut sc, Spo { ty: 1, stb, ..spo(0, 0, 1, 17, 15, 1_000_000) });
            }
            pl(&mut sc, Spo { ty: 1, ..spo(0, 0, 0, 24, 7, 2_000) });
            pl(&mut sc, Spo { limit: 0, ..spo(0, 0, 0, 25, 7, 2_000) });
            pl(&mut sc, spo(0, 0, 0, 0, 7, 2_000));
            pl(&mut sc, spo(1, 0, 1, 19, 10, 1_000_000));
            pl(&mut sc, Spo { v2: false, ..spo(0, 0, 0, 18, 10, 1_800) });
            pl(&mut sc, Spo { v2: false, rw: false, ..spo(0, 0, 1, 23, 10, 1_000_000) });
            pl(&mut sc, Spo { rw: false, ..spo(0, 0, 1, 23, 10, 1_000_000) });
            op_serum_crank(&mut sc, 0, 10);
            for slot in 0..2 {
                op_serum(&mut sc, SK::Cancel { a: 0, n: 0, slot });
            }
            op_serum(&mut sc, SK::CancelCid { a: 0, n: 0, cid: 8 });
            for limit in [0, 1, 9] {
                op_serum(&mut sc, SK::CancelAll { a: 0, n: 0, limit });
            }
            op_serum(&mut sc, SK::Settle { a: 0, n: 0, dao: false });
            for n in 0..2 {
                op_serum(&mut sc, SK::Create { a: 0, n });
                op_serum(&mut sc, SK::Close { a: 0, n });
            }
            op_withdraw(&mut sc, 0, 1, u64::MAX, false);
            for g in [IxGate::Serum3PlaceOrder, IxGate::Serum3PlaceOrderV2] {
                let b = g as u8;
                sc.env(format!("gate {b} flipped"), move |fx, s| s.edit_zc::<Group>(&fx.w.group, |g| g.ix_gate ^= 1u128 << b));
            }
            freeze_env(&mut sc, 0);
        }
        // health, liquidation mark, weight scaling
        _ => {
            op_withdraw_limit(&mut sc, 0, 2, 0);
            op_withdraw(&mut sc, 0, 2, 9_000, true);
            pl(&mut sc, spo(0, 0, 0, 20, 70, 14_000));
            pl(&mut sc, spo(0, 0, 0, 30, 60, 18_000));
            pl(&mut sc, spo(0, 0, 0, 10, 200, 20_000));
            pl(&mut sc, spo(0, 0, 1, 20, 70, 1_000_000));
            pl(&mut sc, spo(0, 0, 1, 10, 60, 1_000_000));
            pl(&mut sc, spo(0, 0, 1, 40, 60, 1_000_000));
            pl(&mut sc, spo(1, 0, 1, 20, 60, 1_000_000));
            pl(&mut sc, spo(1, 0, 0, 20, 60, 12_100));
            op_serum_crank(&mut sc, 0, 10);
            op_serum(&mut sc, SK::CancelAll { a: 0, n: 0, limit: 9 });
            op_serum(&mut sc, SK::Settle { a: 0, n: 0, dao: true });
            for t in [1, 2] {
                let o = sc.fx.w.toks[t].oracle;
                let p = sc.fx.w.toks[t].oracle;
                let _ = p;
                sc.price(o, if t == 1 { 1.2 } else { 1.6 });
            }
            let o = sc.fx.w.toks[1].oracle;
            sc.price(o, 3.4);
            sc.env("being liquidated", |fx, s| s.edit(&fx.accts[0], |d| d[OFF_BEING_LIQ] = 1));
        }
    }
    (sc, s)
}

/// a0 has spot orders and borrows; anybody may force-cancel when it is liquidatable, frozen or the market is closed
pub fn serum_force_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let cfg = TokCfg { price: 2.0, loan_orig_fee: 0.05, ..TokCfg::default() };
    let mut fx = base_fix(&format!("sfc{v}"), &mut s, cfg, TokCfg { loan_orig_fee: 0.05, ..TokCfg::quote() });
    fx.w.add_serum(&mut s, 1, 0, 100, 10, 1000.0);
    s.edit_zc::<Group>(&fx.w.group, |g| g.buyback_fees_expiry_interval = 3600);
    deposits(&fx, &mut s, &[(0, 0, 10_000), (0, 1, 3_000), (1, 0, 50_000), (1, 1, 50_000)]);
    create(&fx, &mut s, &[(0, 0), (1, 0)]);
    if v == 1 {
        // maker orders to trade against
        run_sk(&fx, &mut s, SK::Place(spo(1, 0, 1, 20, 100, 1_000_000)));
    }
    let i = fx.w.withdraw(&s, fx.accts[0], fx.owners[0], 2, 6_000, true);
    must(&fx, &mut s, i);
    let mut sc = Scen::new(&format!("spot-force-cancel-{v}"), fx);
    for k in [
        SK::Place(spo(0, 0, 0, 19, 20, 3_800)),
        SK::Place(spo(0, 0, 0, 20, 60, 12_050)),
        SK::Place(spo(0, 0, 1, 22, 35, 1_000_000)),
        SK::Place(spo(1, 0, 0, 22, 40, 9_000)),
        SK::Force { a: 0, n: 0, limit: 9 },
        SK::Force { a: 0, n: 0, limit: 1 },
        SK::Force { a: 0, n: 0, limit: 0 },
        SK::Settle { a: 0, n: 0, dao: false },
    ] {
        op_serum(&mut sc, k);
    }
    op_serum_crank(&mut sc, 0, 10);
    let o2 = sc.fx.w.toks[2].oracle;
    let o1 = sc.fx.w.toks[1].oracle;
    sc.price(o2, 1.2);
    // initial health zero or a little above or below in whatever state this is
    for (name, off) in [("below", -40.0), ("at", -0.5), ("above", 40.0)] {
        sc.env(format!("t2 price {name} zero liquidation-end health"), move |fx, s| {
            let a = fx.acc(s, 0);
            let o = fx.w.toks[2].oracle;
            let d = -native(&fx.w, s, &a, 2) * 1.4;
            if d <= 0.0 {
                return;
            }
            let h = ref_health(&fx.w, s, &a, Ht::LiqEnd);
            let p = oracle_price(s, &o) + (h - off) / d;
            if p > 0.0 {
                fx.w.set_price(s, o, p);
            }
        });
    }
    sc.price(o1, 1.3);
    sc.env("being liquidated", |fx, s| s.edit(&fx.accts[0], |d| d[OFF_BEING_LIQ] = 1));
    sc.env("market reduce-only", |fx, s| s.edit_zc::<Serum3Market>(&fx.w.serums[0].market, |b| b.reduce_only = 1));
    sc.env("market in force-close", |fx, s| {
        s.edit_zc::<Serum3Market>(&fx.w.serums[0].market, |b| {
            b.reduce_only = 1;
            b.force_close = 1;
        })
    });
    freeze_env(&mut sc, 0);
    sc.env("advance 600s", |_, s| s.advance(600));
    (sc, s)
}
