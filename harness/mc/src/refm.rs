//! Independent views of the account data and boring reference definitions (f64) used as oracles.
use crate::svm::State;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use fixed::types::I80F48;
use mango_v4::state::*;
use std::mem::size_of;

pub fn f(x: I80F48) -> f64 {
    x.to_bits() as f64 / (1u64 << 48) as f64
}

/// Byte-level decoded mango account. Does not use the program's dynamic account accessors.
#[derive(Clone)]
pub struct Acc {
    pub fixed: MangoAccountFixed,
    pub being_liquidated: bool,
    pub in_health_region: bool,
    pub tokens: Vec<TokenPosition>,
    pub serum3: Vec<Serum3Orders>,
    pub perps: Vec<PerpPosition>,
    pub oos: Vec<PerpOpenOrder>,
    pub tcs: Vec<TokenConditionalSwap>,
}
pub const OFF_BEING_LIQ: usize = 8 + 32 * 4 + 4;

pub fn parse(data: &[u8]) -> Acc {
    let fixed: MangoAccountFixed = bytemuck::pod_read_unaligned(&data[8..408]);
    let mut p = 8 + 400 + 8;
    fn vec<T: bytemuck::Pod>(d: &[u8], p: &mut usize) -> Vec<T> {
        *p += 4;
        let n = u32::from_le_bytes(d[*p..*p + 4].try_into().unwrap()) as usize;
        *p += 4;
        let s = size_of::<T>();
        let v = (0..n).map(|i| bytemuck::pod_read_unaligned(&d[*p + i * s..*p + (i + 1) * s])).collect();
        *p += n * s;
        v
    }
    let tokens = vec(data, &mut p);
    let serum3 = vec(data, &mut p);
    let perps = vec(data, &mut p);
    let oos = vec(data, &mut p);
    let tcs = if data.len() > p + 8 { vec(data, &mut p) } else { vec![] };
    Acc { fixed, being_liquidated: data[OFF_BEING_LIQ] == 1, in_health_region: data[OFF_BEING_LIQ + 1] == 1, tokens, serum3, perps, oos, tcs }
}
pub fn acc(s: &State, k: &Pubkey) -> Acc {
    parse(s.data(k))
}
impl Acc {
    /// write back into account data of the same layout
    pub fn write(&self, data: &mut [u8]) {
        data[8..408].copy_from_slice(bytemuck::bytes_of(&self.fixed));
        let mut p = 8 + 400 + 8;
        fn vec<T: bytemuck::Pod>(d: &mut [u8], p: &mut usize, v: &[T]) {
            *p += 8;
            for x in v {
                let n = size_of::<T>();
                d[*p..*p + n].copy_from_slice(bytemuck::bytes_of(x));
                *p += n;
            }
        }
        vec(data, &mut p, &self.tokens);
        vec(data, &mut p, &self.serum3);
        vec(data, &mut p, &self.perps);
        vec(data, &mut p, &self.oos);
        if !self.tcs.is_empty() {
            vec(data, &mut p, &self.tcs);
        }
    }
    /// not frozen
    pub fn operational(&self, s: &State) -> bool {
        self.fixed.frozen_until < s.ts as u64
    }
    pub fn tok(&self, index: TokenIndex) -> Option<&TokenPosition> {
        self.tokens.iter().find(|t| t.token_index == index)
    }
    pub fn perp(&self, index: PerpMarketIndex) -> Option<&PerpPosition> {
        self.perps.iter().find(|t| t.market_index == index)
    }
    pub fn active_tokens(&self) -> impl Iterator<Item = &TokenPosition> {
        self.tokens.iter().filter(|t| t.token_index != TokenIndex::MAX)
    }
    pub fn active_perps(&self) -> impl Iterator<Item = &PerpPosition> {
        self.perps.iter().filter(|t| t.market_index != PerpMarketIndex::MAX)
    }
    pub fn active_serum(&self) -> impl Iterator<Item = &Serum3Orders> {
        self.serum3.iter().filter(|t| t.market_index != u16::MAX)
    }
    pub fn active_oos(&self) -> impl Iterator<Item = &PerpOpenOrder> {
        self.oos.iter().filter(|t| t.market != PerpMarketIndex::MAX)
    }
    pub fn is_empty(&self) -> bool {
        self.active_tokens().next().is_none() && self.active_perps().next().is_none() && self.active_serum().next().is_none()
    }
}

pub fn native_of(p: &TokenPosition, b: &Bank) -> f64 {
    let i = f(p.indexed_position);
    if i > 0.0 {
        i * f(b.deposit_index)
    } else {
        i * f(b.borrow_index)
    }
}
/// native token balance of an account (0 if no position)
pub fn native(w: &World, s: &State, a: &Acc, tok: usize) -> f64 {
    let b = w.bank(s, tok);
    a.tok(w.toks[tok].index).map(|p| native_of(p, &b)).unwrap_or(0.0)
}
/// (min over all banks of the token is irrelevant: indexes are shared) price of a stub oracle
pub fn oracle_price(s: &State, oracle: &Pubkey) -> f64 {
    let o: StubOracle = s.zc(oracle);
    f(o.price)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ht {
    Init,
    Maint,
    LiqEnd,
}

pub fn edit_acc(s: &mut State, k: &Pubkey, f: impl FnOnce(&mut Acc)) {
    s.edit(k, |d| {
        let mut a = parse(d);
        f(&mut a);
        a.write(d);
    })
}
pub fn edit_oo(s: &mut State, k: &Pubkey, f: impl FnOnce(&mut serum_dex::state::OpenOrders)) {
    s.edit(k, |d| {
        let n = size_of::<serum_dex::state::OpenOrders>();
        let mut o: serum_dex::state::OpenOrders = bytemuck::pod_read_unaligned(&d[5..5 + n]);
        f(&mut o);
        d[5..5 + n].copy_from_slice(bytemuck::bytes_of(&o));
    })
}
pub fn oo(s: &State, k: &Pubkey) -> serum_dex::state::OpenOrders {
    let d = s.data(k);
    bytemuck::pod_read_unaligned(&d[5..5 + size_of::<serum_dex::state::OpenOrders>()])
}

pub struct RefTok {
    pub index: TokenIndex,
    pub oracle: f64,
    pub stable: f64,
    pub spot: f64,
    pub perp: f64,
    pub reserved: f64,
    pub bank: Bank,
}
fn maint_w(b: &Bank, now: f64) -> (f64, f64) {
    let (a0, l0, a1, l1) = (f(b.maint_asset_weight), f(b.maint_liab_weight), f(b.maint_weight_shift_asset_target), f(b.maint_weight_shift_liab_target));
    let inv = f(b.maint_weight_shift_duration_inv);
    let (st, en) = (b.maint_weight_shift_start as f64, b.maint_weight_shift_end as f64);
    if inv == 0.0 || now <= st {
        (a0, l0)
    } else if now >= en {
        (a1, l1)
    } else {
        let k = (now - st) / (en - st);
        (a0 + k * (a1 - a0), l0 + k * (l1 - l0))
    }
}
pub fn bank_native_deposits(b: &Bank) -> f64 {
    f(b.indexed_deposits) * f(b.deposit_index)
}
pub fn bank_native_borrows(b: &Bank) -> f64 {
    f(b.indexed_borrows) * f(b.borrow_index)
}
impl RefTok {
    pub fn asset_price(&self, t: Ht) -> f64 {
        if t == Ht::Init {
            self.oracle.min(self.stable)
        } else {
            self.oracle
        }
    }
    pub fn liab_price(&self, t: Ht) -> f64 {
        if t == Ht::Init {
            self.oracle.max(self.stable)
        } else {
            self.oracle
        }
    }
    pub fn asset_w(&self, t: Ht, now: f64) -> f64 {
        let b = &self.bank;
        match t {
            Ht::Maint => maint_w(b, now).0,
            Ht::LiqEnd => f(b.init_asset_weight),
            Ht::Init => {
                let dep = (bank_native_deposits(b) + b.potential_serum_tokens as f64) * self.liab_price(Ht::Init);
                let lim = b.deposit_weight_scale_start_quote;
                f(b.init_asset_weight) * if dep > lim { lim / dep } else { 1.0 }
            }
        }
    }
    pub fn liab_w(&self, t: Ht, now: f64) -> f64 {
        let b = &self.bank;
        match t {
            Ht::Maint => maint_w(b, now).1,
            Ht::LiqEnd => f(b.init_liab_weight),
            Ht::Init => {
                let bor = bank_native_borrows(b) * self.liab_price(Ht::Init);
                let lim = b.borrow_weight_scale_start_quote;
                f(b.init_liab_weight) * if bor > lim { bor / lim } else { 1.0 }
            }
        }
    }
    pub fn value(&self, t: Ht, bal: f64, now: f64) -> f64 {
        if bal >= 0.0 {
            bal * self.asset_w(t, now) * self.asset_price(t)
        } else {
            bal * self.liab_w(t, now) * self.liab_price(t)
        }
    }
}

/// funding a position has accrued but not yet paid
pub fn ref_funding(m: &PerpMarket, p: &PerpPosition) -> f64 {
    if p.base_position_lots > 0 {
        (f(m.long_funding) - f(p.long_settled_funding)) * p.base_position_lots as f64
    } else if p.base_position_lots < 0 {
        (f(m.short_funding) - f(p.short_settled_funding)) * p.base_position_lots as f64
    } else {
        0.0
    }
}
/// health-weighted unsettled pnl of one perp position in settle token native units
/// (with, without) the overall weight
pub fn ref_hupnl_both(w: &World, s: &State, p: &PerpPosition, t: Ht) -> (f64, f64) {
    let pi = w.perp_by_index(p.market_index);
    let m: PerpMarket = s.zc(&w.perps[pi].market);
    let o = oracle_price(s, &w.perps[pi].oracle);
    let st = m.stable_price_model.stable_price;
    let (pa, pl) = if t == Ht::Init { (o.min(st), o.max(st)) } else { (o, o) };
    let (wa, wl, wo) = if t == Ht::Maint {
        (f(m.maint_base_asset_weight), f(m.maint_base_liab_weight), f(m.maint_overall_asset_weight))
    } else {
        (f(m.init_base_asset_weight), f(m.init_base_liab_weight), f(m.init_overall_asset_weight))
    };
    let lots = (p.base_position_lots + p.taker_base_lots) as f64;
    let quote = f(p.quote_position_native) - ref_funding(&m, p) + (p.taker_quote_lots * m.quote_lot_size) as f64;
    let bl = m.base_lot_size as f64;
    let case = |orders: f64, px: f64| {
        let net = (lots + orders) * bl;
        let v = if net < 0.0 { net * wl * pl } else { net * wa * pa };
        v - orders * bl * px
    };
    let x = quote + case(p.bids_base_lots as f64, pl).min(case(-(p.asks_base_lots as f64), pa));
    if x > 0.0 {
        (x * wo, x)
    } else {
        (x, x)
    }
}
pub fn ref_hupnl(w: &World, s: &State, p: &PerpPosition, t: Ht) -> f64 {
    ref_hupnl_both(w, s, p, t).0
}

pub fn ref_tokens(w: &World, s: &State, a: &Acc) -> Vec<RefTok> {
    a.active_tokens()
        .map(|p| {
            let ti = w.tok_by_index(p.token_index);
            let bank = w.bank(s, ti);
            RefTok {
                index: p.token_index,
                oracle: oracle_price(s, &w.toks[ti].oracle),
                stable: bank.stable_price_model.stable_price,
                spot: native_of(p, &bank),
                perp: 0.0,
                reserved: 0.0,
                bank,
            }
        })
        .collect()
}

/// Reference health, following the documented definition.
pub fn ref_health(w: &World, s: &State, a: &Acc, t: Ht) -> f64 {
    ref_health_toks(w, s, a, t, false).0
}
/// How much of a token can be taken away before a positive health becomes zero
pub fn taken_to_zero(mut health: f64, start: f64, asset_wp: f64, liab_wp: f64) -> f64 {
    if health <= 0.0 {
        return 0.0;
    }
    let mut taken = 0.0;
    if start > 0.0 {
        if asset_wp > 0.0 && health / asset_wp <= start {
            return health / asset_wp;
        }
        taken = start;
        health -= start * asset_wp;
    }
    taken + health.max(0.0) / liab_wp
}
/// How much of a token has to be given before a negative health becomes zero
pub fn given_to_zero(health: f64, start: f64, asset_wp: f64, liab_wp: f64) -> f64 {
    let mut h = -health;
    if h <= 0.0 {
        return 0.0;
    }
    let mut given = 0.0;
    if start < 0.0 {
        if h / liab_wp <= -start {
            return h / liab_wp;
        }
        given = -start;
        h += start * liab_wp;
    }
    given + if h > 0.0 { h / asset_wp } else { 0.0 }
}
/// How much negative perp pnl an account may turn into spot: what its maintenance health allows when
/// negative perp contributions are ignored
pub fn ref_max_settle(w: &World, s: &State, a: &Acc, settle: TokenIndex) -> f64 {
    let (h, toks) = ref_health_toks(w, s, a, Ht::Maint, true);
    let now = s.ts as f64;
    match toks.iter().find(|x| x.index == settle) {
        Some(x) => taken_to_zero(h, x.spot + x.perp, x.asset_w(Ht::Maint, now) * x.asset_price(Ht::Maint), x.liab_w(Ht::Maint, now) * x.liab_price(Ht::Maint)),
        None => 0.0,
    }
}
pub fn ref_health_toks(w: &World, s: &State, a: &Acc, t: Ht, ignore_negative_perp: bool) -> (f64, Vec<RefTok>) {
    let now = s.ts as f64;
    let mut toks = ref_tokens(w, s, a);
    let find = |v: &Vec<RefTok>, i: TokenIndex| v.iter().position(|x| x.index == i).unwrap_or_else(|| panic!("no token position {i} for a market"));
    // spot markets
    let mut res = vec![];
    for o in a.active_serum() {
        let d = oo(s, &o.open_orders);
        let (b, q) = (find(&toks, o.base_token_index), find(&toks, o.quote_token_index));
        toks[b].spot += d.native_coin_free as f64;
        toks[q].spot += d.native_pc_free as f64;
        let rb = (d.native_coin_total - d.native_coin_free) as f64;
        let rq = (d.native_pc_total - d.native_pc_free) as f64;
        let mut q2b = rq * toks[q].asset_price(t) / toks[b].liab_price(t);
        let lim = rq * o.highest_placed_bid_inv;
        if lim != 0.0 {
            q2b = q2b.min(lim)
        }
        let mut b2q = rb * toks[b].asset_price(t) / toks[q].liab_price(t);
        let lim = rb * o.lowest_placed_ask;
        if lim != 0.0 {
            b2q = b2q.min(lim)
        }
        let (as_b, as_q) = (rb + q2b, rq + b2q);
        toks[b].reserved += as_b;
        toks[q].reserved += as_q;
        res.push((b, q, as_b, as_q));
    }
    for p in a.active_perps() {
        let m: PerpMarket = s.zc(&w.perps[w.perp_by_index(p.market_index)].market);
        let i = find(&toks, m.settle_token_index);
        let x = ref_hupnl(w, s, p, t);
        if !ignore_negative_perp || x > 0.0 {
            toks[i].perp += x;
        }
    }
    let mut h = 0.0;
    for x in &toks {
        h += x.value(t, x.spot + x.perp, now);
    }
    for (b, q, as_b, as_q) in res {
        if as_b == 0.0 || as_q == 0.0 {
            continue;
        }
        let eff = |x: &RefTok, amt: f64| {
            let top = x.spot + x.perp + x.reserved;
            // health gained by adding amt last, on top of everything else
            x.value(t, top, now) - x.value(t, top - amt, now)
        };
        h += eff(&toks[b], as_b).min(eff(&toks[q], as_q));
    }
    (h, toks)
}

/// Marked-to-market equity at oracle prices (spot + spot orders + perps incl. unprocessed fills and funding)
pub fn ref_equity(w: &World, s: &State, a: &Acc) -> f64 {
    let mut e = 0.0;
    let px = |i: TokenIndex| oracle_price(s, &w.toks[w.tok_by_index(i)].oracle);
    for x in ref_tokens(w, s, a) {
        e += x.spot * x.oracle;
    }
    for o in a.active_serum() {
        let d = oo(s, &o.open_orders);
        e += d.native_coin_total as f64 * px(o.base_token_index) + (d.native_pc_total + d.referrer_rebates_accrued) as f64 * px(o.quote_token_index);
    }
    for p in a.active_perps() {
        e += ref_perp_value(w, s, p);
    }
    e
}
pub fn ref_perp_value(w: &World, s: &State, p: &PerpPosition) -> f64 {
    let pi = w.perp_by_index(p.market_index);
    let m: PerpMarket = s.zc(&w.perps[pi].market);
    let o = oracle_price(s, &w.perps[pi].oracle);
    let lots = (p.base_position_lots + p.taker_base_lots) as f64;
    let fund = if p.base_position_lots > 0 {
        (f(m.long_funding) - f(p.long_settled_funding)) * p.base_position_lots as f64
    } else {
        (f(m.short_funding) - f(p.short_settled_funding)) * p.base_position_lots as f64
    };
    let q = f(p.quote_position_native) - fund + (p.taker_quote_lots * m.quote_lot_size) as f64;
    let settle_px = oracle_price(s, &w.toks[w.tok_by_index(m.settle_token_index)].oracle);
    (q + lots * m.base_lot_size as f64 * o) * settle_px
}
