//! Byte-level view of perp order books and event queues, and a plain reference implementation of
//! the perp market rules (matching, positions, funding) used as oracle.
use crate::refm::*;
use crate::scen::*;
use crate::spec::*;
use crate::svm::*;
use anchor_lang::prelude::Pubkey;
use mango_v4::state::*;
use std::collections::{BTreeMap, BTreeSet};

fn u16_(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
fn u32_(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
fn u64_(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn u128_(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
fn key_(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}

/// order resting on the book
#[derive(Clone, PartialEq, Debug)]
pub struct Leaf {
    pub key: u128,
    pub owner: Pubkey,
    pub slot: u8,
    pub qty: i64,
    pub ts: u64,
    pub tif: u16,
    pub peg_limit: i64,
    pub cid: u64,
}
impl Leaf {
    pub fn expiry(&self) -> u64 {
        if self.tif == 0 {
            u64::MAX
        } else {
            self.ts + self.tif as u64
        }
    }
    pub fn expired(&self, now: u64) -> bool {
        self.tif > 0 && now >= self.ts + self.tif as u64
    }
    /// arrival number: later orders have bigger numbers
    pub fn seq(&self, bid: bool) -> u64 {
        if bid {
            !(self.key as u64)
        } else {
            self.key as u64
        }
    }
    /// (price in lots, matchable now or later). tree 0 fixed, 1 oracle pegged
    pub fn price(&self, tree: usize, oracle_lots: i64) -> Option<i64> {
        let data = (self.key >> 64) as u64;
        if tree == 0 {
            return Some(data as i64);
        }
        let off = data as i128 - (1i128 << 63);
        let p = oracle_lots as i128 + off;
        if p >= 1 && p < i64::MAX as i128 {
            Some(p as i64)
        } else {
            None
        }
    }
}
pub const NODES: usize = 8 + 6 * 8 + 256 + 528;
pub const NODES_HEAD: usize = 8 + 6 * 8 + 256;
pub const NODE: usize = 120;

/// all orders of one book side by tree, in key order; checks the tree structure on the way
pub fn book_side(s: &State, key: &Pubkey, bid: bool) -> Result<[Vec<Leaf>; 2], String> {
    let d = s.data(key);
    let bad = |m: &str| Err(format!("order book tree is broken: {m}"));
    if d[NODES_HEAD] != if bid { 0 } else { 1 } {
        return bad("wrong side marker");
    }
    let mut out: [Vec<Leaf>; 2] = Default::default();
    let mut used = BTreeSet::new();
    let now_nodes = |h: u32| NODES + h as usize * NODE;
    fn walk(d: &[u8], h: u32, prefix: u32, pkey: u128, used: &mut BTreeSet<u32>, out: &mut Vec<Leaf>, off: &dyn Fn(u32) -> usize) -> Result<u64, String> {
        if h >= 1024 || !used.insert(h) {
            return Err("order book tree is broken: node shared or out of range".into());
        }
        let o = off(h);
        let top = |k: u128, n: u32| if n == 0 { 0 } else { k >> (128 - n) };
        match d[o] {
            2 => {
                let l = Leaf {
                    slot: d[o + 1],
                    tif: u16_(d, o + 4),
                    key: u128_(d, o + 8),
                    owner: key_(d, o + 24),
                    qty: u64_(d, o + 56) as i64,
                    ts: u64_(d, o + 64),
                    peg_limit: u64_(d, o + 72) as i64,
                    cid: u64_(d, o + 80),
                };
                if top(l.key, prefix) != top(pkey, prefix) {
                    return Err("order book tree is broken: order in the wrong subtree".into());
                }
                let e = l.expiry();
                if l.qty < 1 {
                    return Err("order with no quantity rests on the book".into());
                }
                out.push(l);
                Ok(e)
            }
            1 => {
                let n = u32_(d, o + 4);
                let k = u128_(d, o + 8);
                if n < prefix || n >= 128 || top(k, prefix) != top(pkey, prefix) {
                    return Err("order book tree is broken: prefix".into());
                }
                let mut e = u64::MAX;
                for c in 0..2usize {
                    let base = if n == 0 { 0 } else { (k >> (128 - n)) << (128 - n) };
                    let ck = base | ((c as u128) << (127 - n));
                    let ce = walk(d, u32_(d, o + 24 + 4 * c), n + 1, ck, used, out, off)?;
                    if ce != u64_(d, o + 32 + 8 * c) {
                        return Err("order book tree is broken: recorded earliest expiry is wrong".into());
                    }
                    e = e.min(ce);
                }
                Ok(e)
            }
            _ => Err("order book tree is broken: link to a free node".into()),
        }
    }
    for t in 0..2 {
        let n = u32_(d, 8 + t * 8 + 4);
        if n > 0 {
            walk(d, u32_(d, 8 + t * 8), 0, 0, &mut used, &mut out[t], &now_nodes)?;
        }
        if out[t].len() != n as usize {
            return bad("order count");
        }
        if out[t].windows(2).any(|w| w[0].key >= w[1].key) {
            return bad("order of keys");
        }
    }
    let (bump, free) = (u32_(d, NODES_HEAD + 4), u32_(d, NODES_HEAD + 8));
    if bump < 900 && used.len() as u32 + free != bump {
        return bad("nodes lost");
    }
    Ok(out)
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Fill { taker_side: u8, maker_out: bool, maker_slot: u8, ts: u64, seq: u64, maker: Pubkey, maker_ts: u64, taker: Pubkey, taker_cid: u64, id: u128, price: i64, qty: i64, maker_cid: u64, maker_fee: f32, taker_fee: f32 },
    Out { side: u8, slot: u8, ts: u64, seq: u64, owner: Pubkey, qty: i64, id: u128 },
}
/// pending events in order, next sequence number
pub fn queue(s: &State, key: &Pubkey) -> Result<(Vec<Ev>, u64), String> {
    let d = s.data(key);
    let (head, count, seq) = (u32_(d, 8) as usize, u32_(d, 12) as usize, u64_(d, 16));
    if head >= 488 || count > 488 {
        return Err("event queue header out of range".into());
    }
    let mut v = vec![];
    for i in 0..count {
        let o = 24 + ((head + i) % 488) * 208;
        let e = &d[o..o + 208];
        v.push(match e[0] {
            0 => Ev::Fill {
                taker_side: e[1],
                maker_out: e[2] == 1,
                maker_slot: e[3],
                ts: u64_(e, 8),
                seq: u64_(e, 16),
                maker: key_(e, 24),
                maker_ts: u64_(e, 88),
                taker: key_(e, 96),
                taker_cid: u64_(e, 144),
                id: u128_(e, 152),
                price: u64_(e, 168) as i64,
                qty: u64_(e, 176) as i64,
                maker_cid: u64_(e, 184),
                maker_fee: f32::from_bits(u32_(e, 192)),
                taker_fee: f32::from_bits(u32_(e, 196)),
            },
            1 => Ev::Out { side: e[1], slot: e[2], ts: u64_(e, 8), seq: u64_(e, 16), owner: key_(e, 24), qty: u64_(e, 56) as i64, id: u128_(e, 64) },
            t => return Err(format!("unknown event type {t}")),
        });
    }
    Ok((v, seq))
}

/// order as requested. kind: 0 limit, 1 ioc, 2 post only, 3 market, 4 post only slide
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct PerpOrd {
    pub a: usize,
    pub p: usize,
    /// 0 bid, 1 ask
    pub side: u8,
    pub kind: u8,
    /// Some(peg limit): oracle pegged, price is an offset
    pub peg: Option<i64>,
    pub price: i64,
    pub base: i64,
    pub quote: i64,
    pub cid: u64,
    /// 0 decrement take, 1 cancel provide, 2 abort
    pub stb: u8,
    pub reduce: bool,
    /// relative to now, 0 = never
    pub expiry: i64,
    pub limit: u8,
    /// through the first version of the instruction
    pub v1: bool,
}
pub fn ord(a: usize, side: u8, kind: u8, price: i64, base: i64) -> PerpOrd {
    PerpOrd { a, p: 0, side, kind, peg: None, price, base, quote: 1 << 40, cid: 0, stb: 0, reduce: false, expiry: 0, limit: 10, v1: false }
}

/// reference perp position
#[derive(Clone, Debug)]
pub struct RP {
    pub base: i64,
    pub quote: f64,
    pub tb: i64,
    pub tq: i64,
    pub bids: i64,
    pub asks: i64,
    pub long_s: f64,
    pub short_s: f64,
    pub avg: f64,
    pub running: i64,
    pub realized: f64,
    pub oneshot: f64,
    pub recurring: i64,
    pub window: u32,
    pub used: i64,
    pub maker_vol: u64,
    pub taker_vol: u64,
    pub transfers: i64,
    pub cum_long: f64,
    pub cum_short: f64,
    /// integer roundings that came within tolerance of a boundary
    pub slack: i64,
}
impl RP {
    pub fn of(p: &PerpPosition) -> RP {
        RP {
            base: p.base_position_lots,
            quote: f(p.quote_position_native),
            tb: p.taker_base_lots,
            tq: p.taker_quote_lots,
            bids: p.bids_base_lots,
            asks: p.asks_base_lots,
            long_s: f(p.long_settled_funding),
            short_s: f(p.short_settled_funding),
            avg: p.avg_entry_price_per_base_lot,
            running: p.quote_running_native,
            realized: f(p.realized_pnl_for_position_native),
            oneshot: f(p.oneshot_settle_pnl_allowance),
            recurring: p.recurring_settle_pnl_allowance,
            window: p.settle_pnl_limit_window,
            used: p.settle_pnl_limit_settled_in_current_window_native,
            maker_vol: p.maker_volume,
            taker_vol: p.taker_volume,
            transfers: p.perp_spot_transfers,
            cum_long: p.cumulative_long_funding,
            cum_short: p.cumulative_short_funding,
            slack: 0,
        }
    }
    pub fn new() -> RP {
        RP::of(&PerpPosition::default())
    }
    /// write the parts that health depends on into a position
    pub fn health_parts(&self, p: &mut PerpPosition) {
        let n = |x: f64| fixed::types::I80F48::from_num(x);
        p.base_position_lots = self.base;
        p.quote_position_native = n(self.quote);
        p.taker_base_lots = self.tb;
        p.taker_quote_lots = self.tq;
        p.bids_base_lots = self.bids;
        p.asks_base_lots = self.asks;
        p.long_settled_funding = n(self.long_s);
        p.short_settled_funding = n(self.short_s);
    }
    fn int(&mut self, x: f64, mode: u8) -> i64 {
        if (x - x.round()).abs() < 1e-6 && x != 0.0 {
            self.slack += 1;
        }
        let x = match mode {
            0 => x.trunc(),
            1 => x.ceil(),
            2 => x.floor(),
            _ => unreachable!(),
        };
        x.clamp(i64::MIN as f64, i64::MAX as f64) as i64
    }
    pub fn unsettled(&self, m: &RM) -> f64 {
        if self.base > 0 {
            (m.long - self.long_s) * self.base as f64
        } else if self.base < 0 {
            (m.short - self.short_s) * self.base as f64
        } else {
            0.0
        }
    }
    pub fn settle_funding(&mut self, m: &RM) {
        let x = self.unsettled(m);
        self.quote -= x;
        self.oneshot -= x;
        self.realized -= x;
        if self.base > 0 {
            self.cum_long += x;
        } else {
            self.cum_short -= x;
        }
        self.long_s = m.long;
        self.short_s = m.short;
    }
    pub fn fee(&mut self, x: f64) {
        self.quote -= x;
        self.oneshot -= x;
        self.realized -= x;
    }
    pub fn stable_upnl(&self, m: &RM) -> f64 {
        self.quote + (self.base * m.base_lot) as f64 * m.stable()
    }
    fn constrain_recurring(&mut self, m: &RM) -> i64 {
        let before = self.recurring.abs();
        let u = self.stable_upnl(m).abs();
        let cap = self.int(u, 1);
        self.recurring = before.min(cap).max(0);
        self.recurring - before
    }
    pub fn trade(&mut self, m: &mut RM, db: i64, dq: f64) {
        let (old, new) = (self.base, self.base + db);
        if db != 0 {
            let red = if old.signum() == -db.signum() { old.abs().min(db.abs()) } else { 0 };
            let inc = db.abs() - red;
            if new == 0 {
                self.avg = 0.0;
                self.running = 0;
                self.realized = 0.0;
            } else if old.signum() != new.signum() {
                self.avg = (dq / db as f64).abs();
                let x = -(new as f64) * self.avg;
                self.running = self.int(x, 0);
                self.realized = 0.0;
            } else {
                let q = self.int(dq, 0);
                self.running += q;
                if inc > 0 {
                    self.avg = (old.abs() as f64 * self.avg + dq.abs()) / new.abs() as f64;
                } else {
                    self.realized += dq + db as f64 * self.avg;
                }
            }
            self.recurring = self.recurring.abs();
            let x = ((inc - red) * m.base_lot) as f64 * m.stable() * m.limit_factor;
            // conversion of a negative amount rounds down
            let x = self.int(x, 2);
            self.recurring = (self.recurring - x).max(0);
        }
        self.base = new;
        m.oi += new.abs() - old.abs();
        self.quote += dq;
        self.constrain_recurring(m);
    }
    pub fn update_window(&mut self, m: &RM, now: u64) {
        let st = self.window as u64 * m.window;
        if now >= st + m.window || now < st {
            self.window = (now / m.window) as u32;
            self.used = 0;
        }
    }
    /// (min, max) pnl that can be settled in a whole window
    pub fn settle_limit(&mut self, m: &RM) -> (f64, f64) {
        if m.limit_factor < 0.0 {
            return (i64::MIN as f64, i64::MAX as f64);
        }
        let pv = (self.base * m.base_lot) as f64 * m.stable();
        let unreal = self.int(m.limit_factor * pv.abs(), 0) as f64;
        let upnl = self.int((self.quote + pv).abs(), 1);
        let mut hi = unreal + self.recurring.abs().min(upnl) as f64;
        let mut lo = -hi;
        if self.oneshot >= 0.0 {
            hi += self.int(self.oneshot, 1) as f64;
        } else {
            lo += self.int(self.oneshot, 2) as f64;
        }
        (lo.min(0.0), hi.max(0.0))
    }
    /// (min, max) pnl that can still be settled in this window
    pub fn settleable(&mut self, m: &RM) -> (f64, f64) {
        if m.limit_factor < 0.0 {
            return (f64::MIN, f64::MAX);
        }
        let (lo, hi) = self.settle_limit(m);
        let u = self.used as f64;
        ((lo - u).min(0.0), (hi - u).max(0.0))
    }
    pub fn limited(&mut self, m: &RM, pnl: f64) -> f64 {
        let (lo, hi) = self.settleable(m);
        if pnl < 0.0 {
            pnl.max(lo)
        } else {
            pnl.min(hi)
        }
    }
    pub fn settle(&mut self, m: &RM, x: f64) {
        self.quote -= x;
        let red = if x > 0.0 { x.min(self.oneshot).max(0.0) } else { x.max(self.oneshot).min(0.0) };
        self.oneshot -= red;
        let mut used = self.int(x - red, 0);
        let ch = self.constrain_recurring(m);
        // nothing left, up to rounding
        self.slack += (x != 0.0 && self.stable_upnl(m) == 0.0) as i64;
        if ch < 0 {
            used = if used > 0 { (used + ch).max(0) } else { (used - ch).min(0) };
        }
        self.used += used;
    }
    pub fn compare(&self, p: &PerpPosition, tol: f64, who: &str) -> Result<(), String> {
        let e = |n: &str| format!("perp position of {who}: {n}");
        let i = |n: &str, got: i64, exp: i64, sl: i64| ensure((got - exp).abs() <= sl, || format!("{} differs from specification | got {got} expected {exp}", e(n)));
        i("base lots", p.base_position_lots, self.base, 0)?;
        want(&e("quote position"), f(p.quote_position_native), self.quote, tol)?;
        i("pending taker base lots", p.taker_base_lots, self.tb, 0)?;
        i("pending taker quote lots", p.taker_quote_lots, self.tq, 0)?;
        i("bid lots", p.bids_base_lots, self.bids, 0)?;
        i("ask lots", p.asks_base_lots, self.asks, 0)?;
        if self.base != 0 {
            if self.base > 0 {
                want(&e("settled long funding"), f(p.long_settled_funding), self.long_s, 1e-9)?;
            } else {
                want(&e("settled short funding"), f(p.short_settled_funding), self.short_s, 1e-9)?;
            }
        }
        want(&e("average entry price"), p.avg_entry_price_per_base_lot, self.avg, 1e-6)?;
        i("running quote", p.quote_running_native, self.running, self.slack)?;
        want(&e("realized pnl of the position"), f(p.realized_pnl_for_position_native), self.realized, tol)?;
        want(&e("one-shot settle allowance"), f(p.oneshot_settle_pnl_allowance), self.oneshot, tol)?;
        i("recurring settle allowance", p.recurring_settle_pnl_allowance, self.recurring, self.slack)?;
        i("settle window", p.settle_pnl_limit_window as i64, self.window as i64, 0)?;
        i("amount settled in the window", p.settle_pnl_limit_settled_in_current_window_native, self.used, self.slack)?;
        i("maker volume", p.maker_volume as i64, self.maker_vol as i64, self.slack.min(1))?;
        i("taker volume", p.taker_volume as i64, self.taker_vol as i64, self.slack.min(1))?;
        i("perp-spot transfers", p.perp_spot_transfers, self.transfers, self.slack)?;
        want(&e("cumulative long funding"), p.cumulative_long_funding, self.cum_long, tol)?;
        want(&e("cumulative short funding"), p.cumulative_short_funding, self.cum_short, tol)
    }
}

/// reference account: what perp operations can change
#[derive(Clone)]
pub struct RA {
    pub acc: Acc,
    pub pos: Option<RP>,
    /// raw perp slot
    pub slot: usize,
    pub buy: (u64, u64, u64),
    pub buy_slack: u64,
}
impl RA {
    fn of(acc: Acc, index: PerpMarketIndex) -> RA {
        let slot = acc.perps.iter().position(|p| p.market_index == index);
        let x = &acc.fixed;
        let buy = (x.buyback_fees_accrued_current, x.buyback_fees_accrued_previous, x.buyback_fees_expiry_timestamp);
        RA { pos: slot.map(|i| RP::of(&acc.perps[i])), slot: slot.unwrap_or(usize::MAX), acc, buy, buy_slack: 0 }
    }
    pub fn expire_buyback(&mut self, now: u64, interval: u64) {
        if interval == 0 || now < self.buy.2 {
            return;
        }
        self.buy = (0, if now < self.buy.2 + interval { self.buy.0 } else { 0 }, (now / interval + 1) * interval);
    }
    pub fn accrue(&mut self, x: f64) {
        if (x - x.round()).abs() < 1e-6 && x != 0.0 {
            self.buy_slack += 1;
        }
        self.buy.0 += x.floor() as u64;
    }
    pub fn p(&mut self) -> &mut RP {
        self.pos.as_mut().unwrap()
    }
}

/// reference perp market over a state
#[derive(Clone)]
pub struct RM<'a> {
    pub fx: &'a Fix,
    pub s: &'a State,
    pub pi: usize,
    pub m: PerpMarket,
    pub base_lot: i64,
    pub quote_lot: i64,
    pub limit_factor: f64,
    pub window: u64,
    pub long: f64,
    pub short: f64,
    pub fees: f64,
    pub fees_settled: f64,
    pub liq_fees: f64,
    pub oi: i64,
    pub seq: u64,
    pub funding_ts: u64,
    pub model: StablePriceModel,
    pub books: [[Vec<Leaf>; 2]; 2],
    pub ev: Vec<Ev>,
    pub evseq: u64,
    pub ras: BTreeMap<usize, RA>,
    pub now: u64,
    pub oracle: f64,
    /// a non-numeric decision came too close to its threshold: effects are not compared
    pub unsure: bool,
}
pub fn stable_ref(m: &StablePriceModel, now: u64, price: f64) -> StablePriceModel {
    let mut m = *m;
    if m.reset_on_nonzero_price == 1 {
        if price <= 0.0 {
            // no price to start from yet
            return m;
        }
        m.stable_price = price;
        m.delay_prices = [price; 24];
        m.delay_accumulator_price = 0.0;
        m.delay_accumulator_time = 0;
        m.last_update_timestamp = now;
        m.reset_on_nonzero_price = 0;
    }
    let dt = now.saturating_sub(m.last_update_timestamp);
    if dt < 10 {
        return m;
    }
    let lim = dt.min(600);
    m.last_update_timestamp = now;
    m.delay_accumulator_time += lim as u32;
    m.delay_accumulator_price += price * lim as f64;
    let clampf = |x: f64, p: f64, g: f64| x.max(p * (1.0 - g)).min(p * (1.0 + g));
    let iv = m.delay_interval_seconds as u64;
    let idx = (now / iv % 24) as usize;
    let last = m.last_delay_interval_index as usize;
    if idx != last {
        let prev = m.delay_prices[(last + 23) % 24];
        let avg = m.delay_accumulator_price / m.delay_accumulator_time as f64;
        let new = clampf(avg, prev, m.delay_growth_limit as f64);
        if dt > 24 * iv {
            m.delay_prices = [new; 24];
        } else {
            let mut i = last;
            while i != idx {
                m.delay_prices[i] = new;
                i = (i + 1) % 24;
            }
        }
        m.delay_accumulator_price = 0.0;
        m.delay_accumulator_time = 0;
        m.last_delay_interval_index = idx as u8;
    }
    let (d, st) = (m.delay_prices[idx], m.stable_price);
    let q = (d / st).min(st / d);
    m.stable_price = clampf(price, st, m.stable_growth_limit as f64 * q * q * lim as f64);
    m
}

impl<'a> RM<'a> {
    pub fn new(fx: &'a Fix, s: &'a State, pi: usize) -> Result<RM<'a>, String> {
        let p = &fx.w.perps[pi];
        let m: PerpMarket = s.zc(&p.market);
        let (ev, evseq) = queue(s, &p.event_queue)?;
        Ok(RM {
            fx,
            s,
            pi,
            base_lot: m.base_lot_size,
            quote_lot: m.quote_lot_size,
            limit_factor: m.settle_pnl_limit_factor as f64,
            window: m.settle_pnl_limit_window_size_ts,
            long: f(m.long_funding),
            short: f(m.short_funding),
            fees: f(m.fees_accrued),
            fees_settled: f(m.fees_settled),
            liq_fees: f(m.accrued_liquidation_fees),
            oi: m.open_interest,
            seq: m.seq_num,
            funding_ts: m.funding_last_updated,
            model: m.stable_price_model,
            books: [book_side(s, &p.bids, true)?, book_side(s, &p.asks, false)?],
            ev,
            evseq,
            ras: BTreeMap::new(),
            now: s.ts as u64,
            oracle: oracle_price(s, &p.oracle),
            unsure: false,
            m,
        })
    }
    pub fn stable(&self) -> f64 {
        self.model.stable_price
    }
    pub fn ra(&mut self, a: usize) -> &mut RA {
        let (fx, s, idx) = (self.fx, self.s, self.m.perp_market_index);
        self.ras.entry(a).or_insert_with(|| RA::of(fx.acc(s, a), idx))
    }
    pub fn who(&self, k: &Pubkey) -> Option<usize> {
        self.fx.accts.iter().position(|x| x == k)
    }
    /// position of account a with the market borrowed at the same time
    pub fn with_pos(&mut self, a: usize, g: impl FnOnce(&mut RP, &mut RM)) {
        let mut p = self.ra(a).pos.take().unwrap();
        g(&mut p, self);
        self.ra(a).pos = Some(p);
    }
    pub fn oracle_lots(&self) -> i64 {
        (self.oracle * self.base_lot as f64 / self.quote_lot as f64 + 1e-9).floor() as i64
    }
    pub fn interval(&self) -> u64 {
        let g: Group = self.s.zc(&self.fx.w.group);
        g.buyback_fees_expiry_interval
    }
    /// (tree, leaf, price, valid) best first, without those that cannot be priced now
    pub fn levels(&self, side: usize) -> Vec<(usize, Leaf, i64, bool)> {
        let o = self.oracle_lots();
        let mut v = vec![];
        for t in 0..2 {
            for l in &self.books[side][t] {
                if let Some(p) = l.price(t, o) {
                    let over = t == 1 && l.peg_limit != -1 && if side == 0 { p > l.peg_limit } else { p < l.peg_limit };
                    v.push((t, l.clone(), p, !over && !l.expired(self.now)));
                }
            }
        }
        v.sort_by_key(|x| (if side == 0 { -x.2 } else { x.2 }, x.1.seq(side == 0)));
        v
    }
    fn impact(&self, side: usize) -> Option<i64> {
        let mut sum = 0;
        for (_, l, p, ok) in self.levels(side) {
            if ok {
                sum += l.qty;
                if sum >= self.m.impact_quantity {
                    return Some(p);
                }
            }
        }
        None
    }
    pub fn update_funding(&mut self) {
        if self.now <= self.funding_ts {
            return;
        }
        let (mn, mx) = (f(self.m.min_funding), f(self.m.max_funding));
        let rate = match (self.impact(0), self.impact(1)) {
            (Some(b), Some(a)) => {
                let mid = ((b + a) / 2) as f64 * self.quote_lot as f64 / self.base_lot as f64;
                (mid / self.oracle - 1.0).max(mn).min(mx)
            }
            (Some(_), None) => mx,
            (None, Some(_)) => mn,
            (None, None) => 0.0,
        };
        let dt = (self.now - self.funding_ts).min(3600) as f64;
        let d = self.oracle * self.base_lot as f64 * rate * dt / 86400.0;
        self.long += d;
        self.short += d;
        self.funding_ts = self.now;
        self.model = stable_ref(&self.model, self.now, self.oracle);
    }
    /// state with this market's funding and stable price in place, and account a as modelled
    pub fn hyp(&self) -> State {
        self.hyp_on(self.s.clone())
    }
    pub fn hyp_on(&self, mut s: State) -> State {
        let n = |x: f64| fixed::types::I80F48::from_num(x);
        let model = self.model;
        let (lo, sh) = (self.long, self.short);
        let same = lo == f(self.m.long_funding) && sh == f(self.m.short_funding) && model.stable_price == self.m.stable_price_model.stable_price;
        if !same {
            s.edit_zc::<PerpMarket>(&self.fx.w.perps[self.pi].market, |m| {
                m.long_funding = n(lo);
                m.short_funding = n(sh);
                m.stable_price_model = model;
            });
        }
        s
    }
    pub fn hyp_acc(&self, a: usize) -> Acc {
        self.put_pos(a, self.ras[&a].acc.clone())
    }
    /// the account with the modelled perp position in place
    pub fn put_pos(&self, a: usize, mut acc: Acc) -> Acc {
        let r = &self.ras[&a];
        if let Some(p) = &r.pos {
            let x = &mut acc.perps[r.slot];
            if x.market_index != self.m.perp_market_index {
                *x = PerpPosition { market_index: self.m.perp_market_index, ..PerpPosition::default() };
            }
            p.health_parts(x);
        }
        acc
    }
    /// open a position if there is none (uses one of the token position of the settle token)
    pub fn ensure(&mut self, a: usize, pr: &mut Pred) -> bool {
        let (idx, st) = (self.m.perp_market_index, self.m.settle_token_index);
        let r = self.ra(a);
        if r.pos.is_some() {
            return true;
        }
        match r.acc.perps.iter().position(|p| p.market_index == PerpMarketIndex::MAX) {
            None => {
                pr.must(false, "no free perp position");
                return false;
            }
            Some(i) => {
                r.slot = i;
                r.pos = Some(RP::new());
                r.acc.perps[i] = PerpPosition { market_index: idx, ..PerpPosition::default() };
            }
        }
        let t = r.acc.tokens.iter().position(|t| t.token_index == st).or_else(|| r.acc.tokens.iter().position(|t| t.token_index == TokenIndex::MAX));
        match t {
            None => {
                pr.must(false, "no free token position for the settle token");
                false
            }
            Some(i) => {
                let t = &mut r.acc.tokens[i];
                if t.token_index != st {
                    *t = TokenPosition { token_index: st, ..Default::default() };
                }
                t.in_use_count += 1;
                true
            }
        }
    }
    fn out(&mut self, side: usize, l: &Leaf) {
        self.ev.push(Ev::Out { side: side as u8, slot: l.slot, ts: self.now, seq: self.evseq, owner: l.owner, qty: l.qty, id: l.key });
        self.evseq += 1;
    }
    fn take_leaf(&mut self, side: usize, tree: usize, key: u128) -> Option<Leaf> {
        let b = &mut self.books[side][tree];
        let i = b.iter().position(|l| l.key == key)?;
        Some(b.remove(i))
    }
    fn is_full(&self, side: usize, freed: u32) -> bool {
        let p = &self.fx.w.perps[self.pi];
        let d = self.s.data(if side == 0 { &p.bids } else { &p.asks });
        let (bump, free) = (u32_(d, NODES_HEAD + 4), u32_(d, NODES_HEAD + 8));
        free + freed <= 1 && bump >= 1023
    }

    /// Place an order. Returns the order id if something was posted.
    pub fn place(&mut self, o: &PerpOrd, pr: &mut Pred) -> Option<u128> {
        let (side, opp) = (o.side as usize, 1 - o.side as usize);
        let w = &self.fx.w;
        pr.must(o.peg.is_some() || o.price >= 0, "negative price");
        pr.must(o.peg.unwrap_or(-1) >= -1, "negative peg limit");
        if o.peg.is_some() {
            pr.must(o.kind != 1 && o.kind != 3, "pegged orders cannot be market or ioc");
        }
        pr.must(o.base >= 0 && o.quote >= 0, "negative quantity");
        if pr.refuse.is_some() {
            return None;
        }
        let tif = if o.expiry == 0 { 0 } else { o.expiry.min(65535) as u16 };
        self.update_funding();
        self.ra(o.a);
        if !self.ensure(o.a, pr) {
            return None;
        }
        let hs = self.hyp();
        let a0 = self.hyp_acc(o.a);
        liq_flag_gate(pr, w, &hs, &a0);
        let h0 = ref_health(w, &hs, &a0, Ht::Init);
        let (now, iv) = (self.now, self.interval());
        self.ra(o.a).expire_buyback(now, iv);

        // reduce only
        let mut base = o.base;
        let market_ro = self.m.reduce_only == 1;
        if o.reduce || market_ro {
            let p = self.ra(o.a).p().clone();
            let eff = p.base + p.tb;
            let allowed = if side == 0 {
                if eff >= 0 {
                    0
                } else if market_ro {
                    (-(eff + p.bids)).max(0)
                } else {
                    -eff
                }
            } else if eff <= 0 {
                0
            } else if market_ro {
                (eff - p.asks).max(0)
            } else {
                eff
            };
            base = base.min(allowed);
            if market_ro {
                pr.must(o.reduce || base == o.base, "market is reduce-only");
            }
        }
        // price
        let ol = self.oracle_lots();
        let mut price = match (o.kind, o.peg) {
            (3, _) => {
                if side == 0 {
                    i64::MAX
                } else {
                    1
                }
            }
            (_, Some(_)) => ol + o.price,
            _ => o.price,
        };
        let best = self.levels(opp).into_iter().find(|x| x.3).map(|x| x.2);
        if o.kind == 4 {
            if let Some(b) = best {
                price = if side == 0 { price.min(b - 1) } else { price.max(b + 1) };
            }
        }
        pr.must(price >= 1, "price below one lot");
        if pr.refuse.is_some() {
            return None;
        }
        self.seq += 1;
        let data = if o.peg.is_some() { (price as i128 - ol as i128 + (1i128 << 63)) as u64 } else { price as u64 };
        let id = (data as u128) << 64 | (if side == 0 { !self.seq } else { self.seq }) as u128;

        if o.kind == 1 {
            let pen = self.m.fee_penalty as f64;
            let r = self.ra(o.a);
            r.accrue(pen);
            r.p().fee(pen);
            self.fees += pen;
        }
        // matching
        let me = self.fx.accts[o.a];
        let (mut rb, mut rq) = (base, o.quote);
        let (mut tb, mut tq, mut selfq) = (0i64, 0i64, 0i64);
        let mut post = o.kind == 0 || o.kind == 2 || o.kind == 4;
        let (mut dropped, mut limit) = (0, o.limit);
        for (t, l, px, valid) in self.levels(opp) {
            if rb == 0 || rq == 0 {
                break;
            }
            if !valid {
                if dropped < 5 {
                    dropped += 1;
                    self.out(opp, &l);
                    self.take_leaf(opp, t, l.key);
                }
                continue;
            }
            let crosses = if side == 0 { px <= price } else { px >= price };
            if !crosses {
                break;
            }
            if o.kind == 2 || o.kind == 4 || limit == 0 {
                post = false;
                break;
            }
            let n = rb.min(l.qty).min(rq / px);
            if n == 0 {
                break;
            }
            let own = l.owner == me;
            if own && o.stb == 2 {
                pr.must(false, "would trade with itself");
                return None;
            }
            if own && o.stb == 1 {
                self.out(opp, &l);
                self.take_leaf(opp, t, l.key);
                continue;
            }
            rb -= n;
            rq -= n * px;
            tb += n;
            tq += n * px;
            if own {
                selfq += n * px;
            }
            let gone = l.qty == n;
            if gone {
                self.take_leaf(opp, t, l.key);
            } else {
                self.books[opp][t].iter_mut().find(|x| x.key == l.key).unwrap().qty -= n;
            }
            let fee = |x| if own { 0.0 } else { f(x) as f32 };
            self.ev.push(Ev::Fill { taker_side: o.side, maker_out: gone, maker_slot: l.slot, ts: now, seq: self.evseq, maker: l.owner, maker_ts: l.ts, taker: me, taker_cid: o.cid, id: l.key, price: px, qty: n, maker_cid: l.cid, maker_fee: fee(self.m.maker_fee), taker_fee: fee(self.m.taker_fee) });
            self.evseq += 1;
            limit -= 1;
        }
        pr.must(self.ev.len() <= 488, "event queue is full");
        if tb > 0 || tq > 0 {
            let q = ((tq - selfq) * self.quote_lot) as f64;
            let (mf, tf) = (q * f(self.m.maker_fee), q * f(self.m.taker_fee));
            let r = self.ra(o.a);
            r.accrue((tf + mf.min(0.0)).max(0.0));
            let p = r.p();
            let sg = if side == 0 { 1 } else { -1 };
            p.tb += sg * tb;
            p.tq -= sg * tq;
            p.fee(tf);
            p.taker_vol += p.int(tf, 0) as u64;
            self.fees += tf + mf;
        }
        // post the remainder
        let q = rb.min(rq / price);
        post = post && q > 0;
        if post {
            let native = price as f64 * self.quote_lot as f64 / self.base_lot as f64;
            let lim = if side == 0 { f(self.m.maint_base_liab_weight) } else { f(self.m.maint_base_asset_weight) } * self.oracle;
            if (native - lim).abs() < 1e-8 {
                self.unsure = true;
            }
            if if side == 0 { native > lim } else { native < lim } {
                post = false;
            }
        }
        let mut posted = None;
        if post {
            let tree = o.peg.is_some() as usize;
            let mut freed = 0;
            for t in [tree, 1 - tree] {
                // the one that expired first; an order is droppable once its expiry has passed
                let e = self.books[side][t].iter().map(|l| l.expiry()).min().unwrap_or(u64::MAX);
                if e < now {
                    let c: Vec<Leaf> = self.books[side][t].iter().filter(|l| l.expiry() == e).cloned().collect();
                    if c.len() > 1 {
                        self.unsure = true;
                    }
                    self.take_leaf(side, t, c[0].key);
                    self.out(side, &c[0]);
                    // an order's node, and the inner node joining it with the rest of its tree
                    freed = if self.books[side][t].is_empty() { 1 } else { 2 };
                    break;
                }
            }
            if self.is_full(side, freed) {
                let worst_of = |t: usize| -> Option<(usize, Leaf, i64)> {
                    let v = &self.books[side][t];
                    let l = if side == 0 { v.first() } else { v.last() }?;
                    let p = if t == 0 { (l.key >> 64) as i64 } else { ((ol as i128 + ((l.key >> 64) as i128 - (1i128 << 63))).max(1)).min(i64::MAX as i128) as i64 };
                    Some((t, l.clone(), p))
                };
                let rank = |x: &(usize, Leaf, i64)| (if side == 0 { -x.2 } else { x.2 }, x.1.seq(side == 0));
                let worst = match (worst_of(0), worst_of(1)) {
                    (Some(x), Some(y)) => Some(if rank(&x) > rank(&y) { x } else { y }),
                    (x, y) => x.or(y),
                };
                match worst {
                    None => {
                        pr.must(false, "book is full");
                        return None;
                    }
                    Some((t, l, p)) => {
                        pr.must(if side == 0 { price > p } else { price < p }, "book is full of better orders");
                        self.take_leaf(side, t, l.key);
                        self.out(side, &l);
                    }
                }
            }
            pr.must(self.ev.len() <= 488, "event queue is full");
            let idx = self.m.perp_market_index;
            let peg_limit = o.peg.unwrap_or(-1);
            let r = self.ra(o.a);
            match r.acc.oos.iter().position(|x| x.market == PerpMarketIndex::MAX) {
                None => {
                    pr.must(false, "no free order slot");
                    return None;
                }
                Some(i) => {
                    let x = &mut r.acc.oos[i];
                    x.market = idx;
                    x.side_and_tree = 2 * tree as u8 + side as u8;
                    x.id = id;
                    x.client_id = o.cid;
                    x.quantity = q;
                    if side == 0 {
                        r.p().bids += q;
                    } else {
                        r.p().asks += q;
                    }
                    let l = Leaf { key: id, owner: me, slot: i as u8, qty: q, ts: now, tif, peg_limit, cid: o.cid };
                    let b = &mut self.books[side][tree];
                    let at = b.iter().position(|x| x.key > id).unwrap_or(b.len());
                    b.insert(at, l);
                    posted = Some(id);
                }
            }
        }
        let a1 = self.hyp_acc(o.a);
        let h1 = ref_health(&self.fx.w, &hs, &a1, Ht::Init);
        health_rule(pr, h0, h1);
        posted
    }

    /// free an order slot; quantity on the book goes away with it
    pub fn cancel_slot(&mut self, a: usize, slot: usize, pr: &mut Pred, all: bool) {
        let x = self.ra(a).acc.oos[slot].clone();
        let (side, tree) = ((x.side_and_tree & 1) as usize, (x.side_and_tree >> 1) as usize);
        let l = self.take_leaf(side, tree, x.id);
        if l.is_none() && x.quantity == 0 {
            pr.must(all, "order is not on the book");
            return;
        }
        let q = l.map(|l| l.qty).unwrap_or(0);
        let r = self.ra(a);
        if side == 0 {
            r.p().bids -= q;
        } else {
            r.p().asks -= q;
        }
        r.acc.oos[slot] = PerpOpenOrder::default();
    }
    pub fn cancel_all(&mut self, a: usize, side: Option<u8>, mut limit: u8, pr: &mut Pred) {
        let idx = self.m.perp_market_index;
        for i in 0..self.ra(a).acc.oos.len() {
            let x = self.ra(a).acc.oos[i];
            if x.market == idx && side.map(|s| s == (x.side_and_tree & 1)).unwrap_or(true) {
                if limit == 0 {
                    pr.fuzz();
                    self.unsure = true;
                    return;
                }
                self.cancel_slot(a, i, pr, true);
                limit -= 1;
                if limit == 0 {
                    return;
                }
            }
        }
    }
    /// process pending events in order; stops at the first whose accounts are missing
    pub fn consume(&mut self, given: &[usize], limit: usize) {
        let idx = self.m.perp_market_index;
        let (now, iv) = (self.now, self.interval());
        for _ in 0..limit.min(8) {
            let e = match self.ev.first() {
                None => break,
                Some(e) => e.clone(),
            };
            let have = |k: &Pubkey| self.who(k).filter(|a| given.contains(a));
            match e {
                Ev::Fill { taker_side, maker_out, maker_slot, maker, taker, id, price, qty, maker_fee, .. } => {
                    let (m, t) = match (have(&maker), have(&taker)) {
                        (Some(m), Some(t)) => (m, t),
                        _ => return,
                    };
                    let sg = if taker_side == 0 { 1 } else { -1 };
                    let quote = (price * qty * self.quote_lot) as f64;
                    let fee = quote * maker_fee as f64;
                    let r = self.ra(m);
                    if fee > 0.0 {
                        r.expire_buyback(now, iv);
                        r.accrue(fee);
                    }
                    self.with_pos(m, |p, rm| {
                        p.settle_funding(rm);
                        p.fee(fee);
                        p.trade(rm, -sg * qty, sg as f64 * quote);
                        p.maker_vol += quote as u64;
                        if taker_side == 1 {
                            p.bids -= qty;
                        } else {
                            p.asks -= qty;
                        }
                    });
                    let x = &mut self.ra(m).acc.oos[maker_slot as usize];
                    if x.market == idx && x.id == id {
                        x.quantity = (x.quantity - qty).max(0);
                        if maker_out {
                            *x = PerpOpenOrder::default();
                        }
                    }
                    self.with_pos(t, |p, rm| {
                        p.settle_funding(rm);
                        p.tb -= sg * qty;
                        p.tq += sg * price * qty;
                        p.trade(rm, sg * qty, -sg as f64 * quote);
                        p.taker_vol += quote as u64;
                    });
                }
                Ev::Out { side, slot, owner, qty, id, .. } => {
                    let o = match have(&owner) {
                        Some(o) => o,
                        None => return,
                    };
                    let r = self.ra(o);
                    if side == 0 {
                        r.p().bids -= qty;
                    } else {
                        r.p().asks -= qty;
                    }
                    let x = &mut r.acc.oos[slot as usize];
                    if x.market == idx && x.id == id {
                        *x = PerpOpenOrder::default();
                    }
                }
            }
            self.ev.remove(0);
        }
    }

    /// compare market, book, queue and accounts with the outcome. `may` extends what may change
    /// in accounts; token balances are not compared here
    pub fn check(&self, cx: &Cx, tol: f64) -> Result<(), String> {
        let w = &self.fx.w;
        let p = &w.perps[self.pi];
        let post = RM::new(self.fx, cx.post, self.pi)?;
        for side in 0..2 {
            for t in 0..2 {
                ensure(self.books[side][t] == post.books[side][t], || format!("orders on the book differ from specification | side {side} tree {t} got {:?} expected {:?}", post.books[side][t], self.books[side][t]))?;
            }
        }
        ensure(self.ev == post.ev && self.evseq == post.evseq, || format!("event queue differs from specification | got {:?} next {} expected {:?} next {}", post.ev, post.evseq, self.ev, self.evseq))?;
        want("long funding", post.long, self.long, 1e-7)?;
        want("short funding", post.short, self.short, 1e-7)?;
        want("market fees accrued", post.fees, self.fees, tol)?;
        want("market fees settled", post.fees_settled, self.fees_settled, tol)?;
        want("market liquidation fees", post.liq_fees, self.liq_fees, tol)?;
        ensure(post.oi == self.oi, || format!("open interest | got {} expected {}", post.oi, self.oi))?;
        ensure(post.seq == self.seq, || format!("order sequence number | got {} expected {}", post.seq, self.seq))?;
        ensure(post.funding_ts == self.funding_ts, || format!("funding update time | got {} expected {}", post.funding_ts, self.funding_ts))?;
        want("stable price", post.stable(), self.stable(), 1e-9)?;
        // nothing else of the market
        let mut m = post.m;
        m.long_funding = self.m.long_funding;
        m.short_funding = self.m.short_funding;
        m.fees_accrued = self.m.fees_accrued;
        m.fees_settled = self.m.fees_settled;
        m.accrued_liquidation_fees = self.m.accrued_liquidation_fees;
        m.open_interest = self.m.open_interest;
        m.seq_num = self.m.seq_num;
        m.funding_last_updated = self.m.funding_last_updated;
        m.stable_price_model = self.m.stable_price_model;
        ensure(bytemuck::bytes_of(&m) == bytemuck::bytes_of(&self.m), || "changed the market's configuration".into())?;
        let _ = p;
        for (a, r) in &self.ras {
            let got = self.fx.acc(cx.post, *a);
            let who = format!("a{a}");
            let idx = self.m.perp_market_index;
            match (&r.pos, got.perp(idx)) {
                (Some(p), Some(g)) => p.compare(g, tol, &who)?,
                (None, None) => {}
                (x, y) => return Err(format!("perp position of {who} | expected to exist {} exists {}", x.is_some(), y.is_some())),
            }
            for (i, x) in got.perps.iter().enumerate() {
                if x.market_index != idx && i != r.slot {
                    ensure(bytemuck::bytes_of(x) == bytemuck::bytes_of(&r.acc.perps[i]), || format!("another perp position of {who} changed"))?;
                }
            }
            for (i, x) in got.oos.iter().enumerate() {
                let e = &r.acc.oos[i];
                let same = x.market == e.market && (x.market == PerpMarketIndex::MAX || (x.side_and_tree == e.side_and_tree && x.id == e.id && x.client_id == e.client_id && x.quantity == e.quantity));
                ensure(same, || format!("open order slot differs from specification | {who} slot {i} got {:?} expected {:?}", (x.market, x.side_and_tree, x.id, x.client_id, x.quantity), (e.market, e.side_and_tree, e.id, e.client_id, e.quantity)))?;
            }
            let x = &got.fixed;
            ensure(x.buyback_fees_accrued_current.abs_diff(r.buy.0) <= r.buy_slack && x.buyback_fees_accrued_previous == r.buy.1 && x.buyback_fees_expiry_timestamp == r.buy.2, || {
                format!("buyback fees of {who} | got {:?} expected {:?}", (x.buyback_fees_accrued_current, x.buyback_fees_accrued_previous, x.buyback_fees_expiry_timestamp), r.buy)
            })?;
            for t in &w.toks {
                let n = |a: &Acc| a.tok(t.index).map(|t| t.in_use_count);
                if n(&got) != n(&r.acc) && !(n(&got).unwrap_or(0) == 0 && n(&r.acc).unwrap_or(0) == 0) {
                    return Err(format!("use count of a token position of {who} | token {} got {:?} expected {:?}", t.index, n(&got), n(&r.acc)));
                }
            }
            rest_same(cx, *a, May { liq: true, perps: true, oos: true, buyback: true, spot_transfers: true, ..Default::default() })?;
        }
        Ok(())
    }
    pub fn keys(&self, extra: &[Pubkey]) -> Vec<Pubkey> {
        let p = &self.fx.w.perps[self.pi];
        let mut v = vec![p.market, p.bids, p.asks, p.event_queue];
        v.extend(extra);
        v.extend(self.ras.keys().map(|a| self.fx.accts[*a]));
        v
    }
}

/// Bookkeeping invariants of a perp market over all accounts of the group.
pub fn perp_balance_state(fx: &Fix, s: &State, pi: usize) -> Result<(), String> {
    let w = &fx.w;
    let m = RM::new(fx, s, pi)?;
    let idx = m.m.perp_market_index;
    let accs: Vec<(Pubkey, Acc)> = s
        .accts
        .iter()
        .filter(|(_, a)| {
            use anchor_lang::Discriminator;
            a.owner == mango_v4::ID && a.data.len() > 408 && a.data[..8] == MangoAccount::DISCRIMINATOR && a.data[8..40] == *w.group.as_ref()
        })
        .map(|(k, a)| (*k, parse(&a.data)))
        .collect();
    let (mut net, mut oi) = (0i64, 0i64);
    let mut tb: BTreeMap<Pubkey, (i64, i64)> = BTreeMap::new();
    let mut lots: BTreeMap<Pubkey, [i64; 2]> = BTreeMap::new();
    // order id -> quantity on book or in events
    let mut live: BTreeMap<(Pubkey, u128), (i64, bool)> = BTreeMap::new();
    for side in 0..2 {
        for t in 0..2 {
            for l in &m.books[side][t] {
                lots.entry(l.owner).or_default()[side] += l.qty;
                if live.insert((l.owner, l.key), (l.qty, true)).is_some() {
                    return Err("order id used twice on the book".into());
                }
                let o = accs.iter().find(|x| x.0 == l.owner).and_then(|x| x.1.oos.get(l.slot as usize).cloned());
                match o {
                    Some(o) if o.market == idx && o.id == l.key && o.side_and_tree == 2 * t as u8 + side as u8 && o.client_id == l.cid => {}
                    _ => return Err(format!("order on the book without its slot in the owner's account | {l:?}")),
                }
            }
        }
    }
    let mut seq = m.evseq as i64 - m.ev.len() as i64;
    for e in &m.ev {
        let sq = match e {
            Ev::Fill { taker_side, maker, taker, price, qty, id, seq, .. } => {
                let sg = if *taker_side == 0 { 1 } else { -1 };
                let t = tb.entry(*taker).or_default();
                t.0 += sg * qty;
                t.1 -= sg * qty * price;
                lots.entry(*maker).or_default()[1 - *taker_side as usize] += qty;
                live.entry((*maker, *id)).or_insert((0, false)).0 += qty;
                *seq
            }
            Ev::Out { side, owner, qty, id, seq, .. } => {
                lots.entry(*owner).or_default()[*side as usize] += qty;
                live.entry((*owner, *id)).or_insert((0, false)).0 += qty;
                *seq
            }
        };
        if sq as i64 != seq {
            return Err("event sequence numbers are not consecutive".into());
        }
        seq += 1;
    }
    for (k, a) in &accs {
        let p = a.perp(idx).cloned().unwrap_or_default();
        net += p.base_position_lots;
        oi += p.base_position_lots.abs();
        let t = tb.get(k).cloned().unwrap_or_default();
        if (p.taker_base_lots, p.taker_quote_lots) != t {
            return Err(format!("pending taker lots differ from the unprocessed fills | {k} position {:?} queue {t:?}", (p.taker_base_lots, p.taker_quote_lots)));
        }
        let l = lots.get(k).cloned().unwrap_or_default();
        if [p.bids_base_lots, p.asks_base_lots] != l {
            return Err(format!("order lots of an account differ from its orders on the book plus unprocessed events | {k} position {:?} book {l:?}", [p.bids_base_lots, p.asks_base_lots]));
        }
        for (i, o) in a.oos.iter().enumerate() {
            if o.market == idx {
                match live.get(&(*k, o.id)) {
                    Some((q, _)) if *q == o.quantity => {}
                    x => return Err(format!("open order slot does not match book and pending events | {k} slot {i} quantity {} live {x:?}", o.quantity)),
                }
            }
        }
        let settle = a.tok(m.m.settle_token_index).map(|t| t.in_use_count).unwrap_or(0);
        if a.perp(idx).is_some() && settle == 0 {
            return Err(format!("perp position without a held settle token position | {k}"));
        }
    }
    if net != 0 {
        return Err(format!("base positions do not sum to zero | sum {net}"));
    }
    if oi != m.oi {
        return Err(format!("open interest differs from the positions | market {} positions {oi}", m.oi));
    }
    Ok(())
}
/// quote value inside the perp market: positions net of funding, market fees, less maker fees already
/// booked as market income for unprocessed fills
pub fn perp_quote_total(fx: &Fix, s: &State, pi: usize) -> Result<f64, String> {
    let m = RM::new(fx, s, pi)?;
    let idx = m.m.perp_market_index;
    let mut c = m.fees;
    for a in crate::oracles::all_accounts(&fx.w, s) {
        if let Some(p) = a.perp(idx) {
            let r = RP::of(p);
            c += r.quote - r.unsettled(&m);
        }
    }
    for e in &m.ev {
        if let Ev::Fill { price, qty, maker_fee, .. } = e {
            c -= (price * qty * m.quote_lot) as f64 * *maker_fee as f64;
        }
    }
    Ok(c)
}
/// invariants after every step; conservation over every step that is not marked otherwise
pub fn perp_balance(cx: &Cx) -> Result<(), String> {
    if !cx.ok() {
        return Ok(());
    }
    for pi in 0..cx.fx.w.perps.len() {
        if !cx.post.has(&cx.fx.w.perps[pi].market) {
            continue;
        }
        perp_balance_state(cx.fx, cx.post, pi)?;
        if !matches!(cx.op.k, K::Env) {
            let (x, y) = (perp_quote_total(cx.fx, cx.pre, pi)?, perp_quote_total(cx.fx, cx.post, pi)?);
            ensure((x - y).abs() < 1e-3, || format!("quote was created or destroyed inside the perp market | before {x} after {y}"))?;
        }
    }
    Ok(())
}
