//! Helpers for two-sided operation specifications: predicted acceptance plus predicted effects.
use crate::p_perp::PK;
use crate::refm::*;
use crate::scen::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use mango_v4::state::*;

/// Predicted acceptance. Unknown (None) only when a compared quantity is within tolerance of its threshold.
#[derive(Default, Debug)]
pub struct Pred {
    pub refuse: Option<String>,
    pub fuzzy: bool,
}
/// judged operations: predicted refusals, predicted acceptances, undecided (within tolerance of a threshold)
pub static JUDGED: [std::sync::atomic::AtomicU64; 3] = [std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0)];
impl Pred {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn must(&mut self, c: bool, why: &str) -> &mut Self {
        if !c && self.refuse.is_none() {
            self.refuse = Some(why.to_string());
        }
        self
    }
    /// requires a >= b
    pub fn ge(&mut self, a: f64, b: f64, tol: f64, why: &str) -> &mut Self {
        if a < b - tol {
            self.must(false, why);
        } else if a < b + tol {
            self.fuzzy = true;
        }
        self
    }
    pub fn fuzz(&mut self) -> &mut Self {
        self.fuzzy = true;
        self
    }
    pub fn judge(&mut self, cx: &Cx) -> Result<(), String> {
        for a in must_be_operational(&cx.op.k) {
            self.must(cx.fx.acc(cx.pre, a).operational(cx.pre), "account is frozen");
        }
        JUDGED[if self.refuse.is_some() { 0 } else { 1 + self.fuzzy as usize }].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        match (&self.refuse, cx.ok()) {
            (Some(w), true) => Err(format!("accepted although it must be refused: {w}")),
            (None, false) if !self.fuzzy => Err(format!("refused although all conditions for it hold | {:?}", cx.res.as_ref().err())),
            _ => Ok(()),
        }
    }
}

/// accounts whose owner's or counterparty's business is done by the operation: none may be frozen
fn must_be_operational(k: &K) -> Vec<usize> {
    match k {
        K::Deposit { a, .. } | K::Withdraw { a, .. } | K::Flash { a, .. } | K::ForceWithdraw { a, .. } | K::TcsCreate(a, _) | K::TcsCancel { a, .. } | K::Collateral { a } => vec![*a],
        K::Health(p) => if *p == crate::p_health::Probe::Data { vec![] } else { vec![0] },
        K::LiqToken { liqee, liqor, .. } | K::Bankrupt { liqee, liqor, .. } | K::ForceClose { liqee, liqor, .. } | K::TcsTrigger { liqee, liqor, .. } | K::TcsStart { liqee, liqor, .. } => vec![*liqee, *liqor],
        K::Serum(k) => {
            use crate::p_serum::SK::*;
            match k {
                Place(o) => vec![o.a],
                Force { .. } => vec![],
                Cancel { a, .. } | CancelCid { a, .. } | CancelAll { a, .. } | Settle { a, .. } | Create { a, .. } | Close { a, .. } => vec![*a],
            }
        }
        K::Perp(p) => match p {
            PK::Place(o) => vec![o.a],
            PK::Cancel { a, .. } | PK::CancelAll { a, side: Some(_), .. } => vec![*a],
            _ => vec![],
        },
        _ => vec![],
    }
}

pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol + 1e-12 * a.abs().max(b.abs())
}
pub fn want(name: &str, got: f64, exp: f64, tol: f64) -> Result<(), String> {
    if near(got, exp, tol) {
        Ok(())
    } else {
        Err(format!("{name} differs from specification | got {got} expected {exp}"))
    }
}
pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(msg())
    }
}

/// accounts whose lamports, owner or data differ
pub fn changed(pre: &State, post: &State) -> Vec<Pubkey> {
    let mut v = vec![];
    for (k, a) in &post.accts {
        match pre.accts.get(k) {
            Some(b) if std::sync::Arc::ptr_eq(a, b) || (a.lamports == b.lamports && a.owner == b.owner && a.data == b.data) => {}
            _ => v.push(*k),
        }
    }
    for k in pre.accts.keys() {
        if !post.accts.contains_key(k) {
            v.push(*k);
        }
    }
    v
}
/// nothing outside `allowed` changed
pub fn frame(cx: &Cx, allowed: &[Pubkey]) -> Result<(), String> {
    for k in changed(cx.pre, cx.post) {
        if !allowed.contains(&k) {
            return Err(format!("changed an account it has no business with | {k}"));
        }
    }
    Ok(())
}
/// all token positions of account a, other than those in `except`, are untouched
pub fn other_tokens_same(cx: &Cx, a: usize, except: &[TokenIndex]) -> Result<(), String> {
    let (x, y) = (cx.fx.acc(cx.pre, a), cx.fx.acc(cx.post, a));
    for t in &cx.fx.w.toks {
        if !except.contains(&t.index) {
            let b = |a: &Acc| a.tok(t.index).map(|p| (p.indexed_position.to_bits(), p.in_use_count));
            if b(&x) != b(&y) {
                return Err(format!("a token position that is not part of the operation changed | token {}", t.index));
            }
        }
    }
    Ok(())
}
pub fn bank_of(fx: &Fix, s: &State, tok: usize) -> Bank {
    fx.w.bank(s, tok)
}
pub fn wallet(fx: &Fix, s: &State, a: usize, tok: usize) -> i128 {
    s.token_amount(&ata(&fx.owners[a], &fx.w.toks[tok].mint)) as i128
}
pub fn vault(fx: &Fix, s: &State, tok: usize) -> i128 {
    s.token_amount(&fx.w.toks[tok].vault) as i128
}
pub fn in_use(a: &Acc, i: TokenIndex) -> bool {
    a.tok(i).map(|p| p.in_use_count > 0).unwrap_or(false)
}

/// Expected native balance after adding delta, with the dusting rule: a non in-use position in
/// [0,1) is closed.
pub fn dusted(pre: f64, delta: f64, in_use: bool) -> f64 {
    let x = pre + delta;
    if !in_use && (-1e-9..1.0).contains(&x) {
        0.0
    } else {
        x
    }
}
/// (window start, net borrows) after recording `amount`
pub fn net_borrow_update(b: &Bank, now: u64, amount: f64) -> (u64, i64) {
    let amt = (amount - 1e-9).ceil() as i64;
    if now >= b.last_net_borrows_window_start_ts + b.net_borrow_limit_window_size_ts {
        (now / b.net_borrow_limit_window_size_ts * b.net_borrow_limit_window_size_ts, amt)
    } else {
        (b.last_net_borrows_window_start_ts, b.net_borrows_in_window + amt)
    }
}
/// does the user health rule accept going from h0 to h1?
pub fn health_rule(p: &mut Pred, h0: f64, h1: f64) {
    let tol = 1e-3 + 1e-10 * h0.abs().max(h1.abs());
    if h1 >= tol {
        return;
    }
    if h1 > -tol {
        p.fuzz();
        return;
    }
    // negative: must not decrease (whole native units below -1000)
    if (h1 - h0).abs() <= 1.0 + tol {
        p.fuzz();
        if h1 > -1000.0 + tol && (h1 - h0).abs() > tol {
            if h1 < h0 {
                p.must(false, "initial health would be negative and lower than before");
            }
        }
        return;
    }
    p.must(h1 > h0, "initial health would be negative and lower than before");
}
/// the being-liquidated flag after the pre-check of a user action; Err = still in liquidation
pub fn liq_flag_gate(p: &mut Pred, w: &World, s: &State, a: &Acc) {
    if a.being_liquidated {
        let h = ref_health(w, s, a, Ht::LiqEnd);
        p.ge(h, -1.0, 1e-3, "account is being liquidated");
    }
}
/// A copy of the state in which `a`'s native balance of `tok` is `native` (bank totals adjusted).
pub fn hypo(fx: &Fix, s: &State, a: &Acc, tok: usize, native: f64) -> (State, Acc) {
    let idx = fx.w.toks[tok].index;
    let mut s = s.clone();
    let mut a = a.clone();
    let old = a.tok(idx).map(|p| p.indexed_position).unwrap_or_default();
    let b = fx.w.bank(&s, tok);
    let new = fixed::types::I80F48::from_num(native) / if native > 0.0 { b.deposit_index } else { b.borrow_index };
    let zero = fixed::types::I80F48::ZERO;
    s.edit_zc::<Bank>(&fx.w.toks[tok].bank, |b| {
        b.indexed_deposits += new.max(zero) - old.max(zero);
        b.indexed_borrows += (-new).max(zero) - (-old).max(zero);
    });
    let slot = a.tokens.iter().position(|t| t.token_index == idx).or_else(|| a.tokens.iter().position(|t| t.token_index == TokenIndex::MAX));
    if let Some(i) = slot {
        a.tokens[i].token_index = idx;
        a.tokens[i].indexed_position = new;
    }
    (s, a)
}

// ------------------------------------------------------------------ reference ledger
use std::collections::{BTreeMap, BTreeSet};

/// Expected balances: applies deposits and withdrawals the way the documentation defines them.
#[derive(Clone)]
pub struct Led<'a> {
    pub fx: &'a Fix,
    pub s: &'a State,
    pub bal: BTreeMap<(usize, usize), f64>,
    pub fuzzy: BTreeSet<(usize, usize)>,
    pub fees: BTreeMap<usize, f64>,
    pub nb: BTreeMap<usize, (u64, i64)>,
    pub vaults: BTreeMap<usize, i128>,
    /// positions that are held open by something the operation adds
    pub held: BTreeSet<(usize, usize)>,
}
impl<'a> Led<'a> {
    pub fn new(fx: &'a Fix, s: &'a State) -> Self {
        Led { fx, s, bal: Default::default(), fuzzy: Default::default(), fees: Default::default(), nb: Default::default(), vaults: Default::default(), held: Default::default() }
    }
    pub fn get(&self, a: usize, tok: usize) -> f64 {
        self.bal.get(&(a, tok)).cloned().unwrap_or_else(|| native(&self.fx.w, self.s, &self.fx.acc(self.s, a), tok))
    }
    fn used(&self, a: usize, tok: usize) -> bool {
        self.held.contains(&(a, tok)) || in_use(&self.fx.acc(self.s, a), self.fx.w.toks[tok].index)
    }
    fn put(&mut self, a: usize, tok: usize, n: f64, dust: bool) {
        let n = if dust {
            if n.abs() < 1e-5 || (n - 1.0).abs() < 1e-5 {
                self.fuzzy.insert((a, tok));
            }
            if (0.0..1.0).contains(&n) { 0.0 } else { n }
        } else {
            n
        };
        self.bal.insert((a, tok), n);
    }
    fn borrow_delta(&mut self, tok: usize, amt: f64) {
        let b = self.fx.w.bank(self.s, tok);
        let now = self.s.ts as u64;
        let e = self.nb.entry(tok).or_insert((b.last_net_borrows_window_start_ts, b.net_borrows_in_window));
        let size = b.net_borrow_limit_window_size_ts;
        let amt = (amt - 1e-9).ceil() as i64;
        *e = if now >= e.0 + size { (now / size * size, amt) } else { (e.0, e.1 + amt) };
    }
    pub fn deposit(&mut self, a: usize, tok: usize, amt: f64, dust_always: bool) {
        let n0 = self.get(a, tok);
        if n0 < 0.0 {
            self.borrow_delta(tok, -(amt.min(-n0)));
            let d = dust_always || !self.used(a, tok);
            self.put(a, tok, n0 + amt, d);
            if n0 + amt < 0.0 {
                self.bal.insert((a, tok), n0 + amt);
            }
        } else {
            self.put(a, tok, n0 + amt, false);
        }
    }
    /// returns (loan, origination fee)
    pub fn withdraw(&mut self, a: usize, tok: usize, amt: f64, with_fee: bool, dust_always: bool) -> (f64, f64) {
        let n0 = self.get(a, tok);
        let d = dust_always || !self.used(a, tok);
        let x = n0 - amt;
        if n0 >= 0.0 && x >= 0.0 {
            self.put(a, tok, x, d);
            return (0.0, 0.0);
        }
        if n0 >= 0.0 && x > -1e-5 {
            self.fuzzy.insert((a, tok));
        }
        let loan = if n0 >= 0.0 { -x } else { amt };
        let fee = if with_fee { loan * f(self.fx.w.bank(self.s, tok).loan_origination_fee_rate) } else { 0.0 };
        self.bal.insert((a, tok), x - fee);
        self.borrow_delta(tok, loan + fee);
        *self.fees.entry(tok).or_default() += fee;
        (loan, fee)
    }
    pub fn fee(&mut self, tok: usize, amt: f64) {
        *self.fees.entry(tok).or_default() += amt;
    }
    pub fn vault(&mut self, tok: usize, d: i128) {
        *self.vaults.entry(tok).or_default() += d;
    }
    /// the state with these balances in place (bank totals and positions)
    pub fn hyp(&self) -> State {
        let mut s = self.s.clone();
        for (&(a, tok), &n) in &self.bal {
            set_native(self.fx, &mut s, a, tok, n);
        }
        s
    }
    pub fn toks(&self) -> BTreeSet<usize> {
        self.bal.keys().map(|k| k.1).chain(self.fees.keys().cloned()).chain(self.vaults.keys().cloned()).collect()
    }
    pub fn accts(&self) -> BTreeSet<usize> {
        self.bal.keys().map(|k| k.0).collect()
    }
    /// banks, vaults and accounts this ledger touches, plus `extra`
    pub fn keys(&self, extra: &[Pubkey]) -> Vec<Pubkey> {
        let mut v = extra.to_vec();
        for a in self.accts() {
            v.push(self.fx.accts[a]);
        }
        for t in self.toks() {
            v.push(self.fx.w.toks[t].bank);
        }
        for (t, _) in self.vaults.iter() {
            v.push(self.fx.w.toks[*t].vault);
        }
        v
    }
    pub fn check(&self, cx: &Cx, tol: f64) -> Result<(), String> {
        let w = &self.fx.w;
        for (&(a, tok), &n) in &self.bal {
            let acc = self.fx.acc(cx.post, a);
            let got = native(w, cx.post, &acc, tok);
            if self.fuzzy.contains(&(a, tok)) && got.abs() < 1.0 + 1e-4 && n.abs() < 1.0 + 1e-4 {
                continue;
            }
            want(&format!("balance of token {tok} of account a{a}"), got, n, tol)?;
            if n == 0.0 && !self.used(a, tok) && acc.tok(w.toks[tok].index).map(|p| p.indexed_position == 0 && p.in_use_count == 0).unwrap_or(false) {
                let before = self.fx.acc(self.s, a);
                let was = before.tok(w.toks[tok].index).map(|p| p.indexed_position != 0).unwrap_or(false);
                if was {
                    return Err(format!("emptied token position was not closed | a{a} t{tok}"));
                }
            }
        }
        for a in self.accts() {
            let ex: Vec<_> = self.bal.keys().filter(|k| k.0 == a).map(|k| w.toks[k.1].index).collect();
            other_tokens_same(cx, a, &ex)?;
        }
        for t in self.toks() {
            let (b, pb) = (w.bank(cx.pre, t), w.bank(cx.post, t));
            want(&format!("fees collected by token {t}"), f(pb.collected_fees_native) - f(b.collected_fees_native), self.fees.get(&t).cloned().unwrap_or(0.0), tol)?;
            let fz = self.fuzzy.iter().any(|k| k.1 == t);
            let e = self.nb.get(&t).cloned().unwrap_or((b.last_net_borrows_window_start_ts, b.net_borrows_in_window));
            ensure(fz || (pb.last_net_borrows_window_start_ts == e.0 && (pb.net_borrows_in_window - e.1).abs() <= 2), || {
                format!("net borrow window of token {t} | got {} {} expected {} {}", pb.last_net_borrows_window_start_ts, pb.net_borrows_in_window, e.0, e.1)
            })?;
            let d = vault(self.fx, cx.post, t) - vault(self.fx, cx.pre, t);
            let e = self.vaults.get(&t).cloned().unwrap_or(0);
            ensure(d == e, || format!("vault of token {t} changed by the wrong amount | {d} expected {e}"))?;
        }
        Ok(())
    }
}
pub const TOK0: usize = 8 + 400 + 8 + 8;
/// overwrite a native balance in place (position and bank totals)
pub fn set_native(fx: &Fix, s: &mut State, a: usize, tok: usize, native: f64) {
    let idx = fx.w.toks[tok].index;
    let acc = fx.acc(s, a);
    let slot = acc.tokens.iter().position(|t| t.token_index == idx).or_else(|| acc.tokens.iter().position(|t| t.token_index == TokenIndex::MAX));
    let i = match slot {
        Some(i) => i,
        None => return,
    };
    let mut p = acc.tokens[i];
    let zero = fixed::types::I80F48::ZERO;
    if p.token_index != idx {
        p = TokenPosition { token_index: idx, indexed_position: zero, ..Default::default() };
    }
    let b = fx.w.bank(s, tok);
    let (old, new) = (p.indexed_position, fixed::types::I80F48::from_num(native) / if native > 0.0 { b.deposit_index } else { b.borrow_index });
    s.edit_zc::<Bank>(&fx.w.toks[tok].bank, |b| {
        b.indexed_deposits += new.max(zero) - old.max(zero);
        b.indexed_borrows += (-new).max(zero) - (-old).max(zero);
    });
    p.indexed_position = new;
    let sz = std::mem::size_of::<TokenPosition>();
    s.edit(&fx.accts[a], |d| d[TOK0 + i * sz..TOK0 + (i + 1) * sz].copy_from_slice(bytemuck::bytes_of(&p)));
}

/// Parts of an account an operation may change, besides its token positions.
#[derive(Clone, Copy, Default)]
pub struct May {
    pub liq: bool,
    pub net_deposits: bool,
    pub spot_transfers: bool,
    pub serum: bool,
    pub perps: bool,
    pub oos: bool,
    pub tcs: bool,
    pub buyback: bool,
    pub sequence: bool,
    pub region: bool,
    pub fee_charge: bool,
    pub auth: bool,
}
fn raw<T: bytemuck::Pod>(v: &[T]) -> &[u8] {
    bytemuck::cast_slice(v)
}
/// account `a` is unchanged apart from its token positions and what `may` allows
pub fn rest_same(cx: &Cx, a: usize, may: May) -> Result<(), String> {
    let (x, y) = (cx.fx.acc(cx.pre, a), cx.fx.acc(cx.post, a));
    let e = |what: &str| Err(format!("changed {what} of an account although that is not part of the operation | a{a}"));
    let (p, q) = (&x.fixed, &y.fixed);
    if p.group != q.group || p.owner != q.owner || p.account_num != q.account_num || p.bump != q.bump {
        return e("the identity");
    }
    if !may.auth && (p.delegate != q.delegate || p.name != q.name || p.temporary_delegate != q.temporary_delegate || p.temporary_delegate_expiry != q.temporary_delegate_expiry || p.frozen_until != q.frozen_until) {
        return e("the delegate, name or freeze state");
    }
    if !may.liq && x.being_liquidated != y.being_liquidated {
        return e("the being-liquidated flag");
    }
    if !may.region && (x.in_health_region != y.in_health_region || p.health_region_begin_init_health != q.health_region_begin_init_health) {
        return e("the health region state");
    }
    if !may.sequence && p.sequence_number != q.sequence_number {
        return e("the sequence number");
    }
    if !may.net_deposits && p.net_deposits != q.net_deposits {
        return e("net deposits");
    }
    if !may.spot_transfers && p.perp_spot_transfers != q.perp_spot_transfers {
        return e("perp-spot transfers");
    }
    if !may.buyback && (p.buyback_fees_accrued_current != q.buyback_fees_accrued_current || p.buyback_fees_accrued_previous != q.buyback_fees_accrued_previous || p.buyback_fees_expiry_timestamp != q.buyback_fees_expiry_timestamp) {
        return e("buyback fees");
    }
    if !may.fee_charge && p.last_collateral_fee_charge != q.last_collateral_fee_charge {
        return e("the collateral fee charge time");
    }
    if !may.tcs && (raw(&x.tcs) != raw(&y.tcs) || p.next_token_conditional_swap_id != q.next_token_conditional_swap_id) {
        return e("conditional swaps");
    }
    if !may.serum && raw(&x.serum3) != raw(&y.serum3) {
        return e("spot market positions");
    }
    if !may.perps && raw(&x.perps) != raw(&y.perps) {
        return e("perp positions");
    }
    if !may.oos && raw(&x.oos) != raw(&y.oos) {
        return e("perp orders");
    }
    Ok(())
}

// ------------------------------------------------------------------ liquidation phases
/// (spot + weighted perp balance) of every token as liquidation sees it
pub fn liq_balances(w: &World, s: &State, a: &Acc) -> Vec<(usize, f64, f64)> {
    let mut v: Vec<(usize, f64, f64)> = a.active_tokens().map(|p| (w.tok_by_index(p.token_index), 0.0, 0.0)).collect();
    for x in v.iter_mut() {
        x.1 = native(w, s, a, x.0);
        for o in a.active_serum() {
            let d = oo(s, &o.open_orders);
            if w.toks[x.0].index == o.base_token_index {
                x.1 += d.native_coin_free as f64;
            }
            if w.toks[x.0].index == o.quote_token_index {
                x.1 += d.native_pc_free as f64;
            }
        }
        x.2 = x.1;
    }
    for p in a.active_perps() {
        let m: PerpMarket = s.zc(&w.perps[w.perp_by_index(p.market_index)].market);
        let t = w.tok_by_index(m.settle_token_index);
        let h = ref_hupnl(w, s, p, Ht::LiqEnd);
        for x in v.iter_mut().filter(|x| x.0 == t) {
            x.2 += h;
        }
    }
    v
}
pub fn must_be_past_phase1(p: &mut Pred, s: &State, a: &Acc) {
    for o in a.active_serum() {
        let d = oo(s, &o.open_orders);
        p.must(d.native_coin_total == 0 && d.native_pc_total == 0 && d.referrer_rebates_accrued == 0, "spot orders or unsettled spot funds have to be dealt with first");
    }
    for x in a.active_perps() {
        p.must(x.bids_base_lots == 0 && x.asks_base_lots == 0, "perp orders have to be cancelled first");
    }
}
pub fn must_be_past_phase2(p: &mut Pred, w: &World, s: &State, a: &Acc) {
    must_be_past_phase1(p, s, a);
    let v = liq_balances(w, s, a);
    let close = |x: f64, y: f64| (x - y).abs() < 1e-5;
    let liab = v.iter().any(|x| x.1 < 0.0 && x.2 < 0.0);
    let asset = v.iter().any(|x| x.1 >= 1.0 && x.2 >= 1.0 && w.bank(s, x.0).disable_asset_liquidation == 0);
    if v.iter().any(|x| close(x.1, 1.0) || close(x.2, 1.0) || (x.2 != 0.0 && close(x.2, 0.0))) {
        p.fuzz();
    } else {
        p.must(!(liab && asset), "tokens that can be liquidated are left");
    }
    for x in a.active_perps() {
        p.must(x.base_position_lots == 0, "a perp base position is left");
        p.must(x.taker_base_lots == 0 && x.taker_quote_lots == 0, "perp fills are not processed yet");
        let q = f(x.quote_position_native);
        if x.base_position_lots == 0 {
            p.must(q <= 0.0, "positive perp pnl is left");
        }
    }
}
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Liq {
    /// liquidation proceeds
    Go,
    /// health is fine: nothing happens, flag is false afterwards
    No,
    Unsure,
}
pub fn liquidatable(w: &World, s: &State, a: &Acc) -> Liq {
    if a.being_liquidated {
        let h = ref_health(w, s, a, Ht::LiqEnd);
        if (h + 1.0).abs() < 1e-4 {
            Liq::Unsure
        } else if h > -1.0 {
            Liq::No
        } else {
            Liq::Go
        }
    } else {
        let h = ref_health(w, s, a, Ht::Maint);
        if h.abs() < 1e-4 {
            Liq::Unsure
        } else if h >= 0.0 {
            Liq::No
        } else {
            Liq::Go
        }
    }
}
/// being-liquidated flag after a liquidation step equals "liquidation end health not recovered"
pub fn liq_flag_after(cx: &Cx, a: usize) -> Result<(), String> {
    let acc = cx.fx.acc(cx.post, a);
    let h = ref_health(&cx.fx.w, cx.post, &acc, Ht::LiqEnd);
    if (h + 1.0).abs() < 1e-3 {
        return Ok(());
    }
    ensure(acc.being_liquidated == (h <= -1.0), || format!("being-liquidated flag does not match recovery | flag {} liquidation end health {h}", acc.being_liquidated))
}
/// nothing changed except possibly the being-liquidated flag of `a`, which must be false now
pub fn liq_noop(cx: &Cx, a: usize) -> Result<(), String> {
    frame(cx, &[cx.fx.accts[a]])?;
    other_tokens_same(cx, a, &[])?;
    rest_same(cx, a, May { liq: true, ..Default::default() })?;
    ensure(!cx.fx.acc(cx.post, a).being_liquidated, || "account is healthy but stays flagged".into())
}
pub fn price(fx: &Fix, s: &State, tok: usize) -> f64 {
    oracle_price(s, &fx.w.toks[tok].oracle)
}

// ------------------------------------------------------------------ bank limits on a hypothetical bank
/// limits that apply when a balance ends as a bigger borrow
pub fn gate_borrow(p: &mut Pred, b: &Bank, net_borrows: i64, oracle: f64) {
    p.ge((1.0 - b.min_vault_to_deposits_ratio) * bank_native_deposits(b), bank_native_borrows(b), 1e-3, "borrow would eat into the vault reserve");
    if net_borrows >= 0 && b.net_borrow_limit_per_window_quote >= 0 {
        p.ge(b.net_borrow_limit_per_window_quote as f64, net_borrows as f64 * oracle.max(b.stable_price_model.stable_price), 1e-3, "net borrow limit of the window exceeded");
    }
}
pub fn gate_no_borrow(p: &mut Pred, b: &Bank) {
    p.ge(bank_native_deposits(b), bank_native_borrows(b), 1e-3, "borrows would exceed deposits");
}
pub fn gate_deposit_limit(p: &mut Pred, b: &Bank) {
    if b.deposit_limit > 0 {
        p.ge(b.deposit_limit as f64, bank_native_deposits(b) + b.potential_serum_tokens as f64, 1e-3, "deposit limit exceeded");
    }
}
impl<'a> Led<'a> {
    pub fn nb_of(&self, tok: usize) -> i64 {
        let b = self.fx.w.bank(self.s, tok);
        self.nb.get(&tok).map(|x| x.1).unwrap_or(b.net_borrows_in_window)
    }
}
/// the account as seen by a health computation that leaves out some tokens
pub fn without(a: &Acc, skip: &[TokenIndex]) -> Acc {
    let mut a = a.clone();
    for t in a.tokens.iter_mut() {
        if skip.contains(&t.token_index) {
            t.token_index = TokenIndex::MAX;
        }
    }
    a
}
pub fn has_slot(a: &Acc, idx: TokenIndex) -> bool {
    a.tok(idx).is_some() || a.tokens.iter().any(|t| t.token_index == TokenIndex::MAX)
}
