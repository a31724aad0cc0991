//! Deposits and withdrawals: exact two-sided specification.
use crate::refm::*;
use crate::scen::*;
use crate::spec::*;
use crate::world::*;
use mango_v4::state::*;

pub fn token_spec(cx: &Cx) -> Result<(), String> {
    match cx.op.k {
        K::Deposit { a, tok, amount, reduce_only } => deposit(cx, a, tok, amount, reduce_only),
        K::Withdraw { a, tok, amount, borrow } => withdraw(cx, a, tok, amount, borrow),
        _ => Ok(()),
    }
}

/// indexes are exactly one, so native balances carry no rounding
fn exact(b: &Bank) -> bool {
    b.deposit_index == 1 && b.borrow_index == 1
}
/// margin within which a limit may be seen as kept or broken
fn tol(b: &Bank) -> f64 {
    if exact(b) { 0.0 } else { 1e-4 }
}
fn deposit(cx: &Cx, a: usize, tok: usize, amount: u64, reduce_only: bool) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let acc = fx.acc(s, a);
    let idx = w.toks[tok].index;
    let b = w.bank(s, tok);
    let n0 = native(w, s, &acc, tok);
    let price = oracle_price(s, &w.toks[tok].oracle);
    let mut p = Pred::new();
    p.must(amount > 0, "zero amount");
    let owed = (-n0).max(0.0);
    let cap = reduce_only || b.reduce_only == 1;
    let owed_c = if (owed - owed.round()).abs() < 1e-6 {
        if cap && owed > 1e-9 && !exact(&b) {
            p.fuzz();
        }
        owed.round()
    } else {
        owed.ceil()
    };
    let d = if cap { owed_c.min(amount as f64) } else { amount as f64 };
    if b.reduce_only == 1 {
        p.must(reduce_only || d == amount as f64, "deposits of this token are reduce-only");
    }
    p.must(wallet(fx, s, a, tok) as f64 >= d, "wallet does not hold the amount");
    p.must(acc.tok(idx).is_some() || acc.tokens.iter().any(|t| t.token_index == TokenIndex::MAX), "no free token slot");
    let n1 = dusted(n0, d, in_use(&acc, idx));
    if n1 > 0.0 && b.deposit_limit > 0 {
        let total = bank_native_deposits(&b) + (n1 - n0.max(0.0)) + b.potential_serum_tokens as f64;
        p.ge(b.deposit_limit as f64, total, tol(&b), "deposit limit exceeded");
    }
    let g: Group = s.zc(&w.group);
    if g.deposit_limit_quote > 0 {
        let (hs, ha) = hypo(fx, s, &acc, tok, n1);
        let assets: f64 = ref_tokens(w, &hs, &ha).iter().map(|t| t.value(Ht::Init, t.spot, hs.ts as f64).max(0.0)).sum();
        // whole quote tokens count; the weights are not exact
        p.ge(g.deposit_limit_quote as f64 + 1.0, assets, 1e-3, "deposit limit of the group exceeded");
    }
    if acc.being_liquidated {
        let (hs, ha) = hypo(fx, s, &acc, tok, n1);
        p.ge(ref_health(w, &hs, &ha, Ht::LiqEnd), -1.0, 1e-3, "deposit into an account in liquidation must end the liquidation");
    }
    p.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    if p.fuzzy && cap {
        return Ok(());
    }
    let t = &w.toks[tok];
    frame(cx, &[fx.accts[a], t.bank, t.vault, ata(&fx.owners[a], &t.mint)])?;
    let moved = vault(fx, cx.post, tok) - vault(fx, s, tok);
    ensure(moved == d as i128, || format!("vault received the wrong amount | {moved} for deposit of {d}"))?;
    let paid = wallet(fx, s, a, tok) - wallet(fx, cx.post, a, tok);
    ensure(paid == d as i128, || format!("wallet paid the wrong amount | {paid} for deposit of {d}"))?;
    let post = fx.acc(cx.post, a);
    want("token balance after deposit", native(w, cx.post, &post, tok), n1, 1e-6)?;
    other_tokens_same(cx, a, &[idx])?;
    let pb = w.bank(cx.post, tok);
    want("fees on deposit", f(pb.collected_fees_native), f(b.collected_fees_native), 0.0)?;
    if n0 < 0.0 {
        let x = owed.min(d);
        let (st, nb) = net_borrow_update(&b, s.ts as u64, -x);
        // whole amounts may come out a hair smaller or larger
        let near = [-1e-6, 1e-6].iter().any(|e| net_borrow_update(&b, s.ts as u64, -(x + e)).1 == pb.net_borrows_in_window);
        ensure(pb.last_net_borrows_window_start_ts == st && (pb.net_borrows_in_window == nb || near), || format!("net borrow window after repayment wrong | {} {} expected {st} {nb}", pb.last_net_borrows_window_start_ts, pb.net_borrows_in_window))?;
    } else {
        ensure(pb.net_borrows_in_window == b.net_borrows_in_window, || "a plain deposit changed the net borrow window".into())?;
    }
    let usd = (post.fixed.net_deposits - acc.fixed.net_deposits) as f64;
    ensure((usd - (d * price).floor()).abs() <= 1.0, || format!("net deposit value wrong | {usd} for {d} at {price}"))?;
    ensure(!post.being_liquidated, || "account still flagged as being liquidated after a deposit".into())
}

fn withdraw(cx: &Cx, a: usize, tok: usize, amount: u64, borrow: bool) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let acc = fx.acc(s, a);
    let idx = w.toks[tok].index;
    let b = w.bank(s, tok);
    let n0 = native(w, s, &acc, tok);
    let price = oracle_price(s, &w.toks[tok].oracle);
    let mut p = Pred::new();
    p.must(amount > 0, "zero amount");
    p.must(acc.tok(idx).is_some() || acc.tokens.iter().any(|t| t.token_index == TokenIndex::MAX), "no free token slot");
    liq_flag_gate(&mut p, w, s, &acc);
    let all = amount == u64::MAX && !borrow;
    let mut fuzzy_amount = false;
    let out = if all {
        fuzzy_amount = (n0 - n0.round()).abs() < 1e-6 && n0 > 1e-9 && !exact(&b);
        if exact(&b) { n0.max(0.0).round() } else { n0.max(0.0).floor() }
    } else {
        amount as f64
    };
    if all && n0 < 0.0 {
        // explicitly a no-op on a borrow
        p.judge(cx)?;
        if cx.ok() {
            ensure(wallet(fx, s, a, tok) == wallet(fx, cx.post, a, tok), || "withdraw-all on a borrow paid out tokens".into())?;
        }
        return Ok(());
    }
    let loan = (out - n0.max(0.0)).max(0.0).min(out);
    let is_borrow = if (out - n0).abs() < 1e-6 && !fuzzy_amount { if !exact(&b) { p.fuzz(); } false } else { !all && out > n0 };
    if is_borrow {
        p.must(borrow, "withdrawal exceeds the deposit and borrowing was not allowed");
        p.must(b.reduce_only == 0, "borrows of this token are reduce-only");
    }
    p.must(vault(fx, s, tok) as f64 >= out, "vault does not hold the amount");
    let loan = if is_borrow { loan } else { 0.0 };
    let fee = loan * f(b.loan_origination_fee_rate);
    let n1 = dusted(n0, -(out + fee), in_use(&acc, idx));
    let (hs, ha) = hypo(fx, s, &acc, tok, n1);
    health_rule(&mut p, ref_health(w, s, &acc, Ht::Init), ref_health(w, &hs, &ha, Ht::Init));
    let (st, nb) = net_borrow_update(&b, s.ts as u64, loan + fee);
    let hb = w.bank(&hs, tok);
    if is_borrow {
        p.ge((1.0 - b.min_vault_to_deposits_ratio) * bank_native_deposits(&hb), bank_native_borrows(&hb), tol(&b), "borrow would eat into the vault reserve");
        if nb >= 0 && b.net_borrow_limit_per_window_quote >= 0 {
            p.ge(b.net_borrow_limit_per_window_quote as f64, nb as f64 * price.max(b.stable_price_model.stable_price), tol(&b), "net borrow limit of the window exceeded");
        }
    } else {
        p.ge(bank_native_deposits(&hb), bank_native_borrows(&hb), tol(&b), "withdrawal would leave borrows above deposits");
    }
    p.judge(cx)?;
    if !cx.ok() || (p.fuzzy && (out - n0).abs() < 1e-6) {
        return Ok(());
    }
    let t = &w.toks[tok];
    frame(cx, &[fx.accts[a], t.bank, t.vault, ata(&fx.owners[a], &t.mint)])?;
    let moved = vault(fx, s, tok) - vault(fx, cx.post, tok);
    let got = wallet(fx, cx.post, a, tok) - wallet(fx, s, a, tok);
    let slack = if fuzzy_amount { 1 } else { 0 };
    ensure((moved - out as i128).abs() <= slack && moved == got, || format!("withdrawal paid out the wrong amount | vault -{moved} wallet +{got} expected {out}"))?;
    let post = fx.acc(cx.post, a);
    if !fuzzy_amount {
        want("token balance after withdrawal", native(w, cx.post, &post, tok), n1, 1e-6)?;
    }
    other_tokens_same(cx, a, &[idx])?;
    let pb = w.bank(cx.post, tok);
    want("loan origination fee", f(pb.collected_fees_native) - f(b.collected_fees_native), fee, 1e-6)?;
    if is_borrow {
        ensure(pb.last_net_borrows_window_start_ts == st && (pb.net_borrows_in_window - nb).abs() <= 1, || format!("net borrow window after borrow wrong | {} {} expected {st} {nb}", pb.last_net_borrows_window_start_ts, pb.net_borrows_in_window))?;
    } else {
        ensure(pb.net_borrows_in_window == b.net_borrows_in_window, || "a withdrawal without borrowing changed the net borrow window".into())?;
    }
    let usd = (acc.fixed.net_deposits - post.fixed.net_deposits) as f64;
    ensure((usd - (out * price).floor()).abs() <= 1.0, || format!("net deposit value wrong | {usd} for {out} at {price}"))
}
