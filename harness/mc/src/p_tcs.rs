//! Token conditional swaps: creation, cancellation, start and trigger.
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::state::*;

pub fn tcs_spec(cx: &Cx) -> Result<(), String> {
    match cx.op.k {
        K::TcsCreate(a, n) => create(cx, a, n),
        K::TcsCancel { a, idx } => cancel(cx, a, idx),
        K::TcsTrigger { liqee, liqor, idx, max_buy, max_sell, min_buy, min_price } => trigger(cx, liqee, liqor, idx, max_buy, max_sell, min_buy, min_price as f64),
        K::TcsStart { liqee, liqor, idx } => start(cx, liqee, liqor, idx),
        _ => Ok(()),
    }
}
fn uses(a: &Acc, idx: TokenIndex) -> i64 {
    a.tok(idx).map(|p| p.in_use_count as i64).unwrap_or(0)
}
fn same_tcs(cx: &Cx, a: usize, except: usize) -> Result<(), String> {
    let (x, y) = (cx.fx.acc(cx.pre, a), cx.fx.acc(cx.post, a));
    for (i, (p, q)) in x.tcs.iter().zip(&y.tcs).enumerate() {
        ensure(i == except || bytemuck::bytes_of(p) == bytemuck::bytes_of(q), || format!("another conditional swap changed | slot {i}"))?;
    }
    Ok(())
}
fn tcs_is(cx: &Cx, a: usize, idx: usize, e: &TokenConditionalSwap) -> Result<(), String> {
    let y = cx.fx.acc(cx.post, a).tcs[idx];
    let close = |x: f64, y: f64| near(x, y, 1e-9);
    let ok = y.is_configured == e.is_configured
        && (e.is_configured == 0
            || (y.id == e.id
                && y.max_buy == e.max_buy
                && y.max_sell == e.max_sell
                && y.bought == e.bought
                && y.sold == e.sold
                && y.expiry_timestamp == e.expiry_timestamp
                && close(y.price_lower_limit, e.price_lower_limit)
                && close(y.price_upper_limit, e.price_upper_limit)
                && close(y.price_premium_rate, e.price_premium_rate)
                && y.taker_fee_rate == e.taker_fee_rate
                && y.maker_fee_rate == e.maker_fee_rate
                && y.buy_token_index == e.buy_token_index
                && y.sell_token_index == e.sell_token_index
                && y.allow_creating_borrows == e.allow_creating_borrows
                && y.allow_creating_deposits == e.allow_creating_deposits
                && y.tcs_type == e.tcs_type
                && y.start_timestamp == e.start_timestamp
                && y.duration_seconds == e.duration_seconds));
    ensure(ok, || format!("conditional swap differs from specification | got {y:?} expected {e:?}"))
}

fn create(cx: &Cx, a: usize, n: TcsNew) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let acc = fx.acc(s, a);
    let (bb, sb) = (w.bank(s, n.buy), w.bank(s, n.sell));
    let mut p = Pred::new();
    if n.ty > 0 {
        p.must(n.dur >= 1, "auction without duration");
    }
    if n.ty == 2 {
        let v = (n.max_buy as f64 * bb.stable_price_model.stable_price).min(n.max_sell as f64 * sb.stable_price_model.stable_price);
        p.ge(v, 10_000.0, 1e-3, "linear auction is too small");
    }
    if p.refuse.is_none() && n.expiry.map(|e| e <= 0).unwrap_or(false) {
        p.judge(cx)?;
        return if cx.ok() { frame(cx, &[]) } else { Ok(()) };
    }
    p.must(n.buy != n.sell, "buy and sell token are the same");
    p.must(n.ty == 2 || n.prem >= 0.0, "negative premium").must(n.lo >= 0.0 && n.hi >= 0.0, "negative price");
    let (bi, si) = (w.toks[n.buy].index, w.toks[n.sell].index);
    let mut need: Vec<_> = [bi, si].into_iter().filter(|i| acc.tok(*i).is_none()).collect();
    need.dedup();
    p.must(need.len() <= acc.tokens.iter().filter(|t| t.token_index == TokenIndex::MAX).count(), "no free token slot");
    let slot = acc.tcs.iter().position(|t| t.is_configured == 0);
    p.must(slot.is_some(), "no free conditional swap slot");
    p.must(acc.operational(s), "account is frozen");
    p.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    frame(cx, &[fx.accts[a]])?;
    other_tokens_same(cx, a, &[bi, si])?;
    rest_same(cx, a, May { tcs: true, ..Default::default() })?;
    let post = fx.acc(cx.post, a);
    for i in [bi, si] {
        ensure(uses(&post, i) == uses(&acc, i) + 1, || format!("position is not held by the conditional swap | token {i}"))?;
        ensure(post.tok(i).map(|p| p.indexed_position) == acc.tok(i).map(|p| p.indexed_position).or(Some(Default::default())), || "a balance changed".into())?;
    }
    ensure(post.fixed.next_token_conditional_swap_id == acc.fixed.next_token_conditional_swap_id + 1, || "next id did not advance".into())?;
    let slot = slot.unwrap();
    same_tcs(cx, a, slot)?;
    let e = TokenConditionalSwap {
        id: acc.fixed.next_token_conditional_swap_id,
        max_buy: n.max_buy,
        max_sell: n.max_sell,
        expiry_timestamp: n.expiry.map(|e| (s.ts + e) as u64).unwrap_or(u64::MAX),
        price_lower_limit: n.lo,
        price_upper_limit: n.hi,
        price_premium_rate: if n.ty == 2 { 0.0 } else { n.prem },
        taker_fee_rate: bb.token_conditional_swap_taker_fee_rate.max(sb.token_conditional_swap_taker_fee_rate),
        maker_fee_rate: bb.token_conditional_swap_maker_fee_rate.max(sb.token_conditional_swap_maker_fee_rate),
        buy_token_index: bi,
        sell_token_index: si,
        is_configured: 1,
        allow_creating_deposits: n.dep as u8,
        allow_creating_borrows: n.bor as u8,
        tcs_type: n.ty,
        start_timestamp: if n.ty == 2 { (s.ts + n.start).max(0) as u64 } else { 0 },
        duration_seconds: if n.ty == 0 { 0 } else { n.dur },
        ..Default::default()
    };
    tcs_is(cx, a, slot, &e)
}

/// the swap in slot idx is gone, its holds are released, dust of the two positions is collected
fn removed(cx: &Cx, a: usize, idx: usize, t: &TokenConditionalSwap, bal: &[(TokenIndex, f64)]) -> Result<(), String> {
    let (fx, w) = (cx.fx, &cx.fx.w);
    let (pre, post) = (fx.acc(cx.pre, a), fx.acc(cx.post, a));
    ensure(post.tcs[idx].is_configured == 0, || "conditional swap is not removed".into())?;
    same_tcs(cx, a, idx)?;
    for i in [t.buy_token_index, t.sell_token_index] {
        let left = uses(&pre, i) - 1;
        ensure(uses(&post, i) == left.max(0), || format!("hold on the token position not released | token {i}: {} -> {}", uses(&pre, i), uses(&post, i)))?;
        let n = bal.iter().find(|b| b.0 == i).unwrap().1;
        let got = native(w, cx.post, &post, w.tok_by_index(i));
        if left <= 0 && n > -1e-6 && n < 1.0 + 1e-6 {
            if n > 1e-6 && n < 1.0 - 1e-6 {
                ensure(post.tok(i).is_none(), || format!("dust position not closed | token {i} had {n}"))?;
            }
            if post.tok(i).is_none() {
                continue;
            }
        }
        want(&format!("balance of token {i}"), got, n, 1e-4)?;
    }
    Ok(())
}
fn cancel(cx: &Cx, a: usize, idx: usize) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let acc = fx.acc(s, a);
    let t = acc.tcs[idx];
    let mut p = Pred::new();
    p.must(acc.operational(s), "account is frozen");
    p.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    let bal: Vec<_> = [t.buy_token_index, t.sell_token_index].iter().map(|i| (*i, native(w, s, &acc, w.tok_by_index(*i)))).collect();
    removed(cx, a, idx, &t, &bal)?;
    let banks: Vec<_> = bal.iter().map(|b| w.toks[w.tok_by_index(b.0)].bank).chain([fx.accts[a]]).collect();
    frame(cx, &banks)?;
    other_tokens_same(cx, a, &[t.buy_token_index, t.sell_token_index])?;
    rest_same(cx, a, May { tcs: true, ..Default::default() })
}

/// premium price in sell tokens per buy token
fn premium_price(t: &TokenConditionalSwap, oracle: f64, now: u64) -> f64 {
    match t.tcs_type {
        0 => oracle * (1.0 + t.price_premium_rate),
        1 => {
            let k = ((now - t.start_timestamp) as f64 / t.duration_seconds as f64).min(1.0);
            oracle * (1.0 + k * t.price_premium_rate)
        }
        _ => {
            let k = ((now - t.start_timestamp) as f64 / t.duration_seconds as f64).min(1.0);
            t.price_lower_limit + k * (t.price_upper_limit - t.price_lower_limit)
        }
    }
}
struct Amounts {
    buy: f64,
    sell: f64,
    fuzzy: bool,
}
/// largest (buy, sell) with buy <= max_buy, sell = floor(buy * price) <= max_sell and no buy token
/// beyond what the sell amount pays for
fn amounts(max_buy: f64, max_sell: f64, price: f64) -> Amounts {
    let ni = |x: f64| x.abs() > 1e-12 && (x - x.round()).abs() < 1e-7 * x.abs().max(1.0);
    let mut fuzzy = false;
    let for_sell = if price > 1.0 {
        let x = (max_sell + 1.0) / price;
        if ni(x) {
            fuzzy |= x.round() <= max_buy;
            x.round() - 1.0
        } else {
            x.floor()
        }
    } else {
        let y = max_buy * price;
        if ni(y) && y.round() <= max_sell {
            fuzzy = true;
        }
        let z = y.floor().min(max_sell) / price;
        if ni(z) {
            fuzzy = true;
        }
        z.ceil()
    };
    let buy = max_buy.min(for_sell);
    let x = buy * price;
    if ni(x) && x.round() <= max_sell {
        fuzzy = true;
    }
    Amounts { buy, sell: max_sell.min(x.floor()), fuzzy }
}
/// ceil and floor, each with the other value it may take when the number sits on an integer
fn ceil2(x: f64) -> (f64, f64) {
    if x.abs() > 1e-9 && (x - x.round()).abs() < 1e-6 {
        return (x.round(), x.round() + 1.0);
    }
    let v = if x.abs() <= 1e-9 { 0.0 } else { x.ceil() };
    (v, v)
}
fn floor2(x: f64) -> (f64, f64) {
    let (a, b) = ceil2(-x);
    (-a, -b)
}
/// amounts under every combination of cap alternatives; ambiguous only if they differ
fn amounts2(mb: (f64, f64), ms: (f64, f64), price: f64) -> Amounts {
    let mut r = amounts(mb.0, ms.0, price);
    for (b, s) in [(mb.0, ms.1), (mb.1, ms.0), (mb.1, ms.1)] {
        let x = amounts(b, s, price);
        r.fuzzy |= x.fuzzy || x.buy != r.buy || x.sell != r.sell;
    }
    r
}

#[allow(clippy::too_many_arguments)]
fn trigger(cx: &Cx, liqee: usize, liqor: usize, idx: usize, max_buy: u64, max_sell: u64, min_buy: u64, min_price: f64) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let (ee, or) = (fx.acc(s, liqee), fx.acc(s, liqor));
    let t = ee.tcs[idx];
    let now = s.ts as u64;
    let mut p = Pred::new();
    p.must(liqee != liqor, "account triggers its own swap").must(!or.being_liquidated, "triggerer is being liquidated");
    p.must(ee.operational(cx.pre) && or.operational(cx.pre), "account is frozen");
    let (b, sl) = (w.tok_by_index(t.buy_token_index), w.tok_by_index(t.sell_token_index));
    if now >= t.expiry_timestamp {
        p.must(min_buy == 0, "swap is expired");
        p.judge(cx)?;
        if !cx.ok() {
            return Ok(());
        }
        let bal = [(t.buy_token_index, native(w, s, &ee, b)), (t.sell_token_index, native(w, s, &ee, sl))];
        removed(cx, liqee, idx, &t, &bal)?;
        frame(cx, &[fx.accts[liqee], w.toks[b].bank, w.toks[sl].bank])?;
        other_tokens_same(cx, liqee, &[t.buy_token_index, t.sell_token_index])?;
        return rest_same(cx, liqee, May { tcs: true, ..Default::default() });
    }
    liq_flag_gate(&mut p, w, s, &ee);
    let price0 = price(fx, s, b) / price(fx, s, sl);
    let started = t.start_timestamp > 0 && now >= t.start_timestamp;
    if t.tcs_type == 0 {
        p.must(price0 >= t.price_lower_limit && price0 <= t.price_upper_limit, "price is outside of the range");
        for l in [t.price_lower_limit, t.price_upper_limit] {
            if near(price0, l, 1e-9) {
                p.fuzz();
            }
        }
    } else {
        p.must(started, "auction has not started");
    }
    if p.refuse.is_some() {
        return p.judge(cx);
    }
    let pp = premium_price(&t, price0, now);
    let (mp, tp) = (pp * (1.0 + t.maker_fee_rate as f64), pp * (1.0 - t.taker_fee_rate as f64));
    p.ge(tp, min_price, 1e-9, "taker price is too low");
    p.must(has_slot(&or, t.buy_token_index) && has_slot(&or, t.sell_token_index), "triggerer has no free slot");
    let (bb, sb) = (w.bank(s, b), w.bank(s, sl));
    let (eb, es, ob, os) = (native(w, s, &ee, b), native(w, s, &ee, sl), native(w, s, &or, b), native(w, s, &or, sl));
    // every cap with its alternative when it sits on an integer boundary
    let cap_buy = |bal: f64, t: &TokenConditionalSwap| {
        let l = (t.max_buy - t.bought) as f64;
        if t.allow_creating_deposits == 1 && bb.reduce_only != 1 { (l, l) } else { let (x, y) = ceil2(-bal); (l.min(x.max(0.0)), l.min(y.max(0.0))) }
    };
    let cap_sell = |bal: f64, t: &TokenConditionalSwap| {
        let l = (t.max_sell - t.sold) as f64;
        if t.allow_creating_borrows == 1 && sb.reduce_only == 0 { (l, l) } else { let (x, y) = floor2(bal); (l.min(x.max(0.0)), l.min(y.max(0.0))) }
    };
    let min2 = |a: (f64, f64), b: (f64, f64)| (a.0.min(b.0), a.1.min(b.1));
    let pos2 = |a: (f64, f64)| (a.0.max(0.0), a.1.max(0.0));
    let mut mb = min2((max_buy as f64, max_buy as f64), cap_buy(eb, &t));
    if bb.reduce_only != 0 {
        mb = min2(mb, pos2(floor2(ob)));
    }
    let mut ms = min2((max_sell as f64, max_sell as f64), cap_sell(es, &t));
    if sb.reduce_only == 1 {
        ms = min2(ms, pos2(ceil2(-os)));
    }
    let am = amounts2(mb, ms, mp);
    let base = (am.buy * pp).floor();
    let tf = (base * t.taker_fee_rate as f64).floor();
    let nearint = |x: f64| x != 0.0 && (x - x.round()).abs() < 1e-7 * x.abs().max(1.0);
    if am.fuzzy || nearint(am.buy * pp) || nearint(base * t.taker_fee_rate as f64) {
        p.fuzz();
    }
    p.must(am.buy >= min_buy as f64, "minimum amount is not reached");
    let mut led = Led::new(fx, s);
    led.withdraw(liqor, b, am.buy, true, false);
    led.deposit(liqee, b, am.buy, false);
    led.withdraw(liqee, sl, am.sell, true, false);
    led.deposit(liqor, sl, base - tf, false);
    led.fee(sl, am.sell - base + tf);
    if bb.reduce_only == 1 && led.get(liqee, b) > 1e-6 && led.get(liqee, b) < 1.0 {
        // exactly filling a borrow may leave a fraction of a native token
        p.fuzz();
    }
    let hs = led.hyp();
    for (tok, _) in [(b, 0), (sl, 0)] {
        let (x, y) = (w.bank(s, tok), w.bank(&hs, tok));
        if f(y.indexed_borrows) > f(x.indexed_borrows) + 1e-9 {
            let nb = led.nb_of(tok);
            if nb >= 0 && x.net_borrow_limit_per_window_quote >= 0 {
                p.ge(x.net_borrow_limit_per_window_quote as f64, nb as f64 * price(fx, s, tok).max(x.stable_price_model.stable_price), 10.0, "net borrow limit exceeded");
            }
        }
        if f(y.indexed_deposits) > f(x.indexed_deposits) + 1e-9 {
            gate_deposit_limit(&mut p, &y);
        }
    }
    let h = |s: &State, a: usize| ref_health(w, s, &fx.acc(s, a), Ht::Init);
    let (h0, h1) = (h(s, liqee), h(&hs, liqee));
    health_rule(&mut p, h0, h1);
    p.ge(h(&hs, liqor), 0.0, 1e-3, "triggerer would not be healthy");
    p.judge(cx)?;
    if !cx.ok() || p.fuzzy {
        return Ok(());
    }
    // independent of how the amounts were chosen: the owner's terms are honoured
    let mut t1 = t;
    t1.bought += am.buy as u64;
    t1.sold += am.sell as u64;
    if !started {
        t1.start_timestamp = now;
    }
    let fut = amounts2(cap_buy(led.get(liqee, b), &t1), cap_sell(led.get(liqee, sl), &t1), mp);
    let (fb, fs) = (fut.buy, fut.sell);
    let tiny = if mp > 1.0 { fs < 2.0 * mp.floor() } else { fb < 2.0 * (1.0 / mp).floor() };
    let low = h1 < h0 && h1 < 1e6;
    if (h1 - 1e6).abs() < 1.0 || (h1 - h0).abs() < 1e-3 || fut.fuzzy {
        return Ok(());
    }
    let closed = fb == 0.0 || fs == 0.0 || tiny || low;
    let post = fx.acc(cx.post, liqee);
    frame(cx, &led.keys(&[]))?;
    if closed {
        let bal = [(t.buy_token_index, led.get(liqee, b)), (t.sell_token_index, led.get(liqee, sl))];
        removed(cx, liqee, idx, &t, &bal)?;
        for k in [(liqee, b), (liqee, sl)] {
            led.bal.remove(&k);
        }
        other_tokens_same(cx, liqee, &[t.buy_token_index, t.sell_token_index])?;
    } else {
        tcs_is(cx, liqee, idx, &t1)?;
        same_tcs(cx, liqee, idx)?;
        for i in [t.buy_token_index, t.sell_token_index] {
            ensure(uses(&post, i) == uses(&ee, i), || "hold on the token position changed".into())?;
        }
    }
    led.check(cx, 1e-4)?;
    rest_same(cx, liqee, May { tcs: true, liq: true, ..Default::default() })?;
    ensure(!post.being_liquidated, || "account stays flagged as being liquidated".into())?;
    rest_same(cx, liqor, May::default())
}

fn start(cx: &Cx, liqee: usize, liqor: usize, idx: usize) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let (ee, or) = (fx.acc(s, liqee), fx.acc(s, liqor));
    let t = ee.tcs[idx];
    let now = s.ts as u64;
    let mut p = Pred::new();
    p.must(liqee != liqor, "account starts its own swap").must(!ee.being_liquidated, "account is being liquidated");
    p.must(ee.operational(cx.pre) && or.operational(cx.pre), "account is frozen");
    p.must(t.tcs_type == 1, "only premium auctions can be started").must(t.start_timestamp == 0, "auction is already started").must(now < t.expiry_timestamp, "swap is expired");
    let (b, sl) = (w.tok_by_index(t.buy_token_index), w.tok_by_index(t.sell_token_index));
    let price0 = price(fx, s, b) / price(fx, s, sl);
    p.must(price0 >= t.price_lower_limit && price0 <= t.price_upper_limit, "price is outside of the range");
    p.must(has_slot(&or, t.sell_token_index), "starter has no free slot");
    if p.refuse.is_some() {
        return p.judge(cx);
    }
    let sb = w.bank(s, sl);
    let mut x = (1000.0 / price(fx, s, sl)).min((t.max_sell - t.sold) as f64);
    if sb.deposit_limit > 0 {
        x = x.min(sb.deposit_limit as f64 - bank_native_deposits(&sb) - sb.potential_serum_tokens as f64).max(0.0);
    }
    let mut led = Led::new(fx, s);
    led.withdraw(liqee, sl, x, true, false);
    led.deposit(liqor, sl, x, false);
    let n = led.get(liqee, sl);
    p.must(n >= 0.0 || t.allow_creating_borrows == 1, "incentive would create a borrow");
    if n.abs() < 1e-6 {
        p.fuzz();
    }
    if sb.reduce_only != 0 && x > 0.0 {
        p.must(n >= 0.0, "borrows are reduce-only");
    }
    if sb.reduce_only == 1 && x > 0.0 {
        p.must(led.get(liqor, sl) <= 0.0, "deposits are reduce-only");
    }
    let hs = led.hyp();
    let y = w.bank(&hs, sl);
    if f(y.indexed_borrows) > f(sb.indexed_borrows) + 1e-9 {
        let nb = led.nb_of(sl);
        if nb >= 0 && sb.net_borrow_limit_per_window_quote >= 0 {
            p.ge(sb.net_borrow_limit_per_window_quote as f64, nb as f64 * price(fx, s, sl).max(sb.stable_price_model.stable_price), 10.0, "net borrow limit exceeded");
        }
    }
    health_rule(&mut p, ref_health(w, s, &ee, Ht::Init), ref_health(w, &hs, &fx.acc(&hs, liqee), Ht::Init));
    p.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    frame(cx, &led.keys(&[]))?;
    led.check(cx, 1e-4)?;
    let mut t1 = t;
    t1.start_timestamp = now;
    t1.sold += (x + 1e-9).floor() as u64;
    tcs_is(cx, liqee, idx, &t1)?;
    same_tcs(cx, liqee, idx)?;
    for i in [t.buy_token_index, t.sell_token_index] {
        ensure(uses(&fx.acc(cx.post, liqee), i) == uses(&ee, i), || "hold on the token position changed".into())?;
    }
    rest_same(cx, liqee, May { tcs: true, ..Default::default() })?;
    rest_same(cx, liqor, May::default())
}

// ------------------------------------------------------------------ scenarios
pub fn op_tcs_create(sc: &mut Scen, a: usize, n: TcsNew) {
    sc.op(format!("a{a} creates swap {n:?}"), K::TcsCreate(a, n), move |fx, s| tx1(tcs_create_ix(fx, s, a, n)));
}
pub fn tcs_create_ix(fx: &Fix, s: &State, a: usize, n: TcsNew) -> solana_program::instruction::Instruction {
    let e = n.expiry.map(|e| (s.ts + e) as u64).unwrap_or(u64::MAX);
    let (k, o, w) = (fx.accts[a], fx.owners[a], &fx.w);
    match n.ty {
        0 => w.tcs_create(k, o, n.buy, n.sell, n.max_buy, n.max_sell, e, n.lo, n.hi, n.prem, n.dep, n.bor),
        1 => w.tcs_create_premium(k, o, n.buy, n.sell, n.max_buy, n.max_sell, e, n.lo, n.hi, n.prem, n.dep, n.bor, n.dur),
        _ => w.tcs_create_linear(k, o, n.buy, n.sell, n.max_buy, n.max_sell, e, n.lo, n.hi, n.dep, n.bor, (s.ts + n.start).max(0) as u64, n.dur),
    }
}
fn slot(fx: &Fix, s: &State, a: usize, idx: usize) -> Option<(usize, usize, u64)> {
    let t = *fx.acc(s, a).tcs.get(idx)?;
    (t.is_configured == 1).then(|| (fx.w.tok_by_index(t.buy_token_index), fx.w.tok_by_index(t.sell_token_index), t.id))
}
pub fn op_tcs_cancel(sc: &mut Scen, a: usize, idx: usize) {
    sc.op(format!("a{a} cancels swap {idx}"), K::TcsCancel { a, idx }, move |fx, s| match slot(fx, s, a, idx) {
        Some((b, x, id)) => tx1(fx.w.tcs_cancel(fx.accts[a], fx.owners[a], b, x, idx as u8, id)),
        None => Act::Skip,
    });
}
#[allow(clippy::too_many_arguments)]
pub fn op_tcs_trigger(sc: &mut Scen, liqee: usize, liqor: usize, idx: usize, max_buy: u64, max_sell: u64, min_buy: u64, min_price: f32) {
    let m = |x: u64| if x == u64::MAX { "max".into() } else { x.to_string() };
    sc.op(
        format!("a{liqor} triggers a{liqee} swap {idx} buy {} sell {} min {min_buy} price {min_price}", m(max_buy), m(max_sell)),
        K::TcsTrigger { liqee, liqor, idx, max_buy, max_sell, min_buy, min_price },
        move |fx, s| match slot(fx, s, liqee, idx) {
            Some((b, x, id)) => tx1(fx.w.tcs_trigger(s, fx.accts[liqee], fx.accts[liqor], fx.owners[liqor], b, x, idx as u8, id, max_buy, max_sell, min_buy, min_price)),
            None => Act::Skip,
        },
    );
}
pub fn op_tcs_start(sc: &mut Scen, liqee: usize, liqor: usize, idx: usize) {
    sc.op(format!("a{liqor} starts a{liqee} swap {idx}"), K::TcsStart { liqee, liqor, idx }, move |fx, s| match slot(fx, s, liqee, idx) {
        Some((b, x, id)) => tx1(fx.w.tcs_start(s, fx.accts[liqee], fx.accts[liqor], fx.owners[liqor], b, x, idx as u8, id)),
        None => Act::Skip,
    });
}

const N: TcsNew = TcsNew { ty: 0, buy: 1, sell: 0, max_buy: 3_000, max_sell: 5_000, expiry: None, lo: 1.5, hi: 2.5, prem: 0.0117, dep: true, bor: false, start: 0, dur: 0 };

fn tcs_world(name: &str) -> (Fix, State) {
    let mut s = State::new();
    let base = TokCfg { loan_orig_fee: 0.01, ..TokCfg::default() };
    let toks = [
        TokCfg { tcs_taker: 0.0013, tcs_maker: 0.0021, loan_orig_fee: 0.005, ..TokCfg::quote() },
        TokCfg { price: 2.03, tcs_taker: 0.0031, tcs_maker: 0.0007, ..base.clone() },
        TokCfg { price: 0.31, ..base },
    ];
    let mut fx = fix(name, &mut s, &toks, &[]);
    for n in ["len", "usr", "liq"] {
        fx.user(&mut s, n, 20_000_000);
    }
    for (a, t, n) in [(0, 0, 10_000_000), (0, 1, 10_000_000), (0, 2, 10_000_000), (2, 0, 10_000), (2, 1, 2_001), (2, 2, 15_000), (1, 0, 9_871)] {
        let i = fx.w.deposit(&s, fx.accts[a], fx.owners[a], t, n, false);
        must(&fx, &mut s, i);
    }
    // uneven indexes
    for (t, d, b) in [(0, 1.0137, 1.0291), (1, 1.0733, 1.1419), (2, 1.0011, 1.0207)] {
        s.edit_zc::<Bank>(&fx.w.toks[t].bank, |k| {
            k.deposit_index = fixed::types::I80F48::from_num(k.deposit_index.to_num::<f64>() * d);
            k.borrow_index = fixed::types::I80F48::from_num(k.borrow_index.to_num::<f64>() * b);
        });
        // keep the vault in step
        let b = fx.w.bank(&s, t);
        let owed = bank_native_deposits(&b);
        put_token(&mut s, fx.w.toks[t].vault, fx.w.toks[t].mint, fx.w.group, owed.floor() as u64);
        s.edit_zc::<Bank>(&fx.w.toks[t].bank, |k| k.dust = fixed::types::I80F48::from_num(owed.floor() - owed));
    }
    (fx, s)
}
/// a1 owns the swaps, a2 triggers them
pub fn tcs_scen(v: usize) -> (Scen, State) {
    let (fx, mut s) = tcs_world(["tcs", "tca", "tcr", "tcz"][v]);
    let mut sc = Scen::new(["swaps-fixed-premium", "swaps-auctions", "swaps-reduce-only-and-limits", "swaps-lifecycle"][v], fx);
    let set = |sc: &Scen, s: &mut State, n: TcsNew| {
        let i = tcs_create_ix(&sc.fx, s, 1, n);
        must(&sc.fx, s, i);
    };
    let m = u64::MAX;
    match v {
        0 => {
            // 0: buy token 1 with quote.  1: sell token 0 into token 2, borrowing allowed
            set(&sc, &mut s, TcsNew { expiry: Some(500), ..N });
            set(&sc, &mut s, TcsNew { buy: 2, sell: 0, max_buy: 40_000, max_sell: 30_000, lo: 0.0, hi: 0.4, prem: 0.003, bor: true, ..N });
            for i in 0..2 {
                op_tcs_trigger(&mut sc, 1, 2, i, m, m, 0, 0.0);
                op_tcs_trigger(&mut sc, 1, 2, i, 700, m, 0, 0.0);
                op_tcs_trigger(&mut sc, 1, 2, i, m, 1_111, 1, 0.0);
            }
            op_tcs_trigger(&mut sc, 1, 2, 0, m, m, 2_500, 0.0);
            op_tcs_trigger(&mut sc, 1, 2, 0, 100, 100, 0, 2.05);
            op_tcs_trigger(&mut sc, 1, 2, 0, 100, 100, 0, 2.04);
            op_tcs_trigger(&mut sc, 1, 2, 0, 1, 1, 0, 0.0);
            op_tcs_trigger(&mut sc, 1, 1, 0, 100, m, 0, 0.0);
            op_tcs_trigger(&mut sc, 1, 0, 1, 35_000, m, 0, 0.0);
            op_tcs_cancel(&mut sc, 1, 0);
            op_tcs_cancel(&mut sc, 1, 1);
            op_tcs_start(&mut sc, 1, 2, 0);
            sc.env("advance 500s", |_, s| s.advance(500));
            let o = sc.fx.w.toks[1].oracle;
            for p in [1.2, 2.49, 2.6] {
                sc.price(o, p);
            }
            let o2 = sc.fx.w.toks[2].oracle;
            sc.price(o2, 0.05);
            op_deposit(&mut sc, 1, 1, 1_000_003, false);
            op_withdraw(&mut sc, 1, 0, 9_000, false);
            sc.env("flag a1", |fx, s| {
                if ref_health(&fx.w, s, &fx.acc(s, 1), Ht::Maint) < 0.0 {
                    s.edit(&fx.accts[1], |d| d[OFF_BEING_LIQ] = 1)
                }
            });
            sc.env("flag a2", |fx, s| s.edit(&fx.accts[2], |d| d[OFF_BEING_LIQ] = 1));
            refusals(&mut sc);
        }
        1 => {
            set(&sc, &mut s, TcsNew { ty: 1, dur: 100, prem: 0.09, expiry: Some(400), ..N });
            set(&sc, &mut s, TcsNew { ty: 2, buy: 2, sell: 0, max_buy: 33_000, max_sell: 20_000, lo: 0.2, hi: 0.37, prem: 0.0, start: 50, dur: 200, bor: true, ..N });
            for i in 0..2 {
                op_tcs_start(&mut sc, 1, 2, i);
                op_tcs_trigger(&mut sc, 1, 2, i, 700, m, 0, 0.0);
                op_tcs_trigger(&mut sc, 1, 2, i, m, 1_111, 0, 0.0);
                op_tcs_trigger(&mut sc, 1, 2, i, m, m, 0, 0.0);
            }
            op_tcs_start(&mut sc, 1, 1, 0);
            op_tcs_trigger(&mut sc, 1, 2, 0, 50, m, 0, 2.1);
            op_tcs_trigger(&mut sc, 1, 2, 1, 50, m, 0, 0.3);
            for d in [33, 70, 240] {
                sc.env(format!("advance {d}s"), move |_, s| s.advance(d));
            }
            let o = sc.fx.w.toks[1].oracle;
            for p in [1.2, 2.6] {
                sc.price(o, p);
            }
            op_withdraw(&mut sc, 1, 0, 9_507, false);
            op_withdraw(&mut sc, 1, 0, 1_007, false);
            sc.env("token 0 deposit limit", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[0].bank, |b| b.deposit_limit = bank_native_deposits(b) as u64 + 500));
            sc.env("token 0 deposit limit in the past", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[0].bank, |b| b.deposit_limit = bank_native_deposits(b) as u64 - 500));
            sc.env("flag a1", |fx, s| s.edit(&fx.accts[1], |d| d[OFF_BEING_LIQ] = 1));
        }
        2 => {
            // swaps that only repay a borrow / only spend a deposit, on restricted banks
            for (t, n) in [(1usize, 3_003u64)] {
                let i = sc.fx.w.withdraw(&s, sc.fx.accts[1], sc.fx.owners[1], t, n, true);
                must(&sc.fx, &mut s, i);
            }
            set(&sc, &mut s, TcsNew { dep: false, max_buy: 10_000, max_sell: 9_500, ..N });
            set(&sc, &mut s, TcsNew { buy: 2, sell: 1, max_buy: 9_000, max_sell: 6_000, lo: 0.0, hi: 10.0, bor: true, prem: 0.003, ..N });
            for i in 0..2 {
                op_tcs_trigger(&mut sc, 1, 2, i, 700, m, 0, 0.0);
                op_tcs_trigger(&mut sc, 1, 2, i, m, 1_111, 0, 0.0);
                op_tcs_trigger(&mut sc, 1, 2, i, m, m, 0, 0.0);
            }
            for t in 0..3 {
                for r in [1u8, 2] {
                    if t < 2 || r == 1 {
                        sc.env(format!("token {t} reduce-only {r}"), move |fx, s| s.edit_zc::<Bank>(&fx.w.toks[t].bank, |b| b.reduce_only = r));
                    }
                }
            }
            sc.env("token 1 net borrow limit", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.net_borrow_limit_per_window_quote = (b.net_borrows_in_window as f64 * 2.03) as i64 + 1_000));
            sc.env("token 2 deposit limit", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[2].bank, |b| b.deposit_limit = bank_native_deposits(b) as u64 + 1_000));
            sc.env("token 2 deposit limit reached", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[2].bank, |b| b.deposit_limit = bank_native_deposits(b) as u64 - 1_000));
            op_withdraw(&mut sc, 2, 1, u64::MAX, false);
            op_withdraw(&mut sc, 2, 1, 2_500, true);
            op_withdraw(&mut sc, 2, 2, 1_500, true);
            op_deposit(&mut sc, 1, 1, 1_000, false);
        }
        _ => {
            op_tcs_create(&mut sc, 1, N);
            op_tcs_create(&mut sc, 1, TcsNew { buy: 2, sell: 0, lo: 0.0, hi: 1.0, expiry: Some(100), ..N });
            op_tcs_create(&mut sc, 1, TcsNew { buy: 2, sell: 1, lo: 0.0, ty: 1, dur: 1, bor: true, dep: false, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { max_buy: 5_000, max_sell: 10_001, ty: 2, dur: 50, start: -10, lo: 1.9, hi: 2.0, prem: 0.0, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { expiry: Some(0), ..N });
            op_tcs_create(&mut sc, 1, TcsNew { expiry: Some(-10), buy: 0, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { buy: 0, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { prem: -0.001, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { lo: -1.0, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { hi: -1.0, lo: 0.0, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { ty: 1, dur: 0, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { ty: 2, dur: 0, max_buy: 10_000, max_sell: 20_000, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { ty: 2, dur: 10, max_buy: 4_000, max_sell: 20_000, start: 10, ..N });
            op_tcs_create(&mut sc, 1, TcsNew { ty: 2, dur: 10, max_buy: 10_000, max_sell: 9_000, start: 10, ..N });
            for i in 0..2 {
                op_tcs_cancel(&mut sc, 1, i);
                op_tcs_trigger(&mut sc, 1, 2, i, 1, m, 0, 0.0);
                op_tcs_trigger(&mut sc, 1, 2, i, m, m, 0, 0.0);
            }
            op_withdraw(&mut sc, 1, 0, 10_006, false);
            op_withdraw(&mut sc, 1, 1, u64::MAX, false);
            sc.env("advance 200s", |_, s| s.advance(200));
            sc.env("token 2 fees", |fx, s| {
                s.edit_zc::<Bank>(&fx.w.toks[2].bank, |b| {
                    b.token_conditional_swap_taker_fee_rate = 0.01;
                    b.token_conditional_swap_maker_fee_rate = 0.02;
                })
            });
        }
    }
    (sc, s)
}
fn refusals(sc: &mut Scen) {
    let has = |fx: &Fix, s: &State| slot(fx, s, 1, 0);
    sc.refuse("cancel with another id", move |fx, s| match has(fx, s) {
        Some((b, x, id)) => tx1(fx.w.tcs_cancel(fx.accts[1], fx.owners[1], b, x, 0, id + 1)),
        None => Act::Skip,
    });
    sc.refuse("cancel by a stranger", move |fx, s| match has(fx, s) {
        Some((b, x, id)) => tx1(fx.w.tcs_cancel(fx.accts[1], fx.owners[2], b, x, 0, id)),
        None => Act::Skip,
    });
    sc.refuse("cancel with another bank", move |fx, s| match has(fx, s) {
        Some((_, x, id)) => tx1(fx.w.tcs_cancel(fx.accts[1], fx.owners[1], 2, x, 0, id)),
        None => Act::Skip,
    });
    sc.refuse("create by a stranger", move |fx, _| tx1(fx.w.tcs_create(fx.accts[1], fx.owners[2], 1, 0, 10, 10, u64::MAX, 0.0, 10.0, 0.1, true, true)));
    sc.refuse("trigger with another id", move |fx, s| match has(fx, s) {
        Some((b, x, id)) => tx1(fx.w.tcs_trigger(s, fx.accts[1], fx.accts[2], fx.owners[2], b, x, 0, id + 1, 100, 1000, 0, 0.0)),
        None => Act::Skip,
    });
    sc.refuse("trigger for another account", move |fx, s| match has(fx, s) {
        Some((b, x, id)) => tx1(fx.w.tcs_trigger(s, fx.accts[1], fx.accts[0], fx.owners[2], b, x, 0, id, 100, 1000, 0, 0.0)),
        None => Act::Skip,
    });
    sc.refuse("trigger of an empty slot", move |fx, s| {
        let a = fx.acc(s, 1);
        match a.tcs.iter().position(|t| t.is_configured == 0) {
            Some(i) => tx1(fx.w.tcs_trigger(s, fx.accts[1], fx.accts[2], fx.owners[2], 1, 0, i as u8, 0, 100, 1000, 0, 0.0)),
            None => Act::Skip,
        }
    });
    sc.refuse("trigger without the liqee's other banks", move |fx, s| match has(fx, s) {
        Some((b, x, id)) => {
            let mut i = fx.w.tcs_trigger(s, fx.accts[1], fx.accts[2], fx.owners[2], b, x, 0, id, 100, 1000, 0, 0.0);
            let k = fx.w.toks[x].oracle;
            i.accounts.retain(|m| m.pubkey != k);
            tx1(i)
        }
        None => Act::Skip,
    });
}
