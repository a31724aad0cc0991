//! Interest accrual, rate curve and stable price: specification of the index update.
use crate::oracles::*;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::state::*;

const YEAR: f64 = 31_536_000.0;

pub fn rate_curve(b: &Bank, util: f64) -> f64 {
    let u = util.clamp(0.0, 1.0);
    let (z, u0, r0, u1, r1, m) = (f(b.zero_util_rate), f(b.util0), f(b.rate0), f(b.util1), f(b.rate1), f(b.max_rate));
    let lin = |x0: f64, y0: f64, x1: f64, y1: f64| y0 + (y1 - y0) * (u - x0) / (x1 - x0);
    let v = if u <= u0 {
        lin(0.0, z, u0, r0)
    } else if u <= u1 {
        lin(u0, r0, u1, r1)
    } else {
        lin(u1, r1, 1.0, m)
    };
    if b.interest_curve_scaling == 0.0 {
        v
    } else {
        v * b.interest_curve_scaling
    }
}

pub fn index_spec(cx: &Cx) -> Result<(), String> {
    let tok = match cx.op.k {
        K::UpdateIndex { tok } => tok,
        _ => return Ok(()),
    };
    let w = &cx.fx.w;
    ensure(cx.ok(), || format!("index update refused | {:?}", cx.res.as_ref().err()))?;
    if cx.ixs.len() == 2 {
        // a second update in the same second changes neither indexes nor fees
        let mut once = cx.pre.clone();
        once.tx(&cx.ixs[..1]).map_err(|e| format!("{e:?}"))?;
        for (x, y) in banks(w, &once, &w.toks[tok]).iter().zip(&banks(w, cx.post, &w.toks[tok])) {
            ensure(x.deposit_index == y.deposit_index && x.borrow_index == y.borrow_index && x.collected_fees_native == y.collected_fees_native, || "repeating the index update in the same second charged interest again".into())?;
        }
        return Ok(());
    }
    let (pre, post) = (banks(w, cx.pre, &w.toks[tok]), banks(w, cx.post, &w.toks[tok]));
    let now = cx.pre.ts as u64;
    let dep: f64 = pre.iter().map(bank_native_deposits).sum();
    let bor: f64 = pre.iter().map(bank_native_borrows).sum();
    let util = if dep == 0.0 { 0.0 } else { (bor / dep).clamp(0.0, 1.0) };
    let b = &pre[0];
    let dt = (now - b.index_last_updated).min(3600) as f64;
    let rate = rate_curve(b, util);
    let fee_rate = f(b.loan_fee_rate);
    let bi = f(b.borrow_index) * (1.0 + (rate + fee_rate) * dt / YEAR);
    let di = f(b.deposit_index) * (1.0 + rate * util * dt / YEAR);
    let avg = {
        let t0 = (b.index_last_updated - b.bank_rate_last_updated) as f64;
        let t1 = (now - b.bank_rate_last_updated) as f64;
        if t1 <= 0.0 {
            util
        } else {
            (f(b.avg_utilization) * t0 + util * (now - b.index_last_updated) as f64) / t1
        }
    };
    let update_rate = now - b.bank_rate_last_updated > 3600;
    let fees: f64 = post.iter().map(|b| f(b.collected_fees_native)).sum::<f64>() - pre.iter().map(|b| f(b.collected_fees_native)).sum::<f64>();
    want("loan fees collected by the index update", fees, bor * fee_rate * dt / YEAR, 1e-6)?;
    for (n, (x, y)) in pre.iter().zip(&post).enumerate() {
        want(&format!("borrow index of bank {n}"), f(y.borrow_index), bi, 1e-12)?;
        want(&format!("deposit index of bank {n}"), f(y.deposit_index), di, 1e-12)?;
        ensure(y.deposit_index >= x.deposit_index && y.borrow_index >= x.borrow_index, || "an index decreased".into())?;
        ensure(y.index_last_updated == now, || "time of index update not recorded".into())?;
        want("average utilization", f(y.avg_utilization), avg, 1e-9)?;
        ensure(y.indexed_deposits == x.indexed_deposits && y.indexed_borrows == x.indexed_borrows, || "index update changed the totals".into())?;
        ensure(y.net_borrows_in_window == x.net_borrows_in_window && y.dust == x.dust, || "index update changed net borrows or dust".into())?;
        ensure((y.bank_rate_last_updated == now) == update_rate || x.bank_rate_last_updated == now, || "rate adjustment did not happen exactly when an hour had passed".into())?;
        if update_rate {
            // banks from before curve scaling existed first split their curve into shape and scaling
            let legacy = b.interest_curve_scaling == 0.0;
            let s0 = if legacy { f(b.max_rate) / 0.5 } else { b.interest_curve_scaling };
            let tgt = if legacy { f(b.util0) } else { b.interest_target_utilization as f64 };
            let a = avg.clamp(0.0, 1.0);
            let k = if a > tgt { (a - tgt) / (1.0 - tgt) } else { (a - tgt) / tgt };
            let sc = (s0 * (1.0 + f(b.adjustment_factor) * k)).max(1.0);
            want("interest curve scaling", y.interest_curve_scaling, sc, if legacy { 1e-6 } else { 1e-9 })?;
            if legacy {
                want("target utilization of the split curve", y.interest_target_utilization as f64, tgt, 1e-6)?;
                for (what, old, new) in [("rate0", b.rate0, y.rate0), ("rate1", b.rate1, y.rate1), ("max rate", b.max_rate, y.max_rate)] {
                    want(&format!("{what} of the split curve"), f(new), f(old) / s0, 1e-9)?;
                }
            } else {
                ensure(y.rate0 == x.rate0 && y.rate1 == x.rate1 && y.max_rate == x.max_rate && y.interest_target_utilization == x.interest_target_utilization, || "curve parameters changed by the adjustment".into())?;
            }
        } else {
            ensure(y.interest_curve_scaling == x.interest_curve_scaling, || "curve scaling changed between adjustments".into())?;
            ensure(y.rate0 == x.rate0 && y.rate1 == x.rate1 && y.max_rate == x.max_rate && y.interest_target_utilization == x.interest_target_utilization, || "curve parameters changed between adjustments".into())?;
        }
        ensure(y.util0 == x.util0 && y.util1 == x.util1 && y.zero_util_rate == x.zero_util_rate, || "curve parameters changed".into())?;
        // maintenance weight shift completion
        let done = f(x.maint_weight_shift_duration_inv) > 0.0 && now >= x.maint_weight_shift_end;
        let (ea, el) = if done { (x.maint_weight_shift_asset_target, x.maint_weight_shift_liab_target) } else { (x.maint_asset_weight, x.maint_liab_weight) };
        ensure(y.maint_asset_weight == ea && y.maint_liab_weight == el, || "maintenance weights after the update are wrong".into())?;
        ensure((f(y.maint_weight_shift_duration_inv) > 0.0) == (f(x.maint_weight_shift_duration_inv) > 0.0 && !done), || "weight shift not cleared exactly when done".into())?;
        ensure(y.stable_price_model.stable_price == post[0].stable_price_model.stable_price, || "banks of one token disagree on the stable price".into())?;
    }
    let mi: MintInfo = cx.pre.zc(&w.toks[tok].mint_info);
    frame(cx, &mi.banks.iter().cloned().filter(|k| *k != Default::default()).collect::<Vec<_>>())
}

/// Two banks for token 1. a0 lends through bank 0, a1 through bank 1, a2 borrows from bank 0.
pub fn interest_scen() -> (Scen, State) {
    let mut s = State::new();
    let cfg = TokCfg { price: 2.0, loan_fee_rate: 0.02, zero_util_rate: 0.03, min_vault_ratio: 0.0, adjustment: 0.1, interest_target: 0.6, ..TokCfg::default() };
    let mut fx = fix("int", &mut s, &[TokCfg::quote(), cfg.clone(), cfg], &[]);
    for n in ["len", "le2", "bor"] {
        fx.user(&mut s, n, 10_000_000_000);
    }
    let (i, bank1, vault1) = fx.w.add_bank_ix(1, 1);
    must(&fx, &mut s, i);
    for (a, t, n) in [(0, 1, 1_000_000_000), (2, 0, 9_000_000_000)] {
        let i = fx.w.deposit(&s, fx.accts[a], fx.owners[a], t, n, false);
        must(&fx, &mut s, i);
    }
    let mut w1 = fx.w.clone();
    w1.toks[1].bank = bank1;
    w1.toks[1].vault = vault1;
    let i = w1.deposit(&s, fx.accts[1], fx.owners[1], 1, 500_000_000, false);
    must(&fx, &mut s, i);
    let mut sc = Scen::new("interest-two-banks", fx);
    // banks differ in the fields that must stay per-bank
    for n in [100_000_001u64, 400_000_000] {
        op_withdraw(&mut sc, 2, 1, n, true);
    }
    let w1c = w1.clone();
    sc.op("borrow from second bank", K::Other(""), move |fx, s| tx1(w1c.withdraw(s, fx.accts[2], fx.owners[2], 1, 300_000_000, true)));
    op_deposit(&mut sc, 2, 1, 250_000_000, false);
    op_withdraw(&mut sc, 0, 1, 300_000_000, false);
    for secs in [0, 7, 3600, 3601, 90_000] {
        op_index(&mut sc, 1, secs);
    }
    op_index(&mut sc, 2, 3601);
    sc.op("update twice in one transaction", K::UpdateIndex { tok: 1 }, move |fx, _| {
        let i = fx.w.update_index_banks(1, &[fx.w.toks[1].bank, bank1]);
        Act::After(500, vec![i.clone(), i])
    });
    sc.env("start weight shift", |fx, s| {
        let ts = s.ts as u64;
        for b in banks_keys(&fx.w, s, 1) {
            s.edit_zc::<Bank>(&b, |b| {
                b.maint_weight_shift_start = ts;
                b.maint_weight_shift_end = ts + 4000;
                b.maint_weight_shift_duration_inv = fx_(1.0 / 4000.0);
                b.maint_weight_shift_asset_target = fx_(0.3);
                b.maint_weight_shift_liab_target = fx_(1.9);
            })
        }
    });
    let (b0, b2) = (sc.fx.w.toks[1].bank, sc.fx.w.toks[2].bank);
    sc.refuse("update with a missing bank", move |fx, _| Act::After(100, vec![fx.w.update_index_banks(1, &[b0])]));
    sc.refuse("update with banks out of order", move |fx, _| Act::After(100, vec![fx.w.update_index_banks(1, &[bank1, b0])]));
    sc.refuse("update with a repeated bank", move |fx, _| Act::After(100, vec![fx.w.update_index_banks(1, &[b0, b0])]));
    sc.refuse("update with a foreign bank", move |fx, _| Act::After(100, vec![fx.w.update_index_banks(1, &[b0, b2])]));
    sc.refuse("update with an extra bank", move |fx, _| Act::After(100, vec![fx.w.update_index_banks(1, &[b0, bank1, b2])]));
    sc.refuse("update without banks", move |fx, _| Act::After(100, vec![fx.w.update_index_banks(1, &[])]));
    sc.refuse("deposit before an index update in one transaction", move |fx, s| {
        Act::After(100, vec![fx.w.deposit(s, fx.accts[0], fx.owners[0], 1, 1_000, false), fx.w.update_index_banks(1, &[b0, bank1])])
    });
    sc.refuse("withdraw after an index update in one transaction", move |fx, s| {
        Act::After(100, vec![fx.w.update_index_banks(1, &[b0, bank1]), fx.w.withdraw(s, fx.accts[0], fx.owners[0], 1, 1_000, false)])
    });
    (sc, s)
}
fn fx_(v: f64) -> fixed::types::I80F48 {
    fixed::types::I80F48::from_num(v)
}
pub fn banks_keys(w: &World, s: &State, tok: usize) -> Vec<anchor_lang::prelude::Pubkey> {
    let mi: MintInfo = s.zc(&w.toks[tok].mint_info);
    mi.banks.iter().filter(|k| **k != Default::default()).cloned().collect()
}

/// The rate curve at every utilization on a grid, through the real update instruction.
pub fn curve_enum(rep: &crate::explore::Report, steps: u64) {
    let mut s0 = State::new();
    let mut fx = fix("crv", &mut s0, &[TokCfg::quote(), TokCfg { price: 2.0, zero_util_rate: 0.02, ..TokCfg::default() }], &[]);
    fx.user(&mut s0, "u", 1_000_000);
    let curves = [(0.0, 0.4, 0.07, 0.8, 0.9, 1.5, 1.0), (0.1, 0.5, 0.1, 0.9, 0.2, 3.0, 2.5), (0.05, 0.01, 0.06, 0.99, 0.5, 0.6, 0.0), (0.0, 0.7, 0.0, 0.71, 4.0, 4.0, 1.0)];
    use rayon::prelude::*;
    for (ci, c) in curves.iter().enumerate() {
        (0..=steps).into_par_iter().for_each(|n| {
            for dt in [1i64, 600, 3600, 100_000] {
                let mut s = s0.clone();
                let bor = n as f64 / steps as f64 * 1_000_000.0;
                let now = s.ts as u64;
                s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| {
                    b.zero_util_rate = fx_(c.0);
                    b.util0 = fx_(c.1);
                    b.rate0 = fx_(c.2);
                    b.util1 = fx_(c.3);
                    b.rate1 = fx_(c.4);
                    b.max_rate = fx_(c.5);
                    b.interest_curve_scaling = c.6;
                    b.indexed_deposits = fx_(1_000_000.0 / 1.25);
                    b.deposit_index = fx_(1.25);
                    b.borrow_index = fx_(1.75);
                    b.indexed_borrows = fx_(bor / 1.75);
                    b.index_last_updated = now - 1;
                    b.bank_rate_last_updated = now - 5;
                });
                let op = Op { name: format!("curve {ci} utilization {n}/{steps} dt {dt}"), k: K::UpdateIndex { tok: 1 }, f: Box::new(|_, _| Act::Skip) };
                let mut pre = s.clone();
                pre.advance(dt - 1);
                let mut post = pre.clone();
                let ixs = [fx.w.update_index(1)];
                let res = post.tx(&ixs);
                rep.case();
                let cx = Cx { fx: &fx, op: &op, pre: &pre, post: &post, res: &res, ixs: &ixs, events: &[] };
                if let Err(e) = index_spec(&cx) {
                    rep.violation(&op.name, &e);
                }
            }
        });
    }
}

/// Every transaction made of up to `len` instructions from an alphabet of index updates and others:
/// index updates may share a transaction only with each other and with compute budget requests, never
/// run through another program, and skip exactly the token with an unusable oracle (resilient form).
pub fn update_tx_enum(rep: &crate::explore::Report, len: usize) {
    let (sc, mut s0) = interest_scen();
    let fx = &sc.fx;
    let w = &fx.w;
    let b1 = banks_keys(w, &s0, 1);
    // some borrowing, and time so that an update does something
    let i = w.deposit(&s0, fx.accts[1], fx.owners[1], 2, 500_000_000, false);
    must(fx, &mut s0, i);
    for (a, t, n) in [(2usize, 1usize, 400_000_000u64), (0, 2, 100_000_000)] {
        let i = w.withdraw(&s0, fx.accts[a], fx.owners[a], t, n, true);
        must(fx, &mut s0, i);
    }
    let u1 = w.update_index_banks(1, &b1);
    let u2 = w.update_index(2);
    let resil = |i: &solana_program::instruction::Instruction| {
        let mut i = i.clone();
        i.data = anchor_lang::InstructionData::data(&mango_v4::instruction::TokenUpdateIndexAndRateResilient {});
        i
    };
    let budget = solana_program::instruction::Instruction { program_id: compute_budget(), accounts: vec![], data: vec![2, 0, 0, 0, 0] };
    let src = ata(&fx.owners[0], &w.toks[1].mint);
    let dst = ata(&fx.owners[2], &w.toks[1].mint);
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum E {
        Strict(usize),
        Resilient(usize),
        Neutral,
        Foreign,
        Wrapped,
    }
    let alpha: Vec<(&str, E, solana_program::instruction::Instruction)> = vec![
        ("update 1", E::Strict(1), u1.clone()),
        ("update 2", E::Strict(2), u2.clone()),
        ("resilient update 1", E::Resilient(1), resil(&u1)),
        ("resilient update 2", E::Resilient(2), resil(&u2)),
        ("compute budget", E::Neutral, budget),
        ("deposit", E::Foreign, w.deposit(&s0, fx.accts[0], fx.owners[0], 1, 1_000_000, false)),
        ("withdraw", E::Foreign, w.withdraw(&s0, fx.accts[0], fx.owners[0], 1, 1_000_000, false)),
        ("token transfer", E::Foreign, spl_transfer(src, dst, fx.owners[0], 5)),
        ("update 2 through a program", E::Wrapped, via(proxy_program(), u2.clone())),
        ("resilient update 2 through a program", E::Wrapped, via(proxy_program(), resil(&u2))),
    ];
    let n = alpha.len();
    for bad in [None, Some(1usize), Some(2)] {
        for dt in [0i64, 50, 5000] {
            let mut s = s0.clone();
            s.advance(dt);
            if let Some(t) = bad {
                let slot = s.slot;
                let i = w.oracle_set_test_ix(w.toks[t].oracle, 2.0, slot, 2.0);
                must(fx, &mut s, i);
            }
            let usable = |t: usize| bad != Some(t);
            // a token's update alone
            let alone = |t: usize| -> Option<Vec<Bank>> {
                let mut x = s.clone();
                x.tx(&[if t == 1 { u1.clone() } else { u2.clone() }]).ok().map(|_| banks(w, &x, &w.toks[t]))
            };
            let single = [alone(1), alone(2)];
            for t in [1usize, 2] {
                if single[t - 1].is_some() != usable(t) {
                    rep.violation("single update", &format!("index update of token {t} {} although its oracle is {}", if usable(t) { "refused" } else { "accepted" }, if usable(t) { "usable" } else { "not" }));
                }
            }
            use rayon::prelude::*;
            for l in 1..=len {
                (0..n.pow(l as u32)).into_par_iter().for_each(|code| {
                    let mut c = code;
                    let seq: Vec<usize> = (0..l)
                        .map(|_| {
                            let x = c % n;
                            c /= n;
                            x
                        })
                        .collect();
                    let is_update = |e: E| !matches!(e, E::Neutral | E::Foreign);
                    if !seq.iter().any(|i| is_update(alpha[*i].1)) {
                        return;
                    }
                    rep.case();
                    let key = format!("dt {dt} bad {bad:?} {}", seq.iter().map(|i| alpha[*i].0).collect::<Vec<_>>().join(", "));
                    let allowed = seq.iter().all(|i| match alpha[*i].1 {
                        E::Strict(t) => usable(t),
                        E::Resilient(_) | E::Neutral => true,
                        E::Foreign | E::Wrapped => false,
                    });
                    let ixs: Vec<_> = seq.iter().map(|i| alpha[*i].2.clone()).collect();
                    let mut x = s.clone();
                    let res = x.tx(&ixs);
                    if res.is_ok() != allowed {
                        let only_bad_oracle = seq.iter().all(|i| !matches!(alpha[*i].1, E::Foreign | E::Wrapped));
                        rep.violation(&key, if allowed { "index updates refused" } else if only_bad_oracle { "index update with an unusable oracle accepted" } else { "index update accepted next to another instruction or through another program" });
                        return;
                    }
                    if !allowed {
                        return;
                    }
                    for t in [1usize, 2] {
                        let count = seq.iter().filter(|i| matches!(alpha[**i].1, E::Strict(u) | E::Resilient(u) if u == t)).count();
                        let touched = count > 0;
                        let (before, after) = (banks(w, &s, &w.toks[t]), banks(w, &x, &w.toks[t]));
                        let want = if touched && usable(t) { single[t - 1].clone().unwrap() } else { before };
                        for (a, b) in want.iter().zip(&after) {
                            let mut b = *b;
                            if count > 1 {
                                // the running average restarts when an update repeats in the second of an hourly adjustment
                                b.avg_utilization = a.avg_utilization;
                            }
                            if bytemuck::bytes_of(a) != bytemuck::bytes_of(&b) {
                                rep.violation(&key, &format!("token {t}: the banks differ from {}", if touched && usable(t) { "those after a single update at this time" } else { "those before, although it was not updated" }));
                                return;
                            }
                        }
                    }
                });
            }
        }
    }
}
