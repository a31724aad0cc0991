//! Histories that mix tokens, spot orders, perp orders, swaps and account maintenance on one account.
use crate::oracles::*;
use crate::p_perp::*;
use crate::p_perp2::{deposits, freeze_env, trade};
use crate::p_flash::*;
use crate::p_region::*;
use crate::p_serum::*;
use crate::p_tcs::*;
use crate::perp_ref::*;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use mango_v4::state::*;
use std::collections::{BTreeMap, BTreeSet};

/// Every slot that is in use is used for a reason, and everything that needs a slot has one.
pub fn slots_state(fx: &Fix, s: &State) -> Result<(), String> {
    use anchor_lang::Discriminator;
    let w = &fx.w;
    let mut oo_owner: BTreeMap<Pubkey, Pubkey> = BTreeMap::new();
    for (k, x) in &s.accts {
        if x.owner != mango_v4::ID || x.data.len() <= 408 || x.data[..8] != MangoAccount::DISCRIMINATOR {
            continue;
        }
        let a = parse(&x.data);
        let mut held: BTreeMap<u16, u16> = BTreeMap::new();
        let mut seen = BTreeSet::new();
        for m in a.active_serum() {
            ensure(seen.insert(m.market_index), || format!("two slots for one spot market | {k} {}", m.market_index))?;
            let n = w.serums.iter().position(|x| x.index == m.market_index).ok_or("slot of an unknown spot market")?;
            let (b, q) = (w.toks[w.serums[n].base].index, w.toks[w.serums[n].quote].index);
            ensure(m.base_token_index == b && m.quote_token_index == q, || format!("spot slot has the wrong tokens | {k}"))?;
            ensure(s.has(&m.open_orders), || format!("open orders of an account are gone | {k}"))?;
            ensure(m.open_orders == w.oo_key(k, n), || format!("open orders belong to another account or market | {k}"))?;
            ensure(oo_owner.insert(m.open_orders, *k).is_none(), || "open orders are used by two accounts".into())?;
            *held.entry(b).or_default() += 1;
            *held.entry(q).or_default() += 1;
        }
        let mut seen = BTreeSet::new();
        for p in a.active_perps() {
            ensure(seen.insert(p.market_index), || format!("two slots for one perp market | {k} {}", p.market_index))?;
            let n = w.perps.iter().position(|x| x.index == p.market_index).ok_or("slot of an unknown perp market")?;
            let m: PerpMarket = s.zc(&w.perps[n].market);
            *held.entry(m.settle_token_index).or_default() += 1;
        }
        let mut ids = BTreeSet::new();
        for t in a.tcs.iter().filter(|t| t.is_configured == 1) {
            ensure(t.id < a.fixed.next_token_conditional_swap_id && ids.insert(t.id), || format!("id of a conditional swap is used twice or too high | {k} {}", t.id))?;
            *held.entry(t.buy_token_index).or_default() += 1;
            *held.entry(t.sell_token_index).or_default() += 1;
        }
        let mut orders = BTreeSet::new();
        for (i, o) in a.oos.iter().enumerate() {
            if o.market != u16::MAX {
                ensure(a.perp(o.market).is_some(), || format!("perp order without a position slot | {k} {i}"))?;
                ensure(orders.insert((o.market, o.id)), || format!("two order slots for one order | {k}"))?;
            }
        }
        let mut seen = BTreeSet::new();
        for t in a.active_tokens() {
            ensure(seen.insert(t.token_index), || format!("two slots for one token | {k} {}", t.token_index))?;
            let n = held.remove(&t.token_index).unwrap_or(0);
            ensure(t.in_use_count == n, || format!("a token position is held by {n} orders, positions or swaps but counts {} | {k} token {}", t.in_use_count, t.token_index))?;
        }
        if let Some((t, n)) = held.iter().next() {
            return Err(format!("token has no position although {n} orders, positions or swaps need it | {k} token {t}"));
        }
        ensure(!a.in_health_region, || format!("account is still in a health region after its transaction | {k}"))?;
    }
    Ok(())
}
pub fn slots(cx: &Cx) -> Result<(), String> {
    if cx.ok() {
        slots_state(cx.fx, cx.post)?;
    }
    Ok(())
}
/// who has to stay healthy after an operation
pub fn actor(k: &K) -> Option<usize> {
    match k {
        K::Withdraw { a, .. } | K::User { a } | K::Flash { a, .. } | K::Region { a } => Some(*a),
        K::Perp(PK::Place(o)) => Some(o.a),
        K::Serum(SK::Place(o)) => Some(o.a),
        K::TcsTrigger { liqor, .. } | K::LiqToken { liqor, .. } | K::Bankrupt { liqor, .. } => Some(*liqor),
        K::Perp(PK::LiqBase { liqor, .. } | PK::LiqNeg { liqor, .. }) => Some(*liqor),
        _ => None,
    }
}
pub fn actor_health(cx: &Cx) -> Result<(), String> {
    match actor(&cx.op.k) {
        Some(a) if cx.ok() => health_gate_for(cx, a),
        _ => Ok(()),
    }
}
/// no operation moves another user's account, unless it liquidates it, trades with it or settles with it
pub fn others_alone(cx: &Cx) -> Result<(), String> {
    if !cx.ok() {
        return Ok(());
    }
    let only = match &cx.op.k {
        K::Deposit { a, .. } | K::Withdraw { a, .. } | K::Flash { a, .. } | K::User { a } | K::Region { a } => *a,
        K::TcsCreate(a, _) => *a,
        K::TcsCancel { a, .. } => *a,
        K::Perp(PK::Place(o)) => o.a,
        K::Perp(PK::Cancel { a, .. } | PK::CancelCid { a, .. } | PK::CancelAll { a, .. } | PK::Deactivate { a, .. }) => *a,
        K::Serum(SK::Place(o)) => o.a,
        K::Serum(SK::Cancel { a, .. } | SK::CancelCid { a, .. } | SK::CancelAll { a, .. } | SK::Settle { a, .. } | SK::Create { a, .. } | SK::Close { a, .. }) => *a,
        _ => return Ok(()),
    };
    for (i, k) in cx.fx.accts.iter().enumerate() {
        if i != only && cx.pre.has(k) {
            ensure(cx.post.has(k) && cx.pre.data(k) == cx.post.data(k), || format!("an action of account {only} changed account {i}"))?;
        }
    }
    Ok(())
}

fn wrld(name: &str) -> (Fix, State) {
    let mut s = State::new();
    let lof = TokCfg { loan_orig_fee: 0.01, ..TokCfg::default() };
    let toks = [TokCfg { loan_orig_fee: 0.005, ..TokCfg::quote() }, TokCfg { price: 2.0, ..lof.clone() }, TokCfg { price: 0.5, ..lof }];
    let perp = PerpCfg { maker_fee: 0.0, taker_fee: 0.001, ..PerpCfg::default() };
    let mut fx = fix(name, &mut s, &toks, &[perp.clone(), perp]);
    fx.w.add_serum(&mut s, 1, 0, 100, 10, 1000.0);
    fx.w.add_serum(&mut s, 2, 0, 100, 1, 1000.0);
    fx.w.user(&mut s, "flash sink", 10_000_000);
    (fx, s)
}
fn small_user(fx: &mut Fix, s: &mut State, name: &str, c: [u8; 5]) {
    let u = fx.w.user(s, &format!("{} {name}", fx.w.name), 100_000_000);
    let a = fx.w.create_account_sized(s, u, 0, c[0], c[1], c[2], c[3], c[4]);
    fx.owners.push(u);
    fx.accts.push(a);
}
const SWAP: TcsNew = TcsNew { ty: 0, buy: 1, sell: 0, max_buy: 300, max_sell: 500, expiry: None, lo: 1.5, hi: 2.5, prem: 0.0117, dep: true, bor: true, start: 0, dur: 0 };

/// 0: hardly any slots; 1: an account with a bit of everything close to its limits; 2: the same under liquidation
pub fn mix_scen(v: usize) -> (Scen, State) {
    let (mut fx, mut s) = wrld(["mxa", "mxb", "mxc", "mxd"][v]);
    small_user(&mut fx, &mut s, "usr", if v == 0 { [3, 1, 1, 2, 1] } else { [4, 2, 2, 4, 2] });
    for n in ["mak", "len"] {
        fx.user(&mut s, n, 100_000_000);
    }
    for t in 0..3 {
        deposits(&fx, &mut s, &[(2, t, 1_000_000), (1, t, 50_000)]);
    }
    let m = u64::MAX;
    let mut sc;
    match v {
        0 => {
            deposits(&fx, &mut s, &[(0, 0, 10_003)]);
            must(&fx, &mut s, fx.w.serum_create_oo(fx.accts[1], fx.owners[1], 0));
            let i = place_ix(&fx, &s, &ord(1, 0, 0, 10, 50));
            must(&fx, &mut s, i);
            sc = Scen::new("mixed-few-slots", fx);
            for t in 0..3 {
                op_deposit(&mut sc, 0, t, 1_000, false);
                op_withdraw(&mut sc, 0, t, m, false);
            }
            op_withdraw(&mut sc, 0, 1, 100, true);
            op_withdraw(&mut sc, 0, 2, 100, true);
            for n in 0..2 {
                op_serum(&mut sc, SK::Create { a: 0, n });
                op_serum(&mut sc, SK::Close { a: 0, n });
            }
            op_serum(&mut sc, SK::Place(spo(0, 0, 0, 19, 20, 3_800)));
            op_serum(&mut sc, SK::CancelAll { a: 0, n: 0, limit: 9 });
            op_serum(&mut sc, SK::Settle { a: 0, n: 0, dao: true });
            for p in 0..2 {
                op_perp(&mut sc, PK::Place(PerpOrd { p, ..ord(0, 0, 0, 9, 5) }));
                op_perp(&mut sc, PK::CancelAll { a: 0, p, side: None, limit: 9 });
                op_perp(&mut sc, PK::Deactivate { a: 0, p });
            }
            op_perp(&mut sc, PK::Place(ord(0, 1, 1, 10, 5)));
            let k = all_consume(&sc.fx, 0);
            op_perp(&mut sc, k);
            op_perp(&mut sc, PK::Settle { settler: 2, a: 1, b: 0, p: 0 });
            op_tcs_create(&mut sc, 0, SWAP);
            op_tcs_create(&mut sc, 0, TcsNew { buy: 2, sell: 1, lo: 0.0, hi: 10.0, ..SWAP });
            op_tcs_cancel(&mut sc, 0, 0);
            op_tcs_trigger(&mut sc, 0, 2, 0, m, m, 0, 0.0);
            op_tcs_trigger(&mut sc, 0, 2, 0, 100, m, 0, 0.0);
            op_flash(&mut sc, 0, &[(0, 1_001, -1_001), (1, 0, 490)], 1);
            op_flash(&mut sc, 0, &[(2, 500, 0), (1, 0, 0)], 0);
            for c in [[3u8, 1, 1, 2, 1], [4, 2, 2, 2, 2], [2, 0, 1, 1, 1], [1, 1, 0, 2, 0]] {
                sc.op(format!("resize to {c:?}"), K::User { a: 0 }, move |fx, _| tx1(fx.w.account_expand(fx.accts[0], fx.owners[0], c[0], c[1], c[2], c[3], c[4])));
            }
            sc.op("close account", K::Other("close"), |fx, _| tx1(fx.w.account_close(fx.accts[0], fx.owners[0], false)));
            freeze_env(&mut sc, 0);
        }
        _ => {
            deposits(&fx, &mut s, &[(0, 1, 5_003)]);
            for a in 0..2 {
                for n in 0..2 {
                    must(&fx, &mut s, fx.w.serum_create_oo(fx.accts[a], fx.owners[a], n));
                }
            }
            let i = fx.w.withdraw(&s, fx.accts[0], fx.owners[0], 0, 2_007, true);
            must(&fx, &mut s, i);
            trade(&fx, &mut s, 0, 1, 0, 10, 10);
            sc = Scen::new(["", "mixed-positions", "mixed-liquidation", "mixed-insolvency"][v], fx);
            let o1 = sc.fx.w.toks[1].oracle;
            let op = sc.fx.w.perps[0].oracle;
            if v == 1 {
                for t in [0, 1, 2] {
                    op_withdraw(&mut sc, 0, t, 600, true);
                }
                op_withdraw_limit(&mut sc, 0, 0, -1);
                op_withdraw_limit(&mut sc, 0, 2, 2);
                op_deposit(&mut sc, 0, 0, 1_500, false);
                op_serum(&mut sc, SK::Place(spo(0, 0, 0, 20, 10, 2_050)));
                op_serum(&mut sc, SK::Place(spo(0, 0, 1, 20, 20, 1_000_000)));
                op_serum(&mut sc, SK::Place(spo(0, 1, 0, 40, 10, 50_000)));
                op_serum(&mut sc, SK::Place(spo(0, 1, 1, 60, 10, 1_000_000)));
                op_serum(&mut sc, SK::Place(spo(1, 0, 1, 20, 10, 1_000_000)));
                op_serum(&mut sc, SK::CancelAll { a: 0, n: 0, limit: 9 });
                op_serum(&mut sc, SK::Settle { a: 0, n: 0, dao: true });
                op_serum_crank(&mut sc, 0, 10);
                op_perp(&mut sc, PK::Place(ord(0, 0, 0, 10, 20)));
                op_perp(&mut sc, PK::Place(ord(0, 1, 0, 10, 30)));
                op_perp(&mut sc, PK::Place(PerpOrd { p: 1, ..ord(0, 1, 0, 11, 40) }));
                op_perp(&mut sc, PK::Place(ord(1, 0, 0, 10, 30)));
                op_perp(&mut sc, PK::CancelAll { a: 0, p: 0, side: None, limit: 9 });
                let k = all_consume(&sc.fx, 0);
                op_perp(&mut sc, k);
                op_perp(&mut sc, PK::Settle { settler: 2, a: 0, b: 1, p: 0 });
                op_perp(&mut sc, PK::Settle { settler: 2, a: 1, b: 0, p: 0 });
                op_tcs_create(&mut sc, 0, SWAP);
                op_tcs_trigger(&mut sc, 0, 2, 0, 200, m, 0, 0.0);
                op_flash(&mut sc, 0, &[(1, 1_001, -1_001), (0, 0, 1_990)], 1);
                op_flash(&mut sc, 0, &[(1, 500, -500)], 0);
                sc.op("region: spot order, then perp order", K::Region { a: 0 }, |fx, s| {
                    let (k, o) = (fx.accts[0], fx.owners[0]);
                    let _ = o;
                    let orders = [serum_ix(fx, s, &SK::Place(spo(0, 1, 0, 40, 10, 50_000))), Some(place_ix(fx, s, &ord(0, 0, 0, 10, 20)))];
                    Act::Tx([begin(&fx.w, s, k)].into_iter().chain(orders.into_iter().flatten()).chain([end(&fx.w, s, k)]).collect())
                });
                for p in [1.3, 1.6, 2.6] {
                    sc.price(o1, p);
                }
                for p in [0.8, 1.3] {
                    sc.price(op, p);
                }
            } else {
                // orders and a swap are in place
                let fx = sc.fx.clone();
                for k in [SK::Place(spo(0, 0, 1, 25, 5, 1_000_000)), SK::Place(spo(0, 1, 0, 3, 10, 400))] {
                    let i = serum_ix(&fx, &s, &k).unwrap();
                    must(&fx, &mut s, i);
                }
                let i = place_ix(&fx, &s, &ord(0, 0, 0, 8, 5));
                must(&fx, &mut s, i);
                if v == 3 {
                    for n in 0..2 {
                        let i = serum_ix(&fx, &s, &SK::CancelAll { a: 0, n, limit: 9 }).unwrap();
                        must(&fx, &mut s, i);
                        let oos: Vec<_> = [0, 1].iter().map(|a| fx.w.oo_key(&fx.accts[*a], n)).collect();
                        must(&fx, &mut s, fx.w.serum_crank(n, &oos, 9));
                        let i = serum_ix(&fx, &s, &SK::Settle { a: 0, n, dao: true }).unwrap();
                        must(&fx, &mut s, i);
                    }
                    let i = perp_ix(&fx, &s, &PK::CancelAll { a: 0, p: 0, side: None, limit: 9 }).unwrap();
                    must(&fx, &mut s, i);
                }
                let i = tcs_create_ix(&fx, &s, 0, SWAP);
                must(&fx, &mut s, i);
                for p in [0.3, 0.45, 0.7, 2.5] {
                    sc.price(o1, p);
                }
                if v == 3 {
                    sc.fx.w.set_price(&mut s, o1, 0.45);
                }
                for p in [0.5, 1.3] {
                    sc.price(op, p);
                }
                op_serum(&mut sc, SK::Force { a: 0, n: 0, limit: 9 });
                op_serum(&mut sc, SK::Force { a: 0, n: 1, limit: 9 });
                op_perp(&mut sc, PK::ForceCancel { a: 0, p: 0, limit: 9 });
                sc.op("force-cancel everything and crank", K::Other("force"), |fx, s| {
                    let (Some(f0), Some(f1)) = (serum_ix(fx, s, &SK::Force { a: 0, n: 0, limit: 9 }), serum_ix(fx, s, &SK::Force { a: 0, n: 1, limit: 9 })) else { return Act::Skip };
                    let crank = |n| fx.w.serum_crank(n, &[fx.w.oo_key(&fx.accts[0], n), fx.w.oo_key(&fx.accts[1], n)], 9);
                    let Some(p) = perp_ix(fx, s, &PK::ForceCancel { a: 0, p: 0, limit: 9 }) else { return Act::Skip };
                    Act::Tx(vec![f0.clone(), f1.clone(), crank(0), crank(1), f0, f1, p])
                });
                op_liq(&mut sc, 2, 0, 1, 0, 500.0);
                op_liq(&mut sc, 2, 0, 1, 0, 1e9);
                op_bankrupt(&mut sc, 2, 0, 0, 1e9);
                op_perp(&mut sc, PK::LiqBase { liqor: 2, liqee: 0, p: 0, max_base: 3, max_pnl: 0 });
                op_perp(&mut sc, PK::LiqBase { liqor: 2, liqee: 0, p: 0, max_base: i64::MAX, max_pnl: m });
                op_perp(&mut sc, PK::LiqNeg { liqor: 2, liqee: 0, p: 0, max: m });
                op_perp(&mut sc, PK::Settle { settler: 2, a: 1, b: 0, p: 0 });
                op_tcs_trigger(&mut sc, 0, 2, 0, 100, m, 0, 0.0);
                op_tcs_cancel(&mut sc, 0, 0);
                op_deposit(&mut sc, 0, 0, 300, false);
                op_withdraw(&mut sc, 0, 1, 100, false);
                op_perp(&mut sc, PK::Place(PerpOrd { reduce: true, ..ord(0, 1, 1, 7, 3) }));
                op_perp(&mut sc, PK::Place(ord(1, 0, 0, 8, 20)));
                let k = all_consume(&sc.fx, 0);
                op_perp(&mut sc, k);
                op_serum(&mut sc, SK::Settle { a: 0, n: 0, dao: true });
                op_serum(&mut sc, SK::Close { a: 0, n: 0 });
                sc.op("close account", K::Other("close"), |fx, _| tx1(fx.w.account_close(fx.accts[0], fx.owners[0], false)));
            }
        }
    }
    for o in sc.ops.iter_mut() {
        let g = std::mem::replace(&mut o.f, Box::new(|_, _| Act::Skip));
        o.f = Box::new(move |fx, s| if s.has(&fx.accts[0]) { g(fx, s) } else { Act::Skip });
    }
    (sc, s)
}

/// The health accounts of an action without the bank and oracle of one token
fn leave_out(fx: &Fix, mut i: solana_program::instruction::Instruction, fixed: usize, tok: usize) -> solana_program::instruction::Instruction {
    let t = &fx.w.toks[tok];
    let rest = i.accounts.split_off(fixed);
    i.accounts.extend(rest.into_iter().filter(|m| m.pubkey != t.bank && m.pubkey != t.oracle));
    i
}
/// Every action that takes health accounts, with a bank left out or an oracle that cannot be trusted
pub fn omit_scen() -> (Scen, State) {
    let (mut fx, mut s) = wrld("mxo");
    small_user(&mut fx, &mut s, "usr", [4, 2, 2, 4, 2]);
    for n in ["mak", "len"] {
        fx.user(&mut s, n, 100_000_000);
    }
    for t in 0..3 {
        deposits(&fx, &mut s, &[(2, t, 1_000_000), (1, t, 50_000)]);
    }
    deposits(&fx, &mut s, &[(0, 1, 5_003), (0, 2, 2_000)]);
    for n in 0..2 {
        must(&fx, &mut s, fx.w.serum_create_oo(fx.accts[0], fx.owners[0], n));
    }
    let i = fx.w.withdraw(&s, fx.accts[0], fx.owners[0], 0, 4_007, true);
    must(&fx, &mut s, i);
    trade(&fx, &mut s, 0, 1, 0, 10, 5);
    let mut sc = Scen::new("missing-banks", fx);
    let (o1, o2) = (sc.fx.w.toks[1].oracle, sc.fx.w.toks[2].oracle);
    for omit in 0..3usize {
        for (t, n, borrow) in [(0usize, 600u64, true), (1, 600, false), (1, 6_000, true), (2, 700, false), (2, 2_500, true)] {
            sc.op(format!("withdraw t{t} {n} without bank t{omit}"), K::User { a: 0 }, move |fx, s| {
                tx1(leave_out(fx, fx.w.withdraw(s, fx.accts[0], fx.owners[0], t, n, borrow), 8, omit))
            });
        }
        for (p, side, n) in [(0usize, 0u8, 10i64), (0, 1, 10), (0, 1, 80), (1, 0, 60)] {
            sc.op(format!("perp order {p} {side} {n} without bank t{omit}"), K::User { a: 0 }, move |fx, s| tx1(leave_out(fx, place_ix(fx, s, &PerpOrd { p, ..ord(0, side, 0, 10, n) }), 8, omit)));
        }
        for (n, side, lots) in [(0usize, 0u8, 10u64), (0, 1, 10), (1, 0, 10), (1, 1, 10)] {
            sc.op(format!("spot order {n} {side} {lots} without bank t{omit}"), K::User { a: 0 }, move |fx, s| {
                let price = [20, 40][n];
                match serum_ix(fx, s, &SK::Place(spo(0, n, side, price, lots, 5_000))) {
                    Some(i) => tx1(leave_out(fx, i, 18, omit)),
                    None => Act::Skip,
                }
            });
        }
        for (l, r) in [((1usize, 900u64), 0usize), ((2, 1_500), 0), ((0, 900), 1)] {
            sc.op(format!("flash loan of {} t{} beside t{r} without bank t{omit}", l.1, l.0), K::User { a: 0 }, move |fx, s| {
                let (k, o) = (fx.accts[0], fx.owners[0]);
                let loans = [(l.0, l.1, ata(&o, &fx.w.toks[l.0].mint)), (r, 0, ata(&o, &fx.w.toks[r].mint))];
                let end = leave_out(fx, fx.w.flash_end(s, k, o, &loans, mango_v4::accounts_ix::FlashLoanType::Unknown), 3, omit);
                let keep = spl_transfer(loans[0].2, ata(&fx.owners[1], &fx.w.toks[l.0].mint), o, l.1);
                Act::Tx(vec![fx.w.flash_begin(k, o, &loans), keep, end])
            });
        }
    }
    for (o, ps) in [(o1, [1.0, 1.4]), (o2, [0.2, 1.5])] {
        for p in ps {
            sc.price(o, p);
        }
    }
    for t in 1..3usize {
        sc.env(format!("oracle of t{t} is not confident"), move |fx, s| {
            let o = fx.w.toks[t].oracle;
            let (slot, p) = (s.slot, oracle_price(s, &o));
            s.tx(&[fx.w.oracle_set_test_ix(o, p, slot, p)]).unwrap();
        });
    }
    (sc, s)
}
