//! Health regions: orders placed and cancelled inside are judged once, at the end.
use crate::p_perp::*;
use crate::p_perp2::{deposits, freeze_env, trade};
use crate::perp_ref::*;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::{AccountMeta, Pubkey};
use mango_v4::accounts_ix::*;
use mango_v4::state::*;
use solana_program::instruction::Instruction;
use solana_program::sysvar;

pub const OFF_REGION: usize = OFF_BEING_LIQ + 1;
pub const OFF_REGION_HEALTH: usize = 8 + 32 * 4 + 4 + 4 + 16;

fn all_health(w: &World, accounts: &[Pubkey], s: &State) -> Vec<AccountMeta> {
    let mut v: Vec<_> = w.toks.iter().map(|t| ro(t.bank)).collect();
    v.extend(w.toks.iter().map(|t| ro(t.oracle)));
    v.extend(w.perps.iter().map(|p| ro(p.market)));
    v.extend(w.perps.iter().map(|p| ro(p.oracle)));
    for a in accounts {
        v.extend(acc(s, a).active_serum().map(|o| ro(o.open_orders)));
    }
    v
}
pub fn begin(w: &World, s: &State, account: Pubkey) -> Instruction {
    ix(
        mango_v4::accounts::HealthRegionBegin { instructions: sysvar::instructions::ID, group: w.group, account },
        mango_v4::instruction::HealthRegionBegin {},
    )
    .with(all_health(w, &[account], s))
}
pub fn end(w: &World, s: &State, account: Pubkey) -> Instruction {
    ix(mango_v4::accounts::HealthRegionEnd { account }, mango_v4::instruction::HealthRegionEnd {}).with(all_health(w, &[account], s))
}

/// The region behaves like its inner instructions without individual health checks, plus one check over the whole
pub fn region_spec(cx: &Cx) -> Result<(), String> {
    let a = match cx.op.k {
        K::Region { a } => a,
        _ => return Ok(()),
    };
    let fx = cx.fx;
    let w = &fx.w;
    let key = fx.accts[a];
    let inner = &cx.ixs[1..cx.ixs.len() - 1];
    let acc0 = fx.acc(cx.pre, a);
    let g: Group = cx.pre.zc(&w.group);
    let mut pr = Pred::new();
    pr.must(acc0.operational(cx.pre), "account is frozen");
    pr.must(g.is_ix_enabled(IxGate::HealthRegion), "health regions are disabled");
    let h0 = ref_health(w, cx.pre, &acc0, Ht::Init);
    if acc0.being_liquidated {
        // recovered at -1 liquidation end health
        pr.ge(ref_health(w, cx.pre, &acc0, Ht::LiqEnd).max(h0), -1.0, 1e-3, "account is being liquidated");
    }
    // the same instructions one by one, with the account's own health checks switched off
    let mut hyp = cx.pre.clone();
    hyp.edit(&key, |d| {
        d[OFF_REGION] = 1;
        d[OFF_BEING_LIQ] = 0;
    });
    let r = hyp.tx(inner);
    pr.must(r.is_ok(), "an instruction inside fails");
    if r.is_ok() {
        hyp.edit(&key, |d| d[OFF_REGION] = 0);
        let h1 = ref_health(w, &hyp, &fx.acc(&hyp, a), Ht::Init);
        let tol = 1e-6 + 1e-9 * h0.abs().max(h1.abs());
        let near = |x: f64| (x - x.round()).abs() < tol;
        let thr = h0.ceil();
        if h1.abs() < tol || (h1 < 0.0 && (near(h0) || (h1 + 1000.0).abs() < tol || (h1 - thr).abs() < tol || (h1 < -1000.0 && (h1 - (thr - 1.0)).abs() < tol))) {
            pr.fuzz();
        } else if h1 < 0.0 {
            let kept = if h1 < -1000.0 { h1 > thr - 1.0 } else { h1 >= thr };
            pr.must(kept, "health ends negative and lower than before");
        }
    }
    pr.judge(cx)?;
    if cx.ok() {
        let d = changed(&hyp, cx.post);
        ensure(d.is_empty(), || format!("the region changed more than the instructions inside it | {d:?}"))?;
    }
    Ok(())
}

type Inner = (&'static str, fn(&Fix, &State) -> Option<Instruction>);
const A: usize = 1;
fn ac(fx: &Fix) -> (Pubkey, Pubkey) {
    (fx.accts[A], fx.owners[A])
}
fn sp(fx: &Fix, s: &State, side: Serum3Side, px: u64, base: u64, quote: u64) -> Instruction {
    let (a, o) = ac(fx);
    fx.w.serum_place(s, a, o, 0, side, px, base, quote, 7, Serum3OrderType::Limit, Serum3SelfTradeBehavior::DecrementTake, 10)
}
const CORE: [Inner; 6] = [
    ("perp bid 9", |fx, s| Some(place_ix(fx, s, &ord(A, 0, 0, 9, 90)))),
    ("perp sell", |fx, s| Some(place_ix(fx, s, &ord(A, 1, 1, 8, 40)))),
    ("perp cancel all", |fx, s| perp_ix(fx, s, &PK::CancelAll { a: A, p: 0, side: None, limit: 9 })),
    ("spot bid", |fx, s| Some(sp(fx, s, Serum3Side::Bid, 18, 24, 4_400))),
    ("spot cancel all", |fx, _| Some(fx.w.serum_cancel_all(ac(fx).0, ac(fx).1, 0, 9))),
    ("spot settle", |fx, _| Some(fx.w.serum_settle(ac(fx).0, ac(fx).1, 0, true))),
];
/// further instructions allowed inside, one of each kind
const MORE: [Inner; 11] = [
    ("perp ask v1", |fx, s| {
        let (a, o) = ac(fx);
        let mut i = fx.w.perp_place(s, a, o, 0, Side::Ask, 12, 5, 1 << 40, 3, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10);
        i.data = anchor_lang::InstructionData::data(&mango_v4::instruction::PerpPlaceOrder { side: Side::Ask, price_lots: 12, max_base_lots: 5, max_quote_lots: 1 << 40, client_order_id: 3, order_type: PlaceOrderType::Limit, reduce_only: false, expiry_timestamp: 0, limit: 10 });
        Some(i)
    }),
    ("perp pegged ask v1", |fx, s| {
        let (a, o) = ac(fx);
        let mut i = fx.w.perp_place_pegged(s, a, o, 0, Side::Ask, 2, -1, 5, 1 << 40, 4, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10);
        i.data = anchor_lang::InstructionData::data(&mango_v4::instruction::PerpPlaceOrderPegged { side: Side::Ask, price_offset_lots: 2, peg_limit: -1, max_base_lots: 5, max_quote_lots: 1 << 40, client_order_id: 4, order_type: PlaceOrderType::Limit, reduce_only: false, expiry_timestamp: 0, limit: 10, max_oracle_staleness_slots: -1 });
        Some(i)
    }),
    ("perp pegged ask", |fx, s| Some(place_ix(fx, s, &PerpOrd { peg: Some(-1), ..ord(A, 1, 0, 2, 5) }))),
    ("perp cancel first", |fx, s| perp_ix(fx, s, &PK::Cancel { a: A, p: 0, slot: 0 })),
    ("perp cancel by client id", |fx, s| perp_ix(fx, s, &PK::CancelCid { a: A, p: 0, cid: 3 })),
    ("perp cancel bids", |fx, s| perp_ix(fx, s, &PK::CancelAll { a: A, p: 0, side: Some(0), limit: 9 })),
    ("spot ask v1", |fx, s| {
        let mut i = sp(fx, s, Serum3Side::Ask, 25, 5, 1 << 40);
        i.data = anchor_lang::InstructionData::data(&mango_v4::instruction::Serum3PlaceOrder { side: Serum3Side::Ask, limit_price: 25, max_base_qty: 5, max_native_quote_qty_including_fees: 1 << 40, self_trade_behavior: Serum3SelfTradeBehavior::DecrementTake, order_type: Serum3OrderType::Limit, client_order_id: 8, limit: 10 });
        Some(i)
    }),
    ("spot ask", |fx, s| Some(sp(fx, s, Serum3Side::Ask, 26, 5, 1 << 40))),
    ("spot cancel first", |fx, s| {
        let o = oo(s, &fx.w.oo_key(&ac(fx).0, 0));
        let i = (0..128).find(|i| o.free_slot_bits >> i & 1 == 0)?;
        let side = if o.is_bid_bits >> i & 1 == 1 { Serum3Side::Bid } else { Serum3Side::Ask };
        Some(fx.w.serum_cancel(ac(fx).0, ac(fx).1, 0, side, o.orders[i]))
    }),
    ("spot settle v1", |fx, _| {
        let m = &fx.w.serums[0];
        let (b, q) = (&fx.w.toks[m.base], &fx.w.toks[m.quote]);
        Some(ix(
            mango_v4::accounts::Serum3SettleFunds {
                group: fx.w.group, account: ac(fx).0, owner: ac(fx).1, open_orders: fx.w.oo_key(&ac(fx).0, 0), serum_market: m.market, serum_program: dex_program(), serum_market_external: m.ext,
                market_base_vault: m.coin_vault, market_quote_vault: m.pc_vault, market_vault_signer: m.signer, quote_bank: q.bank, quote_vault: q.vault, base_bank: b.bank, base_vault: b.vault, token_program: spl_token::ID,
            },
            mango_v4::instruction::Serum3SettleFunds {},
        ))
    }),
    ("someone else's perp bid", |fx, s| Some(place_ix(fx, s, &ord(2, 0, 0, 9, 3)))),
];

fn op_region(sc: &mut Scen, items: Vec<Inner>) {
    let name = format!("region [{}]", items.iter().map(|i| i.0).collect::<Vec<_>>().join(", "));
    sc.op(name, K::Region { a: A }, move |fx, s| {
        let mut v = vec![begin(&fx.w, s, ac(fx).0)];
        for (_, f) in &items {
            match f(fx, s) {
                Some(i) => v.push(i),
                None => return Act::Skip,
            }
        }
        v.push(end(&fx.w, s, ac(fx).0));
        Act::Tx(v)
    });
}

fn region_fix(name: &str, s: &mut State) -> Fix {
    let c = TokCfg { min_vault_ratio: 0.0, loan_orig_fee: 0.0, net_borrow_limit: i64::MAX, ..TokCfg::default() };
    let toks = [TokCfg { min_vault_ratio: 0.0, net_borrow_limit: i64::MAX, ..TokCfg::quote() }, TokCfg { price: 2.0, ..c.clone() }, TokCfg { price: 0.7, ..c }];
    let mut fx = fix(name, s, &toks, &[PerpCfg::default()]);
    for i in 0..5 {
        fx.user(s, &format!("u{i}"), 100_000_000_000);
    }
    deposits(&fx, s, &[(4, 0, 10_000_000_000), (4, 1, 10_000_000_000), (4, 2, 10_000_000_000), (2, 0, 1_000_000)]);
    fx.w.add_serum(s, 1, 0, 100, 10, 0.0);
    deposits(&fx, s, &[(1, 0, 5_000), (1, 1, 3_000)]);
    let i = fx.w.serum_create_oo(fx.accts[1], fx.owners[1], 0);
    must(&fx, s, i);
    trade(&fx, s, 1, 4, 0, 10, 100);
    perp_do(&fx, s, PK::Place(ord(4, 0, 0, 8, 200)));
    perp_do(&fx, s, PK::Place(PerpOrd { cid: 3, ..ord(1, 0, 0, 9, 10) }));
    fx
}

/// v = 0: up to two inner instructions; v = 1: three
pub fn region_scen(v: usize) -> (Scen, State) {
    let mut s = State::new();
    let fx = region_fix(&format!("reg{v}"), &mut s);
    let mut sc = Scen::new(&format!("health-regions-{v}"), fx);
    if v == 0 {
        op_region(&mut sc, vec![]);
        for i in CORE.iter().chain(&MORE) {
            op_region(&mut sc, vec![*i]);
        }
    }
    for i in CORE {
        for j in CORE {
            if v == 0 {
                op_region(&mut sc, vec![i, j]);
            } else {
                for k in CORE {
                    op_region(&mut sc, vec![i, j, k]);
                }
            }
        }
    }
    let o = sc.fx.w.perps[0].oracle;
    for p in [1.24, 0.79, 0.67, 0.48] {
        sc.price(o, p);
    }
    let t1 = sc.fx.w.toks[1].oracle;
    sc.price(t1, 0.9);
    sc.env("being liquidated", |fx, s| s.edit(&fx.accts[A], |d| d[OFF_BEING_LIQ] = 1));
    sc.env("regions disabled", |fx, s| s.edit_zc::<Group>(&fx.w.group, |g| g.ix_gate ^= 1u128 << IxGate::HealthRegion as u8));
    freeze_env(&mut sc, A);
    (sc, s)
}

/// transactions that are no proper region, or contain something else: refused in every state
pub fn region_refuse_scen() -> (Scen, State) {
    let mut s = State::new();
    let fx = region_fix("regx", &mut s);
    // a copy of the group with everything enabled
    let other = pk("some other group");
    let g = s.get(&fx.w.group);
    let g = Acct::new(g.lamports, g.owner, g.data.clone());
    s.set(other, g);
    // a forged list of instructions that looks like a proper region
    let fake = [begin(&fx.w, &s, fx.accts[1]), place_ix(&fx, &s, &ord(1, 0, 0, 9, 1)), end(&fx.w, &s, fx.accts[1])];
    let borrowed: Vec<_> = fake
        .iter()
        .map(|i| sysvar::instructions::BorrowedInstruction {
            program_id: &i.program_id,
            accounts: i.accounts.iter().map(|m| sysvar::instructions::BorrowedAccountMeta { pubkey: &m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable }).collect(),
            data: &i.data,
        })
        .collect();
    let data = sysvar::instructions::construct_instructions_data(&borrowed);
    s.set(pk("made-up instructions"), Acct::new(1_000_000, proxy_program(), data));
    let mut sc = Scen::new("health-regions-refused", fx);
    sc.env("advance 700s", |_, s| s.advance(700));
    for p in [0.79, 1.24, 0.48] {
        let o = sc.fx.w.perps[0].oracle;
        sc.price(o, p);
    }
    sc.env("regions disabled", |fx, s| s.edit_zc::<Group>(&fx.w.group, |g| g.ix_gate |= 1u128 << IxGate::HealthRegion as u8));
    op_deposit(&mut sc, 1, 0, 500, false);
    let b = |fx: &Fix, s: &State, a: usize| begin(&fx.w, s, fx.accts[a]);
    let e = |fx: &Fix, s: &State, a: usize| end(&fx.w, s, fx.accts[a]);
    sc.refuse("region without an end", move |fx, s| Act::Tx(vec![b(fx, s, 1)]));
    sc.refuse("region without an end, around an order", move |fx, s| Act::Tx(vec![b(fx, s, 1), place_ix(fx, s, &ord(1, 0, 0, 9, 1))]));
    sc.refuse("end without a begin", move |fx, s| Act::Tx(vec![e(fx, s, 1)]));
    sc.refuse("end before the begin", move |fx, s| Act::Tx(vec![e(fx, s, 1), b(fx, s, 1)]));
    sc.refuse("ended twice", move |fx, s| Act::Tx(vec![b(fx, s, 1), e(fx, s, 1), e(fx, s, 1)]));
    sc.refuse("begun twice", move |fx, s| Act::Tx(vec![b(fx, s, 1), b(fx, s, 1), e(fx, s, 1)]));
    sc.refuse("begun twice, ended twice", move |fx, s| Act::Tx(vec![b(fx, s, 1), b(fx, s, 1), e(fx, s, 1), e(fx, s, 1)]));
    sc.refuse("regions of two accounts interleaved", move |fx, s| Act::Tx(vec![b(fx, s, 1), b(fx, s, 2), e(fx, s, 1), e(fx, s, 2)]));
    sc.refuse("region of one account inside another's", move |fx, s| Act::Tx(vec![b(fx, s, 1), b(fx, s, 2), e(fx, s, 2), e(fx, s, 1)]));
    sc.refuse("ended for another account", move |fx, s| Act::Tx(vec![b(fx, s, 1), e(fx, s, 2)]));
    sc.refuse("begun through another program", move |fx, s| Act::Tx(vec![via(proxy_program(), b(fx, s, 1)), e(fx, s, 1)]));
    sc.refuse("ended through another program", move |fx, s| Act::Tx(vec![b(fx, s, 1), via(proxy_program(), e(fx, s, 1))]));
    sc.refuse("order through another program inside", move |fx, s| Act::Tx(vec![b(fx, s, 1), via(proxy_program(), place_ix(fx, s, &ord(1, 0, 0, 9, 1))), e(fx, s, 1)]));
    sc.refuse("another program inside", move |fx, s| Act::Tx(vec![b(fx, s, 1), Instruction { program_id: compute_budget(), accounts: vec![], data: vec![2, 0, 0, 0, 0] }, e(fx, s, 1)]));
    sc.refuse("begun under another group", move |fx, s| {
        let mut x = b(fx, s, 1);
        x.accounts[1].pubkey = pk("some other group");
        Act::Tx(vec![x, e(fx, s, 1)])
    });
    sc.refuse("made-up transaction contents", move |fx, s| {
        let mut x = b(fx, s, 1);
        x.accounts[0].pubkey = pk("made-up instructions");
        Act::Tx(vec![x, place_ix(fx, s, &ord(1, 0, 0, 9, 1))])
    });
    sc.refuse("begin without the account's banks", move |fx, s| {
        let mut x = b(fx, s, 1);
        x.accounts.truncate(3);
        Act::Tx(vec![x, e(fx, s, 1)])
    });
    sc.refuse("end without the account's banks", move |fx, s| {
        let mut x = e(fx, s, 1);
        x.accounts.truncate(1);
        Act::Tx(vec![b(fx, s, 1), x])
    });
    sc.refuse("end without the perp market", move |fx, s| {
        let mut x = e(fx, s, 1);
        let p = &fx.w.perps[0];
        x.accounts.retain(|m| m.pubkey != p.market && m.pubkey != p.oracle);
        Act::Tx(vec![b(fx, s, 1), x])
    });
    sc.refuse("end without the open orders account", move |fx, s| {
        let mut x = e(fx, s, 1);
        x.accounts.pop();
        Act::Tx(vec![b(fx, s, 1), x])
    });
    // everything else the program offers
    type F = fn(&Fix, &State) -> Instruction;
    let others: [(&'static str, F); 22] = [
        ("deposit", |fx, s| fx.w.deposit(s, fx.accts[1], fx.owners[1], 0, 100, false)),
        ("deposit by anyone", |fx, s| fx.w.deposit_into(s, fx.accts[1], fx.owners[2], 0, 100, false)),
        ("withdrawal", |fx, s| fx.w.withdraw(s, fx.accts[1], fx.owners[1], 0, 100, true)),
        ("someone else's withdrawal", |fx, s| fx.w.withdraw(s, fx.accts[2], fx.owners[2], 0, 100, true)),
        ("perp event processing", |fx, _| fx.w.perp_consume(0, &[fx.accts[1], fx.accts[4]], 8)),
        ("funding update", |fx, _| fx.w.perp_update_funding(0)),
        ("index update", |fx, _| fx.w.update_index(0)),
        ("pnl settlement", |fx, s| fx.w.perp_settle_pnl(s, fx.accts[2], fx.owners[2], fx.accts[1], fx.accts[4], 0)),
        ("pnl settlement the other way", |fx, s| fx.w.perp_settle_pnl(s, fx.accts[2], fx.owners[2], fx.accts[4], fx.accts[1], 0)),
        ("perp liquidation", |fx, s| fx.w.perp_liq_base(s, fx.accts[2], fx.owners[2], fx.accts[1], 0, 10, 10)),
        ("perp liquidation by it", |fx, s| fx.w.perp_liq_base(s, fx.accts[1], fx.owners[1], fx.accts[2], 0, 10, 10)),
        ("token liquidation", |fx, s| fx.w.liq_token(s, fx.accts[2], fx.owners[2], fx.accts[1], 1, 0, 10.0)),
        ("forced perp cancel", |fx, s| fx.w.perp_liq_force_cancel(s, fx.accts[1], 0, 8)),
        ("forced spot cancel", |fx, s| fx.w.serum_force_cancel(s, fx.accts[1], 0, 8)),
        ("perp position closing", |fx, _| fx.w.perp_deactivate(fx.accts[1], fx.owners[1], 0)),
        ("spot open orders opening", |fx, _| fx.w.serum_create_oo(fx.accts[2], fx.owners[2], 0)),
        ("account edit", |fx, _| fx.w.account_edit(fx.accts[1], fx.owners[1], Some(fx.owners[2]), None, None)),
        ("account expansion", |fx, _| fx.w.account_expand(fx.accts[1], fx.owners[1], 9, 5, 5, 9, 9)),
        ("admin freeze", |fx, _| fx.w.freeze(fx.accts[2], true)),
        ("collateral fee", |fx, s| fx.w.charge_collateral_fees(s, fx.accts[1])),
        ("flash loan", |fx, _| fx.w.flash_begin(fx.accts[1], fx.owners[1], &[(0, 100, ata(&fx.owners[1], &fx.w.toks[0].mint))])),
        ("flash loan repayment", |fx, s| fx.w.flash_end(s, fx.accts[1], fx.owners[1], &[(0, 100, ata(&fx.owners[1], &fx.w.toks[0].mint))], FlashLoanType::Unknown)),
    ];
    for (name, f) in others {
        sc.refuse(Box::leak(format!("{name} inside a region").into_boxed_str()), move |fx, s| Act::Tx(vec![b(fx, s, 1), f(fx, s), e(fx, s, 1)]));
    }
    sc.refuse("whole flash loan inside a region", move |fx, s| {
        let l = [(0, 100, ata(&fx.owners[1], &fx.w.toks[0].mint))];
        Act::Tx(vec![b(fx, s, 1), fx.w.flash_begin(fx.accts[1], fx.owners[1], &l), fx.w.flash_end(s, fx.accts[1], fx.owners[1], &l, FlashLoanType::Unknown), e(fx, s, 1)])
    });
    sc.refuse("region around an order and a withdrawal", move |fx, s| Act::Tx(vec![b(fx, s, 1), place_ix(fx, s, &ord(1, 0, 0, 9, 1)), fx.w.withdraw(s, fx.accts[1], fx.owners[1], 0, 100, true), e(fx, s, 1)]));
    (sc, s)
}
