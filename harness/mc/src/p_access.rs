//! Who may call what on which accounts: a catalogue of one valid transaction per instruction, from
//! which signers, accounts, freeze times and gates are varied exhaustively.
use crate::explore::Report;
use crate::p_perp2::{deposits, trade};
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::{AccountMeta, Pubkey};
use anchor_lang::InstructionData;
use fixed::types::I80F48;
use mango_v4::accounts_ix::*;
use mango_v4::state::*;
use rayon::prelude::*;
use solana_program::instruction::Instruction;
use solana_program::{system_program, sysvar};
use std::collections::{BTreeMap, BTreeSet};
use IxGate as G;

/// what a catalogue transaction is about
#[derive(Clone, Copy)]
pub struct P<'a> {
    pub fx: &'a Fix,
    pub t: usize,
    pub m: usize,
    /// swap roles of the symmetrical users
    pub sw: bool,
}
impl<'a> P<'a> {
    fn w(&self) -> &'a World {
        &self.fx.w
    }
    fn ka(&self) -> usize {
        self.sw as usize
    }
    fn kb(&self) -> usize {
        1 - self.sw as usize
    }
    fn a(&self) -> Pubkey {
        self.fx.accts[self.ka()]
    }
    fn ao(&self) -> Pubkey {
        self.fx.owners[self.ka()]
    }
    fn b(&self) -> Pubkey {
        self.fx.accts[self.kb()]
    }
    fn kc(&self) -> usize {
        2 + self.sw as usize
    }
    fn c(&self) -> Pubkey {
        self.fx.accts[self.kc()]
    }
    fn co(&self) -> Pubkey {
        self.fx.owners[self.kc()]
    }
    fn kl(&self) -> usize {
        4 + self.sw as usize
    }
    fn l(&self) -> Pubkey {
        self.fx.accts[self.kl()]
    }
    fn dao(&self) -> Pubkey {
        self.fx.accts[6]
    }
    fn ata(&self, o: Pubkey, t: usize) -> Pubkey {
        ata(&o, &self.w().toks[t].mint)
    }
    fn other_t(&self) -> usize {
        3 - self.t
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Auth {
    Any,
    /// signer position
    Sig(usize),
    /// account position, signer position
    Owner(usize, usize),
    Del(usize, usize),
    Admin(usize),
    AdminOrFast(usize),
    AdminOrSec(usize),
}
use Auth::*;
pub type Prep = fn(&P, &mut State);
pub type Build = fn(&P, &State) -> Vec<Instruction>;
pub struct Cat {
    pub name: &'static str,
    pub auth: Auth,
    pub gate: Option<IxGate>,
    pub prep: Prep,
    pub build: Build,
    /// index of the instruction in the transaction
    pub main: usize,
    /// not allowed when any account is frozen
    pub freezes: bool,
}


pub fn admin_key(w: &World, what: &str) -> Pubkey {
    pk(&format!("{} {what}", w.name))
}
fn idx(native: f64) -> I80F48 {
    I80F48::from_num(native / 1e6)
}
/// token balances (native) of the liquidatable user: t0, t1, t2
fn set_toks(s: &mut State, acct: Pubkey, v: [f64; 3]) {
    edit_acc(s, &acct, |a| {
        for i in 0..3 {
            a.tokens[i].indexed_position = idx(v[i]);
        }
    });
}
fn set_perp(s: &mut State, acct: Pubkey, m: usize, base: Option<i64>, quote: f64) {
    edit_acc(s, &acct, |a| {
        let p = a.perps.iter_mut().find(|p| p.market_index == m as u16).expect("perp position");
        if let Some(b) = base {
            p.base_position_lots = b;
        }
        p.quote_position_native = I80F48::from_num(quote);
    });
}
fn no_perps(s: &mut State, acct: Pubkey) {
    for m in 0..2 {
        set_perp(s, acct, m, Some(0), 0.0);
        edit_acc(s, &acct, |a| {
            let p = a.perps.iter_mut().find(|p| p.market_index == m as u16).unwrap();
            p.bids_base_lots = 0;
            p.asks_base_lots = 0;
        });
    }
}
fn no_serum(s: &mut State, fx: &Fix, acct: Pubkey) {
    for n in 0..2 {
        let oo = fx.w.oo_key(&acct, n);
        if s.accts.contains_key(&oo) {
            edit_oo(s, &oo, |o| {
                o.native_coin_total = 0;
                o.native_pc_total = 0;
                o.native_coin_free = 0;
                o.native_pc_free = 0;
            });
        }
    }
}
/// only the given balances count
fn only(p: &P, s: &mut State, acct: Pubkey, v: [f64; 3]) {
    set_toks(s, acct, v);
    no_perps(s, acct);
    no_serum(s, p.fx, acct);
}
fn setup(i: Instruction, s: &mut State) {
    if let Err(e) = s.tx(&[i]) {
        panic!("setup: {e:?}");
    }
}
fn tcs(p: &P, kind: u8) -> Instruction {
    let w = p.w();
    match kind {
        0 => w.tcs_create(p.a(), p.ao(), p.t, p.other_t(), 100_000, 100_000, u64::MAX, 0.0, 1e9, 0.01, true, true),
        1 => w.tcs_create_premium(p.a(), p.ao(), p.t, p.other_t(), 100_000, 100_000, u64::MAX, 0.0, 1e9, 0.01, true, true, 100),
        _ => w.tcs_create_linear(p.a(), p.ao(), p.t, p.other_t(), 100_000, 100_000, u64::MAX, 0.001, 1000.0, true, true, 0, 1000),
    }
}
fn tcs_id(p: &P, s: &State, acct: Pubkey) -> (u8, u64) {
    let a = acc(s, &acct);
    let w = p.w();
    let (i, t) = a
        .tcs
        .iter()
        .enumerate()
        .find(|(_, t)| t.is_configured == 1 && t.buy_token_index == w.toks[p.t].index && t.sell_token_index == w.toks[p.other_t()].index)
        .expect("no tcs");
    (i as u8, t.id)
}
fn order(p: &P, s: &State, acct: Pubkey) -> u128 {
    let a = acc(s, &acct);
    a.oos.iter().find(|o| o.market == p.m as u16).expect("order").id
}

/// all banks of a token
pub fn banks(fx: &Fix, s: &State, t: usize) -> Vec<Pubkey> {
    s.zc::<MintInfo>(&fx.w.toks[t].mint_info).banks.iter().cloned().filter(|k| *k != Pubkey::default()).collect()
}
pub fn populate(name: &str, s: &mut State) -> Fix {
    let c = TokCfg { min_vault_ratio: 0.0, loan_orig_fee: 0.001, conf_filter: 0.1, tcs_taker: 0.0, ..TokCfg::default() };
    let toks = [TokCfg { min_vault_ratio: 0.0, ..TokCfg::quote() }, TokCfg { price: 2.0, ..c.clone() }, TokCfg { price: 1.5, ..c.clone() }, TokCfg { price: 1.25, ..c }];
    let pc = PerpCfg { settle_limit_factor: -1.0, ..PerpCfg::default() };
    let mut fx = fix(name, s, &toks, &[pc.clone(), PerpCfg { settle_tok: 1, price: 2.0, ..pc }]);
    fx.w.add_serum(s, 1, 0, 100, 10, 1000.0);
    fx.w.add_serum(s, 2, 0, 100, 10, 1000.0);
    for n in ["alice", "bob", "carol", "dave", "lia", "lio", "dao"] {
        fx.user(s, n, 1 << 50);
    }
    // a second account of alice
    let k = fx.w.create_account(s, fx.owners[0], 1);
    fx.owners.push(fx.owners[0]);
    fx.accts.push(k);
    for a in 0..fx.accts.len() {
        let big = matches!(a, 0 | 1 | 4 | 5 | 7);
        for t in 0..3 {
            deposits(&fx, s, &[(a, t, if big { 1 << 30 } else { 1_000_000 })]);
        }
    }
    put_token(s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, 1 << 30);
    for m in 0..2 {
        for (buyer, seller) in [(0, 1), (4, 5), (5, 4), (1, 0), (0, 1), (5, 4)] {
            trade(&fx, s, buyer, seller, m, if m == 0 { 10 } else { 20 }, 10);
        }
        // resting orders
        for a in [0, 1, 4, 5, 7] {
            let i = fx.w.perp_place(s, fx.accts[a], fx.owners[a], m, Side::Bid, 1, 1, 1000, 42, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 5);
            setup(i, s);
        }
        // flat positions
        for a in [2, 3] {
            let i = fx.w.perp_place(s, fx.accts[a], fx.owners[a], m, Side::Bid, 1, 1, 1000, 42, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 5);
            setup(i, s);
            let i = fx.w.perp_cancel_all(fx.accts[a], fx.owners[a], m, 5);
            setup(i, s);
        }
    }
    for n in 0..2 {
        for a in [0, 1, 4, 5] {
            let i = fx.w.serum_create_oo(fx.accts[a], fx.owners[a], n);
            setup(i, s);
            let i = fx.w.serum_place(s, fx.accts[a], fx.owners[a], n, Serum3Side::Bid, 1, 10, 10_000, 77, Serum3OrderType::Limit, Serum3SelfTradeBehavior::DecrementTake, 5);
            setup(i, s);
        }
    }
    let adm = |n: &str| Some(admin_key(&fx.w, n));
    setup(
        fx.w.group_edit(mango_v4::instruction::GroupEdit {
            fast_listing_admin_opt: adm("fast"),
            security_admin_opt: adm("security"),
            allowed_fast_listings_per_interval_opt: Some(10),
            buyback_fees_opt: Some(true),
            buyback_fees_swap_mango_account_opt: Some(fx.accts[6]),
            mngo_token_index_opt: Some(1),
            collateral_fee_interval_opt: Some(60),
            buyback_fees_bonus_factor_opt: Some(1.0),
            ..World::group_edit_default()
        }),
        s,
    );
    for n in ["fast", "security"] {
        s.set(admin_key(&fx.w, n), Acct::new(RICH, system_program::ID, vec![]));
    }
    put_mint(s, pk(&format!("{name} fresh mint")), 6);
    for t in 0..4 {
        put_token(s, pk(&format!("{name} admin token {t}")), fx.w.toks[t].mint, fx.w.admin, 5);
    }
    let alt = alt_program();
    let mut d = vec![0u8; 56];
    d[0] = 1;
    d[4..12].copy_from_slice(&u64::MAX.to_le_bytes());
    d[21] = 1;
    d[22..54].copy_from_slice(fx.w.group.as_ref());
    s.set(pk(&format!("{name} alt")), Acct::new(RICH, alt, d));
    fx
}

pub fn catalogue() -> Vec<Cat> {
    let mut v: Vec<Cat> = vec![];
    fn none(_: &P, _: &mut State) {}
    let mut add = |name: &'static str, auth: Auth, gate: Option<IxGate>, prep: Prep, build: Build| {
        v.push(Cat { name, auth, gate, prep, build, main: 0, freezes: true });
    };
    let g = |x: IxGate| Some(x);
    // ------------------------------------------------------------ accounts
    add("account_create", Sig(2), g(G::AccountCreate), none, |p, _| {
        vec![ix(
            mango_v4::accounts::AccountCreate { group: p.w().group, account: p.w().account_key(&p.ao(), 9), owner: p.ao(), payer: p.w().payer, system_program: system_program::ID },
            mango_v4::instruction::AccountCreate { account_num: 9, token_count: 8, serum3_count: 4, perp_count: 4, perp_oo_count: 8, name: "n".into() },
        )]
    });
    add("account_create_v2", Sig(2), g(G::AccountCreate), none, |p, _| {
        vec![ix(
            mango_v4::accounts::AccountCreateV2 { group: p.w().group, account: p.w().account_key(&p.ao(), 9), owner: p.ao(), payer: p.w().payer, system_program: system_program::ID },
            mango_v4::instruction::AccountCreateV2 { account_num: 9, token_count: 8, serum3_count: 4, perp_count: 4, perp_oo_count: 8, token_conditional_swap_count: 2, name: "n".into() },
        )]
    });
    add("account_expand", Owner(1, 2), g(G::AccountExpand), none, |p, _| {
        vec![ix(
            mango_v4::accounts::AccountExpand { group: p.w().group, account: p.a(), owner: p.ao(), payer: p.w().payer, system_program: system_program::ID },
            mango_v4::instruction::AccountExpand { token_count: 5, serum3_count: 2, perp_count: 2, perp_oo_count: 4 },
        )]
    });
    add("account_expand_v2", Owner(1, 2), g(G::AccountExpand), none, |p, _| vec![p.w().account_expand(p.a(), p.ao(), 5, 2, 2, 4, 4)]);
    add("account_size_migration", Any, g(G::AccountSizeMigration), none, |p, _| {
        vec![ix(mango_v4::accounts::AccountSizeMigration { group: p.w().group, account: p.a(), payer: p.w().payer, system_program: system_program::ID }, mango_v4::instruction::AccountSizeMigration {})]
    });
    add("account_edit", Owner(1, 2), g(G::AccountEdit), none, |p, _| vec![p.w().account_edit(p.a(), p.ao(), Some(pk("new delegate")), None, None)]);
    add("account_toggle_freeze", Admin(2), g(G::AccountToggleFreeze), none, |p, _| vec![p.w().freeze(p.a(), true)]);
    add("account_close", Owner(1, 2), g(G::AccountClose), none, |p, _| vec![p.w().account_close(p.a(), p.ao(), true)]);
    add("sequence_check", Owner(1, 2), g(G::SequenceCheck), none, |p, s| {
        let n = acc(s, &p.a()).fixed.sequence_number;
        vec![ix(mango_v4::accounts::SequenceCheck { group: p.w().group, account: p.a(), owner: p.ao() }, mango_v4::instruction::SequenceCheck { expected_sequence_number: n })]
    });
    add("health_check", Any, g(G::HealthCheck), none, |p, s| {
        vec![ix(
            mango_v4::accounts::HealthCheck { group: p.w().group, account: p.a() },
            mango_v4::instruction::HealthCheck { min_health_value: 0.0, check_kind: HealthCheckKind::Init },
        )
        .with(p.w().scan(s, &[p.a()], &[], &[]))]
    });
    add("compute_account_data", Any, None, none, |p, s| {
        vec![ix(mango_v4::accounts::ComputeAccountData { group: p.w().group, account: p.a() }, mango_v4::instruction::ComputeAccountData {}).with(p.w().scan(s, &[p.a()], &[], &[]))]
    });
    add("account_buyback_fees_with_mngo", Del(1, 2), g(G::AccountBuybackFeesWithMngo), |p, s| {
        edit_acc(s, &p.a(), |a| a.fixed.buyback_fees_accrued_current = 1_000);
    }, |p, _| {
        let w = p.w();
        vec![ix(
            mango_v4::accounts::AccountBuybackFeesWithMngo {
                group: w.group, account: p.a(), owner: p.ao(), dao_account: p.dao(), mngo_bank: w.toks[1].bank, mngo_oracle: w.toks[1].oracle, fees_bank: w.toks[0].bank, fees_oracle: w.toks[0].oracle,
            },
            mango_v4::instruction::AccountBuybackFeesWithMngo { max_buyback_usd: 500 },
        )]
    });
    // -------------------------------------------------------------- tokens
    add("token_deposit", Del(1, 2), g(G::TokenDeposit), none, |p, s| vec![p.w().deposit(s, p.a(), p.ao(), p.t, 100, false)]);
    add("token_deposit_into_existing", Any, g(G::TokenDeposit), none, |p, s| vec![p.w().deposit_into(s, p.a(), p.ao(), p.t, 100, false)]);
    add("token_withdraw", Del(1, 2), g(G::TokenWithdraw), none, |p, s| vec![p.w().withdraw(s, p.a(), p.ao(), p.t, 100, false)]);
    add("token_update_index_and_rate", Any, g(G::TokenUpdateIndexAndRate), none, |p, s| vec![p.w().update_index_banks(p.t, &banks(p.fx, s, p.t))]);
    add("token_charge_collateral_fees", Any, None, |p, s| {
        for t in 0..3 {
            s.edit_zc(&p.w().toks[t].bank, |b: &mut Bank| b.collateral_fee_per_day = 0.1);
        }
        let now = s.ts as u64;
        edit_acc(s, &p.a(), |a| {
            a.fixed.last_collateral_fee_charge = now - 100;
            let i = a.tokens.iter().position(|t| t.token_index == 2).unwrap();
            a.tokens[i].indexed_position = idx(-2e8);
        });
    }, |p, s| vec![p.w().charge_collateral_fees(s, p.a())]);
    add("token_force_withdraw", Any, g(G::TokenForceWithdraw), |p, s| {
        s.edit_zc(&p.w().toks[p.t].bank, |b: &mut Bank| {
            b.force_withdraw = 1;
            b.reduce_only = 1;
        });
    }, |p, s| vec![p.w().force_withdraw(s, p.a(), p.t, p.ata(p.ao(), p.t), p.ata(p.ao(), p.t))]);
    add("token_liq_with_token", Del(1, 2), g(G::TokenLiqWithToken), |p, s| {
        let mut v = [-3e6, 0.0, 0.0];
        v[p.t] = 1e6;
        only(p, s, p.l(), v);
    }, |p, s| vec![p.w().liq_token(s, p.a(), p.ao(), p.l(), p.t, 0, 100.0)]);
    add("liq_token_with_token", Del(1, 2), g(G::TokenLiqWithToken), |p, s| {
        let mut v = [-3e6, 0.0, 0.0];
        v[p.t] = 1e6;
        only(p, s, p.l(), v);
    }, |p, s| {
        let mut i = p.w().liq_token(s, p.a(), p.ao(), p.l(), p.t, 0, 100.0);
        i.data = mango_v4::instruction::LiqTokenWithToken { asset_token_index: p.w().toks[p.t].index, liab_token_index: 0, max_liab_transfer: I80F48::from_num(100) }.data();
        vec![i]
    });
    add("token_force_close_borrows_with_token", Del(1, 2), g(G::TokenForceCloseBorrowsWithToken), |p, s| {
        let mut v = [1e9, 0.0, 0.0];
        v[p.t] = -1e6;
        only(p, s, p.l(), v);
        s.edit_zc(&p.w().toks[p.t].bank, |b: &mut Bank| {
            b.force_close = 1;
            b.reduce_only = 1;
        });
    }, |p, s| vec![p.w().force_close_borrows(s, p.a(), p.ao(), p.l(), 0, p.t, 100)]);
    add("token_liq_bankruptcy", Del(1, 2), g(G::TokenLiqBankruptcy), |p, s| {
        let mut v = [0.0; 3];
        v[p.t] = -1e6;
        only(p, s, p.l(), v);
    }, |p, s| vec![p.w().liq_bankruptcy(s, p.a(), p.ao(), p.l(), p.t, 100.0)]);
    add("liq_token_bankruptcy", Del(1, 2), g(G::TokenLiqBankruptcy), |p, s| {
        let mut v = [0.0; 3];
        v[p.t] = -1e6;
        only(p, s, p.l(), v);
    }, |p, s| {
        let mut i = p.w().liq_bankruptcy(s, p.a(), p.ao(), p.l(), p.t, 100.0);
        i.data = mango_v4::instruction::LiqTokenBankruptcy { max_liab_transfer: I80F48::from_num(100) }.data();
        vec![i]
    });
    add("token_update_index_and_rate_resilient", Any, g(G::TokenUpdateIndexAndRate), none, |p, s| {
        let mut i = p.w().update_index_banks(p.t, &banks(p.fx, s, p.t));
        i.data = mango_v4::instruction::TokenUpdateIndexAndRateResilient {}.data();
        vec![i]
    });
    // --------------------------------------------------------------- swaps
    add("token_conditional_swap_create_v2", Del(1, 2), g(G::TokenConditionalSwapCreate), none, |p, _| vec![tcs(p, 0)]);
    add("token_conditional_swap_create", Del(1, 2), g(G::TokenConditionalSwapCreate), none, |p, _| {
        let mut i = tcs(p, 0);
        i.data = mango_v4::instruction::TokenConditionalSwapCreate {
            max_buy: 100_000, max_sell: 100_000, expiry_timestamp: u64::MAX, price_lower_limit: 0.0, price_upper_limit: 1e9, price_premium_rate: 0.01, allow_creating_deposits: true, allow_creating_borrows: true,
        }
        .data();
        vec![i]
    });
    add("token_conditional_swap_create_premium_auction", Del(1, 2), g(G::TokenConditionalSwapCreatePremiumAuction), none, |p, _| vec![tcs(p, 1)]);
    add("token_conditional_swap_create_linear_auction", Del(1, 2), g(G::TokenConditionalSwapCreateLinearAuction), none, |p, _| vec![tcs(p, 2)]);
    add("token_conditional_swap_cancel", Del(1, 2), g(G::TokenConditionalSwapCancel), |p, s| setup(tcs(p, 0), s), |p, s| {
        let (i, id) = tcs_id(p, s, p.a());
        vec![p.w().tcs_cancel(p.a(), p.ao(), p.t, p.other_t(), i, id)]
    });
    add("token_conditional_swap_trigger_v2", Del(2, 3), g(G::TokenConditionalSwapTrigger), |p, s| setup(tcs(p, 0), s), |p, s| {
        let (i, id) = tcs_id(p, s, p.a());
        vec![p.w().tcs_trigger(s, p.a(), p.b(), p.fx.owners[p.kb()], p.t, p.other_t(), i, id, 100, 100, 0, 0.0)]
    });
    add("token_conditional_swap_trigger", Del(2, 3), g(G::TokenConditionalSwapTrigger), |p, s| setup(tcs(p, 0), s), |p, s| {
        let (i, id) = tcs_id(p, s, p.a());
        let mut x = p.w().tcs_trigger(s, p.a(), p.b(), p.fx.owners[p.kb()], p.t, p.other_t(), i, id, 100, 100, 0, 0.0);
        x.data = mango_v4::instruction::TokenConditionalSwapTrigger { token_conditional_swap_index: i, token_conditional_swap_id: id, max_buy_token_to_liqee: 100, max_sell_token_to_liqor: 100 }.data();
        vec![x]
    });
    add("token_conditional_swap_start", Del(2, 3), g(G::TokenConditionalSwapStart), |p, s| setup(tcs(p, 1), s), |p, s| {
        let (i, id) = tcs_id(p, s, p.a());
        vec![p.w().tcs_start(s, p.a(), p.b(), p.fx.owners[p.kb()], p.t, p.other_t(), i, id)]
    });
    // ---------------------------------------------------------- flash loans
    fn fl(p: &P, s: &State) -> Vec<Instruction> {
        let w = p.w();
        let l = [(p.t, 100, p.ata(p.ao(), p.t)), (0, 0, p.ata(p.ao(), 0))];
        vec![w.flash_begin(p.a(), p.ao(), &l), w.flash_end(s, p.a(), p.ao(), &l, FlashLoanType::Unknown)]
    }
    fn fls(p: &P, s: &State) -> Vec<Instruction> {
        let w = p.w();
        let l = [(p.t, 100, p.ata(p.ao(), p.t)), (0, 0, p.ata(p.ao(), 0))];
        let begin = w.flash_begin(p.a(), p.ao(), &l);
        let mut i = ix(
            mango_v4::accounts::FlashLoanSwapBegin {
                account: p.a(), owner: p.ao(), input_mint: w.toks[p.t].mint, output_mint: w.toks[0].mint, system_program: system_program::ID, token_program: spl_token::ID,
                associated_token_program: ata_program(), instructions: sysvar::instructions::ID,
            },
            mango_v4::instruction::FlashLoanSwapBegin { loan_amount: 100 },
        )
        .with(begin.accounts[4..].to_vec());
        i.accounts[0].is_writable = true;
        vec![i, w.flash_end(s, p.a(), p.ao(), &l, FlashLoanType::Swap)]
    }
    add("flash_loan_begin", Del(0, 1), g(G::FlashLoan), none, fl);
    add("flash_loan_end_v2", Del(0, 1), g(G::FlashLoan), none, fl);
    add("flash_loan_swap_begin", Del(0, 1), g(G::FlashLoan), none, fls);
    fn hr(p: &P, s: &State) -> Vec<Instruction> {
        let w = p.w();
        let h = w.health(s, &p.a(), None, None, false);
        vec![
            ix(mango_v4::accounts::HealthRegionBegin { instructions: sysvar::instructions::ID, group: w.group, account: p.a() }, mango_v4::instruction::HealthRegionBegin {}).with(h.clone()),
            place(p, s).remove(0),
            ix(mango_v4::accounts::HealthRegionEnd { account: p.a() }, mango_v4::instruction::HealthRegionEnd {}).with(h),
        ]
    }
    add("health_region_begin", Any, g(G::HealthRegion), none, hr);
    add("health_region_end", Any, g(G::HealthRegion), none, hr);
    // --------------------------------------------------------------- perps
    fn place(p: &P, s: &State) -> Vec<Instruction> {
        vec![p.w().perp_place(s, p.a(), p.ao(), p.m, Side::Bid, 2, 1, 1000, 43, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 5)]
    }
    fn pegged(p: &P, s: &State) -> Vec<Instruction> {
        vec![p.w().perp_place_pegged(s, p.a(), p.ao(), p.m, Side::Bid, -5, 100, 1, 1000, 43, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 5)]
    }
    add("perp_place_order_v2", Del(1, 2), g(G::PerpPlaceOrder), none, place);
    add("perp_place_order", Del(1, 2), g(G::PerpPlaceOrder), none, |p, s| {
        let mut v = place(p, s);
        v[0].data = mango_v4::instruction::PerpPlaceOrder { side: Side::Bid, price_lots: 2, max_base_lots: 1, max_quote_lots: 1000, client_order_id: 43, order_type: PlaceOrderType::Limit, reduce_only: false, expiry_timestamp: 0, limit: 5 }.data();
        v
    });
    add("perp_place_order_pegged_v2", Del(1, 2), g(G::PerpPlaceOrder), none, pegged);
    add("perp_place_order_pegged", Del(1, 2), g(G::PerpPlaceOrder), none, |p, s| {
        let mut v = pegged(p, s);
        v[0].data = mango_v4::instruction::PerpPlaceOrderPegged {
            side: Side::Bid, price_offset_lots: -5, peg_limit: 100, max_base_lots: 1, max_quote_lots: 1000, client_order_id: 43, order_type: PlaceOrderType::Limit, reduce_only: false, expiry_timestamp: 0, limit: 5, max_oracle_staleness_slots: -1,
        }
        .data();
        v
    });
    add("perp_cancel_order", Del(1, 2), g(G::PerpCancelOrder), none, |p, s| vec![p.w().perp_cancel(p.a(), p.ao(), p.m, order(p, s, p.a()))]);
    add("perp_cancel_order_by_client_order_id", Del(1, 2), g(G::PerpCancelOrderByClientOrderId), none, |p, _| vec![p.w().perp_cancel_cid(p.a(), p.ao(), p.m, 42)]);
    add("perp_cancel_all_orders", Del(1, 2), g(G::PerpCancelAllOrders), none, |p, _| vec![p.w().perp_cancel_all(p.a(), p.ao(), p.m, 5)]);
    add("perp_cancel_all_orders_by_side", Del(1, 2), g(G::PerpCancelAllOrdersBySide), none, |p, _| vec![p.w().perp_cancel_all_side(p.a(), p.ao(), p.m, Some(Side::Bid), 5)]);
    add("perp_consume_events", Any, g(G::PerpConsumeEvents), |p, s| {
        let px = if p.m == 0 { 10 } else { 20 };
        for (k, side) in [(p.ka(), Side::Ask), (p.kb(), Side::Bid)] {
            let i = p.w().perp_place(s, p.fx.accts[k], p.fx.owners[k], p.m, side, px, 1, 1000, 1, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 5);
            setup(i, s);
        }
    }, |p, _| vec![p.w().perp_consume(p.m, &[p.a(), p.b()], 5)]);
    add("perp_update_funding", Any, g(G::PerpUpdateFunding), none, |p, _| vec![p.w().perp_update_funding(p.m)]);
    add("perp_settle_pnl", Del(1, 2), g(G::PerpSettlePnl), |p, s| {
        let px = if p.m == 0 { 1000.0 } else { 2000.0 };
        for (acct, x) in [(p.a(), 5_000.0), (p.b(), -5_000.0)] {
            let base = acc(s, &acct).perps.iter().find(|q| q.market_index == p.m as u16).unwrap().base_position_lots;
            set_perp(s, acct, p.m, None, -(base as f64) * px / 10.0 + x);
        }
    }, |p, s| vec![p.w().perp_settle_pnl(s, p.c(), p.co(), p.a(), p.b(), p.m)]);
    add("perp_settle_fees", Any, g(G::PerpSettleFees), |p, s| {
        let px = if p.m == 0 { 1000.0 } else { 2000.0 };
        let base = acc(s, &p.a()).perps.iter().find(|q| q.market_index == p.m as u16).unwrap().base_position_lots;
        set_perp(s, p.a(), p.m, None, -(base as f64) * px / 10.0 - 5_000.0);
        s.edit_zc(&p.w().perps[p.m].market, |m: &mut PerpMarket| m.fees_accrued = I80F48::from_num(1000));
    }, |p, s| vec![p.w().perp_settle_fees(s, p.a(), p.m, 100)]);
    add("perp_force_close_position", Any, g(G::PerpForceClosePosition), |p, s| {
        s.edit_zc(&p.w().perps[p.m].market, |m: &mut PerpMarket| {
            m.force_close = 1;
            m.reduce_only = 1;
        });
        set_perp(s, p.a(), p.m, Some(10), -1000.0);
        set_perp(s, p.b(), p.m, Some(-10), 1000.0);
    }, |p, _| vec![p.w().perp_force_close(p.a(), p.b(), p.m)]);
    add("perp_deactivate_position", Del(1, 2), g(G::PerpDeactivatePosition), none, |p, _| vec![p.w().perp_deactivate(p.c(), p.co(), p.m)]);
    add("perp_liq_base_or_positive_pnl", Del(3, 4), g(G::PerpLiqBaseOrPositivePnl), |p, s| {
        only(p, s, p.l(), [0.0; 3]);
        set_perp(s, p.l(), p.m, Some(10), -1e6);
    }, |p, s| vec![p.w().perp_liq_base(s, p.a(), p.ao(), p.l(), p.m, 1, 0)]);
    add("perp_liq_force_cancel_orders", Any, g(G::PerpLiqForceCancelOrders), |p, s| {
        set_toks(s, p.l(), [-1e9, 0.0, 0.0]);
    }, |p, s| vec![p.w().perp_liq_force_cancel(s, p.l(), p.m, 5)]);
    add("perp_liq_negative_pnl_or_bankruptcy_v2", Del(1, 2), g(G::PerpLiqNegativePnlOrBankruptcy), |p, s| {
        only(p, s, p.l(), [0.0; 3]);
        set_perp(s, p.l(), p.m, Some(0), -1e6);
    }, |p, s| vec![p.w().perp_liq_bankruptcy(s, p.a(), p.ao(), p.l(), p.m, 100)]);
    // --------------------------------------------------------------- serum
    fn splace(p: &P, s: &State) -> Vec<Instruction> {
        vec![p.w().serum_place(s, p.a(), p.ao(), p.m, Serum3Side::Bid, 2, 10, 10_000, 78, Serum3OrderType::Limit, Serum3SelfTradeBehavior::DecrementTake, 5)]
    }
    add("serum3_place_order_v2", Del(1, 2), g(G::Serum3PlaceOrderV2), none, splace);
    add("serum3_place_order", Del(1, 2), g(G::Serum3PlaceOrder), none, |p, s| {
        let mut v = splace(p, s);
        v[0].data = mango_v4::instruction::Serum3PlaceOrder {
            side: Serum3Side::Bid, limit_price: 2, max_base_qty: 10, max_native_quote_qty_including_fees: 10_000, self_trade_behavior: Serum3SelfTradeBehavior::DecrementTake, order_type: Serum3OrderType::Limit, client_order_id: 78, limit: 5,
        }
        .data();
        v
    });
    add("serum3_create_open_orders", Del(1, 2), g(G::Serum3CreateOpenOrders), none, |p, _| vec![p.w().serum_create_oo(p.c(), p.co(), p.m)]);
    add("serum3_close_open_orders", Del(1, 2), g(G::Serum3CloseOpenOrders), |p, s| {
        if !s.accts.contains_key(&p.w().oo_key(&p.c(), p.m)) {
            setup(p.w().serum_create_oo(p.c(), p.co(), p.m), s)
        }
    }, |p, _| vec![p.w().serum_close_oo(p.c(), p.co(), p.m)]);
    add("serum3_cancel_order", Del(1, 2), g(G::Serum3CancelOrder), none, |p, s| {
        let o = oo(s, &p.w().oo_key(&p.a(), p.m));
        let i = (0..128).find(|i| o.free_slot_bits & (1u128 << i) == 0).expect("order");
        let id = { o.orders }[i];
        vec![p.w().serum_cancel(p.a(), p.ao(), p.m, Serum3Side::Bid, id)]
    });
    add("serum3_cancel_order_by_client_order_id", Del(1, 2), g(G::Serum3CancelOrder), none, |p, _| {
        let mut i = p.w().serum_cancel(p.a(), p.ao(), p.m, Serum3Side::Bid, 0);
        i.data = mango_v4::instruction::Serum3CancelOrderByClientOrderId { client_order_id: 77 }.data();
        vec![i]
    });
    add("serum3_cancel_all_orders", Del(1, 2), g(G::Serum3CancelAllOrders), none, |p, _| vec![p.w().serum_cancel_all(p.a(), p.ao(), p.m, 5)]);
    add("serum3_settle_funds_v2", Del(1, 2), g(G::Serum3SettleFunds), |p, s| setup(p.w().serum_cancel_all(p.a(), p.ao(), p.m, 5), s), |p, _| vec![p.w().serum_settle(p.a(), p.ao(), p.m, true)]);
    add("serum3_liq_force_cancel_orders", Any, g(G::Serum3LiqForceCancelOrders), |p, s| set_toks(s, p.l(), [-1e9, 0.0, 0.0]), |p, s| vec![p.w().serum_force_cancel(s, p.l(), p.m, 5)]);
    // --------------------------------------------------------------- admin
    add("group_edit", Admin(1), None, none, |p, _| vec![p.w().group_edit(mango_v4::instruction::GroupEdit { version_opt: Some(1), ..World::group_edit_default() })]);
    add("ix_gate_set", AdminOrSec(1), None, none, |p, _| vec![p.w().ix_gate(1 << 40)]);
    add("group_withdraw_insurance_fund", Admin(1), g(G::GroupWithdrawInsuranceFund), none, |p, _| {
        let w = p.w();
        vec![ix(
            mango_v4::accounts::GroupWithdrawInsuranceFund { group: w.group, admin: w.admin, insurance_vault: w.insurance_vault, destination: pk(&format!("{} admin token 0", w.name)), token_program: spl_token::ID },
            mango_v4::instruction::GroupWithdrawInsuranceFund { amount: 100 },
        )]
    });
    add("group_change_insurance_fund", Admin(1), g(G::GroupChangeInsuranceFund), none, |p, _| {
        let w = p.w();
        let mint = w.toks[p.t].mint;
        vec![ix(
            mango_v4::accounts::GroupChangeInsuranceFund {
                group: w.group, admin: w.admin, insurance_vault: w.insurance_vault, withdraw_destination: pk(&format!("{} admin token 0", w.name)), new_insurance_mint: mint,
                new_insurance_vault: w.pda(b"InsuranceVault", &[mint.as_ref()]), payer: w.payer, token_program: spl_token::ID, system_program: system_program::ID, rent: sysvar::rent::ID,
            },
            mango_v4::instruction::GroupChangeInsuranceFund {},
        )]
    });
    add("group_close", Admin(1), g(G::GroupClose), |p, s| put_token(s, p.w().insurance_vault, p.w().insurance_mint, p.w().group, 0), |p, _| {
        let w = p.w();
        vec![ix(
            mango_v4::accounts::GroupClose { group: w.group, admin: w.admin, insurance_vault: w.insurance_vault, sol_destination: w.admin, token_program: spl_token::ID },
            mango_v4::instruction::GroupClose {},
        )]
    });
    fn fresh(p: &P) -> (Pubkey, Pubkey) {
        (pk(&format!("{} fresh mint", p.w().name)), p.w().toks[p.t].oracle)
    }
    add("token_register", Admin(1), g(G::TokenRegister), none, |p, _| {
        let (m, o) = fresh(p);
        vec![p.w().register_ix(9, m, o, &TokCfg::default())]
    });
    add("token_register_trustless", AdminOrFast(1), g(G::TokenRegisterTrustless), none, |p, _| {
        let w = p.w();
        let (mint, oracle) = fresh(p);
        let n = 9u16;
        vec![ix(
            mango_v4::accounts::TokenRegisterTrustless {
                group: w.group, admin: w.admin, mint, bank: w.pda(b"Bank", &[&n.to_le_bytes(), &0u32.to_le_bytes()]), vault: w.pda(b"Vault", &[&n.to_le_bytes(), &0u32.to_le_bytes()]),
                mint_info: w.pda(b"MintInfo", &[mint.as_ref()]), oracle, fallback_oracle: Pubkey::default(), payer: w.payer, token_program: spl_token::ID, system_program: system_program::ID, rent: sysvar::rent::ID,
            },
            mango_v4::instruction::TokenRegisterTrustless { token_index: n, name: "x".into() },
        )]
    });
    add("token_edit", Admin(1), None, none, |p, s| vec![p.w().token_edit(s, p.t, mango_v4::instruction::TokenEdit { maint_asset_weight_opt: Some(0.7), ..World::token_edit_default() })]);
    add("token_add_bank", Admin(1), g(G::TokenAddBank), none, |p, s| vec![p.w().add_bank_ix(p.t, banks(p.fx, s, p.t).len() as u32).0]);
    add("token_deregister", Admin(1), g(G::TokenDeregister), none, |p, s| {
        let w = p.w();
        let t = &w.toks[p.t];
        vec![ix(
            mango_v4::accounts::TokenDeregister { group: w.group, admin: w.admin, mint_info: t.mint_info, dust_vault: pk(&format!("{} admin token {}", w.name, p.t)), sol_destination: w.admin, token_program: spl_token::ID },
            mango_v4::instruction::TokenDeregister {},
        )
        .with(banks(p.fx, s, p.t).into_iter().flat_map(|k| [rw(k), rw(s.zc::<Bank>(&k).vault)]).collect::<Vec<_>>())]
    });
    add("admin_token_withdraw_fees", Admin(5), g(G::AdminTokenWithdrawFees), |p, s| {
        s.edit_zc(&p.w().toks[p.t].bank, |b: &mut Bank| b.collected_fees_native = I80F48::from_num(100));
    }, |p, _| {
        let w = p.w();
        let t = &w.toks[p.t];
        vec![ix(
            mango_v4::accounts::AdminTokenWithdrawFees { group: w.group, bank: t.bank, vault: t.vault, token_account: pk(&format!("{} admin token {}", w.name, p.t)), token_program: spl_token::ID, admin: w.admin },
            mango_v4::instruction::AdminTokenWithdrawFees {},
        )]
    });
    add("admin_perp_withdraw_fees", Admin(6), g(G::AdminPerpWithdrawFees), |p, s| {
        s.edit_zc(&p.w().perps[p.m].market, |m: &mut PerpMarket| m.fees_settled = I80F48::from_num(100));
    }, |p, s| {
        let w = p.w();
        let n = w.settle_tok(s, p.m);
        let t = &w.toks[n];
        vec![ix(
            mango_v4::accounts::AdminPerpWithdrawFees {
                group: w.group, perp_market: w.perps[p.m].market, bank: t.bank, vault: t.vault, token_account: pk(&format!("{} admin token {n}", w.name)), token_program: spl_token::ID, admin: w.admin,
            },
            mango_v4::instruction::AdminPerpWithdrawFees {},
        )]
    });
    add("stub_oracle_create", Admin(2), g(G::StubOracleCreate), none, |p, _| {
        let w = p.w();
        let (mint, _) = fresh(p);
        let oracle = pk(&format!("{} new oracle", w.name));
        let mut i = ix(
            mango_v4::accounts::StubOracleCreate { group: w.group, oracle, admin: w.admin, mint, payer: w.payer, system_program: system_program::ID },
            mango_v4::instruction::StubOracleCreate { price: I80F48::ONE },
        );
        i.accounts[1].is_signer = true;
        vec![i]
    });
    add("stub_oracle_close", Admin(1), g(G::StubOracleClose), none, |p, _| {
        let w = p.w();
        vec![ix(
            mango_v4::accounts::StubOracleClose { group: w.group, admin: w.admin, oracle: w.toks[p.t].oracle, sol_destination: w.admin, token_program: spl_token::ID },
            mango_v4::instruction::StubOracleClose {},
        )]
    });
    add("stub_oracle_set", Admin(1), g(G::StubOracleSet), none, |p, _| vec![p.w().oracle_ix(p.w().toks[p.t].oracle, 3.0)]);
    add("stub_oracle_set_test", Admin(1), g(G::StubOracleSet), none, |p, _| vec![p.w().oracle_set_test_ix(p.w().toks[p.t].oracle, 3.0, 1, 0.1)]);
    add("serum3_register_market", AdminOrFast(1), g(G::Serum3RegisterMarket), none, |p, s| {
        let w = p.w();
        let m = &w.serums[p.m];
        // a second listing of the same external market needs a different address: use a copy
        let ext = pk(&format!("{} ext copy {}", w.name, p.m));
        let _ = s;
        let index = 7u16;
        vec![ix(
            mango_v4::accounts::Serum3RegisterMarket {
                group: w.group, admin: w.admin, serum_program: dex_program(), serum_market_external: ext, serum_market: w.pda(b"Serum3Market", &[ext.as_ref()]), index_reservation: w.pda(b"Serum3Index", &[&index.to_le_bytes()]),
                quote_bank: w.toks[m.quote].bank, base_bank: w.toks[m.base].bank, payer: w.payer, system_program: system_program::ID,
            },
            mango_v4::instruction::Serum3RegisterMarket { market_index: index, name: "x".into(), oracle_price_band: 1.0 },
        )]
    });
    add("serum3_edit_market", Admin(1), None, none, |p, _| {
        let w = p.w();
        vec![ix(
            mango_v4::accounts::Serum3EditMarket { group: w.group, admin: w.admin, market: w.serums[p.m].market },
            mango_v4::instruction::Serum3EditMarket { reduce_only_opt: None, force_close_opt: None, name_opt: Some("z".into()), oracle_price_band_opt: None },
        )]
    });
    add("serum3_deregister_market", Admin(1), g(G::Serum3DeregisterMarket), none, |p, _| {
        let w = p.w();
        let m = &w.serums[p.m];
        vec![ix(
            mango_v4::accounts::Serum3DeregisterMarket { group: w.group, admin: w.admin, serum_market: m.market, index_reservation: w.pda(b"Serum3Index", &[&m.index.to_le_bytes()]), sol_destination: w.admin, token_program: spl_token::ID },
            mango_v4::instruction::Serum3DeregisterMarket {},
        )]
    });
    add("perp_create_market", Admin(1), g(G::PerpCreateMarket), |p, s| {
        for t in ["nbids", "nasks", "neq"] {
            let n = if t == "neq" { std::mem::size_of::<EventQueue>() } else { std::mem::size_of::<BookSide>() };
            s.set(pk(&format!("{} {t}", p.w().name)), Acct::new(RICH, mango_v4::ID, vec![0u8; 8 + n]));
        }
    }, |p, _| {
        let w = p.w();
        let index = 7u16;
        let k = |t: &str| pk(&format!("{} {t}", w.name));
        vec![ix(
            mango_v4::accounts::PerpCreateMarket {
                group: w.group, admin: w.admin, oracle: w.perps[p.m].oracle, perp_market: w.pda(b"PerpMarket", &[&index.to_le_bytes()]), bids: k("nbids"), asks: k("nasks"), event_queue: k("neq"), payer: w.payer, system_program: system_program::ID,
            },
            mango_v4::instruction::PerpCreateMarket {
                perp_market_index: index, name: "p".into(), oracle_config: OracleConfigParams { conf_filter: 0.1, max_staleness_slots: None }, base_decimals: 6, quote_lot_size: 10, base_lot_size: 100,
                maint_base_asset_weight: 0.9, init_base_asset_weight: 0.8, maint_base_liab_weight: 1.1, init_base_liab_weight: 1.2, maint_overall_asset_weight: 1.0, init_overall_asset_weight: 1.0, base_liquidation_fee: 0.01,
                maker_fee: 0.0, taker_fee: 0.0, min_funding: -0.1, max_funding: 0.1, impact_quantity: 100, group_insurance_fund: true, fee_penalty: 0.0, settle_fee_flat: 0.0, settle_fee_amount_threshold: 0.0,
                settle_fee_fraction_low_health: 0.0, settle_token_index: 0, settle_pnl_limit_factor: 0.1, settle_pnl_limit_window_size_ts: 100, positive_pnl_liquidation_fee: 0.0, platform_liquidation_fee: 0.0,
            },
        )]
    });
    add("perp_edit_market", Admin(1), None, none, |p, _| vec![p.w().perp_edit(p.m, mango_v4::instruction::PerpEditMarket { maker_fee_opt: Some(0.001), taker_fee_opt: Some(0.002), ..World::perp_edit_default() })]);
    add("perp_close_market", Admin(1), g(G::PerpCloseMarket), none, |p, _| {
        let w = p.w();
        let m = &w.perps[p.m];
        vec![ix(
            mango_v4::accounts::PerpCloseMarket { group: w.group, admin: w.admin, perp_market: m.market, bids: m.bids, asks: m.asks, event_queue: m.event_queue, sol_destination: w.admin, token_program: spl_token::ID },
            mango_v4::instruction::PerpCloseMarket {},
        )]
    });
    add("alt_set", Admin(1), g(G::AltSet), none, |p, _| {
        let w = p.w();
        vec![ix(mango_v4::accounts::AltSet { group: w.group, admin: w.admin, address_lookup_table: pk(&format!("{} alt", w.name)) }, mango_v4::instruction::AltSet { index: 1 })]
    });
    add("alt_extend", Admin(1), g(G::AltExtend), |p, s| {
        let i = ix(
            mango_v4::accounts::AltSet { group: p.w().group, admin: p.w().admin, address_lookup_table: pk(&format!("{} alt", p.w().name)) },
            mango_v4::instruction::AltSet { index: 1 },
        );
        setup(i, s)
    }, |p, _| {
        let w = p.w();
        let mut i = ix(
            mango_v4::accounts::AltExtend { group: w.group, admin: w.admin, payer: w.payer, address_lookup_table: pk(&format!("{} alt", w.name)) },
            mango_v4::instruction::AltExtend { index: 1, new_addresses: vec![pk("x")] },
        )
        .with([ro(alt_program()), ro(system_program::ID)]);
        i.accounts[2].is_writable = true;
        vec![i]
    });
    for c in v.iter_mut() {
        if matches!(c.name, "flash_loan_end" | "flash_loan_end_v2") {
            c.main = 1;
        }
        if c.name == "health_region_end" {
            c.main = 2;
        }
        if matches!(c.name, "perp_cancel_all_orders" | "perp_cancel_order_by_client_order_id" | "perp_consume_events" | "perp_liq_force_cancel_orders" | "account_size_migration" | "serum3_liq_force_cancel_orders" | "compute_account_data" | "account_toggle_freeze") {
            c.freezes = false;
        }
    }
    v
}

/// variants: [own group, other group, own group with another bank of token 1], tokens, markets, swapped roles
pub const VARIANTS: [(&str, usize, usize, usize, bool); 6] =
    [("base", 0, 1, 0, false), ("group", 1, 1, 0, false), ("token", 0, 2, 0, false), ("market", 0, 1, 1, false), ("users", 0, 1, 0, true), ("bank", 2, 1, 0, false)];

pub struct Mx {
    pub fx: [Fix; 3],
    pub s: State,
}
impl Mx {
    pub fn new() -> Mx {
        let mut s = State::new();
        s.slot = 1000;
        let a = populate("acc", &mut s);
        let b = populate("acc b", &mut s);
        for (fx, n) in [(&a, 0), (&a, 1), (&b, 0), (&b, 1)] {
            let ext = pk(&format!("{} ext copy {n}", fx.w.name));
            let a = s.accts[&fx.w.serums[n].ext].clone();
            let mut d = a.data.clone();
            // the market states its own address
            d[5 + 8..5 + 40].copy_from_slice(ext.as_ref());
            s.set(ext, Acct::new(a.lamports, a.owner, d));
        }
        let mut prog = Acct::new(1, solana_program::bpf_loader::ID, vec![]);
        prog.executable = true;
        s.set(alt_program(), prog);
        let mut c = a.clone();
        for fx in [&a, &b] {
            let (i, bank, vault) = fx.w.add_bank_ix(1, 1);
            setup(i, &mut s);
            let mut fx = fx.clone();
            fx.w.toks[1].bank = bank;
            fx.w.toks[1].vault = vault;
            deposits(&fx, &mut s, &[(3, 1, 1 << 30)]);
            if fx.w.group == a.w.group {
                c = fx;
            }
        }
        s.advance(10);
        Mx { fx: [a, b, c], s }
    }
    pub fn p(&self, v: usize) -> P<'_> {
        let (_, g, t, m, sw) = VARIANTS[v];
        P { fx: &self.fx[g], t, m, sw }
    }
    /// state prepared for the variants, their transactions
    pub fn prepare(&self, c: &Cat, vs: &[usize]) -> (State, Vec<Vec<Instruction>>) {
        let mut s = self.s.clone();
        for &v in vs {
            (c.prep)(&self.p(v), &mut s);
        }
        let t = vs.iter().map(|&v| (c.build)(&self.p(v), &s)).collect();
        (s, t)
    }
}
pub fn run(s: &State, ixs: &[Instruction]) -> (TxResult, State) {
    let mut p = s.clone();
    let r = p.tx(ixs);
    (r, p)
}

/// the transaction with `from` replaced by `to` everywhere, with its token accounts
fn as_user(w: &World, ixs: &[Instruction], from: Pubkey, to: Pubkey) -> Vec<Instruction> {
    let mut v = ixs.to_vec();
    for m in v.iter_mut().flat_map(|i| i.accounts.iter_mut()) {
        if m.pubkey == from {
            m.pubkey = to;
        }
        for t in &w.toks {
            if m.pubkey == ata(&from, &t.mint) {
                m.pubkey = ata(&to, &t.mint);
            }
        }
    }
    v
}
fn signer_only(ixs: &[Instruction], main: usize, pos: usize, to: Pubkey) -> Vec<Instruction> {
    let mut v = ixs.to_vec();
    v[main].accounts[pos].pubkey = to;
    v
}
fn unsigned(ixs: &[Instruction], main: usize, pos: usize) -> Vec<Instruction> {
    let mut v = ixs.to_vec();
    let k = v[main].accounts[pos].pubkey;
    for m in v[main].accounts.iter_mut().filter(|m| m.pubkey == k) {
        m.is_signer = false;
    }
    v
}
fn is_mango(s: &State, k: &Pubkey) -> bool {
    use anchor_lang::Discriminator;
    s.accts.get(k).map_or(false, |a| a.owner == mango_v4::ID && a.data.len() > 8 && a.data[..8] == MangoAccount::discriminator())
}
/// Signers of every kind, and frozen accounts
pub fn auth_enum(rep: &Report) {
    let mx = Mx::new();
    let cats = catalogue();
    let work: Vec<(&Cat, usize)> = cats.iter().flat_map(|c| (0..VARIANTS.len()).map(move |v| (c, v))).collect();
    work.par_iter().for_each(|(c, v)| {
        let p = mx.p(*v);
        let w = p.w();
        let (mut s, t) = mx.prepare(c, &[*v]);
        let t = &t[0];
        let who = format!("{} ({})", c.name, VARIANTS[*v].0);
        let (del, tmp, stranger) = (pk("some delegate"), pk("temporary delegate"), pk("stranger"));
        for k in [del, tmp, stranger, admin_key(w, "security"), admin_key(w, "fast"), w.admin] {
            for x in &w.toks {
                put_token(&mut s, ata(&k, &x.mint), x.mint, k, 1 << 40);
            }
        }
        let ok = |s: &State, t: &[Instruction]| {
            rep.case();
            run(s, t).0
        };
        if let Err(e) = ok(&s, t) {
            rep.violation(&format!("refused: {who}"), &format!("{e:?}"));
            return;
        }
        let pos = match c.auth {
            Owner(a, g) | Del(a, g) => (Some(a), g),
            Sig(g) => (None, g),
            _ => (None, usize::MAX),
        };
        if pos.1 != usize::MAX {
            let key = t[c.main].accounts[pos.1].pubkey;
            if ok(&s, &unsigned(t, c.main, pos.1)).is_ok() {
                rep.violation(&format!("no signature needed: {who}"), "");
            }
            if let Some(a) = pos.0 {
                let acct = t[c.main].accounts[a].pubkey;
                assert!(is_mango(&s, &acct), "{who} {a}");
                let owner = acc(&s, &acct).fixed.owner;
                assert_eq!(owner, key, "{who}");
                let now = s.ts as u64;
                let mut others: Vec<Pubkey> = mx.fx[..2].iter().flat_map(|f| f.owners.iter().cloned()).filter(|k| *k != owner).collect();
                others.extend([stranger, w.admin, admin_key(w, "security"), admin_key(w, "fast"), mx.fx[(VARIANTS[*v].1 != 1) as usize].w.admin, w.payer]);
                for (d, te) in [(Pubkey::default(), 0), (del, 0), (Pubkey::default(), now - 1), (Pubkey::default(), now), (del, now + 1)] {
                    let mut s = s.clone();
                    edit_acc(&mut s, &acct, |x| {
                        x.fixed.delegate = d;
                        x.fixed.temporary_delegate = tmp;
                        x.fixed.temporary_delegate_expiry = te;
                    });
                    let may_del = matches!(c.auth, Del(..));
                    let mut cands: Vec<(Pubkey, bool)> = vec![(owner, true), (del, may_del && d == del), (tmp, may_del && te >= now)];
                    cands.extend(others.iter().map(|k| (*k, false)));
                    for (k, want) in cands {
                        // withdrawals by delegates are examined separately
                        if c.name == "token_withdraw" && want && k != owner {
                            continue;
                        }
                        let r = ok(&s, &as_user(w, t, owner, k));
                        if want && r.is_err() {
                            rep.violation(&format!("refused to {}: {who}", if k == owner { "the owner" } else if k == del { "the delegate" } else { "the temporary delegate" }), &format!("{r:?} delegate {d} expiry {te} now {now}"));
                        }
                        if !want && (r.is_ok() || ok(&s, &signer_only(t, c.main, pos.1, k)).is_ok()) {
                            let n = if k == del || k == tmp { "a non-delegate" } else { "someone else" };
                            rep.violation(&format!("allowed to {n}: {who}"), &format!("signer {k} delegate {d} expiry {te} now {now}"));
                        }
                    }
                    // a delegate that doesn't sign
                    if d == del && may_del && ok(&s, &unsigned(&as_user(w, t, owner, del), c.main, pos.1)).is_ok() {
                        rep.violation(&format!("no signature needed of delegates: {who}"), "");
                    }
                }
            }
        }
        // frozen accounts
        let accts: BTreeSet<Pubkey> = t.iter().flat_map(|i| &i.accounts).map(|m| m.pubkey).filter(|k| is_mango(&s, k)).collect();
        for (n, k) in accts.iter().enumerate() {
            let now = s.ts as u64;
            for until in [now - 1, now, now + 1, u64::MAX] {
                let mut s = s.clone();
                edit_acc(&mut s, k, |a| a.fixed.frozen_until = until);
                let r = ok(&s, t);
                if r.is_ok() != (!c.freezes || until < now) {
                    let at = t[c.main].accounts.iter().position(|m| m.pubkey == *k);
                    rep.violation(&format!("{} with frozen account {n}: {who}", if r.is_ok() { "allowed" } else { "refused" }), &format!("position {at:?}: {r:?}, until now + {}", until.wrapping_sub(now) as i64));
                }
            }
        }
    });
    freezing(rep, &mx);
    delegate_withdrawals(rep, &mx);
}
/// a freeze stops an account for a week, a second call ends it; nothing else about it changes
fn freezing(rep: &Report, mx: &Mx) {
    let fx = &mx.fx[0];
    for n in 0..fx.accts.len() {
        for until in [0u64, 5, s_now(&mx.s) as u64 - 1, s_now(&mx.s) as u64 + 9, u64::MAX] {
            for freeze in [true, false] {
                rep.case();
                let mut s = mx.s.clone();
                edit_acc(&mut s, &fx.accts[n], |a| a.fixed.frozen_until = until);
                let mut want = s.clone();
                edit_acc(&mut want, &fx.accts[n], |a| a.fixed.frozen_until = if freeze { s_now(&mx.s) as u64 + 7 * 86400 } else { 0 });
                let r = s.tx(&[fx.w.freeze(fx.accts[n], freeze)]);
                if r.is_err() || s.hash() != want.hash() {
                    rep.violation(if freeze { "freezing does not stop the account for a week, and only that" } else { "unfreezing does not release the account, and only that" }, &format!("account {n} frozen until {until}: {r:?}"));
                }
            }
        }
    }
}
/// delegates can only empty a token position into the owner's associated token account
fn delegate_withdrawals(rep: &Report, mx: &Mx) {
    let fx = &mx.fx[0];
    let w = &fx.w;
    for n in [6usize, 0] {
        for bal in [1000.0, 1000.25, 0.0] {
            for t in 0..3 {
                for (d, te) in [(0u8, 0i64), (1, 0), (2, -1), (2, 0)] {
                    let mut s = mx.s.clone();
                    let (acct, owner) = (fx.accts[n], fx.owners[n]);
                    let del = pk("some delegate");
                    edit_acc(&mut s, &acct, |a| {
                        a.tokens.iter_mut().find(|x| x.token_index == w.toks[t].index).unwrap().indexed_position = I80F48::from_num(bal) / 1_000_000;
                        match d {
                            1 => a.fixed.delegate = del,
                            2 => {
                                a.fixed.temporary_delegate = del;
                                a.fixed.temporary_delegate_expiry = (s_now(&mx.s) as i64 + te) as u64;
                            }
                            _ => {}
                        }
                    });
                    let mint = w.toks[t].mint;
                    let own_ata = ata(&owner, &mint);
                    put_token(&mut s, pk("owner's other"), mint, owner, 0);
                    put_token(&mut s, ata(&del, &mint), mint, del, 0);
                    for spl_owner in [owner, del] {
                        let mut s = s.clone();
                        put_token(&mut s, own_ata, mint, spl_owner, 0);
                        for dest in [own_ata, pk("owner's other"), ata(&del, &mint)] {
                            for (amount, borrow) in [(100, false), (999, true), (1000, false), (1000, true), (1001, false), (1001, true), (u64::MAX, false)] {
                                for k in [owner, del] {
                                    let mut i = w.withdraw(&s, acct, owner, t, amount, borrow);
                                    i.accounts[2].pubkey = k;
                                    let m = i.accounts.iter().position(|m| m.pubkey == own_ata).unwrap();
                                    i.accounts[m].pubkey = dest;
                                    rep.case();
                                    let (r, q) = run(&s, &[i]);
                                    if k == owner || r.is_err() {
                                        continue;
                                    }
                                    let gone = !acc(&q, &acct).tokens.iter().any(|x| x.token_index == w.toks[t].index);
                                    let moved = q.token_amount(&dest) > 0;
                                    let may = d == 1 || (d == 2 && te >= 0);
                                    if !may || (moved && (dest != own_ata || spl_owner != owner || !gone)) {
                                        rep.violation(&format!("delegate withdraws {}", if !may { "without being one" } else if dest != own_ata || spl_owner != owner { "to another token account" } else { "and keeps the position" }), &format!("user {n} token {t} balance {bal} amount {amount}/{borrow} delegate kind {d} {te}"));
                                    }
                                }
                            }
                        }
                    }
                    // the allowed case
                    if d == 1 || (d == 2 && te >= 0) {
                        let mut i = w.withdraw(&s, acct, owner, t, u64::MAX, false);
                        i.accounts[2].pubkey = del;
                        let (r, q) = run(&s, &[i]);
                        rep.case();
                        if n == 6 && bal > 0.0 && (r.is_err() || q.token_amount(&own_ata) < s.token_amount(&own_ata) + 999) {
                            rep.violation("delegate cannot empty a position to its owner", &format!("{r:?}"));
                        }
                    }
                }
            }
        }
    }
}
fn s_now(s: &State) -> u64 {
    s.ts as u64
}
/// Signers of administrative instructions
pub fn admin_enum(rep: &Report) {
    let mx = Mx::new();
    let cats = catalogue();
    let work: Vec<(&Cat, usize)> = cats.iter().flat_map(|c| (0..VARIANTS.len()).map(move |v| (c, v))).collect();
    work.par_iter().for_each(|(c, v)| {
        let (g, fast, sec) = match c.auth {
            Admin(g) => (g, false, false),
            AdminOrFast(g) => (g, true, false),
            AdminOrSec(g) => (g, false, true),
            _ => return,
        };
        let p = mx.p(*v);
        let w = p.w();
        let other = &mx.fx[(VARIANTS[*v].1 != 1) as usize].w;
        let (s, t) = mx.prepare(c, &[*v]);
        let t = &t[0];
        let who = format!("{} ({})", c.name, VARIANTS[*v].0);
        let mut cands = vec![(w.admin, true), (admin_key(w, "fast"), fast), (admin_key(w, "security"), sec), (other.admin, false), (admin_key(other, "fast"), false), (admin_key(other, "security"), false), (pk("stranger"), false), (w.payer, false), (w.group, false)];
        cands.extend(p.fx.owners.iter().map(|k| (*k, false)));
        for (k, want) in cands {
            for roles in [false, true] {
                // without security or fast listing admin, nobody else gets in
                let mut s = s.clone();
                if roles {
                    s.edit_zc(&w.group, |g: &mut Group| {
                        g.security_admin = Pubkey::default();
                        g.fast_listing_admin = Pubkey::default();
                    });
                }
                let want = want && (!roles || k == w.admin);
                rep.case();
                let (r, _) = run(&s, &signer_only(t, c.main, g, k));
                if r.is_ok() != want {
                    let n = if k == w.admin { "the admin" } else if k == admin_key(w, "fast") { "the fast listing admin" } else if k == admin_key(w, "security") { "the security admin" } else { "someone else" };
                    rep.violation(&format!("{} {n}: {who}", if want { "refused to" } else { "allowed to" }), &format!("{k} {r:?}"));
                }
            }
        }
        rep.case();
        if run(&s, &unsigned(t, c.main, g)).0.is_ok() {
            rep.violation(&format!("no signature needed: {who}"), "");
        }
    });
}
/// Every instruction gate
pub fn gate_enum(rep: &Report) {
    let mx = Mx::new();
    let cats = catalogue();
    let work: Vec<(&Cat, usize)> = cats.iter().flat_map(|c| (0..VARIANTS.len()).map(move |v| (c, v))).collect();
    work.par_iter().for_each(|(c, v)| {
        let p = mx.p(*v);
        let (s, t) = mx.prepare(c, &[*v]);
        let who = format!("{} ({})", c.name, VARIANTS[*v].0);
        let try_ = |g: u128, alone: bool| {
            let mut s = s.clone();
            s.edit_zc(&p.w().group, |x: &mut Group| x.ix_gate = g);
            rep.case();
            let mut t: Vec<Instruction> = if alone { vec![t[0][c.main].clone()] } else { t[0].clone() };
            if c.name == "serum3_place_order" {
                // with writable banks it is executed like the second version when only that is enabled
                for m in t[0].accounts[17..].iter_mut() {
                    m.is_writable = false;
                }
            }
            run(&s, &t).0
        };
        for bit in 0..128u32 {
            // other instructions of the transaction have their own gates
            let mine = c.gate.map_or(false, |g| g as u32 == bit);
            let r = try_(1 << bit, false);
            if t[0].len() == 1 || mine {
                if r.is_ok() == mine {
                    rep.violation(&format!("{} gate {bit}: {who}", if mine { "not stopped by" } else { "stopped by" }), &format!("{r:?}"));
                }
            }
        }
        if t[0].len() == 1 {
            let all = !c.gate.map_or(0, |g| 1u128 << g as u32);
            if let Err(e) = try_(all, true) {
                rep.violation(&format!("stopped by other gates: {who}"), &format!("{e:?}"));
            }
            if c.gate.is_some() && try_(u128::MAX, true).is_ok() {
                rep.violation(&format!("not stopped with everything disabled: {who}"), "");
            }
        }
    });
}
pub fn dump() {
    let mx = Mx::new();
    for c in catalogue() {
        for v in 0..VARIANTS.len() {
            let r = quiet_catch(|| {
                let (s, t) = mx.prepare(&c, &[0, v]);
                let (r, p) = run(&s, &t[1]);
                (r, p.hash() != s.hash())
            });
            match r {
                Ok((Ok(()), true)) => {}
                Ok((Ok(()), false)) => println!("{} {}: no effect", c.name, VARIANTS[v].0),
                Ok((e, _)) => println!("{} {}: {e:?}", c.name, VARIANTS[v].0),
                Err(p) => println!("{} {}: panic {p}", c.name, VARIANTS[v].0),
            }
        }
    }
}
