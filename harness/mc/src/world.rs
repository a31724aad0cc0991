//! Fixture and instruction builders. All set-up happens through the program's own instructions.
use crate::refm::acc;
use crate::svm::*;
use anchor_lang::prelude::*;
use anchor_lang::{InstructionData, ToAccountMetas};
use fixed::types::I80F48;
use mango_v4::accounts_ix::*;
use mango_v4::state::*;
use solana_program::instruction::Instruction;
use solana_program::{system_program, sysvar};

pub fn pk(name: &str) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(name.as_bytes()).to_bytes())
}
pub fn dex_program() -> Pubkey {
    static D: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
    *D.get_or_init(|| pk("dex program"))
}
pub fn fx(v: f64) -> I80F48 {
    I80F48::from_num(v)
}

pub fn ix<A: ToAccountMetas, D: InstructionData>(a: A, d: D) -> Instruction {
    Instruction { program_id: mango_v4::ID, accounts: a.to_account_metas(None), data: d.data() }
}
pub fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn rw(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub trait With {
    fn with(self, m: impl IntoIterator<Item = AccountMeta>) -> Self;
}
impl With for Instruction {
    fn with(mut self, m: impl IntoIterator<Item = AccountMeta>) -> Self {
        self.accounts.extend(m);
        self
    }
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub mint: Pubkey,
    pub index: TokenIndex,
    pub decimals: u8,
    pub bank: Pubkey,
    pub vault: Pubkey,
    pub mint_info: Pubkey,
    pub oracle: Pubkey,
}
#[derive(Clone, Debug)]
pub struct Perp {
    pub market: Pubkey,
    pub index: PerpMarketIndex,
    pub oracle: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub event_queue: Pubkey,
}
#[derive(Clone, Debug)]
pub struct Serum {
    pub market: Pubkey,
    pub index: u16,
    pub ext: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub event_q: Pubkey,
    pub req_q: Pubkey,
    pub coin_vault: Pubkey,
    pub pc_vault: Pubkey,
    pub signer: Pubkey,
    pub base: usize,
    pub quote: usize,
}
#[derive(Clone, Debug)]
pub struct World {
    pub name: String,
    pub admin: Pubkey,
    pub payer: Pubkey,
    pub group: Pubkey,
    pub insurance_mint: Pubkey,
    pub insurance_vault: Pubkey,
    pub toks: Vec<Tok>,
    pub perps: Vec<Perp>,
    pub serums: Vec<Serum>,
}

#[derive(Clone)]
pub struct TokCfg {
    pub price: f64,
    pub maint_asset: f32,
    pub init_asset: f32,
    pub maint_liab: f32,
    pub init_liab: f32,
    pub liq_fee: f32,
    pub platform_liq_fee: f32,
    pub loan_orig_fee: f32,
    pub loan_fee_rate: f32,
    pub rates: (f32, f32, f32, f32, f32), // util0, rate0, util1, rate1, max
    pub zero_util_rate: f32,
    pub adjustment: f32,
    pub min_vault_ratio: f64,
    pub net_borrow_limit: i64,
    pub net_borrow_window: u64,
    pub borrow_scale: f64,
    pub deposit_scale: f64,
    pub reduce_only: u8,
    pub deposit_limit: u64,
    pub tcs_taker: f32,
    pub tcs_maker: f32,
    pub fl_swap_fee: f32,
    pub insurance: bool,
    pub disable_liq: bool,
    pub collateral_fee: f32,
    pub decimals: u8,
    pub conf_filter: f32,
    pub max_staleness: Option<u32>,
    pub interest_target: f32,
}
impl Default for TokCfg {
    fn default() -> Self {
        TokCfg {
            price: 1.0,
            maint_asset: 0.8,
            init_asset: 0.6,
            maint_liab: 1.2,
            init_liab: 1.4,
            liq_fee: 0.02,
            platform_liq_fee: 0.0,
            loan_orig_fee: 0.0005,
            loan_fee_rate: 0.0005,
            rates: (0.4, 0.07, 0.8, 0.9, 1.5),
            zero_util_rate: 0.0,
            adjustment: 0.01,
            min_vault_ratio: 0.2,
            net_borrow_limit: 1_000_000_000_000,
            net_borrow_window: 24 * 3600,
            borrow_scale: f64::MAX,
            deposit_scale: f64::MAX,
            reduce_only: 0,
            deposit_limit: 0,
            tcs_taker: 0.0,
            tcs_maker: 0.0,
            fl_swap_fee: 0.0,
            insurance: true,
            disable_liq: false,
            collateral_fee: 0.0,
            decimals: 6,
            conf_filter: 0.1,
            max_staleness: None,
            interest_target: 0.5,
        }
    }
}
impl TokCfg {
    pub fn quote() -> Self {
        TokCfg { maint_asset: 1.0, init_asset: 1.0, maint_liab: 1.0, init_liab: 1.0, liq_fee: 0.0, ..Default::default() }
    }
}

#[derive(Clone)]
pub struct PerpCfg {
    pub price: f64,
    pub quote_lot: i64,
    pub base_lot: i64,
    pub maint_asset: f32,
    pub init_asset: f32,
    pub maint_liab: f32,
    pub init_liab: f32,
    pub overall_maint: f32,
    pub overall_init: f32,
    pub liq_fee: f32,
    pub platform_liq_fee: f32,
    pub pos_pnl_liq_fee: f32,
    pub maker_fee: f32,
    pub taker_fee: f32,
    pub min_funding: f32,
    pub max_funding: f32,
    pub impact: i64,
    pub insurance: bool,
    pub fee_penalty: f32,
    pub settle_flat: f32,
    pub settle_threshold: f32,
    pub settle_fraction: f32,
    pub settle_tok: TokenIndex,
    pub settle_limit_factor: f32,
    pub settle_limit_window: u64,
    pub base_decimals: u8,
}
impl Default for PerpCfg {
    fn default() -> Self {
        PerpCfg {
            price: 1.0,
            quote_lot: 10,
            base_lot: 100,
            maint_asset: 0.975,
            init_asset: 0.95,
            maint_liab: 1.025,
            init_liab: 1.05,
            overall_maint: 1.0,
            overall_init: 1.0,
            liq_fee: 0.012,
            platform_liq_fee: 0.0,
            pos_pnl_liq_fee: 0.0,
            maker_fee: -0.0001,
            taker_fee: 0.0002,
            min_funding: -0.05,
            max_funding: 0.05,
            impact: 100,
            insurance: true,
            fee_penalty: 0.0,
            settle_flat: 0.0,
            settle_threshold: 0.0,
            settle_fraction: 0.0,
            settle_tok: 0,
            settle_limit_factor: 0.2,
            settle_limit_window: 24 * 3600,
            base_decimals: 6,
        }
    }
}

pub const RICH: u64 = 1_000_000_000_000_000;

pub fn put_mint(s: &mut State, k: Pubkey, decimals: u8) {
    let mut d = vec![0u8; 82];
    let m = spl_token::state::Mint {
        mint_authority: solana_program::program_option::COption::None,
        supply: 0,
        decimals,
        is_initialized: true,
        freeze_authority: solana_program::program_option::COption::None,
    };
    solana_program::program_pack::Pack::pack(m, &mut d).unwrap();
    s.set(k, Acct::new(10_000_000, spl_token::ID, d));
}
pub fn put_token(s: &mut State, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
    let mut d = vec![0u8; 165];
    let t = spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() };
    solana_program::program_pack::Pack::pack(t, &mut d).unwrap();
    s.set(k, Acct::new(10_000_000, spl_token::ID, d));
}
pub fn spl_transfer(from: Pubkey, to: Pubkey, authority: Pubkey, amount: u64) -> Instruction {
    spl_token::instruction::transfer(&spl_token::ID, &from, &to, &authority, &[], amount).unwrap()
}
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    anchor_spl::associated_token::get_associated_token_address(owner, mint)
}

impl World {
    /// Creates group + insurance vault. Insurance mint is the mint of token 0.
    pub fn new(name: &str, s: &mut State, version: u8, testing: u8) -> World {
        let admin = if name.ends_with(" b") { pk("admin b") } else { pk("admin") };
        let payer = pk("payer");
        for k in [admin, payer] {
            s.set(k, Acct::new(RICH, system_program::ID, vec![]));
        }
        for k in [mango_v4::ID, spl_token::ID, system_program::ID, dex_program(), ata_program(), margin_trade::ID, proxy_program(), jupiter(), compute_budget()] {
            let mut a = Acct::new(1, solana_program::bpf_loader::ID, vec![]);
            a.executable = true;
            s.set(k, a);
        }
        s.set(sysvar::rent::ID, Acct::new(1, sysvar::ID, bincode::serialize(&solana_program::rent::Rent::default()).unwrap()));
        let insurance_mint = pk(&format!("{name} mint 0"));
        put_mint(s, insurance_mint, 6);
        let group_num = solana_program::hash::hash(name.as_bytes()).to_bytes()[0] as u32;
        let group = Pubkey::find_program_address(&[b"Group", admin.as_ref(), &group_num.to_le_bytes()], &mango_v4::ID).0;
        let insurance_vault = Pubkey::find_program_address(&[b"InsuranceVault", group.as_ref()], &mango_v4::ID).0;
        s.tx(&[ix(
            mango_v4::accounts::GroupCreate { group, creator: admin, insurance_mint, insurance_vault, payer, token_program: spl_token::ID, system_program: system_program::ID, rent: sysvar::rent::ID },
            mango_v4::instruction::GroupCreate { group_num, testing, version },
        )])
        .unwrap_or_else(|e| panic!("{e:?} {:?}", take_logs()));
        World { name: name.into(), admin, payer, group, insurance_mint, insurance_vault, toks: vec![], perps: vec![], serums: vec![] }
    }

    pub fn pda(&self, seed: &[u8], parts: &[&[u8]]) -> Pubkey {
        let mut v: Vec<&[u8]> = vec![seed, self.group.as_ref()];
        v.extend_from_slice(parts);
        Pubkey::find_program_address(&v, &mango_v4::ID).0
    }

    pub fn oracle_ix(&self, oracle: Pubkey, price: f64) -> Instruction {
        ix(mango_v4::accounts::StubOracleSet { group: self.group, admin: self.admin, oracle }, mango_v4::instruction::StubOracleSet { price: fx(price) })
    }
    pub fn oracle_set_test_ix(&self, oracle: Pubkey, price: f64, slot: u64, dev: f64) -> Instruction {
        ix(
            mango_v4::accounts::StubOracleSet { group: self.group, admin: self.admin, oracle },
            mango_v4::instruction::StubOracleSetTest { price: fx(price), last_update_slot: slot, deviation: fx(dev) },
        )
    }
    pub fn make_oracle(&self, s: &mut State, mint: Pubkey, price: f64) -> Pubkey {
        let oracle = self.pda(b"StubOracle", &[mint.as_ref()]);
        s.tx(&[ix(
            mango_v4::accounts::StubOracleCreate { group: self.group, oracle, admin: self.admin, mint, payer: self.payer, system_program: system_program::ID },
            mango_v4::instruction::StubOracleCreate { price: fx(price) },
        )])
        .expect("oracle");
        oracle
    }

    pub fn register_ix(&self, index: TokenIndex, mint: Pubkey, oracle: Pubkey, c: &TokCfg) -> Instruction {
        let bank = self.pda(b"Bank", &[&index.to_le_bytes(), &0u32.to_le_bytes()]);
        let vault = self.pda(b"Vault", &[&index.to_le_bytes(), &0u32.to_le_bytes()]);
        let mint_info = self.pda(b"MintInfo", &[mint.as_ref()]);
        ix(
            mango_v4::accounts::TokenRegister {
                group: self.group, admin: self.admin, mint, bank, vault, mint_info, oracle, fallback_oracle: Pubkey::default(),
                payer: self.payer, token_program: spl_token::ID, system_program: system_program::ID, rent: sysvar::rent::ID,
            },
            mango_v4::instruction::TokenRegister {
                token_index: index,
                name: format!("T{index}"),
                oracle_config: OracleConfigParams { conf_filter: c.conf_filter, max_staleness_slots: c.max_staleness },
                interest_rate_params: InterestRateParams { util0: c.rates.0, rate0: c.rates.1, util1: c.rates.2, rate1: c.rates.3, max_rate: c.rates.4, adjustment_factor: c.adjustment },
                loan_fee_rate: c.loan_fee_rate,
                loan_origination_fee_rate: c.loan_orig_fee,
                maint_asset_weight: c.maint_asset,
                init_asset_weight: c.init_asset,
                maint_liab_weight: c.maint_liab,
                init_liab_weight: c.init_liab,
                liquidation_fee: c.liq_fee,
                stable_price_delay_interval_seconds: StablePriceModel::default().delay_interval_seconds,
                stable_price_delay_growth_limit: StablePriceModel::default().delay_growth_limit,
                stable_price_growth_limit: StablePriceModel::default().stable_growth_limit,
                min_vault_to_deposits_ratio: c.min_vault_ratio,
                net_borrow_limit_window_size_ts: c.net_borrow_window,
                net_borrow_limit_per_window_quote: c.net_borrow_limit,
                borrow_weight_scale_start_quote: c.borrow_scale,
                deposit_weight_scale_start_quote: c.deposit_scale,
                reduce_only: c.reduce_only,
                token_conditional_swap_taker_fee_rate: c.tcs_taker,
                token_conditional_swap_maker_fee_rate: c.tcs_maker,
                flash_loan_swap_fee_rate: c.fl_swap_fee,
                interest_curve_scaling: 1.0,
                interest_target_utilization: c.interest_target,
                group_insurance_fund: c.insurance,
                deposit_limit: c.deposit_limit,
                zero_util_rate: c.zero_util_rate,
                platform_liquidation_fee: c.platform_liq_fee,
                disable_asset_liquidation: c.disable_liq,
                collateral_fee_per_day: c.collateral_fee,
                tier: "A".into(),
            },
        )
    }

    pub fn add_token(&mut self, s: &mut State, c: &TokCfg) -> usize {
        let n = self.toks.len();
        let index = n as TokenIndex;
        let mint = pk(&format!("{} mint {n}", self.name));
        put_mint(s, mint, c.decimals);
        let oracle = self.make_oracle(s, mint, c.price);
        let r = self.register_ix(index, mint, oracle, c);
        s.tx(&[r]).expect("token_register");
        self.toks.push(Tok {
            mint,
            index,
            decimals: c.decimals,
            bank: self.pda(b"Bank", &[&index.to_le_bytes(), &0u32.to_le_bytes()]),
            vault: self.pda(b"Vault", &[&index.to_le_bytes(), &0u32.to_le_bytes()]),
            mint_info: self.pda(b"MintInfo", &[mint.as_ref()]),
            oracle,
        });
        n
    }

    pub fn add_bank_ix(&self, tok: usize, bank_num: u32) -> (Instruction, Pubkey, Pubkey) {
        let t = &self.toks[tok];
        let bank = self.pda(b"Bank", &[&t.index.to_le_bytes(), &bank_num.to_le_bytes()]);
        let vault = self.pda(b"Vault", &[&t.index.to_le_bytes(), &bank_num.to_le_bytes()]);
        (
            ix(
                mango_v4::accounts::TokenAddBank {
                    group: self.group, admin: self.admin, mint: t.mint, existing_bank: t.bank, bank, vault, mint_info: t.mint_info,
                    payer: self.payer, token_program: spl_token::ID, system_program: system_program::ID, rent: sysvar::rent::ID,
                },
                mango_v4::instruction::TokenAddBank { token_index: t.index, bank_num },
            ),
            bank,
            vault,
        )
    }

    pub fn add_perp(&mut self, s: &mut State, c: &PerpCfg) -> usize {
        let n = self.perps.len();
        let index = n as PerpMarketIndex;
        let fake_mint = pk(&format!("{} perp mint {n}", self.name));
        put_mint(s, fake_mint, c.base_decimals);
        let oracle = self.make_oracle(s, fake_mint, c.price);
        self.add_perp_with_oracle(s, c, index, oracle)
    }
    pub fn add_perp_with_oracle(&mut self, s: &mut State, c: &PerpCfg, index: PerpMarketIndex, oracle: Pubkey) -> usize {
        let n = self.perps.len();
        let market = self.pda(b"PerpMarket", &[&index.to_le_bytes()]);
        let mk = |s: &mut State, tag: &str, size: usize| {
            let k = pk(&format!("{} perp {n} {tag}", self.name));
            s.set(k, Acct::new(RICH, mango_v4::ID, vec![0u8; size]));
            k
        };
        let bids = mk(s, "bids", 8 + std::mem::size_of::<BookSide>());
        let asks = mk(s, "asks", 8 + std::mem::size_of::<BookSide>());
        let event_queue = mk(s, "eq", 8 + std::mem::size_of::<EventQueue>());
        s.tx(&[ix(
            mango_v4::accounts::PerpCreateMarket { group: self.group, admin: self.admin, oracle, perp_market: market, bids, asks, event_queue, payer: self.payer, system_program: system_program::ID },
            mango_v4::instruction::PerpCreateMarket {
                perp_market_index: index,
                name: format!("P{n}"),
                oracle_config: OracleConfigParams { conf_filter: 0.1, max_staleness_slots: None },
                base_decimals: c.base_decimals,
                quote_lot_size: c.quote_lot,
                base_lot_size: c.base_lot,
                maint_base_asset_weight: c.maint_asset,
                init_base_asset_weight: c.init_asset,
                maint_base_liab_weight: c.maint_liab,
                init_base_liab_weight: c.init_liab,
                maint_overall_asset_weight: c.overall_maint,
                init_overall_asset_weight: c.overall_init,
                base_liquidation_fee: c.liq_fee,
                maker_fee: c.maker_fee,
                taker_fee: c.taker_fee,
                min_funding: c.min_funding,
                max_funding: c.max_funding,
                impact_quantity: c.impact,
                group_insurance_fund: c.insurance,
                fee_penalty: c.fee_penalty,
                settle_fee_flat: c.settle_flat,
                settle_fee_amount_threshold: c.settle_threshold,
                settle_fee_fraction_low_health: c.settle_fraction,
                settle_token_index: c.settle_tok,
                settle_pnl_limit_factor: c.settle_limit_factor,
                settle_pnl_limit_window_size_ts: c.settle_limit_window,
                positive_pnl_liquidation_fee: c.pos_pnl_liq_fee,
                platform_liquidation_fee: c.platform_liq_fee,
            },
        )])
        .expect("perp_create_market");
        self.perps.push(Perp { market, index, oracle, bids, asks, event_queue });
        n
    }

    /// Creates an external DEX market and registers it.
    pub fn add_serum(&mut self, s: &mut State, base: usize, quote: usize, coin_lot: u64, pc_lot: u64, band: f32) -> usize {
        use serum_dex::state::*;
        let n = self.serums.len();
        let key = |t: &str| pk(&format!("{} serum {n} {t}", self.name));
        let (ext, bids, asks, event_q, req_q, coin_vault, pc_vault) = (key("ext"), key("bids"), key("asks"), key("evq"), key("reqq"), key("cv"), key("pv"));
        let (signer, nonce) = serum_dex::processor::vault_signer(&dex_program(), &ext);
        put_token(s, coin_vault, self.toks[base].mint, signer, 0);
        put_token(s, pc_vault, self.toks[quote].mint, signer, 0);
        let wrap = |b: &[u8]| [&b"serum"[..], b, &b"padding"[..]].concat();
        let ms = MarketState {
            account_flags: 3,
            own_address: ext.to_aligned_bytes(),
            vault_signer_nonce: nonce,
            coin_mint: self.toks[base].mint.to_aligned_bytes(),
            pc_mint: self.toks[quote].mint.to_aligned_bytes(),
            coin_vault: coin_vault.to_aligned_bytes(),
            coin_deposits_total: 0,
            coin_fees_accrued: 0,
            pc_vault: pc_vault.to_aligned_bytes(),
            pc_deposits_total: 0,
            pc_fees_accrued: 0,
            pc_dust_threshold: 1,
            req_q: req_q.to_aligned_bytes(),
            event_q: event_q.to_aligned_bytes(),
            bids: bids.to_aligned_bytes(),
            asks: asks.to_aligned_bytes(),
            coin_lot_size: coin_lot,
            pc_lot_size: pc_lot,
            fee_rate_bps: 0,
            referrer_rebates_accrued: 0,
        };
        s.set(ext, Acct::new(RICH, dex_program(), wrap(bytemuck::bytes_of(&ms))));
        let book = |flag: u64| {
            let mut b = vec![0u8; 8 + 8 + 16 * 80];
            b[..8].copy_from_slice(&(1u64 | flag).to_le_bytes());
            wrap(&b)
        };
        s.set(bids, Acct::new(RICH, dex_program(), book(AccountFlag::Bids as u64)));
        s.set(asks, Acct::new(RICH, dex_program(), book(AccountFlag::Asks as u64)));
        s.set(event_q, Acct::new(RICH, dex_program(), wrap(&vec![0u8; 24 + 112 * 24])));
        s.set(req_q, Acct::new(RICH, dex_program(), wrap(&[0u8; 8])));
        let index = n as u16;
        let market = self.pda(b"Serum3Market", &[ext.as_ref()]);
        let index_reservation = self.pda(b"Serum3Index", &[&index.to_le_bytes()]);
        s.tx(&[ix(
            mango_v4::accounts::Serum3RegisterMarket {
                group: self.group, admin: self.admin, serum_program: dex_program(), serum_market_external: ext, serum_market: market, index_reservation,
                quote_bank: self.toks[quote].bank, base_bank: self.toks[base].bank, payer: self.payer, system_program: system_program::ID,
            },
            mango_v4::instruction::Serum3RegisterMarket { market_index: index, name: format!("S{n}"), oracle_price_band: band },
        )])
        .expect("serum3_register_market");
        self.serums.push(Serum { market, index, ext, bids, asks, event_q, req_q, coin_vault, pc_vault, signer, base, quote });
        n
    }

    // ---------------------------------------------------------------- users
    pub fn user(&self, s: &mut State, name: &str, amount: u64) -> Pubkey {
        let k = pk(name);
        s.set(k, Acct::new(RICH, system_program::ID, vec![]));
        for t in &self.toks {
            put_token(s, ata(&k, &t.mint), t.mint, k, amount);
        }
        k
    }
    pub fn account_key(&self, owner: &Pubkey, num: u32) -> Pubkey {
        self.pda(b"MangoAccount", &[owner.as_ref(), &num.to_le_bytes()])
    }
    pub fn create_account(&self, s: &mut State, owner: Pubkey, num: u32) -> Pubkey {
        self.create_account_sized(s, owner, num, 4, 2, 2, 4, 2)
    }
    pub fn create_account_sized(&self, s: &mut State, owner: Pubkey, num: u32, t: u8, s3: u8, p: u8, oo: u8, tcs: u8) -> Pubkey {
        let account = self.account_key(&owner, num);
        s.tx(&[ix(
            mango_v4::accounts::AccountCreateV2 { group: self.group, account, owner, payer: self.payer, system_program: system_program::ID },
            mango_v4::instruction::AccountCreateV2 {
                account_num: num, token_count: t, serum3_count: s3, perp_count: p, perp_oo_count: oo, token_conditional_swap_count: tcs, name: "a".into(),
            },
        )])
        .expect("account_create");
        account
    }

    pub fn bank(&self, s: &State, tok: usize) -> Bank {
        s.zc(&self.toks[tok].bank)
    }
    pub fn perp(&self, s: &State, p: usize) -> PerpMarket {
        s.zc(&self.perps[p].market)
    }
    pub fn tok_by_index(&self, i: TokenIndex) -> usize {
        self.toks.iter().position(|t| t.index == i).unwrap()
    }
    pub fn perp_by_index(&self, i: PerpMarketIndex) -> usize {
        self.perps.iter().position(|t| t.index == i).unwrap()
    }

    // ------------------------------------------------------- health accounts
    /// Fixed-order health accounts of one mango account, optionally with positions that the
    /// instruction is going to open.
    pub fn health(&self, s: &State, account: &Pubkey, tok: Option<usize>, perp: Option<usize>, writable: bool) -> Vec<AccountMeta> {
        self.health_multi(s, account, &tok.into_iter().collect::<Vec<_>>(), perp, writable)
    }
    pub fn health_multi(&self, s: &State, account: &Pubkey, tok: &[usize], perp: Option<usize>, writable: bool) -> Vec<AccountMeta> {
        let a = acc(s, account);
        let mut toks: Vec<TokenIndex> = a.tokens.iter().map(|t| t.token_index).collect();
        let mut pps: Vec<PerpMarketIndex> = a.perps.iter().map(|t| t.market_index).collect();
        let mut open = |i: TokenIndex| {
            if !toks.contains(&i) {
                if let Some(x) = toks.iter_mut().find(|x| **x == TokenIndex::MAX) {
                    *x = i;
                }
            }
        };
        for &t in tok {
            open(self.toks[t].index);
        }
        if let Some(p) = perp {
            let pm = self.perp(s, p);
            if !pps.contains(&pm.perp_market_index) {
                if let Some(x) = pps.iter_mut().find(|x| **x == PerpMarketIndex::MAX) {
                    *x = pm.perp_market_index;
                }
                open(pm.settle_token_index);
            }
        }
        let mut banks = vec![];
        let mut oracles = vec![];
        for p in toks.iter().filter(|x| **x != TokenIndex::MAX) {
            let t = &self.toks[self.tok_by_index(*p)];
            banks.push(AccountMeta { pubkey: t.bank, is_signer: false, is_writable: writable });
            oracles.push(ro(t.oracle));
        }
        let perps: Vec<_> = pps.iter().filter(|x| **x != PerpMarketIndex::MAX).map(|p| self.perps[self.perp_by_index(*p)].clone()).collect();
        banks
            .into_iter()
            .chain(oracles)
            .chain(perps.iter().map(|p| ro(p.market)))
            .chain(perps.iter().map(|p| ro(p.oracle)))
            .chain(a.active_serum().map(|o| ro(o.open_orders)))
            .collect()
    }
    /// Accounts for instructions that scan: union over several mango accounts.
    pub fn scan(&self, s: &State, accounts: &[Pubkey], toks: &[usize], writable: &[usize]) -> Vec<AccountMeta> {
        let accs: Vec<_> = accounts.iter().map(|a| acc(s, a)).collect();
        let mut ti: Vec<usize> = vec![];
        for a in &accs {
            for p in a.active_tokens() {
                let t = self.tok_by_index(p.token_index);
                if !ti.contains(&t) {
                    ti.push(t);
                }
            }
        }
        for &t in toks.iter().chain(writable) {
            if !ti.contains(&t) {
                ti.push(t);
            }
        }
        let mut pi: Vec<usize> = vec![];
        for a in &accs {
            for p in a.active_perps() {
                let x = self.perp_by_index(p.market_index);
                if !pi.contains(&x) {
                    pi.push(x);
                }
            }
        }
        let mut out: Vec<AccountMeta> =
            ti.iter().map(|&t| AccountMeta { pubkey: self.toks[t].bank, is_signer: false, is_writable: writable.contains(&t) }).collect();
        out.extend(ti.iter().map(|&t| ro(self.toks[t].oracle)));
        out.extend(pi.iter().map(|&p| ro(self.perps[p].market)));
        out.extend(pi.iter().map(|&p| ro(self.perps[p].oracle)));
        for a in &accs {
            out.extend(a.active_serum().map(|o| ro(o.open_orders)));
        }
        out
    }

    // ------------------------------------------------------------- token ixs
    pub fn deposit(&self, s: &State, account: Pubkey, owner: Pubkey, tok: usize, amount: u64, reduce_only: bool) -> Instruction {
        let t = &self.toks[tok];
        ix(
            mango_v4::accounts::TokenDeposit { group: self.group, account, owner, bank: t.bank, vault: t.vault, oracle: t.oracle, token_account: ata(&owner, &t.mint), token_authority: owner, token_program: spl_token::ID },
            mango_v4::instruction::TokenDeposit { amount, reduce_only },
        )
        .with(self.health(s, &account, Some(tok), None, false))
    }
    pub fn deposit_into(&self, s: &State, account: Pubkey, authority: Pubkey, tok: usize, amount: u64, reduce_only: bool) -> Instruction {
        let t = &self.toks[tok];
        ix(
            mango_v4::accounts::TokenDepositIntoExisting { group: self.group, account, bank: t.bank, vault: t.vault, oracle: t.oracle, token_account: ata(&authority, &t.mint), token_authority: authority, token_program: spl_token::ID },
            mango_v4::instruction::TokenDepositIntoExisting { amount, reduce_only },
        )
        .with(self.health(s, &account, Some(tok), None, false))
    }
    pub fn withdraw(&self, s: &State, account: Pubkey, owner: Pubkey, tok: usize, amount: u64, allow_borrow: bool) -> Instruction {
        let t = &self.toks[tok];
        ix(
            mango_v4::accounts::TokenWithdraw { group: self.group, account, owner, bank: t.bank, vault: t.vault, oracle: t.oracle, token_account: ata(&owner, &t.mint), token_program: spl_token::ID },
            mango_v4::instruction::TokenWithdraw { amount, allow_borrow },
        )
        .with(self.health(s, &account, Some(tok), None, false))
    }
    pub fn update_index(&self, tok: usize) -> Instruction {
        self.update_index_banks(tok, &[self.toks[tok].bank])
    }
    pub fn update_index_banks(&self, tok: usize, banks: &[Pubkey]) -> Instruction {
        let t = &self.toks[tok];
        ix(
            mango_v4::accounts::TokenUpdateIndexAndRate { group: self.group, mint_info: t.mint_info, oracle: t.oracle, instructions: sysvar::instructions::ID },
            mango_v4::instruction::TokenUpdateIndexAndRate {},
        )
        .with(banks.iter().map(|b| rw(*b)))
    }
    pub fn liq_token(&self, s: &State, liqor: Pubkey, liqor_owner: Pubkey, liqee: Pubkey, asset: usize, liab: usize, max: f64) -> Instruction {
        ix(
            mango_v4::accounts::TokenLiqWithToken { group: self.group, liqor, liqor_owner, liqee },
            mango_v4::instruction::TokenLiqWithToken { asset_token_index: self.toks[asset].index, liab_token_index: self.toks[liab].index, max_liab_transfer: fx(max) },
        )
        .with(self.scan(s, &[liqee, liqor], &[], &[asset, liab]))
    }
    pub fn force_close_borrows(&self, s: &State, liqor: Pubkey, liqor_owner: Pubkey, liqee: Pubkey, asset: usize, liab: usize, max: u64) -> Instruction {
        ix(
            mango_v4::accounts::TokenForceCloseBorrowsWithToken { group: self.group, liqor, liqor_owner, liqee },
            mango_v4::instruction::TokenForceCloseBorrowsWithToken { asset_token_index: self.toks[asset].index, liab_token_index: self.toks[liab].index, max_liab_transfer: max },
        )
        .with(self.scan(s, &[liqee, liqor], &[], &[asset, liab]))
    }
    pub fn liq_bankruptcy(&self, s: &State, liqor: Pubkey, liqor_owner: Pubkey, liqee: Pubkey, liab: usize, max: f64) -> Instruction {
        let mi: MintInfo = s.zc(&self.toks[liab].mint_info);
        let banks: Vec<_> = mi.banks.iter().filter(|b| **b != Pubkey::default()).map(|b| rw(*b)).collect();
        ix(
            mango_v4::accounts::TokenLiqBankruptcy { group: self.group, liqor, liqor_owner, liqee, liab_mint_info: self.toks[liab].mint_info, quote_vault: self.toks[0].vault, insurance_vault: self.insurance_vault, token_program: spl_token::ID },
            mango_v4::instruction::TokenLiqBankruptcy { max_liab_transfer: fx(max) },
        )
        .with(banks)
        .with(self.scan(s, &[liqee, liqor], &[], &[0, liab]))
    }
    pub fn force_withdraw(&self, s: &State, account: Pubkey, tok: usize, ata_acc: Pubkey, alt: Pubkey) -> Instruction {
        let t = &self.toks[tok];
        let _ = s;
        ix(
            mango_v4::accounts::TokenForceWithdraw { group: self.group, account, bank: t.bank, vault: t.vault, oracle: t.oracle, owner_ata_token_account: ata_acc, alternate_owner_token_account: alt, token_program: spl_token::ID },
            mango_v4::instruction::TokenForceWithdraw {},
        )
    }
    pub fn charge_collateral_fees(&self, s: &State, account: Pubkey) -> Instruction {
        ix(mango_v4::accounts::TokenChargeCollateralFees { group: self.group, account }, mango_v4::instruction::TokenChargeCollateralFees {})
            .with(self.health(s, &account, None, None, true))
    }

    // -------------------------------------------------------------- perp ixs
    #[allow(clippy::too_many_arguments)]
    pub fn perp_place(&self, s: &State, account: Pubkey, owner: Pubkey, p: usize, side: Side, price_lots: i64, base: i64, quote: i64, cid: u64, order_type: PlaceOrderType, stb: SelfTradeBehavior, reduce_only: bool, expiry: u64, limit: u8) -> Instruction {
        let m = &self.perps[p];
        ix(
            mango_v4::accounts::PerpPlaceOrder { group: self.group, account, owner, perp_market: m.market, bids: m.bids, asks: m.asks, event_queue: m.event_queue, oracle: m.oracle },
            mango_v4::instruction::PerpPlaceOrderV2 {
                side, price_lots, max_base_lots: base, max_quote_lots: quote, client_order_id: cid, order_type, self_trade_behavior: stb, reduce_only, expiry_timestamp: expiry, limit,
            },
        )
        .with(self.health(s, &account, None, Some(p), false))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn perp_place_pegged(&self, s: &State, account: Pubkey, owner: Pubkey, p: usize, side: Side, offset: i64, peg_limit: i64, base: i64, quote: i64, cid: u64, order_type: PlaceOrderType, stb: SelfTradeBehavior, reduce_only: bool, expiry: u64, limit: u8) -> Instruction {
        let m = &self.perps[p];
        ix(
            mango_v4::accounts::PerpPlaceOrder { group: self.group, account, owner, perp_market: m.market, bids: m.bids, asks: m.asks, event_queue: m.event_queue, oracle: m.oracle },
            mango_v4::instruction::PerpPlaceOrderPeggedV2 {
                side, price_offset_lots: offset, peg_limit, max_base_lots: base, max_quote_lots: quote, client_order_id: cid, order_type, self_trade_behavior: stb, reduce_only, expiry_timestamp: expiry, limit, max_oracle_staleness_slots: -1,
            },
        )
        .with(self.health(s, &account, None, Some(p), false))
    }
    pub fn perp_cancel(&self, account: Pubkey, owner: Pubkey, p: usize, order_id: u128) -> Instruction {
        let m = &self.perps[p];
        ix(mango_v4::accounts::PerpCancelOrder { group: self.group, account, owner, perp_market: m.market, bids: m.bids, asks: m.asks }, mango_v4::instruction::PerpCancelOrder { order_id })
    }
    pub fn perp_cancel_cid(&self, account: Pubkey, owner: Pubkey, p: usize, cid: u64) -> Instruction {
        let m = &self.perps[p];
        ix(
            mango_v4::accounts::PerpCancelOrderByClientOrderId { group: self.group, account, owner, perp_market: m.market, bids: m.bids, asks: m.asks },
            mango_v4::instruction::PerpCancelOrderByClientOrderId { client_order_id: cid },
        )
    }
    pub fn perp_cancel_all(&self, account: Pubkey, owner: Pubkey, p: usize, limit: u8) -> Instruction {
        let m = &self.perps[p];
        ix(mango_v4::accounts::PerpCancelAllOrders { group: self.group, account, owner, perp_market: m.market, bids: m.bids, asks: m.asks }, mango_v4::instruction::PerpCancelAllOrders { limit })
    }
    pub fn perp_cancel_all_side(&self, account: Pubkey, owner: Pubkey, p: usize, side: Option<Side>, limit: u8) -> Instruction {
        let m = &self.perps[p];
        ix(
            mango_v4::accounts::PerpCancelAllOrdersBySide { group: self.group, account, owner, perp_market: m.market, bids: m.bids, asks: m.asks },
            mango_v4::instruction::PerpCancelAllOrdersBySide { side_option: side, limit },
        )
    }
    pub fn perp_consume(&self, p: usize, accounts: &[Pubkey], limit: usize) -> Instruction {
        let m = &self.perps[p];
        ix(mango_v4::accounts::PerpConsumeEvents { group: self.group, perp_market: m.market, event_queue: m.event_queue }, mango_v4::instruction::PerpConsumeEvents { limit })
            .with(accounts.iter().map(|a| rw(*a)))
    }
    pub fn perp_update_funding(&self, p: usize) -> Instruction {
        let m = &self.perps[p];
        ix(mango_v4::accounts::PerpUpdateFunding { group: self.group, perp_market: m.market, bids: m.bids, asks: m.asks, oracle: m.oracle }, mango_v4::instruction::PerpUpdateFunding {})
    }
    pub fn settle_tok(&self, s: &State, p: usize) -> usize {
        self.tok_by_index(self.perp(s, p).settle_token_index)
    }
    pub fn perp_settle_pnl(&self, s: &State, settler: Pubkey, settler_owner: Pubkey, a: Pubkey, b: Pubkey, p: usize) -> Instruction {
        let m = &self.perps[p];
        let t = &self.toks[self.settle_tok(s, p)];
        ix(
            mango_v4::accounts::PerpSettlePnl { group: self.group, settler, settler_owner, perp_market: m.market, account_a: a, account_b: b, oracle: m.oracle, settle_bank: t.bank, settle_oracle: t.oracle },
            mango_v4::instruction::PerpSettlePnl {},
        )
        .with(self.scan(s, &[a, b], &[], &[self.settle_tok(s, p)]))
    }
    pub fn perp_settle_fees(&self, s: &State, account: Pubkey, p: usize, max: u64) -> Instruction {
        let m = &self.perps[p];
        let t = &self.toks[self.settle_tok(s, p)];
        ix(
            mango_v4::accounts::PerpSettleFees { group: self.group, perp_market: m.market, account, oracle: m.oracle, settle_bank: t.bank, settle_oracle: t.oracle },
            mango_v4::instruction::PerpSettleFees { max_settle_amount: max },
        )
        .with(self.health(s, &account, None, None, true))
    }
    pub fn perp_force_close(&self, a: Pubkey, b: Pubkey, p: usize) -> Instruction {
        let m = &self.perps[p];
        ix(mango_v4::accounts::PerpForceClosePosition { group: self.group, perp_market: m.market, account_a: a, account_b: b, oracle: m.oracle }, mango_v4::instruction::PerpForceClosePosition {})
    }
    pub fn perp_deactivate(&self, account: Pubkey, owner: Pubkey, p: usize) -> Instruction {
        ix(mango_v4::accounts::PerpDeactivatePosition { group: self.group, account, owner, perp_market: self.perps[p].market }, mango_v4::instruction::PerpDeactivatePosition {})
    }
    pub fn perp_liq_base(&self, s: &State, liqor: Pubkey, liqor_owner: Pubkey, liqee: Pubkey, p: usize, max_base: i64, max_pnl: u64) -> Instruction {
        let m = &self.perps[p];
        let t = &self.toks[self.settle_tok(s, p)];
        ix(
            mango_v4::accounts::PerpLiqBaseOrPositivePnl { group: self.group, perp_market: m.market, oracle: m.oracle, liqor, liqor_owner, liqee, settle_bank: t.bank, settle_vault: t.vault, settle_oracle: t.oracle },
            mango_v4::instruction::PerpLiqBaseOrPositivePnl { max_base_transfer: max_base, max_pnl_transfer: max_pnl },
        )
        .with(self.scan_perp(s, &[liqee, liqor], p))
    }
    /// scan() with the market's perp/settle token included even if no account has it yet
    fn scan_perp(&self, s: &State, accounts: &[Pubkey], p: usize) -> Vec<AccountMeta> {
        let _ = p;
        self.scan(s, accounts, &[], &[self.settle_tok(s, p)])
    }
    pub fn perp_liq_force_cancel(&self, s: &State, account: Pubkey, p: usize, limit: u8) -> Instruction {
        let m = &self.perps[p];
        ix(mango_v4::accounts::PerpLiqForceCancelOrders { group: self.group, account, perp_market: m.market, bids: m.bids, asks: m.asks }, mango_v4::instruction::PerpLiqForceCancelOrders { limit })
            .with(self.health(s, &account, None, None, false))
    }
    pub fn perp_liq_bankruptcy(&self, s: &State, liqor: Pubkey, liqor_owner: Pubkey, liqee: Pubkey, p: usize, max: u64) -> Instruction {
        let m = &self.perps[p];
        let t = &self.toks[self.settle_tok(s, p)];
        let i = &self.toks[0];
        ix(
            mango_v4::accounts::PerpLiqNegativePnlOrBankruptcyV2 {
                group: self.group, liqor, liqor_owner, liqee, perp_market: m.market, oracle: m.oracle, settle_bank: t.bank, settle_vault: t.vault, settle_oracle: t.oracle,
                insurance_vault: self.insurance_vault, insurance_bank: i.bank, insurance_bank_vault: i.vault, insurance_oracle: i.oracle, token_program: spl_token::ID,
            },
            mango_v4::instruction::PerpLiqNegativePnlOrBankruptcyV2 { max_liab_transfer: max },
        )
        .with(self.scan(s, &[liqee, liqor], &[0], &[0, self.settle_tok(s, p)]))
    }

    // ------------------------------------------------------------- serum ixs
    pub fn oo_key(&self, account: &Pubkey, n: usize) -> Pubkey {
        Pubkey::find_program_address(&[b"Serum3OO", account.as_ref(), self.serums[n].market.as_ref()], &mango_v4::ID).0
    }
    pub fn serum_create_oo(&self, account: Pubkey, owner: Pubkey, n: usize) -> Instruction {
        let m = &self.serums[n];
        ix(
            mango_v4::accounts::Serum3CreateOpenOrders {
                group: self.group, account, owner, serum_market: m.market, serum_program: dex_program(), serum_market_external: m.ext, open_orders: self.oo_key(&account, n), payer: self.payer, system_program: system_program::ID, rent: sysvar::rent::ID,
            },
            mango_v4::instruction::Serum3CreateOpenOrders {},
        )
    }
    pub fn serum_close_oo(&self, account: Pubkey, owner: Pubkey, n: usize) -> Instruction {
        let m = &self.serums[n];
        ix(
            mango_v4::accounts::Serum3CloseOpenOrders { group: self.group, account, owner, serum_market: m.market, serum_program: dex_program(), serum_market_external: m.ext, open_orders: self.oo_key(&account, n), sol_destination: owner },
            mango_v4::instruction::Serum3CloseOpenOrders {},
        )
    }
    #[allow(clippy::too_many_arguments)]
    pub fn serum_place(&self, s: &State, account: Pubkey, owner: Pubkey, n: usize, side: Serum3Side, price: u64, base: u64, quote: u64, cid: u64, order_type: Serum3OrderType, stb: Serum3SelfTradeBehavior, limit: u16) -> Instruction {
        let m = &self.serums[n];
        let payer = match side {
            Serum3Side::Bid => m.quote,
            Serum3Side::Ask => m.base,
        };
        let t = &self.toks[payer];
        // v2: also needs the receiver bank writable in the health accounts
        let mut h = self.health(s, &account, None, None, false);
        for x in h.iter_mut() {
            if x.pubkey == self.toks[m.base].bank || x.pubkey == self.toks[m.quote].bank {
                x.is_writable = true;
            }
        }
        ix(
            mango_v4::accounts::Serum3PlaceOrder {
                group: self.group, account, owner, open_orders: self.oo_key(&account, n), serum_market: m.market, serum_program: dex_program(), serum_market_external: m.ext,
                market_bids: m.bids, market_asks: m.asks, market_event_queue: m.event_q, market_request_queue: m.req_q, market_base_vault: m.coin_vault, market_quote_vault: m.pc_vault, market_vault_signer: m.signer,
                payer_bank: t.bank, payer_vault: t.vault, payer_oracle: t.oracle, token_program: spl_token::ID,
            },
            mango_v4::instruction::Serum3PlaceOrderV2 { side, limit_price: price, max_base_qty: base, max_native_quote_qty_including_fees: quote, self_trade_behavior: stb, order_type, client_order_id: cid, limit },
        )
        .with(h)
    }
    pub fn serum_cancel(&self, account: Pubkey, owner: Pubkey, n: usize, side: Serum3Side, order_id: u128) -> Instruction {
        let m = &self.serums[n];
        ix(
            mango_v4::accounts::Serum3CancelOrder {
                group: self.group, account, owner, open_orders: self.oo_key(&account, n), serum_market: m.market, serum_program: dex_program(), serum_market_external: m.ext, market_bids: m.bids, market_asks: m.asks, market_event_queue: m.event_q,
            },
            mango_v4::instruction::Serum3CancelOrder { side, order_id },
        )
    }
    pub fn serum_cancel_all(&self, account: Pubkey, owner: Pubkey, n: usize, limit: u8) -> Instruction {
        let m = &self.serums[n];
        ix(
            mango_v4::accounts::Serum3CancelAllOrders {
                group: self.group, account, owner, open_orders: self.oo_key(&account, n), serum_market: m.market, serum_program: dex_program(), serum_market_external: m.ext, market_bids: m.bids, market_asks: m.asks, market_event_queue: m.event_q,
            },
            mango_v4::instruction::Serum3CancelAllOrders { limit },
        )
    }
    pub fn serum_settle(&self, account: Pubkey, owner: Pubkey, n: usize, fees_to_dao: bool) -> Instruction {
        let m = &self.serums[n];
        let (b, q) = (&self.toks[m.base], &self.toks[m.quote]);
        ix(
            mango_v4::accounts::Serum3SettleFundsV2 {
                v1: mango_v4::accounts::Serum3SettleFunds {
                    group: self.group, account, owner, open_orders: self.oo_key(&account, n), serum_market: m.market, serum_program: dex_program(), serum_market_external: m.ext,
                    market_base_vault: m.coin_vault, market_quote_vault: m.pc_vault, market_vault_signer: m.signer, quote_bank: q.bank, quote_vault: q.vault, base_bank: b.bank, base_vault: b.vault, token_program: spl_token::ID,
                },
                v2: mango_v4::accounts::Serum3SettleFundsV2Extra { quote_oracle: q.oracle, base_oracle: b.oracle },
            },
            mango_v4::instruction::Serum3SettleFundsV2 { fees_to_dao },
        )
    }
    pub fn serum_force_cancel(&self, s: &State, account: Pubkey, n: usize, limit: u8) -> Instruction {
        let m = &self.serums[n];
        let (b, q) = (&self.toks[m.base], &self.toks[m.quote]);
        ix(
            mango_v4::accounts::Serum3LiqForceCancelOrders {
                group: self.group, account, open_orders: self.oo_key(&account, n), serum_market: m.market, serum_program: dex_program(), serum_market_external: m.ext, market_bids: m.bids, market_asks: m.asks, market_event_queue: m.event_q,
                market_base_vault: m.coin_vault, market_quote_vault: m.pc_vault, market_vault_signer: m.signer, quote_bank: q.bank, quote_vault: q.vault, base_bank: b.bank, base_vault: b.vault, token_program: spl_token::ID,
            },
            mango_v4::instruction::Serum3LiqForceCancelOrders { limit },
        )
        .with(self.health(s, &account, None, None, false))
    }
    pub fn serum_crank(&self, n: usize, oos: &[Pubkey], limit: u16) -> Instruction {
        let m = &self.serums[n];
        Instruction { program_id: dex_program(), accounts: vec![rw(m.ext), rw(m.event_q)], data: serum_dex::instruction::MarketInstruction::ConsumeEvents(limit).pack() }
            .with(oos.iter().map(|o| rw(*o)))
    }

    // ------------------------------------------------------- account / admin
    pub fn account_edit(&self, account: Pubkey, owner: Pubkey, delegate: Option<Pubkey>, temp: Option<Pubkey>, temp_expiry: Option<u64>) -> Instruction {
        ix(
            mango_v4::accounts::AccountEdit { group: self.group, account, owner },
            mango_v4::instruction::AccountEdit { name_opt: None, delegate_opt: delegate, temporary_delegate_opt: temp, temporary_delegate_expiry_opt: temp_expiry },
        )
    }
    pub fn freeze(&self, account: Pubkey, freeze: bool) -> Instruction {
        ix(mango_v4::accounts::AccountToggleFreeze { group: self.group, account, admin: self.admin }, mango_v4::instruction::AccountToggleFreeze { freeze })
    }
    pub fn account_close(&self, account: Pubkey, owner: Pubkey, force: bool) -> Instruction {
        ix(mango_v4::accounts::AccountClose { group: self.group, account, owner, sol_destination: owner, token_program: spl_token::ID }, mango_v4::instruction::AccountClose { force_close: force })
    }
    pub fn account_expand(&self, account: Pubkey, owner: Pubkey, t: u8, s3: u8, p: u8, oo: u8, tcs: u8) -> Instruction {
        ix(
            mango_v4::accounts::AccountExpand { group: self.group, account, owner, payer: self.payer, system_program: system_program::ID },
            mango_v4::instruction::AccountExpandV2 { token_count: t, serum3_count: s3, perp_count: p, perp_oo_count: oo, token_conditional_swap_count: tcs },
        )
    }
    pub fn ix_gate(&self, gate: u128) -> Instruction {
        ix(mango_v4::accounts::IxGateSet { group: self.group, admin: self.admin }, mango_v4::instruction::IxGateSet { ix_gate: gate })
    }
    pub fn group_edit_default() -> mango_v4::instruction::GroupEdit {
        mango_v4::instruction::GroupEdit {
            admin_opt: None, fast_listing_admin_opt: None, security_admin_opt: None, testing_opt: None, version_opt: None, deposit_limit_quote_opt: None, buyback_fees_opt: None, buyback_fees_bonus_factor_opt: None,
            buyback_fees_swap_mango_account_opt: None, mngo_token_index_opt: None, buyback_fees_expiry_interval_opt: None, allowed_fast_listings_per_interval_opt: None, collateral_fee_interval_opt: None,
        }
    }
    pub fn group_edit(&self, d: mango_v4::instruction::GroupEdit) -> Instruction {
        ix(mango_v4::accounts::GroupEdit { group: self.group, admin: self.admin }, d)
    }
    pub fn token_edit_default() -> mango_v4::instruction::TokenEdit {
        mango_v4::instruction::TokenEdit {
            oracle_opt: None, oracle_config_opt: None, group_insurance_fund_opt: None, interest_rate_params_opt: None, loan_fee_rate_opt: None, loan_origination_fee_rate_opt: None, maint_asset_weight_opt: None, init_asset_weight_opt: None,
            maint_liab_weight_opt: None, init_liab_weight_opt: None, liquidation_fee_opt: None, stable_price_delay_interval_seconds_opt: None, stable_price_delay_growth_limit_opt: None, stable_price_growth_limit_opt: None,
            min_vault_to_deposits_ratio_opt: None, net_borrow_limit_per_window_quote_opt: None, net_borrow_limit_window_size_ts_opt: None, borrow_weight_scale_start_quote_opt: None, deposit_weight_scale_start_quote_opt: None,
            reset_stable_price: false, reset_net_borrow_limit: false, reduce_only_opt: None, name_opt: None, force_close_opt: None, token_conditional_swap_taker_fee_rate_opt: None, token_conditional_swap_maker_fee_rate_opt: None,
            flash_loan_swap_fee_rate_opt: None, interest_curve_scaling_opt: None, interest_target_utilization_opt: None, maint_weight_shift_start_opt: None, maint_weight_shift_end_opt: None, maint_weight_shift_asset_target_opt: None,
            maint_weight_shift_liab_target_opt: None, maint_weight_shift_abort: false, set_fallback_oracle: false, deposit_limit_opt: None, zero_util_rate_opt: None, platform_liquidation_fee_opt: None, disable_asset_liquidation_opt: None,
            collateral_fee_per_day_opt: None, force_withdraw_opt: None, tier_opt: None,
        }
    }
    pub fn token_edit(&self, s: &State, tok: usize, d: mango_v4::instruction::TokenEdit) -> Instruction {
        let t = &self.toks[tok];
        let mi: MintInfo = s.zc(&t.mint_info);
        ix(mango_v4::accounts::TokenEdit { group: self.group, admin: self.admin, mint_info: t.mint_info, oracle: t.oracle, fallback_oracle: Pubkey::default() }, d)
            .with(mi.banks().iter().map(|b| rw(*b)).collect::<Vec<_>>())
    }
    pub fn perp_edit_default() -> mango_v4::instruction::PerpEditMarket {
        mango_v4::instruction::PerpEditMarket {
            oracle_opt: None, oracle_config_opt: None, base_decimals_opt: None, maint_base_asset_weight_opt: None, init_base_asset_weight_opt: None, maint_base_liab_weight_opt: None, init_base_liab_weight_opt: None,
            maint_overall_asset_weight_opt: None, init_overall_asset_weight_opt: None, base_liquidation_fee_opt: None, maker_fee_opt: None, taker_fee_opt: None, min_funding_opt: None, max_funding_opt: None, impact_quantity_opt: None,
            group_insurance_fund_opt: None, fee_penalty_opt: None, settle_fee_flat_opt: None, settle_fee_amount_threshold_opt: None, settle_fee_fraction_low_health_opt: None, stable_price_delay_interval_seconds_opt: None,
            stable_price_delay_growth_limit_opt: None, stable_price_growth_limit_opt: None, settle_pnl_limit_factor_opt: None, settle_pnl_limit_window_size_ts_opt: None, reduce_only_opt: None, reset_stable_price: false,
            positive_pnl_liquidation_fee_opt: None, name_opt: None, force_close_opt: None, platform_liquidation_fee_opt: None,
        }
    }
    pub fn perp_edit(&self, p: usize, d: mango_v4::instruction::PerpEditMarket) -> Instruction {
        let m = &self.perps[p];
        ix(mango_v4::accounts::PerpEditMarket { group: self.group, admin: self.admin, perp_market: m.market, oracle: m.oracle }, d)
    }
    pub fn set_price(&self, s: &mut State, oracle: Pubkey, price: f64) {
        let i = self.oracle_ix(oracle, price);
        s.tx(&[i]).expect("stub_oracle_set");
    }

    // ------------------------------------------------------------- flash loan
    pub fn flash_begin(&self, account: Pubkey, owner: Pubkey, loans: &[(usize, u64, Pubkey)]) -> Instruction {
        let mut i = ix(
            mango_v4::accounts::FlashLoanBegin { account, owner, token_program: spl_token::ID, instructions: sysvar::instructions::ID },
            mango_v4::instruction::FlashLoanBegin { loan_amounts: loans.iter().map(|l| l.1).collect() },
        );
        // the struct does not mark the account writable, but the program writes to it
        i.accounts[0].is_writable = true;
        i.with(loans.iter().map(|l| rw(self.toks[l.0].bank)))
            .with(loans.iter().map(|l| rw(self.toks[l.0].vault)))
            .with(loans.iter().map(|l| rw(l.2)))
            .with([ro(self.group)])
    }
    pub fn flash_end(&self, s: &State, account: Pubkey, owner: Pubkey, loans: &[(usize, u64, Pubkey)], ty: FlashLoanType) -> Instruction {
        let opened: Vec<usize> = loans.iter().map(|l| l.0).collect();
        ix(
            mango_v4::accounts::FlashLoanEnd { account, owner, token_program: spl_token::ID },
            mango_v4::instruction::FlashLoanEndV2 { num_loans: loans.len() as u8, flash_loan_type: ty },
        )
        .with(self.health_multi(s, &account, &opened, None, true))
        .with(loans.iter().map(|l| rw(self.toks[l.0].vault)))
        .with(loans.iter().map(|l| rw(l.2)))
        .with([ro(self.group)])
    }

    // ------------------------------------------------------------------- TCS
    #[allow(clippy::too_many_arguments)]
    pub fn tcs_create(&self, account: Pubkey, owner: Pubkey, buy: usize, sell: usize, max_buy: u64, max_sell: u64, expiry: u64, lo: f64, hi: f64, premium: f64, deposits: bool, borrows: bool) -> Instruction {
        ix(
            mango_v4::accounts::TokenConditionalSwapCreate { group: self.group, account, authority: owner, buy_bank: self.toks[buy].bank, sell_bank: self.toks[sell].bank },
            mango_v4::instruction::TokenConditionalSwapCreateV2 {
                max_buy, max_sell, expiry_timestamp: expiry, price_lower_limit: lo, price_upper_limit: hi, price_premium_rate: premium, allow_creating_deposits: deposits, allow_creating_borrows: borrows,
                display_price_style: TokenConditionalSwapDisplayPriceStyle::SellTokenPerBuyToken, intention: TokenConditionalSwapIntention::Unknown,
            },
        )
    }
    #[allow(clippy::too_many_arguments)]
    pub fn tcs_create_premium(&self, account: Pubkey, owner: Pubkey, buy: usize, sell: usize, max_buy: u64, max_sell: u64, expiry: u64, lo: f64, hi: f64, premium: f64, deposits: bool, borrows: bool, duration: u64) -> Instruction {
        ix(
            mango_v4::accounts::TokenConditionalSwapCreate { group: self.group, account, authority: owner, buy_bank: self.toks[buy].bank, sell_bank: self.toks[sell].bank },
            mango_v4::instruction::TokenConditionalSwapCreatePremiumAuction {
                max_buy, max_sell, expiry_timestamp: expiry, price_lower_limit: lo, price_upper_limit: hi, max_price_premium_rate: premium, allow_creating_deposits: deposits, allow_creating_borrows: borrows,
                display_price_style: TokenConditionalSwapDisplayPriceStyle::BuyTokenPerSellToken, intention: TokenConditionalSwapIntention::StopLoss, duration_seconds: duration,
            },
        )
    }
    pub fn tcs_create_linear(&self, account: Pubkey, owner: Pubkey, buy: usize, sell: usize, max_buy: u64, max_sell: u64, expiry: u64, start: f64, end: f64, deposits: bool, borrows: bool, start_ts: u64, duration: u64) -> Instruction {
        ix(
            mango_v4::accounts::TokenConditionalSwapCreate { group: self.group, account, authority: owner, buy_bank: self.toks[buy].bank, sell_bank: self.toks[sell].bank },
            mango_v4::instruction::TokenConditionalSwapCreateLinearAuction {
                max_buy, max_sell, expiry_timestamp: expiry, price_start: start, price_end: end, allow_creating_deposits: deposits, allow_creating_borrows: borrows,
                display_price_style: TokenConditionalSwapDisplayPriceStyle::BuyTokenPerSellToken, start_timestamp: start_ts, duration_seconds: duration,
            },
        )
    }
    pub fn tcs_cancel(&self, account: Pubkey, owner: Pubkey, buy: usize, sell: usize, index: u8, id: u64) -> Instruction {
        ix(
            mango_v4::accounts::TokenConditionalSwapCancel { group: self.group, account, authority: owner, buy_bank: self.toks[buy].bank, sell_bank: self.toks[sell].bank },
            mango_v4::instruction::TokenConditionalSwapCancel { token_conditional_swap_index: index, token_conditional_swap_id: id },
        )
    }
    #[allow(clippy::too_many_arguments)]
    pub fn tcs_trigger(&self, s: &State, liqee: Pubkey, liqor: Pubkey, liqor_owner: Pubkey, buy: usize, sell: usize, index: u8, id: u64, max_buy: u64, max_sell: u64, min_buy: u64, min_price: f32) -> Instruction {
        ix(
            mango_v4::accounts::TokenConditionalSwapTrigger { group: self.group, liqee, liqor, liqor_authority: liqor_owner },
            mango_v4::instruction::TokenConditionalSwapTriggerV2 {
                token_conditional_swap_index: index, token_conditional_swap_id: id, max_buy_token_to_liqee: max_buy, max_sell_token_to_liqor: max_sell, min_buy_token: min_buy, min_taker_price: min_price,
            },
        )
        .with(self.scan(s, &[liqee, liqor], &[], &[buy, sell]))
    }
    pub fn tcs_start(&self, s: &State, liqee: Pubkey, liqor: Pubkey, liqor_owner: Pubkey, buy: usize, sell: usize, index: u8, id: u64) -> Instruction {
        ix(
            mango_v4::accounts::TokenConditionalSwapStart { group: self.group, liqee, liqor, liqor_authority: liqor_owner },
            mango_v4::instruction::TokenConditionalSwapStart { token_conditional_swap_index: index, token_conditional_swap_id: id },
        )
        .with(self.scan(s, &[liqee, liqor], &[], &[buy, sell]))
    }
}
