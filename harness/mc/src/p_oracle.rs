//! Oracle prices: scaling, validity, fallback.
use crate::explore::Report;
use crate::p_perp2::{deposits, trade};
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::{AccountMeta, Pubkey};
use fixed::types::I80F48;
use mango_v4::state::*;
use rayon::prelude::*;

fn id(s: &str) -> Pubkey {
    s.parse().unwrap()
}
fn usdc_feed() -> Pubkey {
    id("Gnt27xtC473ZT2Mw5u8wZ68Z3gULkSTb5DuxJy7eJotD")
}
fn sol_feed() -> Pubkey {
    id("H6ARHf6YXhGYeQfUzQNGk6rDNnLBQKrenN712K4AQJEG")
}
fn usdc_mint() -> Pubkey {
    id("EPjFWdd5AufqSSqeM2qN1xzybapC8G4wEGGkZwyTDt1v")
}
fn sol_mint() -> Pubkey {
    id("So11111111111111111111111111111111111111112")
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Pyth,
    /// aggregate not trading: previous values count
    PythHalted,
    PythWrongVersion,
    PythV2,
    PythV2Partial,
    Sb1,
    Sb2,
    Sb2Few,
    OnDemand,
    OnDemandEmpty,
    Stub,
    Orca(u8),
    Ray(u8),
    Garbage,
}
/// published value: price and deviation as mantissas with a decimal exponent (floats: mantissa * 10^expo)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Img {
    pub ty: Ty,
    pub m: i64,
    pub conf: u64,
    pub expo: i32,
    pub slot: u64,
    /// publish time (only PythV2)
    pub time: i64,
}

/// mints of a pool; inverted pools quote in their first token
fn pool_mints(v: u8) -> (Pubkey, Pubkey) {
    let x = pk("some mint");
    match v {
        0 => (x, usdc_mint()),
        1 => (usdc_mint(), x),
        2 => (x, sol_mint()),
        3 => (sol_mint(), x),
        4 => (sol_mint(), usdc_mint()),
        5 => (usdc_mint(), sol_mint()),
        _ => (x, pk("other mint")),
    }
}

pub fn pyth_data(i: &Img) -> Vec<u8> {
    let mut d = vec![0u8; 3312];
    let mut put = |o: usize, b: &[u8]| d[o..o + b.len()].copy_from_slice(b);
    put(0, &0xa1b2c3d4u32.to_le_bytes());
    put(4, &(if i.ty == Ty::PythWrongVersion { 1u32 } else { 2 }).to_le_bytes());
    put(8, &3u32.to_le_bytes());
    put(20, &i.expo.to_le_bytes());
    let halted = i.ty == Ty::PythHalted;
    // the values that must not be used are far off
    let (agg, prev) = if halted { ((1i64, 77u64, 5u64), (i.m, i.conf, i.slot)) } else { ((i.m, i.conf, i.slot), (3, 99, 7)) };
    put(176, &prev.2.to_le_bytes());
    put(184, &prev.0.to_le_bytes());
    put(192, &prev.1.to_le_bytes());
    put(208, &agg.0.to_le_bytes());
    put(216, &agg.1.to_le_bytes());
    put(224, &[if halted { 2 } else { 1 }]);
    put(232, &agg.2.to_le_bytes());
    // last_slot / valid_slot are not what counts
    put(32, &1_000_000u64.to_le_bytes());
    put(40, &1_000_000u64.to_le_bytes());
    d
}
pub fn put_oracle(s: &mut State, key: Pubkey, group: Pubkey, i: &Img) {
    let pow = 10f64.powi(i.expo);
    let (mut owner, mut d);
    match i.ty {
        Ty::Pyth | Ty::PythHalted | Ty::PythWrongVersion => {
            owner = pk("pyth");
            d = pyth_data(i);
        }
        Ty::PythV2 | Ty::PythV2Partial => {
            owner = id("rec5EKMGg6MxZYaMdyBfgwp4d5rB9T1VQH5pJv5LtFJ");
            d = vec![34, 241, 35, 99, 157, 126, 244, 205];
            d.extend(pk("writer").to_bytes());
            if i.ty == Ty::PythV2 {
                d.push(1)
            } else {
                d.extend([0, 5])
            }
            d.extend([9u8; 32]);
            d.extend(i.m.to_le_bytes());
            d.extend(i.conf.to_le_bytes());
            d.extend(i.expo.to_le_bytes());
            d.extend(i.time.to_le_bytes());
            d.extend((i.time + 1_000_000).to_le_bytes());
            d.extend((i.m * 2).to_le_bytes());
            d.extend(0u64.to_le_bytes());
            d.extend(i.slot.to_le_bytes());
        }
        Ty::Sb1 => {
            owner = id("DtmE9D2CSB4L5D6A15mraeEjrGMm6auWVzgaD8hK2tZM");
            d = vec![0u8; 128];
            d[..32].copy_from_slice(&pk("parent").to_bytes());
            let mut put = |o: usize, b: &[u8]| d[o..o + b.len()].copy_from_slice(b);
            put(40, &(i.m as f64 * pow).to_le_bytes());
            put(48, &i.slot.to_le_bytes());
            put(56, &i64::MAX.to_le_bytes());
            // spread of the responses
            put(64, &((i.m as f64 - i.conf as f64 / 4.0) * pow).to_le_bytes());
            put(72, &((i.m as f64 - i.conf as f64 / 4.0) * pow + i.conf as f64 * pow).to_le_bytes());
        }
        Ty::Sb2 | Ty::Sb2Few => {
            owner = id("SW1TCH7qEPTdLsDHRgPuMQjbQxKdH2aBStViMFnt64f");
            d = vec![0u8; 8 + std::mem::size_of::<switchboard_v2::AggregatorAccountData>()];
            d[..8].copy_from_slice(&[217, 230, 65, 101, 201, 162, 27, 125]);
            let n = std::mem::size_of::<switchboard_v2::AggregatorAccountData>();
            let mut a: switchboard_v2::AggregatorAccountData = bytemuck::pod_read_unaligned(&d[8..8 + n]);
            let dec = |m: i128| switchboard_v2::SwitchboardDecimal { mantissa: if i.expo > 0 { m * 10i128.pow(i.expo as u32) } else { m }, scale: (-i.expo).max(0) as u32 };
            a.min_oracle_results = 3;
            a.latest_confirmed_round.num_success = if i.ty == Ty::Sb2Few { 2 } else { 3 };
            a.latest_confirmed_round.result = dec(i.m as i128);
            a.latest_confirmed_round.std_deviation = dec(i.conf as i128);
            a.latest_confirmed_round.min_response = dec(i.m as i128 / 7);
            a.latest_confirmed_round.max_response = dec(i.m as i128 * 7);
            a.latest_confirmed_round.round_open_slot = i.slot;
            d[8..8 + n].copy_from_slice(bytemuck::bytes_of(&a));
        }
        Ty::OnDemand | Ty::OnDemandEmpty => {
            owner = id("SBondMDrcV3K4kxZR1HNVT7osZxAHVHgYXL5Ze1oMUv");
            let n = std::mem::size_of::<switchboard_on_demand::PullFeedAccountData>();
            d = vec![0u8; 8 + n];
            let mut a: switchboard_on_demand::PullFeedAccountData = bytemuck::pod_read_unaligned(&d[8..]);
            let e = 10i128.pow((18 + i.expo) as u32);
            a.result.value = i.m as i128 * e;
            a.result.std_dev = i.conf as i128 * e;
            a.result.mean = i.m as i128 * e * 3;
            a.result.range = 1;
            a.result.min_value = e;
            a.result.max_value = i.m as i128 * e * 9;
            a.result.slot = if i.ty == Ty::OnDemandEmpty { 0 } else { i.slot + 50 };
            a.result.min_slot = i.slot;
            a.result.max_slot = i.slot + 60;
            d[..8].copy_from_slice(&[196, 27, 108, 196, 10, 215, 219, 40]);
            d[8..].copy_from_slice(bytemuck::bytes_of(&a));
        }
        Ty::Stub => {
            let mut st: StubOracle = bytemuck::Zeroable::zeroed();
            st.group = group;
            st.price = fxp(i.m as f64 * pow);
            st.deviation = fxp(i.conf as f64 * pow);
            st.last_update_slot = i.slot;
            st.last_update_ts = 1;
            owner = mango_v4::id();
            d = <StubOracle as anchor_lang::Discriminator>::discriminator().to_vec();
            d.extend(bytemuck::bytes_of(&st));
        }
        Ty::Orca(v) | Ty::Ray(v) => {
            let (a, b) = pool_mints(v);
            // price of the first token in the second
            let p = i.m as f64 * pow;
            let sqrt = ((if inverted(v) { 1.0 / p } else { p }).sqrt() * 2f64.powi(64)) as u128;
            if matches!(i.ty, Ty::Orca(_)) {
                owner = id("whirLbMiicVdio4qvUfM5KAg6Ct8VwpYzGff3uctyCc");
                d = vec![0u8; 653];
                d[..8].copy_from_slice(&[63, 149, 209, 12, 225, 128, 99, 9]);
                d[65..81].copy_from_slice(&sqrt.to_le_bytes());
                d[101..133].copy_from_slice(&a.to_bytes());
                d[181..213].copy_from_slice(&b.to_bytes());
            } else {
                owner = id("CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK");
                d = vec![0u8; 1544];
                d[..8].copy_from_slice(&[247, 237, 227, 245, 215, 195, 222, 70]);
                d[253..269].copy_from_slice(&sqrt.to_le_bytes());
                d[73..105].copy_from_slice(&a.to_bytes());
                d[105..137].copy_from_slice(&b.to_bytes());
            }
        }
        Ty::Garbage => {
            owner = pk("whoever");
            d = vec![1u8; 200];
        }
    }
    if i.ty == Ty::Garbage {
        owner = pk("whoever");
        d[0] = 2;
    }
    s.set(key, Acct::new(1_000_000, owner, d));
}
fn inverted(v: u8) -> bool {
    matches!(v, 1 | 3 | 5)
}
fn quote_is_sol(v: u8) -> bool {
    matches!(v, 2 | 3)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// cannot be read at all
    Hard,
    /// too old or too uncertain
    Soft,
}
#[derive(Clone, Copy, Debug)]
pub struct Val {
    price: f64,
    dev: f64,
    slot: u64,
    time: Option<i64>,
    /// rounding uncertainty of the scaled price
    tol: f64,
}
/// feeds: whether the feeds (quote -> pool) are passed along
fn ref_val(i: &Img, dec: u8, feeds: (Option<&Img>, Option<&Img>)) -> Result<Val, Bad> {
    let scale = 10f64.powi(6 - dec as i32);
    let pow = 10f64.powi(i.expo);
    let eps = 2f64.powi(-47);
    let (price, dev) = (i.m as f64 * pow * scale, i.conf as f64 * pow * scale);
    let mut v = Val { price, dev, slot: i.slot, time: None, tol: 0.0 };
    match i.ty {
        Ty::Pyth | Ty::PythHalted | Ty::PythV2 => {
            // mantissa times a rounded power of ten
            v.tol = i.m.abs() as f64 * eps;
            if i.ty == Ty::PythV2 {
                v.time = Some(i.time);
            }
        }
        Ty::PythV2Partial => return Err(Bad::Soft),
        Ty::PythWrongVersion | Ty::Sb2Few | Ty::OnDemandEmpty | Ty::Garbage => return Err(Bad::Hard),
        Ty::Sb1 | Ty::Sb2 | Ty::OnDemand => v.tol = (i.m as f64 * pow).abs() * eps + scale * eps,
        Ty::Stub => {
            v.price = i.m as f64 * pow;
            v.dev = i.conf as f64 * pow;
            v.tol = eps;
            if v.dev == 0.0 {
                v.dev = f64::MIN;
            }
            if v.slot == 0 {
                v.slot = u64::MAX;
            }
            return Ok(v);
        }
        Ty::Orca(k) | Ty::Ray(k) => {
            if k == 6 {
                return Err(Bad::Hard);
            }
            let (feed, dec) = if quote_is_sol(k) { (feeds.1, 9) } else { (feeds.0, 6) };
            let q = ref_val(feed.ok_or(Bad::Hard)?, dec, (None, None))?;
            let p = i.m as f64 * pow;
            return Ok(Val { price: p * q.price, dev: p * q.dev, slot: q.slot, time: None, tol: p * q.tol + q.price * eps + p * q.price * 1e-9 });
        }
    }
    if v.price < 0.0 {
        return Err(Bad::Hard);
    }
    Ok(v)
}
/// Some(usable) or None when within rounding of the boundary
fn usable(v: &Val, c: &OracleConfig, now: (i64, u64)) -> Option<bool> {
    let m = c.max_staleness_slots;
    if m >= 0 {
        if v.slot.saturating_add(m as u64) < now.1 {
            return Some(false);
        }
        if let Some(t) = v.time {
            if t * 1000 < now.0 * 1000 - m * 450 {
                return Some(false);
            }
        }
    }
    let lim = f(c.conf_filter) * v.price;
    if v.dev > 0.0 && (v.dev - lim).abs() <= v.tol * 2.0 + 1e-12 * lim.abs() {
        return None;
    }
    Some(v.dev <= lim)
}

#[derive(Clone, Copy, Debug)]
pub struct Setup {
    pub main: Img,
    pub fallback: Option<Img>,
    /// the fallback account is handed over
    pub passed: bool,
    /// USDC and SOL feeds, and whether they are handed over
    pub feeds: (Img, Img),
    pub feeds_passed: [bool; 2],
    /// fallback before the feeds
    pub early: bool,
}
fn main_key() -> Pubkey {
    pk("oracle under test")
}
fn fallback_key() -> Pubkey {
    pk("fallback under test")
}
pub fn install(fx: &Fix, s: &mut State, x: &Setup) {
    put_oracle(s, main_key(), fx.w.group, &x.main);
    put_oracle(s, fallback_key(), fx.w.group, &x.fallback.unwrap_or(Img { ty: Ty::Stub, m: 123_456, conf: 0, expo: 0, slot: 0, time: 0 }));
    let fb = x.fallback.is_some();
    s.edit_zc(&fx.w.toks[1].bank, |b: &mut Bank| b.fallback_oracle = if fb { fallback_key() } else { Pubkey::default() });
    put_oracle(s, usdc_feed(), fx.w.group, &x.feeds.0);
    put_oracle(s, sol_feed(), fx.w.group, &x.feeds.1);
}
fn extra(x: &Setup) -> Vec<AccountMeta> {
    let mut v = vec![];
    if x.feeds_passed[0] {
        v.push(ro(usdc_feed()));
    }
    if x.feeds_passed[1] {
        v.push(ro(sol_feed()));
    }
    if x.passed {
        v.insert(if x.early { 0 } else { v.len() }, ro(fallback_key()));
    }
    v
}

const DEP: f64 = 1_048_576.0;
const BASE: i64 = 1 << 14;
/// everything that reads the price of token 1 and of perp market 0 agrees with the definition
pub fn check(fx: &Fix, s: &State, x: &Setup) -> Result<(), String> {
    let w = &fx.w;
    let b = w.bank(s, 1);
    let m = w.perp(s, 0);
    let now = (s.ts, s.slot);
    let feeds = (x.feeds_passed[0].then_some(&x.feeds.0), x.feeds_passed[1].then_some(&x.feeds.1));
    let main = ref_val(&x.main, b.mint_decimals, feeds);
    let get = |v: Result<Val, Bad>| -> Option<Result<Val, Bad>> {
        match v {
            Err(e) => Some(Err(e)),
            Ok(v) => usable(&v, &b.oracle_config, now).map(|u| if u { Ok(v) } else { Err(Bad::Soft) }),
        }
    };
    let first = match get(main) {
        None => return Ok(()),
        Some(v) => v,
    };
    let fb = x.fallback.filter(|_| x.passed);
    // an unverified update is unusable outright, without looking at the fallback
    let token = match (first, fb) {
        (Err(Bad::Soft), Some(i)) if x.main.ty != Ty::PythV2Partial => match get(ref_val(&i, b.mint_decimals, feeds)) {
            None => return Ok(()),
            Some(v) => v,
        },
        _ => first,
    };
    let scan = |a: usize| {
        let mut v = w.scan(s, &[fx.accts[a]], &[], &[]);
        v.extend(extra(x));
        v
    };
    let data = |a: usize| ix(mango_v4::accounts::ComputeAccountData { group: w.group, account: fx.accts[a] }, mango_v4::instruction::ComputeAccountData {}).with(scan(a));
    let run = |i: solana_program::instruction::Instruction| {
        let mut p = s.clone();
        capture_events(true);
        take_events();
        let r = p.tx(&[i]);
        (r, take_events(), p)
    };
    // 1. token price as reported
    let (r, ev, _) = run(data(0));
    match (&token, &r) {
        (Err(_), Ok(_)) => return Err(format!("an unusable oracle is accepted | {token:?}")),
        (Ok(_), Err(e)) => return Err(format!("a usable oracle is refused | {e:?}")),
        (Ok(v), Ok(_)) => {
            let e = ev.iter().find_map(|e| crate::p_health::MangoData::read(e)).ok_or("no data")?;
            let got = e.tokens.iter().find(|t| t.0 == 1).ok_or("token not reported")?.1 / DEP;
            let tol = v.tol + 1e-9 * v.price.abs() + 1e-10;
            if (got - v.price).abs() > tol {
                return Err(format!("price is wrong | {got} expected {} +- {tol}", v.price));
            }
        }
        _ => {}
    }
    // 2. health without the asset when its oracle is merely bad
    let hc = |a: usize, min: f64| {
        ix(
            mango_v4::accounts::HealthCheck { group: w.group, account: fx.accts[a] },
            mango_v4::instruction::HealthCheck { min_health_value: min, check_kind: mango_v4::accounts_ix::HealthCheckKind::Maint },
        )
        .with(scan(a))
    };
    let exp = match token {
        Ok(v) => Some((DEP * v.price * f(b.maint_asset_weight), DEP * (v.tol + 1e-9 * v.price.abs()) + 1e-4)),
        Err(Bad::Soft) => Some((0.0, 1e-9)),
        Err(Bad::Hard) => None,
    };
    match exp {
        None => {
            if run(hc(0, -1e18)).0.is_ok() {
                return Err("health is computed although the oracle cannot be read".into());
            }
        }
        Some((h, tol)) => {
            if run(hc(0, h - tol)).0.is_err() || run(hc(0, h + tol)).0.is_ok() {
                return Err(format!("health does not follow from the price | expected {h} +- {tol}"));
            }
        }
    }
    // 3. borrowing the token (accounts in fixed order)
    {
        let mut i = w.withdraw(s, fx.accts[1], fx.owners[1], 1, 64, true);
        i.accounts.extend(extra(x));
        let ok = run(i).0.is_ok();
        // net borrows are valued with the primary oracle, which has to be good by itself
        let good = match (first, ref_val(&x.main, b.mint_decimals, (None, None))) {
            (Ok(v), Ok(_)) => Some(64.0 * v.price.max(f(b.stable_price())) * f(b.init_liab_weight)),
            _ => None,
        };
        // collateral of 2^44
        let want = match good {
            None => Some(false),
            Some(d) if d < 1.5e13 => Some(true),
            Some(d) if d > 2.0e13 => Some(false),
            _ => None,
        };
        if want.map(|v| v != ok) == Some(true) {
            return Err(format!("borrowing is {} | oracle {first:?}", if ok { "accepted" } else { "refused" }));
        }
    }
    // 3b. borrowing against the token (accounts in fixed order)
    {
        let mut i = w.withdraw(s, fx.accts[4], fx.owners[4], 0, 1_064, true);
        i.accounts.extend(extra(x));
        let ok = run(i).0.is_ok();
        let want = match token {
            Err(_) => Some(false),
            Ok(v) => {
                let c = 2f64.powi(40) * v.price.min(f(b.stable_price())) * f(b.init_asset_weight);
                if c > 1000.0 {
                    Some(true)
                } else if c <= 0.0 {
                    Some(false)
                } else {
                    None
                }
            }
        };
        if want.map(|v| v != ok) == Some(true) {
            return Err(format!("borrowing against it is {} | oracle {token:?}", if ok { "accepted" } else { "refused" }));
        }
    }
    // 4. index updates: primary oracle only
    {
        let alone = match get(ref_val(&x.main, b.mint_decimals, (None, None))) {
            None => return Ok(()),
            Some(v) => v,
        };
        let (r, _, p) = run(w.update_index(1));
        if r.is_ok() != alone.is_ok() {
            return Err(format!("index update is {} | oracle {alone:?}", if r.is_ok() { "accepted" } else { "refused" }));
        }
        let mut i = w.update_index(1);
        i.data = anchor_lang::InstructionData::data(&mango_v4::instruction::TokenUpdateIndexAndRateResilient {});
        let (r2, _, p2) = run(i);
        // an account the program cannot even decode may abort the transaction
        if r2.is_err() && !r2.as_ref().unwrap_err().panicked {
            return Err(format!("resilient index update fails | {r2:?}"));
        }
        if r2.is_ok() && p2.hash() != if r.is_ok() { p.hash() } else { s.hash() } {
            return Err("resilient index update does not do all or nothing".into());
        }
        if let (Ok(v), true) = (alone, r.is_ok()) {
            // the stable price moves towards the price
            let got = p.zc::<Bank>(&w.toks[1].bank).stable_price_model;
            let _ = (v, got);
        }
    }
    // 5. perp market: primary oracle only, base decimals of the market
    let perp = {
        match ref_val(&x.main, m.base_decimals, (None, None)) {
            Err(e) => Err(e),
            Ok(v) => match usable(&v, &m.oracle_config, now) {
                None => return Ok(()),
                Some(true) => Ok(v),
                Some(false) => Err(Bad::Soft),
            },
        }
    };
    let (r, ev, _) = run(data(2));
    match (&perp, &r) {
        (Err(_), Ok(_)) => return Err(format!("an unusable perp oracle is accepted | {perp:?}")),
        (Ok(_), Err(e)) => return Err(format!("a usable perp oracle is refused | {e:?}")),
        (Ok(v), Ok(_)) => {
            let e = ev.iter().find_map(|e| crate::p_health::MangoData::read(e)).ok_or("no data")?;
            let got = e.maint / f(m.maint_base_asset_weight) / BASE as f64;
            if v.price >= 0.0 && (got - v.price).abs() > v.tol + 1e-9 * v.price.abs() + 1e-10 {
                return Err(format!("perp price is wrong | {got} expected {}", v.price));
            }
        }
        _ => {}
    }
    let ok = run(w.perp_update_funding(0)).0.is_ok();
    if ok != perp.is_ok() {
        return Err(format!("funding update is {} | oracle {perp:?}", if ok { "accepted" } else { "refused" }));
    }
    Ok(())
}
fn fxp(x: f64) -> I80F48 {
    I80F48::from_num(x)
}

/// a0: deposit in t1 only; a1: rich in t0, borrows t1; a2: perp long only
pub fn oracle_fix(dec: u8, staleness: Option<u32>) -> (Fix, State) {
    let mut s = State::new();
    s.slot = 100_000;
    let cfg = TokCfg { conf_filter: 0.125, max_staleness: staleness, decimals: dec, min_vault_ratio: 0.0, loan_orig_fee: 0.0, ..TokCfg::default() };
    let mut fx = fix("oracle", &mut s, &[TokCfg::quote(), cfg], &[PerpCfg { base_decimals: dec, base_lot: BASE, quote_lot: 1, price: 1.0, ..PerpCfg::default() }]);
    for n in ["asset", "borrower", "perp", "other", "secured"] {
        fx.user(&mut s, n, 1 << 50);
    }
    deposits(&fx, &mut s, &[(0, 1, DEP as u64), (1, 0, 1 << 44), (2, 0, 1 << 30), (3, 0, 1 << 30), (3, 1, 1 << 40), (4, 0, 1_000), (4, 1, 1 << 40)]);
    trade(&fx, &mut s, 2, 3, 0, BASE, 1);
    let acct = fx.accts[2];
    edit_acc(&mut s, &acct, |a| {
        a.perps[0].quote_position_native = I80F48::ZERO;
        a.tokens[0].indexed_position = I80F48::ZERO;
    });
    s.edit_zc(&fx.w.toks[1].bank, |b: &mut Bank| {
        b.oracle = main_key();
        b.net_borrow_limit_per_window_quote = -1;
    });
    s.edit_zc(&fx.w.toks[1].mint_info, |m: &mut MintInfo| m.oracle = main_key());
    let c = staleness.map(|v| v as i64).unwrap_or(-1);
    s.edit_zc(&fx.w.perps[0].market, |m: &mut PerpMarket| {
        m.oracle = main_key();
        m.oracle_config.conf_filter = fxp(0.125);
        m.oracle_config.max_staleness_slots = c;
    });
    fx.w.toks[1].oracle = main_key();
    fx.w.perps[0].oracle = main_key();
    (fx, s)
}

const ALL: [Ty; 25] = [
    Ty::Pyth, Ty::PythHalted, Ty::PythWrongVersion, Ty::PythV2, Ty::PythV2Partial, Ty::Sb1, Ty::Sb2, Ty::Sb2Few, Ty::OnDemand, Ty::OnDemandEmpty, Ty::Stub, Ty::Garbage,
    Ty::Orca(0), Ty::Orca(1), Ty::Orca(2), Ty::Orca(3), Ty::Orca(4), Ty::Orca(5), Ty::Orca(6), Ty::Ray(0), Ty::Ray(1), Ty::Ray(2), Ty::Ray(3), Ty::Ray(5), Ty::Ray(6),
];
pub fn feeds_ok(s: &State) -> (Img, Img) {
    (Img { ty: Ty::Pyth, m: 99_999_992, conf: 10_000, expo: -8, slot: s.slot, time: 0 }, Img { ty: Ty::Pyth, m: 16_000_000_000, conf: 8_000_000, expo: -8, slot: s.slot, time: 0 })
}
pub fn oracle_enum(rep: &Report, thorough: bool) {
    let decs: &[u8] = if thorough { &[0, 4, 6, 8, 9] } else { &[4, 6, 9] };
    for &dec in decs {
        for stale in [None, Some(0), Some(100)] {
            let (fx, s0) = oracle_fix(dec, stale);
            let m = stale.unwrap_or(100) as u64;
            let mut cases: Vec<(Setup, bool)> = vec![];
            let fe = feeds_ok(&s0);
            let mut mains = vec![];
            for ty in ALL {
                for (p, expo) in [(8_000_000_000i64, -8), (24, -3), (0, -2), (-8, 0), (1 << 20, 0)] {
                    if (expo as i32) < -8 || (ty == Ty::Sb2 && expo > 0) {
                        continue;
                    }
                    let confs: Vec<u64> = if p > 0 { vec![0, p as u64 / 8, p as u64 / 8 - 1, p as u64 / 8 + 1, p as u64] } else { vec![0, 1] };
                    for conf in confs {
                        for slot in [s0.slot, s0.slot - m, s0.slot - m - 1, 0, s0.slot + 5] {
                            let times: &[i64] = if matches!(ty, Ty::PythV2) { &[0, -45, -46, 30] } else { &[0] };
                            for t in times {
                                if matches!(ty, Ty::Orca(_) | Ty::Ray(_)) && (conf != 0 || slot != s0.slot || p <= 0) {
                                    continue;
                                }
                                mains.push(Img { ty, m: p, conf, expo, slot, time: s0.ts + t });
                            }
                        }
                    }
                }
            }
            for x in &mains {
                cases.push((Setup { main: *x, fallback: None, passed: false, feeds: fe, feeds_passed: [true; 2], early: false }, false));
            }
            // pools with feeds of every quality
            for ty in ALL.iter().filter(|t| matches!(t, Ty::Orca(_) | Ty::Ray(_))) {
                for (pm, expo) in [(8_000_000_000i64, -8), (24, -3), (1 << 20, 0)] {
                    for conf in [0u64, 125_000, 2_000_000_000, 2_000_000_001, 12_500_000, 12_500_001] {
                        for slot in [s0.slot, s0.slot - m, s0.slot - m - 1] {
                            for fty in [Ty::Pyth, Ty::PythHalted] {
                                for passed in [[true; 2], [false; 2], [true, false], [false, true]] {
                                    let mut feeds = fe;
                                    for q in [&mut feeds.0, &mut feeds.1] {
                                        q.conf = conf;
                                        q.slot = slot;
                                        q.ty = fty;
                                    }
                                    cases.push((Setup { main: Img { ty: *ty, m: pm, conf: 0, expo, slot: 1, time: 0 }, fallback: None, passed: false, feeds, feeds_passed: passed, early: false }, false));
                                }
                            }
                        }
                    }
                }
            }
            // primary x fallback
            let good = Img { ty: Ty::Pyth, m: 8_000_000_000, conf: 1_000, expo: -8, slot: s0.slot, time: s0.ts };
            let primaries = [
                good,
                Img { conf: 8_000_000_000, ..good },
                Img { slot: s0.slot - m - 1, ..good },
                Img { m: -8, ..good },
                Img { ty: Ty::PythV2, time: s0.ts - 1_000, ..good },
                Img { ty: Ty::PythV2Partial, ..good },
                Img { ty: Ty::Stub, conf: 8_000_000_000, ..good },
                Img { ty: Ty::Stub, slot: s0.slot - m - 1, ..good },
                Img { ty: Ty::Sb2, conf: 8_000_000_000, ..good },
                Img { ty: Ty::Sb2Few, ..good },
                Img { ty: Ty::Garbage, ..good },
                Img { m: 0, conf: 0, ..good },
                Img { m: 0, ..good },
                Img { ty: Ty::Stub, m: 0, conf: 0, ..good },
                Img { slot: s0.slot - m, ..good },
                Img { conf: 1_000_000_000, ..good },
                Img { conf: 1_000_000_001, ..good },
            ];
            for main in primaries {
                for ty in ALL {
                    for (conf, slot) in [(8_000, s0.slot), (900_000_000, s0.slot), (8_000, s0.slot - m - 1), (8_000, s0.slot - m)] {
                        for (passed, early) in [(true, false), (true, true), (false, false)] {
                            for feeds_passed in [[true; 2], [false; 2], [true, false], [false, true]] {
                                if matches!(ty, Ty::Orca(_) | Ty::Ray(_)) || feeds_passed[0] == feeds_passed[1] {
                                let f = Img { ty, m: 7_200_000_000, conf, expo: -8, slot, time: s0.ts };
                                cases.push((Setup { main, fallback: Some(f), passed, feeds: fe, feeds_passed, early }, true));
                                }
                            }
                        }
                    }
                }
            }
            cases.par_iter().for_each(|(x, _)| {
                let mut s = s0.clone();
                install(&fx, &mut s, x);
                rep.case();
                let r = quiet_catch(|| check(&fx, &s, x));
                let e = match r {
                    Ok(Ok(())) => return,
                    Ok(Err(e)) => e,
                    Err(p) => format!("checker panicked {p}"),
                };
                let key = format!("{} {:?}{}", e.split(" | ").next().unwrap(), x.main.ty, x.fallback.map(|f| format!(" fallback {:?}", f.ty)).unwrap_or_default());
                rep.violation(&key, &format!("{e}; decimals {dec} staleness {stale:?} {x:?}"));
            });
        }
    }
}
