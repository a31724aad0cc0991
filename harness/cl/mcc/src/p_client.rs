//! C36: every operation of the Rust client library produces a transaction that does what the
//! corresponding instructions with a complete set of accounts do.
use crate::chain::*;
use crate::explore::*;
use crate::refm::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::accounts_ix::*;
use mango_v4::health::HealthType;
use mango_v4::state::*;
use mango_v4_client::*;
use solana_program::instruction::Instruction;
use solana_program::system_program;
use solana_sdk::account::{AccountSharedData, ReadableAccount};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use std::sync::Arc;
use tokio::block_on;

type Refs = Box<dyn Fn(&Fx, &State, &[Pubkey]) -> Option<Vec<Vec<Instruction>>> + Send + Sync>;
type Run = Box<dyn Fn(&MangoClient, &Fx, &State) -> anyhow::Result<()> + Send + Sync>;
enum Kind {
    Env(Box<dyn Fn(&Fx, &mut State) -> Option<()> + Send + Sync>),
    Cl(usize, Refs, Run),
}
struct Op {
    name: String,
    kind: Kind,
}
fn env(name: &str, f: impl Fn(&Fx, &mut State) -> Option<()> + Send + Sync + 'static) -> Op {
    Op { name: name.into(), kind: Kind::Env(Box::new(f)) }
}
fn cl(
    name: &str,
    actor: usize,
    refs: impl Fn(&Fx, &State, &[Pubkey]) -> Option<Vec<Vec<Instruction>>> + Send + Sync + 'static,
    run: impl Fn(&MangoClient, &Fx, &State) -> anyhow::Result<()> + Send + Sync + 'static,
) -> Op {
    Op { name: name.into(), kind: Kind::Cl(actor, Box::new(refs), Box::new(run)) }
}

pub struct Fx {
    pub w: World,
    pub keys: Vec<Arc<Keypair>>,
    pub own: Vec<Pubkey>,
    pub acc: Vec<Pubkey>,
    pub fee: Arc<Keypair>,
    /// fallback oracles by token
    fb: Vec<Option<Pubkey>>,
    pub variants: Vec<(FallbackOracleConfig, Fetch)>,
}
const U: usize = 0;
const V: usize = 1;
const L: usize = 2;
/// a delegate of U
const D: usize = 3;

fn keypair(n: u8) -> Arc<Keypair> {
    Arc::new(solana_sdk::signer::keypair::keypair_from_seed(&[n; 32]).unwrap())
}
impl Fx {
    /// the fallback oracles that a transaction has to carry under a configuration
    fn supplied(&self, c: &FallbackOracleConfig) -> Vec<Option<Pubkey>> {
        self.fb
            .iter()
            .map(|f| match c {
                FallbackOracleConfig::Never => None,
                FallbackOracleConfig::Fixed(k) => f.filter(|f| k.contains(f)),
                FallbackOracleConfig::Dynamic | FallbackOracleConfig::All => *f,
            })
            .collect()
    }
    pub fn value(&self, s: &State, a: usize) -> MangoAccountValue {
        MangoAccountValue::from_bytes(&s.data(&self.acc[a])[8..]).unwrap()
    }
}
/// append fallback oracles to the health accounts
fn fbk(i: Instruction, f: &[Pubkey]) -> Instruction {
    i.with(f.iter().map(|k| ro(*k)))
}
fn one(i: Instruction) -> Option<Vec<Vec<Instruction>>> {
    Some(vec![vec![i]])
}
fn paid_by(mut i: Instruction, from: Pubkey, to: Pubkey) -> Instruction {
    for a in i.accounts.iter_mut().filter(|a| a.pubkey == from) {
        a.pubkey = to;
    }
    i
}
fn send(c: &MangoClient, r: anyhow::Result<PreparedInstructions>, authority: bool) -> anyhow::Result<()> {
    let ixs = r?.to_instructions();
    if authority {
        block_on(c.send_and_confirm_authority_tx(ixs))?;
    } else {
        block_on(c.send_and_confirm_permissionless_tx(ixs))?;
    }
    Ok(())
}

struct M {
    name: String,
    fx: Fx,
    ops: Vec<Op>,
    /// accounts whose health cache is compared in every state
    health: Vec<usize>,
    top: Option<usize>,
}
impl Model for M {
    type G = ();
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> Vec<String> {
        self.ops.iter().map(|o| o.name.clone()).collect()
    }
    fn step(&self, op: usize, n: &Node<()>) -> Result<Step<()>, String> {
        let fx = &self.fx;
        let next = match &self.ops[op].kind {
            Kind::Env(f) => {
                let mut s = n.s.clone();
                if f(fx, &mut s).is_none() {
                    return Ok(Step::Disabled);
                }
                Some(s)
            }
            Kind::Cl(actor, refs, run) => {
                let mut out = None;
                for (cfg, fetch) in &fx.variants {
                    let mut keys: Vec<Pubkey> = fx.supplied(cfg).into_iter().flatten().collect();
                    keys.sort();
                    keys.dedup();
                    let alts = match refs(fx, &n.s, &keys) {
                        None => return Ok(Step::Disabled),
                        Some(a) => a,
                    };
                    let mut errs = vec![];
                    let ok: Vec<State> = alts
                        .iter()
                        .filter_map(|ixs| {
                            let mut s = n.s.clone();
                            match s.tx(ixs) {
                                Ok(()) => Some(s),
                                Err(e) => {
                                    errs.push(format!("{e:?}"));
                                    None
                                }
                            }
                        })
                        .collect();
                    let (r, after, sent) = on_chain(&n.s, || {
                        let c = client(&fx.w, &n.s, fx.acc[*actor], &fx.keys[*actor], &fx.fee, cfg, fetch)?;
                        run(&c, fx, &n.s)
                    });
                    let how = format!("fallbacks {}, accounts from {}", cfg_name(cfg), fetch_name(fetch));
                    if std::env::var("C36_DEBUG").is_ok() {
                        eprintln!("{}: {how}: {:?} / {} of {} {errs:?}", self.ops[op].name, r.as_ref().map_err(|e| format!("{e:#}")), ok.len(), alts.len());
                        for a in &fx.acc {
                            let a = acc(&n.s, a);
                            eprintln!("    {:?} {:?}", a.active_tokens().map(|t| (t.token_index, t.in_use_count)).collect::<Vec<_>>(), a.active_serum().map(|o| o.market_index).collect::<Vec<_>>());
                        }
                    }
                    match (&r, ok.is_empty()) {
                        (Ok(()), true) => return Err(format!("the client's transaction was accepted although the instruction with complete accounts is refused|{how}; {errs:?}")),
                        (Err(e), false) => return Err(format!("the client failed although the operation is possible|{how}; transactions sent {sent}; {e:#}")),
                        (Ok(()), false) => {
                            let h = after.hash();
                            match ok.iter().find(|s| s.hash() == h) {
                                None => return Err(format!("the client's transaction had a different effect than the operation|{how}; {}", diff(&ok[0], &after))),
                                Some(s) => {
                                    if out.is_none() {
                                        out = Some(s.clone())
                                    }
                                }
                            }
                        }
                        (Err(_), true) => {
                            if after.hash() != n.s.hash() {
                                return Err(format!("the client reported a failure but changed the chain|{how}"));
                            }
                        }
                    }
                }
                out
            }
        };
        let s = match next {
            None => return Ok(Step::Rejected),
            Some(s) => s,
        };
        for a in &self.health {
            self.check_health(&s, *a)?;
        }
        if let Some(p) = self.top {
            self.check_top(&s, p)?;
        }
        Ok(Step::Next(Node { s, g: () }))
    }
}
fn cfg_name(c: &FallbackOracleConfig) -> &'static str {
    match c {
        FallbackOracleConfig::Never => "never",
        FallbackOracleConfig::Fixed(_) => "fixed",
        FallbackOracleConfig::Dynamic => "dynamic",
        FallbackOracleConfig::All => "all",
    }
}
fn fetch_name(f: &Fetch) -> String {
    match f {
        Fetch::Warm(k, m) => format!("cache holding {} accounts{}", k.len(), if *m { " (fetched together)" } else { "" }),
        f => format!("{f:?}"),
    }
}
fn diff(a: &State, b: &State) -> String {
    let mut v = vec![];
    for k in a.accts.keys().chain(b.accts.keys()).collect::<std::collections::BTreeSet<_>>() {
        match (a.accts.get(k), b.accts.get(k)) {
            (Some(x), Some(y)) if x.data == y.data && x.lamports == y.lamports => {}
            (x, y) => v.push(format!("{k}: {:?} / {:?}", x.map(|x| (x.lamports, x.data.len())), y.map(|x| (x.lamports, x.data.len())))),
        }
    }
    v.join(", ")
}
/// is the price usable, apart from its age
fn confident(s: &State, o: &Pubkey) -> bool {
    let o: StubOracle = s.zc(o);
    f(o.deviation) <= 0.1 * f(o.price)
}
impl M {
    fn check_health(&self, s: &State, a: usize) -> Result<(), String> {
        let fx = &self.fx;
        let acct = acc(s, &fx.acc[a]);
        let mut kinds: Vec<_> = fx.variants.iter().map(|v| (Some(v.0.clone()), v.1.clone())).collect();
        // the synchronous variant never uses fallback oracles
        kinds.push((None, Fetch::Chain));
        for (cfg, fetch) in kinds {
            let fb = cfg.as_ref().map(|c| fx.supplied(c)).unwrap_or(vec![None; fx.fb.len()]);
            let mut w = fx.w.clone();
            let mut possible = true;
            for p in acct.active_tokens() {
                let i = w.tok_by_index(p.token_index);
                if !confident(s, &w.toks[i].oracle) {
                    match fb[i] {
                        Some(k) if confident(s, &k) => w.toks[i].oracle = k,
                        _ => possible = false,
                    }
                }
            }
            for p in acct.active_perps() {
                possible &= confident(s, &w.perps[w.perp_by_index(p.market_index)].oracle);
            }
            let (r, _, _) = on_chain(s, || {
                let fbc = cfg.clone().unwrap_or(FallbackOracleConfig::Never);
                let c = client(&fx.w, s, fx.acc[a], &fx.keys[a], &fx.fee, &fbc, &fetch)?;
                let v = fx.value(s, a);
                let h = match cfg {
                    Some(_) => block_on(c.health_cache(&v))?,
                    None => mango_v4_client::health_cache::new_sync(&c.context, &chain_fetcher(s), &v)?,
                };
                Ok([HealthType::Init, HealthType::Maint, HealthType::LiquidationEnd].map(|t| h.health(t)))
            });
            let how = format!("fallbacks {}, accounts from {}", cfg.as_ref().map(cfg_name).unwrap_or("sync"), fetch_name(&fetch));
            match (r, possible) {
                (Err(e), true) => return Err(format!("health could not be computed|account {a}, {how}: {e:#}")),
                (Ok(_), false) => return Err(format!("health was computed from an unusable price|account {a}, {how}")),
                (Err(_), false) => {}
                (Ok(h), true) => {
                    for (t, x) in [Ht::Init, Ht::Maint, Ht::LiqEnd].into_iter().zip(h) {
                        let want = ref_health(&w, s, &acct, t);
                        if !near(f(x), want, 1e-3 + want.abs() * 1e-9) {
                            return Err(format!("the client's health differs from the program's|account {a} {t:?}, {how}: {x} vs {want}"));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// perp_pnl::fetch_top against a direct computation
    fn check_top(&self, s: &State, p: usize) -> Result<(), String> {
        let fx = &self.fx;
        let m = fx.w.perp(s, p);
        let px = oracle_price(s, &fx.w.perps[p].oracle);
        for pos in [true, false] {
            let mut want: Vec<(Pubkey, f64)> = fx
                .acc
                .iter()
                .filter_map(|k| {
                    let a = acc(s, k);
                    let pp = a.perp(m.perp_market_index)?;
                    let mut pp = pp.clone();
                    pp.settle_funding(&m);
                    let pnl = pp.base_position_lots() as f64 * m.base_lot_size as f64 * px + f(pp.quote_position_native());
                    pp.update_settle_limit(&m, s.ts as u64);
                    let (min, max) = pp.available_settle_limit(&m);
                    let pnl = pnl.clamp(min as f64, max as f64);
                    if pos && pnl > 0.0 {
                        Some((*k, pnl))
                    } else if !pos && pnl < 0.0 {
                        Some((*k, pnl.max(-ref_max_settle(&fx.w, s, &a, m.settle_token_index).max(0.0))))
                    } else {
                        None
                    }
                })
                .collect();
            want.sort_by(|a, b| if pos { b.1.total_cmp(&a.1) } else { a.1.total_cmp(&b.1) });
            for count in 1..=3 {
                let (r, _, _) = on_chain(s, || {
                    let ctx = block_on(MangoGroupContext::new_from_rpc(&rpc(), fx.w.group))?;
                    let dir = if pos { perp_pnl::Direction::MaxPositive } else { perp_pnl::Direction::MaxNegative };
                    block_on(perp_pnl::fetch_top(&ctx, &FallbackOracleConfig::Never, &chain_fetcher(s), m.perp_market_index, dir, count))
                });
                let got = r.map_err(|e| format!("fetch_top failed|{e:#}"))?;
                let w: Vec<f64> = want.iter().take(count).map(|x| x.1).collect();
                let g: Vec<f64> = got.iter().map(|x| f(x.2)).collect();
                let same = w.len() == g.len()
                    && w.iter().zip(&g).all(|(a, b)| near(*a, *b, 0.01))
                    && got.iter().all(|x| want.iter().any(|y| y.0 == x.0 && near(y.1, f(x.2), 0.01)));
                if !same {
                    return Err(format!("fetch_top does not return the accounts with the most settleable pnl|positive {pos} count {count}: got {g:?} want {want:?}"));
                }
            }
        }
        Ok(())
    }
}

pub struct Cfg {
    pub sizes: (u8, u8, u8),
    pub fallbacks: bool,
    pub variants: Vec<(FallbackOracleConfig, Fetch)>,
}
pub fn fixture(name: &str, c: Cfg) -> (Fx, State) {
    let mut s = State::new();
    let mut w = World::new(name, &mut s, 0, 1);
    w.add_token(&mut s, &TokCfg::quote());
    // as on the real chain
    let mut sp = Acct::new(1, solana_program::bpf_loader::ID, b"system_program".to_vec());
    sp.executable = true;
    s.set(system_program::ID, sp);
    let stale = c.fallbacks.then_some(100);
    w.add_token(&mut s, &TokCfg { price: 10.0, max_staleness: stale, loan_orig_fee: 0.0, collateral_fee: 0.01, ..Default::default() });
    w.add_token(&mut s, &TokCfg { price: 5.0, max_staleness: stale, loan_orig_fee: 0.0, ..Default::default() });
    let mut fb = vec![None; 3];
    if c.fallbacks {
        // token 3 shares the oracle of token 2
        let mint = pk(&format!("{name} mint 3"));
        put_mint(&mut s, mint, 6);
        let o2 = w.toks[2].oracle;
        let r = w.register_ix(3, mint, o2, &TokCfg { max_staleness: Some(150), ..Default::default() });
        s.tx(&[r]).unwrap();
        w.toks.push(Tok { mint, index: 3, decimals: 6, bank: w.pda(b"Bank", &[&3u16.to_le_bytes(), &0u32.to_le_bytes()]), vault: w.pda(b"Vault", &[&3u16.to_le_bytes(), &0u32.to_le_bytes()]), mint_info: w.pda(b"MintInfo", &[mint.as_ref()]), oracle: o2 });
        let mut own = |n: &str, p: f64| {
            let m = pk(n);
            put_mint(&mut s, m, 6);
            w.make_oracle(&mut s, m, p)
        };
        let f1 = own("fallback 1", 9.0);
        let f3 = own("fallback 3", 4.0);
        // the fallback oracle of token 2 is the main oracle of token 1
        fb = vec![None, Some(f1), Some(w.toks[1].oracle), Some(f3)];
        for (i, k) in fb.iter().enumerate() {
            if let Some(k) = k {
                s.edit_zc::<Bank>(&w.toks[i].bank, |b| b.fallback_oracle = *k);
                s.edit_zc::<MintInfo>(&w.toks[i].mint_info, |b| b.fallback_oracle = *k);
            }
        }
    }
    let pc = PerpCfg { price: 10.0, maker_fee: 0.0, taker_fee: 0.0, settle_limit_factor: 1000.0, settle_limit_window: 1 << 40, ..Default::default() };
    w.add_perp(&mut s, &pc);
    w.add_perp(&mut s, &pc);
    w.add_serum(&mut s, 1, 0, 100, 10, f32::MAX);
    w.add_serum(&mut s, 2, 0, 100, 10, f32::MAX);
    w.add_serum(&mut s, 2, 1, 100, 10, f32::MAX);
    let mut keys = vec![];
    let mut own = vec![];
    let mut accs = vec![];
    for i in 0..3u8 {
        let kp = keypair(i + 1);
        let k = kp.pubkey();
        s.set(k, Acct::new(RICH, system_program::ID, vec![]));
        for t in &w.toks {
            put_token(&mut s, ata(&k, &t.mint), t.mint, k, 1_000_000_000_000);
        }
        let (t, s3, p) = if i == 0 { c.sizes } else { (6, 3, 2) };
        accs.push(w.create_account_sized(&mut s, k, i as u32, t, s3, p, 4 * (p > 0) as u8, 2));
        keys.push(kp);
        own.push(k);
    }
    let fee = keypair(9);
    s.set(fee.pubkey(), Acct::new(RICH, system_program::ID, vec![]));
    // liquidity
    for t in 0..w.toks.len() {
        let i = w.deposit(&s, accs[V], own[V], t, 1_000_000_000, false);
        s.tx(&[i]).unwrap();
    }
    // the group's lookup table
    let mut addrs = vec![w.group, spl_token::ID, dex_program(), system_program::ID, solana_program::sysvar::rent::ID];
    for t in &w.toks {
        addrs.extend([t.bank, t.vault, t.oracle, t.mint, t.mint_info]);
    }
    for p in &w.perps {
        addrs.extend([p.market, p.oracle, p.bids, p.asks, p.event_queue]);
    }
    for m in &w.serums {
        addrs.extend([m.market, m.ext, m.bids, m.asks, m.event_q, m.req_q, m.coin_vault, m.pc_vault, m.signer]);
    }
    let mut d = vec![0u8; 56];
    d[0] = 1;
    for a in addrs {
        d.extend(a.to_bytes());
    }
    let alt = pk("lookup table");
    s.set(alt, Acct::new(RICH, alt_program(), d));
    s.edit_zc::<Group>(&w.group, |g| g.address_lookup_tables[0] = alt);
    // an account that does not exist on chain is never asked for
    (Fx { w, keys, own, acc: accs, fee, fb, variants: c.variants }, s)
}

fn deposit(tok: usize, amount: u64) -> Op {
    deposit_by(U, tok, amount)
}
fn deposit_by(a: usize, tok: usize, amount: u64) -> Op {
    cl(
        &format!("{}deposit T{tok} {amount}", if a == D { "delegate: " } else { "" }),
        a,
        move |x, s, k| one(fbk(x.w.deposit(s, x.acc[a], x.own[a], tok, amount, false), k)),
        move |c, x, _| block_on(c.token_deposit(x.w.toks[tok].mint, amount, false)).map(|_| ()),
    )
}
fn withdraw(tok: usize, amount: u64, borrow: bool) -> Op {
    withdraw_by(U, tok, amount, borrow)
}
fn withdraw_by(a: usize, tok: usize, amount: u64, borrow: bool) -> Op {
    cl(
        &format!("{}withdraw T{tok} {amount}", if a == D { "delegate: " } else { "" }),
        a,
        move |x, s, k| {
            let mint = &x.w.toks[tok].mint;
            // a delegate withdraws to the owner
            let to = if a == D { ata(&x.own[U], mint) } else { ata(&x.own[a], mint) };
            one(fbk(paid_by(x.w.withdraw(s, x.acc[a], x.own[a], tok, amount, borrow), ata(&x.own[a], mint), to), k))
        },
        move |c, x, _| block_on(c.token_withdraw(x.w.toks[tok].mint, amount, borrow)).map(|_| ()),
    )
}
fn stale(tok: usize) -> Op {
    env(&format!("oracle of T{tok} goes stale / recovers"), move |x, s| {
        let o = x.w.toks[tok].oracle;
        flip(x, s, o, true)
    })
}
fn unsure(tok: usize) -> Op {
    env(&format!("oracle of T{tok} becomes uncertain / recovers"), move |x, s| {
        let o = x.w.toks[tok].oracle;
        flip(x, s, o, false)
    })
}
fn flip(x: &Fx, s: &mut State, o: Pubkey, stale: bool) -> Option<()> {
    let so: StubOracle = s.zc(&o);
    let (mut slot, mut dev) = (s.slot, 0.0);
    if stale && so.last_update_slot + 300 >= s.slot && f(so.deviation) == 0.0 {
        slot = s.slot - 400;
    } else if !stale && f(so.deviation) == 0.0 && so.last_update_slot + 300 >= s.slot {
        dev = f(so.price);
    }
    s.tx(&[x.w.oracle_set_test_ix(o, f(so.price), slot, dev)]).unwrap();
    Some(())
}

fn oracles(thorough: bool) -> (M, State) {
    let (mut fx, mut s) = fixture("client oracles", Cfg { sizes: (4, 0, 0), fallbacks: true, variants: vec![] });
    fresh(&fx, &mut s);
    let i = fx.w.deposit(&s, fx.acc[U], fx.own[U], 0, 1_000_000, false);
    s.tx(&[i]).unwrap();
    let d = keypair(D as u8 + 1);
    s.set(d.pubkey(), Acct::new(RICH, system_program::ID, vec![]));
    for t in &fx.w.toks {
        put_token(&mut s, ata(&d.pubkey(), &t.mint), t.mint, d.pubkey(), 1_000_000_000);
    }
    s.tx(&[fx.w.account_edit(fx.acc[U], fx.own[U], Some(d.pubkey()), None, None)]).unwrap();
    fx.acc.push(fx.acc[U]);
    fx.own.push(d.pubkey());
    fx.keys.push(d);
    let os: Vec<Pubkey> = fx.w.toks.iter().map(|t| t.oracle).collect();
    use FallbackOracleConfig::*;
    fx.variants = vec![
        (Never, Fetch::Rpc),
        (Fixed(vec![fx.fb[1].unwrap(), fx.fb[3].unwrap()]), Fetch::Cached),
        (All, Fetch::Chain),
        (Dynamic, Fetch::Cached),
        (Dynamic, Fetch::Warm(vec![os[2]], false)),
        (Dynamic, Fetch::Chain),
    ];
    if thorough {
        fx.variants.extend([(All, Fetch::Rpc), (Dynamic, Fetch::Warm(vec![os[1]], true)), (Dynamic, Fetch::Warm(vec![os[1], os[2]], false)), (Fixed(vec![os[1]]), Fetch::Chain)]);
    }
    let check = cl(
        "health check",
        U,
        |x, s, k| {
            one(fbk(
                ix(mango_v4::accounts::HealthCheck { group: x.w.group, account: x.acc[U] }, mango_v4::instruction::HealthCheck { min_health_value: 100.0, check_kind: HealthCheckKind::Init }).with(x.w.health(s, &x.acc[U], None, None, false)),
                k,
            ))
        },
        |c, x, s| send(c, block_on(c.health_check_instruction(&x.value(s, U), 100.0, vec![], vec![], HealthCheckKind::Init)), false),
    );
    let ops = vec![deposit(1, 100_000), deposit(2, 100_000), deposit(3, 100_000), withdraw(0, 1_100_000, true), withdraw(2, u64::MAX, false), deposit_by(D, 2, 1), withdraw_by(D, 2, u64::MAX, false), withdraw_by(D, 0, 1, false), check, stale(1), stale(2), unsure(1), unsure(2)];
    (M { name: "oracles".into(), fx, ops, health: vec![U], top: None }, s)
}

/// applies the instructions one after the other; each may depend on the state before it
fn plan(s: &State, steps: &[&dyn Fn(&State) -> Instruction]) -> Vec<Instruction> {
    let mut s = s.clone();
    let mut v = vec![];
    for f in steps {
        let i = f(&s);
        let _ = s.tx(&[i.clone()]);
        v.push(i);
    }
    v
}
fn price(o: Oracle, to: f64) -> Op {
    env(&format!("price of {o:?} to {to} / back"), move |x, s| {
        let k = match o {
            Oracle::T(t) => x.w.toks[t].oracle,
            Oracle::P(p) => x.w.perps[p].oracle,
        };
        let now = oracle_price(s, &k);
        let back = match o {
            Oracle::T(1) => 10.0,
            Oracle::T(2) => 5.0,
            Oracle::T(_) => 1.0,
            Oracle::P(_) => 10.0,
        };
        s.tx(&[x.w.oracle_set_test_ix(k, if near(now, to, 1e-9) { back } else { to }, s.slot, 0.0)]).unwrap();
        Some(())
    })
}
#[derive(Clone, Copy, Debug)]
enum Oracle {
    T(usize),
    P(usize),
}
fn perp_order(a: usize, p: usize, side: Side, px: i64, lots: i64) -> Op {
    let who = ["U", "V", "L"][a];
    cl(
        &format!("{who}: perp {p} {side:?} {lots} @ {px}"),
        a,
        move |x, s, k| {
            let place = |s: &State| fbk(x.w.perp_place(s, x.acc[a], x.own[a], p, side, px, lots, i64::MAX, 7, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10), k);
            let other = |_: &State| x.w.perp_deactivate(x.acc[a], x.own[a], 1 - p);
            Some(vec![plan(s, &[&place]), plan(s, &[&other, &place])])
        },
        move |c, _, _| block_on(c.perp_place_order(p as u16, side, px, lots, i64::MAX, 7, PlaceOrderType::Limit, false, 0, 10, SelfTradeBehavior::DecrementTake)).map(|_| ()),
    )
}
fn perps(thorough: bool, full: bool) -> (M, State) {
    use FallbackOracleConfig::*;
    let (mut fx, mut s) = fixture(if full { "client perp liq" } else { "client perps" }, Cfg { sizes: (3, 1, 1), fallbacks: false, variants: vec![] });
    fx.variants = vec![(Never, Fetch::Rpc), (Dynamic, Fetch::Cached)];
    if thorough {
        fx.variants.push((All, Fetch::Chain));
    }
    let perp_ix = |i: Instruction, s: &mut State| s.tx(&[i]).unwrap();
    for (a, t, n) in [(U, 0, 3_000), (L, 2, 1_000_000), (L, 1, 1_000_000)] {
        let i = fx.w.deposit(&s, fx.acc[a], fx.own[a], t, n, false);
        perp_ix(i, &mut s);
    }
    let mut ops = vec![];
    let settle = |a: usize, b: usize| {
        cl(
            &format!("settle pnl of {} with {}", ["U", "V"][a], ["U", "V"][b]),
            L,
            move |x, s, k| one(fbk(x.w.perp_settle_pnl(s, x.acc[L], x.own[L], x.acc[a], x.acc[b], 0), k)),
            move |c, x, s| block_on(c.perp_settle_pnl(0, (&x.acc[a], &x.value(s, a)), (&x.acc[b], &x.value(s, b)))).map(|_| ()),
        )
    };
    let consume = env("consume events", |x, s| {
        for p in 0..2 {
            s.tx(&[x.w.perp_consume(p, &[x.acc[U], x.acc[V]], 10)]).ok()?;
        }
        Some(())
    });
    if full {
        put_token(&mut s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, 100);
        // U is long 20 lots against V
        for (a, side) in [(V, Side::Ask), (U, Side::Bid)] {
            let i = fx.w.perp_place(&s, fx.acc[a], fx.own[a], 0, side, 100, 20, i64::MAX, 1, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10);
            perp_ix(i, &mut s);
        }
        let i = fx.w.perp_consume(0, &[fx.acc[U], fx.acc[V]], 10);
        perp_ix(i, &mut s);
        // and has a resting order
        let i = fx.w.perp_place(&s, fx.acc[U], fx.own[U], 0, Side::Bid, 50, 1, i64::MAX, 2, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10);
        perp_ix(i, &mut s);
        for to in [9.2, 7.0, 12.0] {
            ops.push(price(Oracle::P(0), to));
        }
        ops.push(settle(U, V));
        ops.push(settle(V, U));
        ops.push(cl(
            "force cancel U's perp orders",
            L,
            |x, s, k| one(fbk(x.w.perp_liq_force_cancel(s, x.acc[U], 0, 5), k)),
            |c, x, s| block_on(c.perp_liq_force_cancel_orders((&x.acc[U], &x.value(s, U)), 0)).map(|_| ()),
        ));
        for (by, base, pnl) in [(L, 3, 0), (L, i64::MAX, u64::MAX), (V, i64::MAX, u64::MAX)] {
            ops.push(cl(
                &format!("{} liquidates U's perp base {base} pnl {pnl}", ["U", "V", "L"][by]),
                by,
                move |x, s, k| one(fbk(x.w.perp_liq_base(s, x.acc[by], x.own[by], x.acc[U], 0, base, pnl), k)),
                move |c, x, s| send(c, block_on(c.perp_liq_base_or_positive_pnl_instruction((&x.acc[U], &x.value(s, U)), 0, base, pnl)), true),
            ));
        }
        ops.push(cl(
            "negative pnl or bankruptcy of U",
            L,
            |x, s, k| one(fbk(x.w.perp_liq_bankruptcy(s, x.acc[L], x.own[L], x.acc[U], 0, u64::MAX), k)),
            |c, x, s| send(c, block_on(c.perp_liq_negative_pnl_or_bankruptcy_instruction((&x.acc[U], &x.value(s, U)), 0, u64::MAX)), true),
        ));
        ops.push(withdraw(0, 1_200, true));
    } else {
        ops.push(perp_order(V, 0, Side::Ask, 100, 2));
        ops.push(perp_order(V, 1, Side::Bid, 100, 2));
        ops.push(perp_order(U, 0, Side::Bid, 100, 2));
        ops.push(perp_order(U, 0, Side::Ask, 120, 1));
        ops.push(perp_order(U, 1, Side::Ask, 100, 2));
        ops.push(perp_order(U, 0, Side::Bid, 100, 2000));
        ops.push(cl("U cancels all in 0", U, |x, _, _| one(x.w.perp_cancel_all(x.acc[U], x.own[U], 0, 5)), |c, _, _| send(c, c.perp_cancel_all_orders_instruction(0, 5), true)));
        ops.push(cl("U deactivates 0", U, |x, _, _| one(x.w.perp_deactivate(x.acc[U], x.own[U], 0)), |c, _, _| block_on(c.perp_deactivate_position(0)).map(|_| ())));
        ops.push(consume);
        ops.push(settle(U, V));
        ops.push(settle(V, U));
        ops.push(price(Oracle::P(0), 11.0));
    }
    (M { name: if full { "perp liquidation" } else { "perp trading" }.into(), fx, ops, health: vec![U], top: Some(0) }, s)
}

/// moves to a later slot with every oracle just updated
fn fresh(fx: &Fx, s: &mut State) {
    s.slot += 1000;
    let mut k: Vec<Pubkey> = fx.w.toks.iter().map(|t| t.oracle).chain(fx.fb.iter().flatten().copied()).collect();
    k.sort();
    k.dedup();
    for o in k {
        let p = oracle_price(s, &o);
        s.tx(&[fx.w.oracle_set_test_ix(o, p, s.slot, 0.0)]).unwrap();
    }
}
/// The ways to place a spot order: as it is or after making room by closing one empty open orders
/// account and withdrawing up to two token positions of at most one native token.
fn spot_plans(x: &Fx, s: &State, k: &[Pubkey], n: usize, place: &dyn Fn(&State) -> Instruction) -> Vec<Vec<Instruction>> {
    let a = acc(s, &x.acc[U]);
    let create = |_: &State| paid_by(x.w.serum_create_oo(x.acc[U], x.own[U], n), x.w.payer, x.own[U]);
    if a.active_serum().any(|o| o.market_index == x.w.serums[n].index) {
        return vec![plan(s, &[place])];
    }
    let markets: Vec<Option<usize>> = std::iter::once(None).chain((0..x.w.serums.len()).filter(|m| a.active_serum().any(|o| o.market_index == x.w.serums[*m].index)).map(Some)).collect();
    let dust: Vec<usize> = (0..x.w.toks.len())
        .filter(|t| {
            let b = x.w.bank(s, *t);
            a.tok(b.token_index).map_or(false, |p| {
                let n = f(p.native(&b));
                (0.0..=1.0).contains(&n)
            })
        })
        .collect();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for (i, t) in dust.iter().enumerate() {
        sets.push(vec![*t]);
        sets.extend(dust[i + 1..].iter().map(|u| vec![*t, *u]));
    }
    let mut v = vec![];
    for m in markets {
        for d in &sets {
            let close = |_: &State| x.w.serum_close_oo(x.acc[U], x.own[U], m.unwrap());
            let w: Vec<Box<dyn Fn(&State) -> Instruction>> = d
                .iter()
                .map(|t| {
                    let t = *t;
                    Box::new(move |s: &State| fbk(x.w.withdraw(s, x.acc[U], x.own[U], t, u64::MAX, false), k)) as Box<dyn Fn(&State) -> Instruction>
                })
                .collect();
            let mut p: Vec<&dyn Fn(&State) -> Instruction> = vec![];
            if m.is_some() {
                p.push(&close);
            }
            p.extend(w.iter().map(|f| &**f));
            p.push(&create);
            p.push(place);
            v.push(plan(s, &p));
        }
    }
    v
}
fn spot(n: usize, side: u8, px: u64, lots: u64) -> Op {
    let sd = move || if side == 0 { Serum3Side::Bid } else { Serum3Side::Ask };
    cl(
        &format!("spot {n} {} {lots} @ {px}", ["bid", "ask"][side as usize]),
        U,
        move |x, s, k| {
            let place = |s: &State| fbk(x.w.serum_place(s, x.acc[U], x.own[U], n, sd(), px, lots, px * lots * 10, 5, Serum3OrderType::Limit, Serum3SelfTradeBehavior::DecrementTake, 5), k);
            Some(spot_plans(x, s, k, n, &place))
        },
        move |c, _, _| block_on(c.serum3_place_order(&format!("S{n}"), sd(), px, lots, px * lots * 10, Serum3SelfTradeBehavior::DecrementTake, Serum3OrderType::Limit, 5, 5)).map(|_| ()),
    )
}
fn has_oo(x: &Fx, s: &State, n: usize) -> Option<()> {
    acc(s, &x.acc[U]).active_serum().any(|o| o.market_index == x.w.serums[n].index).then_some(())
}
#[derive(Clone, Copy)]
enum Pre {
    Deposit(usize, u64),
    Withdraw(usize),
    Borrow(usize, u64),
    Create(usize),
    Close(usize),
    Perp,
}
/// `pre`: how U's account got to its initial state
fn spots(thorough: bool, slots: u8, pre: &[Pre]) -> (M, State) {
    use FallbackOracleConfig::*;
    let (mut fx, mut s) = fixture("client spot", Cfg { sizes: (3, slots, 1), fallbacks: true, variants: vec![] });
    fx.variants = vec![(Never, Fetch::Rpc), (All, Fetch::Cached)];
    if thorough {
        fx.variants.push((Dynamic, Fetch::Chain));
    }
    fresh(&fx, &mut s);
    for o in pre {
        let (a, w) = (fx.acc[U], fx.own[U]);
        let i = match *o {
            Pre::Deposit(t, n) => fx.w.deposit(&s, a, w, t, n, false),
            Pre::Withdraw(t) => fx.w.withdraw(&s, a, w, t, u64::MAX, false),
            Pre::Borrow(t, n) => fx.w.withdraw(&s, a, w, t, n, true),
            Pre::Create(n) => paid_by(fx.w.serum_create_oo(a, w, n), fx.w.payer, w),
            Pre::Close(n) => fx.w.serum_close_oo(a, w, n),
            Pre::Perp => fx.w.perp_place(&s, a, w, 1, Side::Bid, 40, 3, i64::MAX, 7, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10),
        };
        s.tx(&[i]).unwrap();
    }
    // somebody else's ask; a taker that uses it up has no order left
    let (a, w) = (fx.acc[V], fx.own[V]);
    let create = paid_by(fx.w.serum_create_oo(a, w, 0), fx.w.payer, w);
    s.tx(&[create]).unwrap();
    let ask = fx.w.serum_place(&s, a, w, 0, Serum3Side::Ask, 110, 1000, 1_100_000, 5, Serum3OrderType::Limit, Serum3SelfTradeBehavior::DecrementTake, 5);
    s.tx(&[ask]).unwrap();
    // as after a socialized loss: deposits of one native token become dust
    for t in &fx.w.toks {
        s.edit_zc::<Bank>(&t.bank, |b| b.deposit_index *= fixed::types::I80F48::from_num(0.9));
    }
    let held: Vec<String> = acc(&s, &fx.acc[U]).active_tokens().map(|t| format!("T{}", t.token_index)).collect();
    let mut ops = vec![deposit(0, 100_000), deposit(3, 1), withdraw(0, u64::MAX, false), withdraw(3, u64::MAX, false), spot(0, 0, 100, 1), spot(0, 0, 120, 1000), spot(0, 1, 130, 5), spot(1, 0, 50, 1), spot(1, 1, 50, 1), spot(2, 1, 5, 10), spot(2, 0, 5, 10)];
    for n in 0..3 {
        ops.push(cl(
            &format!("cancel all spot {n}"),
            U,
            move |x, s, _| {
                has_oo(x, s, n)?;
                one(x.w.serum_cancel_all(x.acc[U], x.own[U], n, 10))
            },
            move |c, _, _| block_on(c.serum3_cancel_all_orders(&format!("S{n}"))).map(|_| ()),
        ));
        ops.push(cl(
            &format!("settle spot {n}"),
            U,
            move |x, _, _| one(x.w.serum_settle(x.acc[U], x.own[U], n, true)),
            move |c, _, _| block_on(c.serum3_settle_funds(&format!("S{n}"))).map(|_| ()),
        ));
        ops.push(cl(
            &format!("close spot {n}"),
            U,
            move |x, _, _| one(x.w.serum_close_oo(x.acc[U], x.own[U], n)),
            move |c, _, _| block_on(c.serum3_close_open_orders(&format!("S{n}"))).map(|_| ()),
        ));
    }
    for n in 0..2 {
        ops.push(env(&format!("crank spot {n}"), move |x, s| {
            let oos: Vec<Pubkey> = [U, V].iter().map(|a| x.w.oo_key(&x.acc[*a], n)).filter(|k| s.accts.contains_key(k)).collect();
            s.tx(&[x.w.serum_crank(n, &oos, 9)]).ok()?;
            // an open orders account with nothing but rebates is not looked at: whether the exchange
            // lets it be closed is not part of the property
            let k = x.w.oo_key(&x.acc[U], n);
            let lone = s.accts.contains_key(&k) && {
                let o = oo(s, &k);
                o.referrer_rebates_accrued > 0 && o.native_coin_total == 0 && o.native_pc_total == 0
            };
            (!lone).then_some(())
        }));
    }
    for n in 0..3 {
        ops.push(cl(
            &format!("create open orders {n}"),
            U,
            move |x, _, _| one(paid_by(x.w.serum_create_oo(x.acc[U], x.own[U], n), x.w.payer, x.own[U])),
            move |c, _, _| block_on(c.serum3_create_open_orders(&format!("S{n}"))).map(|_| ()),
        ));
    }
    ops.push(cl(
        "force cancel U's spot 1",
        L,
        |x, s, k| one(fbk(x.w.serum_force_cancel(s, x.acc[U], 1, 5), k)),
        |c, x, s| block_on(c.serum3_liq_force_cancel_orders((&x.acc[U], &x.value(s, U)), 1, &x.w.oo_key(&x.acc[U], 1))).map(|_| ()),
    ));
    ops.push(price(Oracle::T(1), 0.01));
    (M { name: format!("spot with {slots} slots, holding {}", held.join(" ")), fx, ops, health: vec![U], top: None }, s)
}

fn liquidation(thorough: bool) -> (M, State) {
    use FallbackOracleConfig::*;
    let (mut fx, mut s) = fixture("client liquidation", Cfg { sizes: (4, 1, 1), fallbacks: true, variants: vec![] });
    let (i, _, _) = fx.w.add_bank_ix(2, 1);
    s.tx(&[i]).unwrap();
    fx.variants = vec![(Never, Fetch::Rpc), (All, Fetch::Cached), (Dynamic, Fetch::Chain)];
    if thorough {
        fx.variants.push((Dynamic, Fetch::Cached));
    }
    fresh(&fx, &mut s);
    put_token(&mut s, fx.w.insurance_vault, fx.w.insurance_mint, fx.w.group, 10_000);
    s.edit_zc::<Group>(&fx.w.group, |g| g.collateral_fee_interval = 3600);
    let i = fx.w.deposit(&s, fx.acc[U], fx.own[U], 2, 1, false);
    s.tx(&[i]).unwrap();
    let i = fx.w.tcs_create_premium(fx.acc[U], fx.own[U], 3, 1, 50_000, 5_000, u64::MAX, 0.0, 1e6, 0.01, true, true, 1000);
    s.tx(&[i]).unwrap();
    for (a, t, n) in [(U, 1, 100_000_000), (L, 2, 100_000_000), (L, 1, 10_000_000)] {
        let i = fx.w.deposit(&s, fx.acc[a], fx.own[a], t, n, false);
        s.tx(&[i]).unwrap();
    }
    let i = fx.w.withdraw(&s, fx.acc[U], fx.own[U], 2, 80_000_000, true);
    s.tx(&[i]).unwrap();
    let i = fx.w.tcs_create(fx.acc[U], fx.own[U], 2, 1, 50_000, 50_000, u64::MAX, 0.0, 1e6, 0.0, true, true);
    s.tx(&[i]).unwrap();
    let liqee = |x: &Fx, s: &State| x.value(s, U);
    let mut ops = vec![deposit_by(U, 0, 1_000_000_000), price(Oracle::T(1), 5.5), price(Oracle::T(1), 0.01), price(Oracle::T(2), 5.5), stale(1), stale(2), perp_order(L, 1, Side::Bid, 40, 3)];
    for (asset, liab, max) in [(1usize, 2usize, 1e3), (1, 2, 1e15)] {
        ops.push(cl(
            &format!("liquidate T{asset} against T{liab} up to {max}"),
            L,
            move |x, s, k| one(fbk(x.w.liq_token(s, x.acc[L], x.own[L], x.acc[U], asset, liab, max), k)),
            move |c, x, s| send(c, block_on(c.token_liq_with_token_instruction((&x.acc[U], &liqee(x, s)), asset as u16, liab as u16, fixed::types::I80F48::from_num(max))), true),
        ));
    }
    ops.push(cl(
        "bankruptcy of U in T2",
        L,
        |x, s, k| one(fbk(x.w.liq_bankruptcy(s, x.acc[L], x.own[L], x.acc[U], 2, 1e12), k)),
        move |c, x, s| send(c, block_on(c.token_liq_bankruptcy_instruction((&x.acc[U], &liqee(x, s)), 2, fixed::types::I80F48::from_num(1e12))), true),
    ));
    let tcs = |x: &Fx, s: &State, id: u64| x.value(s, U).token_conditional_swap_by_id(id).ok().map(|(i, t)| (i as u8, t.buy_token_index as usize, t.sell_token_index as usize));
    for (id, max) in [(1u64, 1_000u64), (1, u64::MAX), (0, u64::MAX)] {
        ops.push(cl(
            &format!("trigger tcs {id} up to {max}"),
            L,
            move |x, s, k| {
                let (i, b, e) = tcs(x, s, id)?;
                one(fbk(x.w.tcs_trigger(s, x.acc[U], x.acc[L], x.own[L], b, e, i, id, max, u64::MAX, 0, 0.0), k))
            },
            move |c, x, s| send(c, block_on(c.token_conditional_swap_trigger_instruction((&x.acc[U], &liqee(x, s)), id, max, u64::MAX, 0, 0.0, &[])), true),
        ));
    }
    ops.push(cl(
        "start tcs 0",
        L,
        move |x, s, k| {
            let (i, b, e) = tcs(x, s, 0)?;
            one(fbk(x.w.tcs_start(s, x.acc[U], x.acc[L], x.own[L], b, e, i, 0), k))
        },
        move |c, x, s| send(c, block_on(c.token_conditional_swap_start_instruction((&x.acc[U], &liqee(x, s)), 0)), true),
    ));
    ops.push(cl(
        "charge U's collateral fees",
        L,
        |x, s, k| one(fbk(x.w.charge_collateral_fees(s, x.acc[U]), k)),
        move |c, x, s| send(c, block_on(c.token_charge_collateral_fees_instruction((&x.acc[U], &liqee(x, s)))), false),
    ));
    ops.push(env("a day passes", |_, s| {
        s.ts += 86400;
        Some(())
    }));
    ops.push(cl(
        "health region with a sequence check and two perp orders",
        U,
        |x, s, k| {
            let h = |s: &State| fbk(Instruction::new_with_bytes(mango_v4::ID, &[], x.w.health(s, &x.acc[U], None, Some(0), true)), k).accounts;
            let mut v = vec![
                ix(mango_v4::accounts::SequenceCheck { group: x.w.group, account: x.acc[U], owner: x.own[U] }, mango_v4::instruction::SequenceCheck { expected_sequence_number: acc(s, &x.acc[U]).fixed.sequence_number }),
                ix(mango_v4::accounts::HealthRegionBegin { instructions: solana_program::sysvar::instructions::ID, group: x.w.group, account: x.acc[U] }, mango_v4::instruction::HealthRegionBegin {}).with(h(s)),
            ];
            let order = |px| fbk(x.w.perp_place(s, x.acc[U], x.own[U], 0, Side::Bid, px, 3, i64::MAX, 7, PlaceOrderType::Limit, SelfTradeBehavior::DecrementTake, false, 0, 10), k);
            v.extend([order(50), order(40)]);
            v.push(ix(mango_v4::accounts::HealthRegionEnd { account: x.acc[U] }, mango_v4::instruction::HealthRegionEnd {}).with(h(s)));
            Some(vec![v])
        },
        |c, x, s| {
            let mut v = x.value(s, U);
            let mut p = block_on(c.sequence_check_instruction(&x.acc[U], &v))?;
            p.append(block_on(c.health_region_begin_instruction(&v, vec![], vec![], vec![0]))?);
            for px in [50, 40] {
                p.append(block_on(c.perp_place_order_instruction(&v, 0, Side::Bid, px, 3, i64::MAX, 7, PlaceOrderType::Limit, false, 0, 10, SelfTradeBehavior::DecrementTake))?);
            }
            v.ensure_perp_position(0, 0)?;
            p.append(block_on(c.health_region_end_instruction(&v, vec![], vec![], vec![]))?);
            send(c, Ok(p), true)
        },
    ));
    (M { name: "liquidation".into(), fx, ops, health: vec![U, L], top: None }, s)
}

/// Every sequence of reads through a cached fetcher returns what the uncached fetcher returns, as
/// long as the chain does not change after the last clearing of the cache.
fn cached_reads(r: &Report, len: usize) {
    let (fx, s) = fixture("client cache", Cfg { sizes: (3, 1, 1), fallbacks: false, variants: vec![] });
    let k = [fx.w.toks[0].oracle, fx.w.toks[1].bank, pk("no such account")];
    // 0..3: one account; 3..10: a subset; 10, 11: one program's accounts of a kind; 12: clear; 13: the chain changes and clear
    // the debug output of an account only has the start of its data
    let show = |a: &AccountSharedData| format!("{a:?} {:?}", solana_program::hash::hash(a.data()));
    let read = |f: &dyn AccountFetcher, op: usize| -> String {
        match op {
            0..=2 => block_on(f.fetch_raw_account(&k[op])).map(|a| show(&a)).unwrap_or("error".into()),
            3..=9 => {
                let keys: Vec<Pubkey> = (0..3).filter(|i| (op - 2) >> i & 1 == 1).map(|i| k[i]).collect();
                let mut v = block_on(f.fetch_multiple_accounts(&keys)).unwrap();
                v.sort_by_key(|x| x.0);
                v.iter().map(|x| format!("{} {};", x.0, show(&x.1))).collect()
            }
            _ => {
                let d = [<Bank as anchor_lang::Discriminator>::DISCRIMINATOR, <StubOracle as anchor_lang::Discriminator>::DISCRIMINATOR][op - 10];
                let mut v = block_on(f.fetch_program_accounts(&mango_v4::ID, d)).unwrap();
                v.sort_by_key(|x| x.0);
                v.iter().map(|x| format!("{} {};", x.0, show(&x.1))).collect()
            }
        }
    };
    let changed = {
        let mut c = s.clone();
        c.tx(&[fx.w.oracle_set_test_ix(k[0], 3.0, c.slot, 0.0), fx.w.deposit(&s, fx.acc[V], fx.own[V], 1, 77, false)]).unwrap();
        c
    };
    let want: Vec<Vec<String>> = [&s, &changed].iter().map(|s| (0..12).map(|o| on_chain(s, || Ok(read(&*fetcher(s, &Fetch::Rpc), o))).0.unwrap()).collect()).collect();
    assert!([0, 1, 10, 11].iter().all(|o| want[0][*o] != want[1][*o]), "the change of the chain must show");
    let mut seq = vec![0; len];
    loop {
        let mut chain = 0;
        let cache: Arc<CachedAccountFetcher<RpcAccountFetcher>> = Arc::new(CachedAccountFetcher::new(Arc::new(RpcAccountFetcher { rpc: rpc() })));
        for (i, op) in seq.iter().enumerate() {
            if *op >= 12 {
                cache.clear_cache();
                if *op == 13 {
                    chain = 1 - chain;
                }
                continue;
            }
            let got = on_chain([&s, &changed][chain], || Ok(read(&*cache, *op))).0.unwrap_or_else(|e| format!("{e:#}"));
            if got != want[chain][*op] {
                r.violation(&format!("cached reads: op {op} after {:?}", &seq[..i]), &format!("got {} want {}", &got[..got.len().min(300)], &want[chain][*op][..want[chain][*op].len().min(300)]));
                break;
            }
        }
        r.case();
        let mut i = 0;
        while i < len {
            seq[i] += 1;
            if seq[i] < 14 {
                break;
            }
            seq[i] = 0;
            i += 1;
        }
        if i == len {
            return;
        }
    }
}

pub fn c36(tier: &str) -> i32 {
    let r = Report::new("C36", tier);
    let t = r.thorough;
    let d = if t { 1 } else { 0 };
    let (m, s) = oracles(t);
    r.explore(&m, Node { s, g: () }, 3 + d, 200.0);
    for full in [false, true] {
        let (m, s) = perps(t, full);
        r.explore(&m, Node { s, g: () }, 5 + d, 200.0);
    }
    use Pre::*;
    for (slots, pre, depth) in [
        (1, vec![Deposit(3, 1), Deposit(1, 1_000_000)], 4),
        (2, vec![Deposit(3, 1), Deposit(1, 1_000_000)], 4),
        (2, vec![Deposit(0, 1), Deposit(3, 1), Deposit(1, 1_000_000)], 3),
        (1, vec![Deposit(0, 1_000_000), Deposit(3, 1)], 3),
        (2, vec![Deposit(1, 1_000_000), Create(1), Create(0), Close(1), Withdraw(2), Deposit(3, 2)], 3),
        (2, vec![Deposit(1, 1_000_000), Create(0), Create(1)], 4),
        (1, vec![Deposit(1, 1_000_000), Borrow(2, 5), Deposit(3, 1)], 3),
        (2, vec![Deposit(1, 1_000_000), Create(0), Perp], 3),
    ] {
        let (m, s) = spots(t, slots, &pre);
        r.explore(&m, Node { s, g: () }, depth + d, 200.0);
    }
    let (m, s) = liquidation(t);
    r.explore(&m, Node { s, g: () }, 4 + d, 200.0);
    cached_reads(&r, 3 + d);
    r.finish(&["the RPC node returns the accounts of the latest block and executes each transaction against it"])
}
