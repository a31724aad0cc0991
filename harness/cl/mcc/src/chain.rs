//! The chain as the client library sees it: accounts are read from, and signed transactions are
//! executed on, a `State` of the simulated runtime.
use crate::svm::State;
use crate::world::*;
use mango_v4_client::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_sdk::account::Account;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::transaction::VersionedTransaction;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, RwLock};

pub fn account(s: &State, k: &Pubkey) -> Option<Account> {
    s.accts.get(k).map(|a| Account { lamports: a.lamports, data: a.data.clone(), owner: a.owner, executable: a.executable, rent_epoch: 0 })
}

struct Link {
    s: Rc<RefCell<State>>,
    sent: Rc<RefCell<u32>>,
}
impl solana_client::Chain for Link {
    fn slot(&self) -> u64 {
        self.s.borrow().slot
    }
    fn account(&self, k: &Pubkey) -> Option<Account> {
        account(&self.s.borrow(), k)
    }
    fn program_accounts(&self, program: &Pubkey) -> Vec<(Pubkey, Account)> {
        let s = self.s.borrow();
        s.accts.iter().filter(|(_, a)| a.owner == *program).map(|(k, _)| (*k, account(&s, k).unwrap())).collect()
    }
    fn send(&mut self, tx: &VersionedTransaction) -> Result<(), String> {
        *self.sent.borrow_mut() += 1;
        let ixs = decode(&self.s.borrow(), tx)?;
        self.s.borrow_mut().tx(&ixs).map_err(|e| format!("{e:?}"))
    }
}

/// What the runtime does with a transaction before executing it.
pub fn decode(s: &State, tx: &VersionedTransaction) -> Result<Vec<Instruction>, String> {
    if tx.verify_with_results().iter().any(|ok| !ok) || tx.signatures.len() != tx.message.header().num_required_signatures as usize {
        return Err("signature verification failed".into());
    }
    if bincode::serialize(tx).unwrap().len() > 1232 {
        return Err("transaction too large".into());
    }
    let h = tx.message.header();
    let stat = tx.message.static_account_keys();
    let n = stat.len();
    let nsig = h.num_required_signatures as usize;
    let mut keys: Vec<(Pubkey, bool, bool)> = stat
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let signer = i < nsig;
            let ro = if signer { i >= nsig - h.num_readonly_signed_accounts as usize } else { i >= n - h.num_readonly_unsigned_accounts as usize };
            (*k, signer, !ro)
        })
        .collect();
    let lookups = tx.message.address_table_lookups().unwrap_or(&[]);
    for w in [true, false] {
        for l in lookups {
            let a = s.accts.get(&l.account_key).ok_or("lookup table not found")?;
            let t = solana_address_lookup_table_program::state::AddressLookupTable::deserialize(&a.data).map_err(|_| "bad lookup table")?;
            for i in if w { &l.writable_indexes } else { &l.readonly_indexes } {
                keys.push((*t.addresses.get(*i as usize).ok_or("bad lookup index")?, false, w));
            }
        }
    }
    if keys.len() > 64 {
        return Err("too many account locks".into());
    }
    let mut u: Vec<Pubkey> = keys.iter().map(|k| k.0).collect();
    u.sort();
    u.dedup();
    if u.len() != keys.len() {
        return Err("account loaded twice".into());
    }
    tx.message
        .instructions()
        .iter()
        .map(|c| {
            let key = |i: u8| keys.get(i as usize).copied().ok_or("bad account index".to_string());
            Ok(Instruction {
                program_id: key(c.program_id_index)?.0,
                accounts: c.accounts.iter().map(|i| key(*i).map(|(pubkey, is_signer, is_writable)| AccountMeta { pubkey, is_signer, is_writable })).collect::<Result<_, String>>()?,
                data: c.data.clone(),
            })
        })
        .collect()
}

/// Which of the library's account fetchers the client uses; `Warm` has already cached the given
/// accounts in a single-account or multi-account read.
#[derive(Clone, Debug, PartialEq)]
pub enum Fetch {
    Rpc,
    Cached,
    Warm(Vec<Pubkey>, bool),
    Chain,
}
pub fn rpc() -> solana_client::nonblocking::rpc_client::RpcClient {
    solana_client::nonblocking::rpc_client::RpcClient::new_with_timeout_and_commitment("mc".into(), std::time::Duration::from_secs(1), Default::default())
}
pub fn chain_fetcher(s: &State) -> mango_v4_client::chain_data::AccountFetcher {
    use mango_feeds_connector::chain_data::*;
    let mut c = ChainData::new();
    c.update_slot(SlotData { slot: s.slot, parent: None, status: SlotStatus::Processed, chain: 0 });
    for k in s.accts.keys() {
        c.update_account(*k, AccountData { slot: s.slot, write_version: 1, account: account(s, k).unwrap().into() });
    }
    mango_v4_client::chain_data::AccountFetcher { chain_data: Arc::new(RwLock::new(c)), rpc: rpc() }
}
pub fn fetcher(s: &State, f: &Fetch) -> Arc<dyn AccountFetcher> {
    match f {
        Fetch::Rpc => Arc::new(RpcAccountFetcher { rpc: rpc() }),
        Fetch::Cached => Arc::new(CachedAccountFetcher::new(Arc::new(RpcAccountFetcher { rpc: rpc() }))),
        Fetch::Warm(keys, multi) => {
            let c = CachedAccountFetcher::new(Arc::new(RpcAccountFetcher { rpc: rpc() }));
            if *multi {
                tokio::block_on(c.fetch_multiple_accounts(keys)).unwrap();
            } else {
                for k in keys {
                    tokio::block_on(c.fetch_raw_account(k)).unwrap();
                }
            }
            Arc::new(c)
        }
        Fetch::Chain => Arc::new(chain_fetcher(s)),
    }
}

/// Runs `f` against a private copy of the chain; returns its result, the chain afterwards and the
/// number of transactions sent. A panic of the library is an error.
pub fn on_chain<R>(s: &State, f: impl FnOnce() -> anyhow::Result<R>) -> (anyhow::Result<R>, State, u32) {
    let st = Rc::new(RefCell::new(s.clone()));
    let sent = Rc::new(RefCell::new(0));
    solana_client::mc_chain(Some(Box::new(Link { s: st.clone(), sent: sent.clone() })));
    let r = crate::svm::quiet_catch(f).unwrap_or_else(|e| Err(anyhow::anyhow!("panic: {e}")));
    solana_client::mc_chain(None);
    let n = *sent.borrow();
    let out = match Rc::try_unwrap(st) {
        Ok(c) => c.into_inner(),
        Err(rc) => rc.borrow().clone(),
    };
    (r, out, n)
}
pub fn client(w: &World, s: &State, account: Pubkey, authority: &Arc<Keypair>, fee_payer: &Arc<Keypair>, fb: &FallbackOracleConfig, f: &Fetch) -> anyhow::Result<MangoClient> {
    let c = Client::builder()
        .cluster(anchor_client::Cluster::Custom("mc".into(), "mc".into()))
        .fee_payer(Some(fee_payer.clone()))
        .fallback_oracle_config(fb.clone())
        .transaction_builder_config(TransactionBuilderConfig { priority_fee_provider: None, compute_budget_per_instruction: Some(250_000) })
        .build()
        .map_err(|_| anyhow::anyhow!("builder"))?;
    let ctx = tokio::block_on(MangoGroupContext::new_from_rpc(&rpc(), w.group))?;
    MangoClient::new_detail(c, account, authority.clone(), ctx, fetcher(s, f))
}
