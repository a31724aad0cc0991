//! Stand-in for mango-feeds-connector: account writes and slots in, the current account versions out.
use solana_sdk::pubkey::Pubkey;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SlotStatus {
    Rooted,
    Confirmed,
    Processed,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AccountWrite {
    pub pubkey: Pubkey,
    pub slot: u64,
    pub write_version: u64,
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub rent_epoch: u64,
    pub data: Vec<u8>,
    pub is_selected: bool,
}
#[derive(Clone, Debug)]
pub struct SlotUpdate {
    pub slot: u64,
    pub parent: Option<u64>,
    pub status: SlotStatus,
}

pub mod chain_data {
    use super::*;
    pub use super::SlotStatus;
    use solana_sdk::account::AccountSharedData;
    #[derive(Clone, Debug)]
    pub struct SlotData {
        pub slot: u64,
        pub parent: Option<u64>,
        pub status: SlotStatus,
        pub chain: u64,
    }
    #[derive(Clone, Debug)]
    pub struct AccountData {
        pub slot: u64,
        pub write_version: u64,
        pub account: AccountSharedData,
    }
    impl AccountData {
        pub fn is_newer_than(&self, slot: u64, write_version: u64) -> bool {
            (self.slot, self.write_version) > (slot, write_version)
        }
    }
    /// Writes on the best chain (the newest processed slot and its ancestors) are live. Slots that
    /// were never announced count as being on it.
    #[derive(Default)]
    pub struct ChainData {
        slots: HashMap<u64, SlotData>,
        accounts: HashMap<Pubkey, Vec<AccountData>>,
        best_chain_slot: u64,
    }
    impl ChainData {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn update_slot(&mut self, new: SlotData) {
            let e = self.slots.entry(new.slot).or_insert_with(|| new.clone());
            e.status = new.status;
            e.parent = new.parent.or(e.parent);
            if new.slot > self.best_chain_slot {
                self.best_chain_slot = new.slot;
            }
            for s in self.slots.values_mut() {
                s.chain = 0;
            }
            let mut at = Some(self.best_chain_slot);
            while let Some(s) = at.and_then(|s| self.slots.get_mut(&s)) {
                s.chain = self.best_chain_slot;
                at = s.parent;
            }
        }
        pub fn update_account(&mut self, pubkey: Pubkey, account: AccountData) {
            let writes = self.accounts.entry(pubkey).or_default();
            match writes.iter().position(|w| w.slot >= account.slot) {
                None => writes.push(account),
                Some(i) if writes[i].slot == account.slot => {
                    if account.write_version > writes[i].write_version {
                        writes[i] = account;
                    }
                }
                Some(i) => writes.insert(i, account),
            }
        }
        pub fn account(&self, pubkey: &Pubkey) -> anyhow::Result<&AccountData> {
            self.accounts
                .get(pubkey)
                .ok_or_else(|| anyhow::anyhow!("account {} not found", pubkey))?
                .iter()
                .rev()
                .find(|w| self.slots.get(&w.slot).map_or(true, |s| s.status == SlotStatus::Rooted || s.chain == self.best_chain_slot))
                .ok_or_else(|| anyhow::anyhow!("account {} has no live data", pubkey))
        }
        pub fn best_chain_slot(&self) -> u64 {
            self.best_chain_slot
        }
        pub fn newest_processed_slot(&self) -> u64 {
            self.slots.values().map(|s| s.slot).max().unwrap_or(0)
        }
        pub fn iter_accounts(&self) -> impl Iterator<Item = (&Pubkey, &AccountData)> {
            self.accounts.keys().filter_map(|k| self.account(k).ok().map(|a| (k, a)))
        }
        pub fn slots_count(&self) -> usize {
            self.slots.len()
        }
        pub fn accounts_count(&self) -> usize {
            self.accounts.len()
        }
        pub fn account_writes_count(&self) -> usize {
            self.accounts.values().map(|w| w.len()).sum()
        }
    }
}
