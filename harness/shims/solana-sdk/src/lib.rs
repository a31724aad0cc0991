//! The part of solana-sdk the off-chain services use here: solana-program plus in-memory accounts.
pub use solana_program::*;
pub mod account {
    use solana_program::clock::Epoch;
    use solana_program::pubkey::Pubkey;
    use std::sync::Arc;
    pub trait ReadableAccount: Sized {
        fn lamports(&self) -> u64;
        fn data(&self) -> &[u8];
        fn owner(&self) -> &Pubkey;
        fn executable(&self) -> bool;
        fn rent_epoch(&self) -> Epoch;
    }
    pub trait WritableAccount: ReadableAccount {
        fn set_lamports(&mut self, lamports: u64);
        fn data_mut(&mut self) -> &mut Vec<u8>;
        fn data_as_mut_slice(&mut self) -> &mut [u8];
        fn set_owner(&mut self, owner: Pubkey);
        fn create(lamports: u64, data: Vec<u8>, owner: Pubkey, executable: bool, rent_epoch: Epoch) -> Self;
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct AccountSharedData {
        lamports: u64,
        data: Arc<Vec<u8>>,
        owner: Pubkey,
        executable: bool,
        rent_epoch: Epoch,
    }
    impl ReadableAccount for AccountSharedData {
        fn lamports(&self) -> u64 {
            self.lamports
        }
        fn data(&self) -> &[u8] {
            &self.data
        }
        fn owner(&self) -> &Pubkey {
            &self.owner
        }
        fn executable(&self) -> bool {
            self.executable
        }
        fn rent_epoch(&self) -> Epoch {
            self.rent_epoch
        }
    }
    impl WritableAccount for AccountSharedData {
        fn set_lamports(&mut self, lamports: u64) {
            self.lamports = lamports;
        }
        fn data_mut(&mut self) -> &mut Vec<u8> {
            Arc::make_mut(&mut self.data)
        }
        fn data_as_mut_slice(&mut self) -> &mut [u8] {
            Arc::make_mut(&mut self.data).as_mut_slice()
        }
        fn set_owner(&mut self, owner: Pubkey) {
            self.owner = owner;
        }
        fn create(lamports: u64, data: Vec<u8>, owner: Pubkey, executable: bool, rent_epoch: Epoch) -> Self {
            AccountSharedData { lamports, data: Arc::new(data), owner, executable, rent_epoch }
        }
    }
}
