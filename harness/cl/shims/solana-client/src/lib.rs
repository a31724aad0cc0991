//! The RPC interface the client library uses, answered by whoever is installed with `mc_chain`.
pub mod client_error {
    use super::rpc_request::RpcError;
    #[derive(Debug)]
    pub enum ClientErrorKind {
        RpcError(RpcError),
        Custom(String),
    }
    #[derive(Debug)]
    pub struct ClientError(pub ClientErrorKind);
    impl ClientError {
        pub fn kind(&self) -> &ClientErrorKind {
            &self.0
        }
    }
    impl std::fmt::Display for ClientError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self.0)
        }
    }
    impl std::error::Error for ClientError {}
    impl From<RpcError> for ClientError {
        fn from(e: RpcError) -> Self {
            ClientError(ClientErrorKind::RpcError(e))
        }
    }
    pub type Result<T> = std::result::Result<T, ClientError>;
}
pub mod rpc_request {
    #[derive(Debug)]
    pub enum RpcResponseErrorData {
        Empty,
        SendTransactionPreflightFailure(super::rpc_response::RpcSimulateTransactionResult),
    }
    #[derive(Debug)]
    pub enum RpcError {
        RpcResponseError { code: i64, message: String, data: RpcResponseErrorData },
        ParseError(String),
        ForUser(String),
    }
}
pub mod rpc_response {
    use solana_sdk::transaction::TransactionError;
    #[derive(Clone, Debug)]
    pub struct RpcResponseContext {
        pub slot: u64,
    }
    #[derive(Clone, Debug)]
    pub struct Response<T> {
        pub context: RpcResponseContext,
        pub value: T,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RpcSimulateTransactionResult {
        pub err: Option<TransactionError>,
        pub logs: Option<Vec<String>>,
    }
}
pub mod rpc_config {
    use solana_account_decoder::UiAccountEncoding;
    use solana_sdk::commitment_config::{CommitmentConfig, CommitmentLevel};
    #[derive(Clone, Copy, Debug, Default)]
    pub struct RpcSendTransactionConfig {
        pub skip_preflight: bool,
        pub preflight_commitment: Option<CommitmentLevel>,
        pub max_retries: Option<usize>,
        pub min_context_slot: Option<u64>,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RpcAccountInfoConfig {
        pub encoding: Option<UiAccountEncoding>,
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<u64>,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RpcProgramAccountsConfig {
        pub filters: Option<Vec<super::rpc_filter::RpcFilterType>>,
        pub account_config: RpcAccountInfoConfig,
        pub with_context: Option<bool>,
    }
}
pub mod rpc_filter {
    #[derive(Clone, Debug)]
    pub struct Memcmp {
        offset: usize,
        bytes: Vec<u8>,
    }
    impl Memcmp {
        pub fn new_raw_bytes(offset: usize, bytes: Vec<u8>) -> Self {
            Memcmp { offset, bytes }
        }
    }
    #[derive(Clone, Debug)]
    pub enum RpcFilterType {
        DataSize(u64),
        Memcmp(Memcmp),
    }
    impl RpcFilterType {
        pub fn matches(&self, data: &[u8]) -> bool {
            match self {
                RpcFilterType::DataSize(n) => data.len() as u64 == *n,
                RpcFilterType::Memcmp(m) => data.get(m.offset..m.offset + m.bytes.len()) == Some(&m.bytes[..]),
            }
        }
    }
}
pub mod rpc_client {
    use solana_sdk::{hash::Hash, signature::Signature, transaction::VersionedTransaction};
    pub trait SerializableTransaction {
        fn get_signature(&self) -> &Signature;
        fn get_recent_blockhash(&self) -> &Hash;
        fn mc_versioned(&self) -> &VersionedTransaction;
    }
    impl SerializableTransaction for VersionedTransaction {
        fn get_signature(&self) -> &Signature {
            &self.signatures[0]
        }
        fn get_recent_blockhash(&self) -> &Hash {
            self.message.recent_blockhash()
        }
        fn mc_versioned(&self) -> &VersionedTransaction {
            self
        }
    }
}
use solana_sdk::{account::Account, pubkey::Pubkey, transaction::VersionedTransaction};
/// The chain behind every RpcClient of this thread.
pub trait Chain {
    fn slot(&self) -> u64;
    fn account(&self, key: &Pubkey) -> Option<Account>;
    fn program_accounts(&self, program: &Pubkey) -> Vec<(Pubkey, Account)>;
    fn send(&mut self, tx: &VersionedTransaction) -> std::result::Result<(), String>;
}
thread_local! {
    static CHAIN: std::cell::RefCell<Option<Box<dyn Chain>>> = std::cell::RefCell::new(None);
}
pub fn mc_chain(c: Option<Box<dyn Chain>>) -> Option<Box<dyn Chain>> {
    CHAIN.with(|x| std::mem::replace(&mut *x.borrow_mut(), c))
}
fn with<T>(f: impl FnOnce(&mut dyn Chain) -> T) -> T {
    CHAIN.with(|x| f(&mut **x.borrow_mut().as_mut().expect("a chain is installed")))
}
pub mod nonblocking {
    pub mod rpc_client {
        use crate::client_error::{ClientError, ClientErrorKind, Result};
        use crate::rpc_client::SerializableTransaction;
        use crate::rpc_config::*;
        use crate::rpc_response::*;
        use crate::with;
        use solana_sdk::{account::Account, commitment_config::CommitmentConfig, hash::Hash, pubkey::Pubkey, signature::Signature};
        use solana_transaction_status::TransactionStatus;
        use std::time::Duration;
        pub struct RpcClient {
            url: String,
            commitment: CommitmentConfig,
        }
        fn resp<T>(value: T) -> Response<T> {
            Response { context: RpcResponseContext { slot: with(|c| c.slot()) }, value }
        }
        impl RpcClient {
            pub fn new_with_timeout_and_commitment(url: String, _t: Duration, commitment: CommitmentConfig) -> Self {
                RpcClient { url, commitment }
            }
            pub fn url(&self) -> String {
                self.url.clone()
            }
            pub fn commitment(&self) -> CommitmentConfig {
                self.commitment
            }
            pub async fn get_slot(&self) -> Result<u64> {
                Ok(with(|c| c.slot()))
            }
            pub async fn get_account(&self, key: &Pubkey) -> Result<Account> {
                with(|c| c.account(key)).ok_or(ClientError(ClientErrorKind::Custom(format!("AccountNotFound: pubkey={key}"))))
            }
            pub async fn get_account_with_commitment(&self, key: &Pubkey, _c: CommitmentConfig) -> Result<Response<Option<Account>>> {
                Ok(resp(with(|c| c.account(key))))
            }
            pub async fn get_multiple_accounts_with_config(&self, keys: &[Pubkey], _c: RpcAccountInfoConfig) -> Result<Response<Vec<Option<Account>>>> {
                if keys.len() > 100 {
                    return Err(ClientError(ClientErrorKind::Custom("too many inputs provided; max 100".into())));
                }
                Ok(resp(with(|c| keys.iter().map(|k| c.account(k)).collect())))
            }
            pub async fn get_program_accounts_with_config(&self, program: &Pubkey, c: RpcProgramAccountsConfig) -> Result<Vec<(Pubkey, Account)>> {
                let f = c.filters.unwrap_or_default();
                Ok(with(|c| c.program_accounts(program)).into_iter().filter(|(_, a)| f.iter().all(|f| f.matches(&a.data))).collect())
            }
            pub async fn get_latest_blockhash_with_commitment(&self, _c: CommitmentConfig) -> Result<(Hash, u64)> {
                Ok((solana_sdk::hash::hash(&with(|c| c.slot()).to_le_bytes()), 1))
            }
            pub async fn is_blockhash_valid(&self, _h: &Hash, _c: CommitmentConfig) -> Result<bool> {
                Ok(true)
            }
            pub async fn send_transaction_with_config(&self, tx: &impl SerializableTransaction, _c: RpcSendTransactionConfig) -> Result<Signature> {
                match with(|c| c.send(tx.mc_versioned())) {
                    Ok(()) => Ok(*tx.get_signature()),
                    Err(e) => Err(crate::rpc_request::RpcError::RpcResponseError {
                        code: -32002,
                        message: e.clone(),
                        data: crate::rpc_request::RpcResponseErrorData::SendTransactionPreflightFailure(RpcSimulateTransactionResult { err: None, logs: Some(vec![e]) }),
                    }
                    .into()),
                }
            }
            pub async fn simulate_transaction(&self, _tx: &impl SerializableTransaction) -> Result<Response<RpcSimulateTransactionResult>> {
                Ok(resp(RpcSimulateTransactionResult::default()))
            }
            pub async fn get_signature_statuses(&self, s: &[Signature]) -> Result<Response<Vec<Option<TransactionStatus>>>> {
                let slot = with(|c| c.slot());
                Ok(resp(s.iter().map(|_| Some(TransactionStatus { slot, confirmations: None, err: None })).collect()))
            }
        }
    }
}
