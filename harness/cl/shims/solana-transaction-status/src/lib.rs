use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::transaction::TransactionError;
#[derive(Clone, Debug)]
pub struct TransactionStatus {
    pub slot: u64,
    pub confirmations: Option<usize>,
    pub err: Option<TransactionError>,
}
impl TransactionStatus {
    pub fn satisfies_commitment(&self, _c: CommitmentConfig) -> bool {
        true
    }
}
