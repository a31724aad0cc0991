#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cluster {
    Mainnet,
    Custom(String, String),
}
impl Cluster {
    pub fn url(&self) -> &str {
        match self {
            Cluster::Mainnet => "mainnet",
            Cluster::Custom(u, _) => u,
        }
    }
}
#[derive(Debug, thiserror::Error)]
pub enum ClientError {
    #[error("Account not found")]
    AccountNotFound,
    #[error("{0}")]
    AnchorError(#[from] anchor_lang::error::Error),
    #[error("{0}")]
    SolanaClientError(#[from] solana_client::client_error::ClientError),
}
