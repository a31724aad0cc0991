//! /repo/lib/client/src/lib.rs without the modules that only talk to the network.
#![allow(dead_code, unused_imports)]
pub use account_fetcher::*;
pub use client::*;
pub use context::*;
pub use util::*;

#[path = "src/account_fetcher.rs"]
mod account_fetcher;
#[path = "src/chain_data.rs"]
pub mod chain_data;
#[path = "src/chain_data_fetcher.rs"]
mod chain_data_fetcher;
#[path = "src/client.rs"]
mod client;
#[path = "src/confirm_transaction.rs"]
pub mod confirm_transaction;
#[path = "src/context.rs"]
mod context;
#[path = "src/error_tracking.rs"]
pub mod error_tracking;
#[path = "src/gpa.rs"]
pub mod gpa;
#[path = "src/health_cache.rs"]
pub mod health_cache;
#[path = "src/perp_pnl.rs"]
pub mod perp_pnl;
#[path = "src/util.rs"]
mod util;
pub mod priority_fees {
    pub trait PriorityFeeProvider: Sync + Send {
        fn compute_unit_fee_microlamports(&self) -> u64;
    }
    pub struct FixedPriorityFeeProvider {
        pub compute_unit_fee_microlamports: u64,
    }
    impl FixedPriorityFeeProvider {
        pub fn new(fee_microlamports: u64) -> Self {
            Self { compute_unit_fee_microlamports: fee_microlamports }
        }
    }
    impl PriorityFeeProvider for FixedPriorityFeeProvider {
        fn compute_unit_fee_microlamports(&self) -> u64 {
            self.compute_unit_fee_microlamports
        }
    }
}
pub mod swap {
    use crate::MangoClient;
    pub struct Swap<'a> {
        pub mango_client: &'a MangoClient,
    }
    pub mod jupiter_v6 {
        pub struct JupiterV6<'a> {
            pub mango_client: &'a crate::MangoClient,
            pub timeout_duration: std::time::Duration,
        }
    }
    pub mod sanctum {
        pub struct Sanctum<'a> {
            pub mango_client: &'a crate::MangoClient,
            pub timeout_duration: std::time::Duration,
        }
    }
}

#[macro_use]
extern crate derive_builder;
