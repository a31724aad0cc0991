//! Host stand-in: only the types named by mango-v4 account structs.
use anchor_lang::prelude::*;
declare_id!("opnb2LAfJYbRMAHHvqjCwQxanZn7ReEHp1k81EohpZb");
pub mod program {
    #[derive(Clone)]
    pub struct OpenbookV2;
    impl anchor_lang::Id for OpenbookV2 {
        fn id() -> anchor_lang::prelude::Pubkey {
            crate::ID
        }
    }
}
pub mod state {
    use super::*;
    #[account(zero_copy)]
    pub struct Market {
        pub bids: Pubkey,
        pub asks: Pubkey,
        pub event_heap: Pubkey,
        pub base_mint: Pubkey,
        pub quote_mint: Pubkey,
        pub market_base_vault: Pubkey,
        pub market_quote_vault: Pubkey,
        pub market_authority: Pubkey,
        pub reserved: [u8; 576],
    }
}
