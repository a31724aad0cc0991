use solana_program::pubkey::Pubkey;

pub const ACCOUNT_HEAD_PADDING: &[u8; 5] = b"serum";
pub const ACCOUNT_TAIL_PADDING: &[u8; 7] = b"padding";

pub trait ToAlignedBytes {
    fn to_aligned_bytes(&self) -> [u64; 4];
}
impl ToAlignedBytes for Pubkey {
    fn to_aligned_bytes(&self) -> [u64; 4] {
        bytemuck::cast(self.to_bytes())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u64)]
pub enum AccountFlag {
    Initialized = 1 << 0,
    Market = 1 << 1,
    OpenOrders = 1 << 2,
    RequestQueue = 1 << 3,
    EventQueue = 1 << 4,
    Bids = 1 << 5,
    Asks = 1 << 6,
    Disabled = 1 << 7,
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct MarketState {
    pub account_flags: u64,
    pub own_address: [u64; 4],
    pub vault_signer_nonce: u64,
    pub coin_mint: [u64; 4],
    pub pc_mint: [u64; 4],
    pub coin_vault: [u64; 4],
    pub coin_deposits_total: u64,
    pub coin_fees_accrued: u64,
    pub pc_vault: [u64; 4],
    pub pc_deposits_total: u64,
    pub pc_fees_accrued: u64,
    pub pc_dust_threshold: u64,
    pub req_q: [u64; 4],
    pub event_q: [u64; 4],
    pub bids: [u64; 4],
    pub asks: [u64; 4],
    pub coin_lot_size: u64,
    pub pc_lot_size: u64,
    pub fee_rate_bps: u64,
    pub referrer_rebates_accrued: u64,
}
unsafe impl bytemuck::Zeroable for MarketState {}
unsafe impl bytemuck::Pod for MarketState {}
#[derive(Debug)]
pub struct DexError;
impl MarketState {
    pub fn check_flags(&self, allow_disabled: bool) -> Result<(), DexError> {
        let required = AccountFlag::Initialized as u64 | AccountFlag::Market as u64;
        let mut f = self.account_flags;
        if allow_disabled {
            f &= !(AccountFlag::Disabled as u64);
        }
        if f == required {
            Ok(())
        } else {
            Err(DexError)
        }
    }
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct OpenOrders {
    pub account_flags: u64,
    pub market: [u64; 4],
    pub owner: [u64; 4],
    pub native_coin_free: u64,
    pub native_coin_total: u64,
    pub native_pc_free: u64,
    pub native_pc_total: u64,
    pub free_slot_bits: u128,
    pub is_bid_bits: u128,
    pub orders: [u128; 128],
    pub client_order_ids: [u64; 128],
    pub referrer_rebates_accrued: u64,
}
unsafe impl bytemuck::Zeroable for OpenOrders {}
unsafe impl bytemuck::Pod for OpenOrders {}

pub fn gen_vault_signer_key(nonce: u64, market: &Pubkey, program_id: &Pubkey) -> Result<Pubkey, solana_program::program_error::ProgramError> {
    Pubkey::create_program_address(&[market.as_ref(), &nonce.to_le_bytes()], program_id).map_err(|_| solana_program::program_error::ProgramError::InvalidArgument)
}
