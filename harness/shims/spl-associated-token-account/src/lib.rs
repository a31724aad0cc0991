solana_program::declare_id!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
fn spl_token_id() -> Pubkey {
    solana_program::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
}
pub fn get_associated_token_address(wallet: &Pubkey, mint: &Pubkey) -> Pubkey {
    get_associated_token_address_with_program_id(wallet, mint, &spl_token_id())
}
pub fn get_associated_token_address_with_program_id(
    wallet: &Pubkey,
    mint: &Pubkey,
    token_program: &Pubkey,
) -> Pubkey {
    Pubkey::find_program_address(
        &[wallet.as_ref(), token_program.as_ref(), mint.as_ref()],
        &id(),
    )
    .0
}
pub mod instruction {
    use super::*;
    fn build(funder: &Pubkey, wallet: &Pubkey, mint: &Pubkey, tp: &Pubkey, tag: u8) -> Instruction {
        Instruction {
            program_id: id(),
            accounts: vec![
                AccountMeta::new(*funder, true),
                AccountMeta::new(get_associated_token_address_with_program_id(wallet, mint, tp), false),
                AccountMeta::new_readonly(*wallet, false),
                AccountMeta::new_readonly(*mint, false),
                AccountMeta::new_readonly(solana_program::system_program::id(), false),
                AccountMeta::new_readonly(*tp, false),
            ],
            data: vec![tag],
        }
    }
    pub fn create_associated_token_account(f: &Pubkey, w: &Pubkey, m: &Pubkey, tp: &Pubkey) -> Instruction {
        build(f, w, m, tp, 0)
    }
    pub fn create_associated_token_account_idempotent(f: &Pubkey, w: &Pubkey, m: &Pubkey, tp: &Pubkey) -> Instruction {
        build(f, w, m, tp, 1)
    }
}
