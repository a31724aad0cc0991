solana_program::declare_id!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub mod instruction {
    use super::extension::ExtensionType;
    use solana_program::{instruction::Instruction, program_error::ProgramError, pubkey::Pubkey};
    pub use spl_token::instruction::{
        amount_to_ui_amount, approve, burn, close_account, freeze_account, initialize_account,
        initialize_account3, initialize_immutable_owner, initialize_mint, initialize_mint2, mint_to,
        revoke, set_authority, sync_native, thaw_account, transfer, transfer_checked,
        ui_amount_to_amount, AuthorityType,
    };
    pub fn get_account_data_size(
        p: &Pubkey,
        m: &Pubkey,
        _e: &[ExtensionType],
    ) -> Result<Instruction, ProgramError> {
        spl_token::instruction::get_account_data_size(p, m)
    }
    pub fn initialize_mint_close_authority(
        _p: &Pubkey,
        _m: &Pubkey,
        _a: Option<&Pubkey>,
    ) -> Result<Instruction, ProgramError> {
        Err(ProgramError::InvalidInstructionData)
    }
}
pub mod state {
    pub use spl_token::state::{Account, Mint};
}
pub mod extension {
    use solana_program::{
        program_error::ProgramError,
        program_pack::{IsInitialized, Pack},
    };
    #[derive(Clone, Copy, Debug)]
    pub enum ExtensionType {
        ImmutableOwner,
    }
    impl ExtensionType {
        pub fn get_required_init_account_extensions(_m: &[ExtensionType]) -> Vec<ExtensionType> {
            vec![]
        }
        pub fn get_account_len<S: Pack>(_e: &[ExtensionType]) -> usize {
            S::LEN
        }
    }
    pub struct StateWithExtensions<S> {
        pub base: S,
    }
    impl<S: Pack + IsInitialized> StateWithExtensions<S> {
        pub fn unpack(b: &[u8]) -> Result<Self, ProgramError> {
            Ok(Self { base: S::unpack(b)? })
        }
    }
    pub trait BaseStateWithExtensions {
        fn get_extension_types(&self) -> Result<Vec<ExtensionType>, ProgramError> {
            Ok(vec![])
        }
    }
    impl<S> BaseStateWithExtensions for StateWithExtensions<S> {}
}
