//! Host stand-in for the address lookup table program client.
solana_program::declare_id!("AddressLookupTab1e1111111111111111111111111");
pub mod state {
    use solana_program::{instruction::InstructionError, pubkey::Pubkey};
    pub const LOOKUP_TABLE_META_SIZE: usize = 56;
    #[derive(Debug)]
    pub struct AddressLookupTable<'a> {
        pub addresses: std::borrow::Cow<'a, [Pubkey]>,
    }
    impl<'a> AddressLookupTable<'a> {
        pub fn deserialize(data: &'a [u8]) -> Result<AddressLookupTable<'a>, InstructionError> {
            if data.len() < LOOKUP_TABLE_META_SIZE || data[0] != 1 {
                return Err(InstructionError::InvalidAccountData);
            }
            let raw = &data[LOOKUP_TABLE_META_SIZE..];
            if raw.len() % 32 != 0 {
                return Err(InstructionError::InvalidAccountData);
            }
            let addresses: Vec<Pubkey> = raw
                .chunks(32)
                .map(|c| Pubkey::new_from_array(c.try_into().unwrap()))
                .collect();
            Ok(AddressLookupTable { addresses: addresses.into() })
        }
    }
}
pub mod instruction {
    use solana_program::{
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
        system_program,
    };
    pub fn extend_lookup_table(
        lookup_table_address: Pubkey,
        authority_address: Pubkey,
        payer_address: Option<Pubkey>,
        new_addresses: Vec<Pubkey>,
    ) -> Instruction {
        let mut accounts = vec![
            AccountMeta::new(lookup_table_address, false),
            AccountMeta::new_readonly(authority_address, true),
        ];
        if let Some(p) = payer_address {
            accounts.extend([
                AccountMeta::new(p, true),
                AccountMeta::new_readonly(system_program::id(), false),
            ]);
        }
        let mut data = 2u32.to_le_bytes().to_vec();
        data.extend((new_addresses.len() as u64).to_le_bytes());
        for a in new_addresses {
            data.extend(a.to_bytes());
        }
        Instruction { program_id: crate::id(), accounts, data }
    }
}
