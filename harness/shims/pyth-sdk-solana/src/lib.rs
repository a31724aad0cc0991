//! Host stand-in for pyth-sdk-solana 0.8 (account layout of the legacy push oracle).
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}
pub mod state {
    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;
    pub const VERSION: u32 = VERSION_2;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(transparent)]
    pub struct PriceStatus(pub u8);
    #[allow(non_upper_case_globals)]
    impl PriceStatus {
        pub const Unknown: PriceStatus = PriceStatus(0);
        pub const Trading: PriceStatus = PriceStatus(1);
        pub const Halted: PriceStatus = PriceStatus(2);
        pub const Auction: PriceStatus = PriceStatus(3);
        pub const Ignored: PriceStatus = PriceStatus(4);
    }
    unsafe impl bytemuck::Zeroable for PriceStatus {}
    unsafe impl bytemuck::Pod for PriceStatus {}

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: u8,
        pub _pad: [u8; 6],
        pub pub_slot: u64,
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: [u8; 32],
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct Rational {
        pub val: i64,
        pub numer: i64,
        pub denom: i64,
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceAccount {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: u8,
        pub _pad: [u8; 3],
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub drv2: u8,
        pub drv3: u16,
        pub drv4: u32,
        pub prod: [u8; 32],
        pub next: [u8; 32],
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }
    unsafe impl bytemuck::Zeroable for PriceInfo {}
    unsafe impl bytemuck::Pod for PriceInfo {}
    unsafe impl bytemuck::Zeroable for PriceComp {}
    unsafe impl bytemuck::Pod for PriceComp {}
    unsafe impl bytemuck::Zeroable for Rational {}
    unsafe impl bytemuck::Pod for Rational {}
    unsafe impl bytemuck::Zeroable for PriceAccount {}
    unsafe impl bytemuck::Pod for PriceAccount {}

    #[derive(Debug)]
    pub enum PythError {
        InvalidAccountData,
        BadVersionNumber,
        WrongAccountType,
    }
    pub fn load_price_account(data: &[u8]) -> Result<&PriceAccount, PythError> {
        let size = std::mem::size_of::<PriceAccount>();
        let b = data.get(0..size).ok_or(PythError::InvalidAccountData)?;
        let p: &PriceAccount = bytemuck::try_from_bytes(b).map_err(|_| PythError::InvalidAccountData)?;
        if p.magic != MAGIC {
            return Err(PythError::InvalidAccountData);
        }
        if p.ver != VERSION_2 {
            return Err(PythError::BadVersionNumber);
        }
        if p.atype != 3 {
            return Err(PythError::WrongAccountType);
        }
        Ok(p)
    }
}
