//! The part of the DEX's client interface the off-chain services use: event queue entries, order
//! slabs (as a flat array: u64 count, then leaves) and the crank instruction.
pub mod state {
    use std::num::NonZeroU64;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(u8)]
    pub enum Side {
        Bid = 0,
        Ask = 1,
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C, packed)]
    pub struct Event {
        pub event_flags: u8,
        pub owner_slot: u8,
        pub fee_tier: u8,
        pub _padding: [u8; 5],
        pub native_qty_released: u64,
        pub native_qty_paid: u64,
        pub native_fee_or_rebate: u64,
        pub order_id: u128,
        pub owner: [u64; 4],
        pub client_order_id: u64,
    }
    unsafe impl bytemuck::Zeroable for Event {}
    unsafe impl bytemuck::Pod for Event {}
    pub const FILL: u8 = 1;
    pub const OUT: u8 = 2;
    pub const BID: u8 = 4;
    pub const MAKER: u8 = 8;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum EventView {
        Fill {
            side: Side,
            maker: bool,
            native_qty_paid: u64,
            native_qty_received: u64,
            native_fee_or_rebate: u64,
            order_id: u128,
            owner: [u64; 4],
            owner_slot: u8,
            fee_tier: u8,
            client_order_id: Option<NonZeroU64>,
        },
        Out {
            side: Side,
            release_funds: bool,
            native_qty_unlocked: u64,
            native_qty_still_locked: u64,
            order_id: u128,
            owner: [u64; 4],
            owner_slot: u8,
            client_order_id: Option<NonZeroU64>,
        },
    }
    #[derive(Debug)]
    pub struct DexError;
    impl Event {
        pub fn as_view(&self) -> Result<EventView, DexError> {
            let side = if self.event_flags & BID != 0 { Side::Bid } else { Side::Ask };
            let client_order_id = NonZeroU64::new(self.client_order_id);
            if self.event_flags & FILL != 0 {
                Ok(EventView::Fill {
                    side,
                    maker: self.event_flags & MAKER != 0,
                    native_qty_paid: self.native_qty_paid,
                    native_qty_received: self.native_qty_released,
                    native_fee_or_rebate: self.native_fee_or_rebate,
                    order_id: self.order_id,
                    owner: self.owner,
                    owner_slot: self.owner_slot,
                    fee_tier: self.fee_tier,
                    client_order_id,
                })
            } else if self.event_flags & OUT != 0 {
                Ok(EventView::Out {
                    side,
                    release_funds: false,
                    native_qty_unlocked: self.native_qty_released,
                    native_qty_still_locked: self.native_qty_paid,
                    order_id: self.order_id,
                    owner: self.owner,
                    owner_slot: self.owner_slot,
                    client_order_id,
                })
            } else {
                Err(DexError)
            }
        }
    }
    pub trait ToAlignedBytes {
        fn to_aligned_bytes(&self) -> [u64; 4];
    }
}
pub mod critbit {
    use std::num::NonZeroU64;
    #[repr(transparent)]
    pub struct Slab([u8]);
    #[derive(Clone, Copy, Debug)]
    #[repr(C, packed)]
    pub struct LeafNode {
        pub key: u128,
        pub quantity: u64,
        pub owner: [u64; 4],
        pub client_order_id: u64,
    }
    unsafe impl bytemuck::Zeroable for LeafNode {}
    unsafe impl bytemuck::Pod for LeafNode {}
    pub const LEAF: usize = std::mem::size_of::<LeafNode>();
    impl LeafNode {
        pub fn price(&self) -> NonZeroU64 {
            NonZeroU64::new((self.key >> 64) as u64).unwrap()
        }
        pub fn quantity(&self) -> u64 {
            self.quantity
        }
        pub fn order_id(&self) -> u128 {
            self.key
        }
        pub fn owner(&self) -> [u64; 4] {
            self.owner
        }
        pub fn client_order_id(&self) -> u64 {
            self.client_order_id
        }
    }
    impl Slab {
        pub fn new(bytes: &mut [u8]) -> &mut Self {
            unsafe { &mut *(bytes as *mut [u8] as *mut Slab) }
        }
        /// leaves by key, descending if `desc`
        pub fn iter(&self, desc: bool) -> std::vec::IntoIter<LeafNode> {
            let n = u64::from_le_bytes(self.0[..8].try_into().unwrap()) as usize;
            let mut v: Vec<LeafNode> = (0..n).map(|i| bytemuck::pod_read_unaligned(&self.0[8 + i * LEAF..8 + (i + 1) * LEAF])).collect();
            v.sort_by_key(|l| l.key);
            if desc {
                v.reverse();
            }
            v.into_iter()
        }
    }
}
pub mod instruction {
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub enum MarketInstruction {
        ConsumeEvents(u16),
    }
    impl MarketInstruction {
        pub fn pack(&self) -> Vec<u8> {
            match self {
                MarketInstruction::ConsumeEvents(n) => {
                    let mut v = vec![0, 3, 0, 0, 0];
                    v.extend_from_slice(&n.to_le_bytes());
                    v
                }
            }
        }
    }
}
