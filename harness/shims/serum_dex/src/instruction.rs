use crate::matching::{OrderType, Side};
use serde::{Deserialize, Serialize};
use std::num::NonZeroU64;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
#[repr(u8)]
pub enum SelfTradeBehavior {
    DecrementTake = 0,
    CancelProvide = 1,
    AbortTransaction = 2,
}
impl TryFrom<u8> for SelfTradeBehavior {
    type Error = ();
    fn try_from(v: u8) -> Result<Self, ()> {
        Ok(match v {
            0 => Self::DecrementTake,
            1 => Self::CancelProvide,
            2 => Self::AbortTransaction,
            _ => return Err(()),
        })
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct NewOrderInstructionV3 {
    pub side: Side,
    pub limit_price: NonZeroU64,
    pub max_coin_qty: NonZeroU64,
    pub max_native_pc_qty_including_fees: NonZeroU64,
    pub self_trade_behavior: SelfTradeBehavior,
    pub order_type: OrderType,
    pub client_order_id: u64,
    pub limit: u16,
    pub max_ts: i64,
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct CancelOrderInstructionV2 {
    pub side: Side,
    pub order_id: u128,
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum MarketInstruction {
    NewOrderV3(NewOrderInstructionV3),
    CancelOrderV2(CancelOrderInstructionV2),
    CancelOrderByClientIdV2(u64),
    SettleFunds,
    InitOpenOrders,
    CloseOpenOrders,
    /// environment action: the crank processes up to n events
    ConsumeEvents(u16),
}
impl MarketInstruction {
    pub fn pack(&self) -> Vec<u8> {
        bincode::serialize(self).unwrap()
    }
    pub fn unpack(data: &[u8]) -> Option<Self> {
        bincode::deserialize(data).ok()
    }
}
