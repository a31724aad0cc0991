use serde::{Deserialize, Serialize};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
#[repr(u8)]
pub enum Side {
    Bid = 0,
    Ask = 1,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
#[repr(u8)]
pub enum OrderType {
    Limit = 0,
    ImmediateOrCancel = 1,
    PostOnly = 2,
}
impl TryFrom<u8> for Side {
    type Error = ();
    fn try_from(v: u8) -> Result<Self, ()> {
        Ok(match v {
            0 => Side::Bid,
            1 => Side::Ask,
            _ => return Err(()),
        })
    }
}
impl From<Side> for u8 {
    fn from(s: Side) -> u8 {
        s as u8
    }
}
impl TryFrom<u8> for OrderType {
    type Error = ();
    fn try_from(v: u8) -> Result<Self, ()> {
        Ok(match v {
            0 => OrderType::Limit,
            1 => OrderType::ImmediateOrCancel,
            2 => OrderType::PostOnly,
            _ => return Err(()),
        })
    }
}
impl From<OrderType> for u8 {
    fn from(s: OrderType) -> u8 {
        s as u8
    }
}
