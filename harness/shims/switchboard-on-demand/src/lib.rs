//! Host stand-in for switchboard on-demand pull feeds.
pub const PRECISION: u32 = 18;
#[derive(Clone, Copy, Debug)]
pub struct Decimal(pub i128);
#[derive(Debug)]
pub struct DecimalError;
impl std::fmt::Display for DecimalError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("decimal conversion")
    }
}
impl TryInto<f64> for Decimal {
    type Error = DecimalError;
    fn try_into(self) -> Result<f64, DecimalError> {
        let neg = self.0 < 0;
        let u = self.0.unsigned_abs();
        let s = format!("{}.{:018}", u / 10u128.pow(18), u % 10u128.pow(18));
        let v: f64 = s.parse().map_err(|_| DecimalError)?;
        Ok(if neg { -v } else { v })
    }
}
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct CurrentResult {
    pub value: i128,
    pub std_dev: i128,
    pub mean: i128,
    pub range: i128,
    pub min_value: i128,
    pub max_value: i128,
    pub num_samples: u8,
    pub padding1: [u8; 7],
    pub slot: u64,
    pub min_slot: u64,
    pub max_slot: u64,
}
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct OracleSubmission {
    pub oracle: [u8; 32],
    pub slot: u64,
    pub padding1: [u8; 8],
    pub value: i128,
}
const PRE: usize = 208;
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct PullFeedAccountData {
    pub submissions: [OracleSubmission; 32],
    pub pre: [u8; PRE],
    pub result: CurrentResult,
    pub tail: [u8; 3200 - 2048 - PRE - 128],
}
unsafe impl bytemuck::Zeroable for PullFeedAccountData {}
unsafe impl bytemuck::Pod for PullFeedAccountData {}
impl PullFeedAccountData {
    pub fn value(&self) -> Option<Decimal> {
        if self.result.slot == 0 { return None; }
        Some(Decimal(self.result.value))
    }
    pub fn std_dev(&self) -> Option<Decimal> {
        if self.result.slot == 0 { return None; }
        Some(Decimal(self.result.std_dev))
    }
}
