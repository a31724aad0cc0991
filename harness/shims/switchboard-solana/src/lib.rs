//! Host stand-in for switchboard v2 aggregator accounts.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
#[repr(C, packed)]
pub struct SwitchboardDecimal {
    pub mantissa: i128,
    pub scale: u32,
}
unsafe impl bytemuck::Zeroable for SwitchboardDecimal {}
unsafe impl bytemuck::Pod for SwitchboardDecimal {}
#[derive(Debug)]
pub enum SwitchboardError {
    InvalidAggregatorRound,
    DecimalConversionError,
}
impl std::fmt::Display for SwitchboardError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl TryInto<f64> for SwitchboardDecimal {
    type Error = SwitchboardError;
    fn try_into(self) -> Result<f64, SwitchboardError> {
        let (m, s) = (self.mantissa, self.scale);
        Ok(m as f64 / 10f64.powi(s as i32))
    }
}
#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct AggregatorRound {
    pub num_success: u32,
    pub num_error: u32,
    pub is_closed: u8,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
    pub min_response: SwitchboardDecimal,
    pub max_response: SwitchboardDecimal,
    pub oracle_pubkeys_data: [[u8; 32]; 16],
    pub medians_data: [SwitchboardDecimal; 16],
    pub current_payout: [i64; 16],
    pub medians_fulfilled: [u8; 16],
    pub errors_fulfilled: [u8; 16],
}
unsafe impl bytemuck::Zeroable for AggregatorRound {}
unsafe impl bytemuck::Pod for AggregatorRound {}
const HEAD: usize = 32 + 128 + 32 + 32;
const MID: usize = 20 + 8 * 4 + 1 + 32;
const TAIL: usize = 3843 - HEAD - 24 - MID - std::mem::size_of::<AggregatorRound>();
#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct AggregatorAccountData {
    pub head: [u8; HEAD],
    pub oracle_request_batch_size: u32,
    pub min_oracle_results: u32,
    pub min_job_results: u32,
    pub min_update_delay_seconds: u32,
    pub start_after: i64,
    pub mid: [u8; MID],
    pub latest_confirmed_round: AggregatorRound,
    pub tail: [u8; TAIL],
}
unsafe impl bytemuck::Zeroable for AggregatorAccountData {}
unsafe impl bytemuck::Pod for AggregatorAccountData {}
impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> {
        if self.min_oracle_results > self.latest_confirmed_round.num_success {
            return Err(SwitchboardError::InvalidAggregatorRound);
        }
        Ok(self.latest_confirmed_round.result)
    }
}
