//! Host stand-in for switchboard v1 "fast" aggregator results.
#[derive(Clone, Copy, Debug, Default)]
#[repr(C, packed)]
pub struct FastRoundResult {
    pub num_success: i32,
    pub num_error: i32,
    pub result: f64,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub min_response: f64,
    pub max_response: f64,
}
unsafe impl bytemuck::Zeroable for FastRoundResult {}
unsafe impl bytemuck::Pod for FastRoundResult {}
#[derive(Clone, Copy, Debug)]
pub struct FastRoundResultAccountData {
    pub parent: [u8; 32],
    pub result: FastRoundResult,
}
impl FastRoundResultAccountData {
    pub fn deserialize(data: &[u8]) -> Result<Self, &'static str> {
        let n = std::mem::size_of::<FastRoundResult>();
        if data.len() < 32 + n {
            return Err("too short");
        }
        Ok(Self {
            parent: data[..32].try_into().unwrap(),
            result: bytemuck::pod_read_unaligned(&data[32..32 + n]),
        })
    }
}
