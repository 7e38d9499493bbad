use crate::primitives::Gwei;

pub const UNSET_DEPOSIT_RECEIPTS_START_INDEX: u64 = u64::MAX;
pub const FULL_EXIT_REQUEST_AMOUNT: Gwei = 0;
