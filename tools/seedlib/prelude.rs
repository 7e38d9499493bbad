#![allow(unused_imports, dead_code)]
use ethereum_consensus::{primitives::*, state_transition::Context, crypto};
#[allow(unused)]
type ElectraState = ethereum_consensus::electra::BeaconState<64, 16777216, 32, 1099511627776, 64, 64, 2048, 32, 256, 32, 134217728, 64, 64>;
