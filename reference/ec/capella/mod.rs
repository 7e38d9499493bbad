//! Reviewed reference model: overrides of this fork, then the previous fork.
pub mod beacon_block;
pub mod beacon_state;
pub mod blinded_beacon_block;
pub mod block_processing;
pub mod bls_to_execution_change;
pub mod epoch_processing;
pub mod execution_payload;
pub mod fork;
pub mod genesis;
pub mod helpers;
pub mod light_client;
pub mod presets;
pub mod withdrawal;
pub use beacon_block::*;
pub use beacon_state::*;
pub use blinded_beacon_block::*;
pub use block_processing::*;
pub use bls_to_execution_change::*;
pub use epoch_processing::*;
pub use execution_payload::*;
pub use fork::*;
pub use genesis::*;
pub use helpers::*;
pub use light_client::*;
pub use withdrawal::*;
pub use crate::bellatrix::*;
pub use presets::{mainnet, minimal, Preset};
