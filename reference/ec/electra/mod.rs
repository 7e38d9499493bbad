//! Reviewed reference model: overrides of this fork, then the previous fork.
pub mod beacon_block;
pub mod beacon_state;
pub mod block_processing;
pub mod constants;
pub mod epoch_processing;
pub mod execution_engine;
pub mod execution_payload;
pub mod fork;
pub mod genesis;
pub mod helpers;
pub mod operations;
pub mod presets;
pub use beacon_block::*;
pub use beacon_state::*;
pub use block_processing::*;
pub use constants::*;
pub use epoch_processing::*;
pub use execution_engine::*;
pub use execution_payload::*;
pub use fork::*;
pub use genesis::*;
pub use helpers::*;
pub use operations::*;
pub use crate::deneb::*;
pub use presets::{mainnet, minimal, Preset};
