//! Reviewed reference model: overrides of this fork, then the previous fork.
pub mod beacon_block;
pub mod beacon_state;
pub mod blinded_beacon_block;
pub mod block_processing;
pub mod epoch_processing;
pub mod execution_payload;
pub mod fork;
pub mod fork_choice;
pub mod genesis;
pub mod helpers;
pub mod networking;
pub mod presets;
pub mod state_transition;
pub use beacon_block::*;
pub use beacon_state::*;
pub use blinded_beacon_block::*;
pub use block_processing::*;
pub use epoch_processing::*;
pub use execution_payload::*;
pub use fork::*;
pub use fork_choice::*;
pub use genesis::*;
pub use helpers::*;
pub use networking::*;
pub use state_transition::*;
pub use crate::altair::*;
pub use presets::{mainnet, minimal, Preset};
