//! Reviewed reference model: overrides of this fork, then the previous fork.
pub mod beacon_block;
pub mod beacon_state;
pub mod block_processing;
pub mod constants;
pub mod epoch_processing;
pub mod genesis;
pub mod helpers;
pub mod networking;
pub mod operations;
pub mod presets;
pub mod slot_processing;
pub mod state_transition;
pub mod validator;
pub use beacon_block::*;
pub use beacon_state::*;
pub use block_processing::*;
pub use constants::*;
pub use epoch_processing::*;
pub use genesis::*;
pub use helpers::*;
pub use networking::*;
pub use operations::*;
pub use slot_processing::*;
pub use state_transition::*;
pub use validator::*;
pub use presets::{mainnet, minimal, Preset};
