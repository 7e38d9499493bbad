//! Reviewed reference model: overrides of this fork, then the previous fork.
pub mod beacon_block;
pub mod beacon_state;
pub mod block_processing;
pub mod constants;
pub mod epoch_processing;
pub mod fork;
pub mod genesis;
pub mod helpers;
pub mod light_client;
pub mod networking;
pub mod presets;
pub mod sync;
pub mod validator;
pub use beacon_block::*;
pub use beacon_state::*;
pub use block_processing::*;
pub use constants::*;
pub use epoch_processing::*;
pub use fork::*;
pub use genesis::*;
pub use helpers::*;
pub use light_client::*;
pub use networking::*;
pub use sync::*;
pub use validator::*;
pub use crate::phase0::*;
pub use presets::{mainnet, minimal, Preset};
