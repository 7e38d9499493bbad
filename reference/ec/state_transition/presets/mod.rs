pub mod mainnet;
pub mod minimal;
