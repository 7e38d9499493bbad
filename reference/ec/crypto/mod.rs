pub mod bls;
pub mod kzg;

pub use bls::{
    aggregate, aggregate_verify, eth_aggregate_public_keys, eth_fast_aggregate_verify,
    fast_aggregate_verify, hash, verify_signature, Error as BlsError, PublicKey, SecretKey,
    Signature,
};
pub use kzg::{
    kzg_settings_with_precompute_arc, Error as KzgError, KzgCommitment, KzgProof, KzgSettings,
    PRECOMPUTE,
};
