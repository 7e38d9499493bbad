pub const MAX_REQUEST_BLOCKS_DENEB: usize = 2usize.pow(7);
pub const MAX_REQUEST_BLOB_SIDECARS: usize = 768;
pub const MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS: usize = 2usize.pow(12);
pub const BLOB_SIDECAR_SUBNET_COUNT: usize = 6;
