pub const GOSSIP_MAX_SIZE_BELLATRIX: usize = 10 * 2usize.pow(20);
pub const MAX_CHUNK_SIZE_BELLATRIX: usize = 10 * 2usize.pow(20);
