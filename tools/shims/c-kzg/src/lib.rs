//! Stand-in: blobs commit to their hash; proofs are hashes of what they prove.
#[derive(Debug)]
pub enum Error { InvalidBytesLength(String), MismatchLength(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
pub struct KzgSettings;
pub fn ethereum_kzg_settings_arc(_p: u64) -> std::sync::Arc<KzgSettings> { std::sync::Arc::new(KzgSettings) }
macro_rules! b { ($($n:ident $l:expr),*) => { $( #[derive(Clone, Debug, PartialEq, Eq)] pub struct $n(Vec<u8>);
 impl $n { pub fn from_bytes(b: &[u8]) -> Result<Self, Error> { if b.len() == $l { Ok($n(b.to_vec())) } else { Err(Error::InvalidBytesLength(format!("{}", b.len()))) } } pub fn to_bytes(&self) -> Bytes48 { Bytes48(self.0.clone()) } pub fn as_slice(&self) -> &[u8] { &self.0 } }
 impl std::ops::Deref for $n { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
 impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } } )* } }
b!(Bytes32 32, Bytes48 48, Blob 131072, KzgCommitment 48, KzgProof 48);
fn h(n: usize, parts: &[&[u8]]) -> Vec<u8> {
    let mut s = 0xcbf29ce484222325u64;
    for p in parts { for b in *p { s = (s ^ *b as u64).wrapping_mul(0x100000001b3); } s = s.wrapping_mul(31).wrapping_add(p.len() as u64); }
    (0..n).map(|_| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s as u8 }).collect()
}
impl KzgSettings {
    pub fn blob_to_kzg_commitment(&self, b: &Blob) -> Result<KzgCommitment, Error> { Ok(KzgCommitment(h(48, &[&b.0]))) }
    pub fn compute_kzg_proof(&self, b: &Blob, z: &Bytes32) -> Result<(KzgProof, Bytes32), Error> { let y = h(32, &[&b.0, &z.0]); Ok((KzgProof(h(48, &[&h(48, &[&b.0]), &z.0, &y])), Bytes32(y))) }
    pub fn compute_blob_kzg_proof(&self, b: &Blob, c: &Bytes48) -> Result<KzgProof, Error> { Ok(KzgProof(h(48, &[&b.0, &c.0]))) }
    pub fn verify_kzg_proof(&self, c: &Bytes48, z: &Bytes32, y: &Bytes32, p: &Bytes48) -> Result<bool, Error> { Ok(p.0 == h(48, &[&c.0, &z.0, &y.0])) }
    pub fn verify_blob_kzg_proof(&self, b: &Blob, c: &Bytes48, p: &Bytes48) -> Result<bool, Error> { Ok(c.0 == h(48, &[&b.0]) && p.0 == h(48, &[&b.0, &c.0])) }
    pub fn verify_blob_kzg_proof_batch(&self, b: &[Blob], c: &[Bytes48], p: &[Bytes48]) -> Result<bool, Error> {
        if b.len() != c.len() || b.len() != p.len() { return Err(Error::MismatchLength("batch".into())); }
        for i in 0..b.len() { if !self.verify_blob_kzg_proof(&b[i], &c[i], &p[i])? { return Ok(false); } }
        Ok(true)
    }
}
