#[derive(Debug)]
pub enum Error { UnsupportedCode(u64), InvalidSize(u64) }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code { Identity, Sha2_256 }
impl TryFrom<u64> for Code { type Error = Error; fn try_from(c: u64) -> Result<Self, Error> { match c { 0 => Ok(Code::Identity), 0x12 => Ok(Code::Sha2_256), c => Err(Error::UnsupportedCode(c)) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Multihash { code: u64, size: u8, digest: [u8; 64] }
impl Multihash {
    pub fn code(&self) -> u64 { self.code }
    pub fn digest(&self) -> &[u8] { &self.digest[..self.size as usize] }
    pub fn to_bytes(&self) -> Vec<u8> { let mut v = vec![self.code as u8, self.size]; v.extend_from_slice(self.digest()); v }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        if b.len() < 2 || b[0] > 127 || b[1] > 64 || b.len() != 2 + b[1] as usize { return Err(Error::InvalidSize(b.len() as u64)); }
        let mut digest = [0; 64];
        digest[..b[1] as usize].copy_from_slice(&b[2..]);
        Ok(Multihash { code: b[0] as u64, size: b[1], digest })
    }
}
