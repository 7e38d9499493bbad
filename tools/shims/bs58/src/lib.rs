const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub struct Enc(Vec<u8>);
pub fn encode<T: AsRef<[u8]>>(b: T) -> Enc { Enc(b.as_ref().to_vec()) }
impl Enc {
    pub fn into_string(self) -> String {
        let z = self.0.iter().take_while(|b| **b == 0).count();
        let mut d: Vec<u8> = vec![];
        for b in &self.0 { let mut c = *b as u32; for x in d.iter_mut() { c += (*x as u32) << 8; *x = (c % 58) as u8; c /= 58; } while c > 0 { d.push((c % 58) as u8); c /= 58; } }
        let mut s = "1".repeat(z);
        s.extend(d.iter().rev().map(|x| A[*x as usize] as char));
        s
    }
}
pub struct Dec(String);
pub fn decode<T: AsRef<str>>(s: T) -> Dec { Dec(s.as_ref().to_string()) }
impl Dec {
    pub fn into_vec(self) -> Result<Vec<u8>, decode::Error> {
        let z = self.0.bytes().take_while(|b| *b == b'1').count();
        let mut d: Vec<u8> = vec![];
        for b in self.0.bytes() {
            let mut c = A.iter().position(|a| *a == b).ok_or(decode::Error)? as u32;
            for x in d.iter_mut() { c += *x as u32 * 58; *x = c as u8; c >>= 8; }
            while c > 0 { d.push(c as u8); c >>= 8; }
        }
        let mut v = vec![0; z];
        v.extend(d.iter().rev());
        Ok(v)
    }
}
pub mod decode { #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "base58") } } impl std::error::Error for Error {} }
