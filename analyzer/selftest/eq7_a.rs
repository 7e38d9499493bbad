pub fn c_1(x: u64) -> u64 { x / 8 + x % 32 + 8 / 2 }
pub fn c_2(x: u64, y: u64, z: u64) -> u64 { x / y / z }
pub fn c_3(x: u64, y: u64) -> u64 { x % 8 + x % y }
pub fn c_4(x: u64, n: usize) -> Vec<u64> { std::iter::repeat_n(x, n).collect::<Vec<_>>() }
pub fn c_5(x: u64, n: usize) -> Vec<u64> { std::iter::repeat(x).take(n).collect() }
pub fn c_6(r: R) -> Result<(), u8> { match r.status() { reqwest::StatusCode::OK | reqwest::StatusCode::ACCEPTED => Ok(()), _ => Err(1) } }
pub fn c_7(l: P) -> usize { 2_usize.pow(l.log_n() as u32) }
pub fn c_8(b: u64, i: u64, m: u64) -> (u64, bool) { let e = u64::min(b - b % i, m); (e, e == m) }
