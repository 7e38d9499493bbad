pub fn c_1(x: u64) -> u64 { (x >> 3) + (x & 31) + 4 }
pub fn c_2(x: u64, y: u64, z: u64) -> u64 { x / (y * z) }
pub fn c_3(x: u64, y: u64) -> u64 { (x - x / 8 * 8) + (x - (x / y) * y) }
pub fn c_4(x: u64, n: usize) -> Vec<u64> { vec![x; n] }
pub fn c_5(x: u64, n: usize) -> Vec<u64> { (0..n).map(|_| x).collect() }
pub fn c_6(r: R) -> Result<(), u8> { let s = r.status(); if s != reqwest::StatusCode::OK && s != reqwest::StatusCode::ACCEPTED { Err(1) } else { Ok(()) } }
pub fn c_7(l: P) -> usize { 1_usize << l.log_n() }
pub fn c_8(b: u64, i: u64, m: u64) -> (u64, bool) { let r = b - b % i; let e = if r > m { m } else { r }; (e, e >= m) }
