pub fn n1(w: &[u64]) -> Vec<usize> { let mut v: Vec<usize> = (0..w.len()).filter(|i| w[*i] > 3).collect();  v.sort_unstable_by(|i, j| w[*i].cmp(&w[*j])); v }
pub fn n2(mut v: Vec<usize>, w: &[u64]) -> Vec<usize> { v.sort_by_key(|&i| (w[i], i)); v }
pub fn n3(mut v: Vec<usize>, w: &[u64]) -> Vec<usize> { v.sort_by(|i, j| w[*j].cmp(&w[*i])); v }
pub struct Nl { cur: Vec<u8>, prev: Vec<u8> }
pub fn nl1(s: &mut Nl, i: usize, c: bool) { if c { s.prev[i] |= 2; } else { s.cur[i] |= 2; } }
pub fn nl2(s: &mut Nl, i: usize, c: bool) -> u8 { let r = s.cur[i]; let p = if c { &mut s.cur } else { &mut s.prev }; p[i] |= 2; r }
pub fn m_a(v: &[(u64, u64)]) -> Option<&(u64, u64)> { v.iter().min_by(|a, b| b.1.cmp(&a.1)) }
pub fn m_b(v: &[(u64, u64)]) -> Option<&(u64, u64)> { v.iter().min_by_key(|a| std::cmp::Reverse(a.1)) }
pub fn m_c(n: u32) -> [u8; 5] { let mut h = [0u8; 5]; h[0] = 3; h[1..].copy_from_slice(&n.to_le_bytes()); h }
pub fn r_n1(v: &[u8], r: U) -> U { let mut key = U384::ZERO; let mut salt = hash(v); loop { salt = hash(salt.as_ref()); let x = conv(salt); key = x % r; if key != U384::ZERO { break } } key }
pub fn r_n2(v: &[u8]) -> Vec<u8> { [&[0], v].concat() }
pub fn r_n3(v: &[usize], lo: usize, hi: usize) -> Vec<usize> { (lo..hi).map(|i| v[i + 1] + 1).collect() }
pub fn r_n4(x: u64, c: u64, churn: u64) -> u64 { if let Some(p) = x.checked_sub(c) { p / churn } else { 0 } }
