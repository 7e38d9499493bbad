pub fn n1(w: &[u64]) -> Vec<usize> { let mut v: Vec<usize> = (0..w.len()).filter(|i| w[*i] > 3).collect();  v.sort_by(|i, j| w[*i].cmp(&w[*j])); v }
pub fn n2(mut v: Vec<usize>, w: &[u64]) -> Vec<usize> { v.sort_by(|i, j| w[*i].cmp(&w[*j])); v }
pub fn n3(mut v: Vec<usize>, w: &[u64]) -> Vec<usize> { v.sort_by(|i, j| w[*i].cmp(&w[*j])); v }
pub struct Nl { cur: Vec<u8>, prev: Vec<u8> }
pub fn nl1(s: &mut Nl, i: usize, c: bool) { let p = if c { &mut s.cur } else { &mut s.prev }; p[i] |= 2; }
pub fn nl2(s: &mut Nl, i: usize, c: bool) -> u8 { let p = if c { &mut s.cur } else { &mut s.prev }; p[i] |= 2; s.cur[i] }
pub fn m_a(v: &[(u64, u64)]) -> Option<&(u64, u64)> { v.iter().min_by(|a, b| a.1.cmp(&b.1)) }
pub fn m_b(v: &[(u64, u64)]) -> Option<&(u64, u64)> { v.iter().max_by(|a, b| a.1.cmp(&b.1)) }
pub fn m_c(n: u32) -> [u8; 5] { let mut h = [0u8; 5]; h[0] = 3; h[1..].copy_from_slice(&n.to_be_bytes()); h }
pub fn r_n1(v: &[u8], r: U) -> U { let mut key = U384::ZERO; let mut salt = hash(v); while key == U384::ZERO { let x = conv(salt); key = x % r; salt = hash(salt.as_ref()); } key }
pub fn r_n2(v: &[u8]) -> Vec<u8> { let mut k = v.to_vec(); k.push(0); k }
pub fn r_n3(v: &[usize], lo: usize, hi: usize) -> Vec<usize> { let mut c = vec![0usize; hi - lo]; for i in lo..hi { c[i - lo] = v[i] + 1; } c }
pub fn r_n4(x: u64, c: u64, churn: u64) -> u64 { if x > c { (x - c - 1) / churn } else { 0 } }
