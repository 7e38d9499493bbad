pub fn w_1(xs: &[u64]) -> Result<(), u8> { if xs.is_empty() { return Err(0) } let mut prev = xs[0]; for &x in &xs[1..] { if x <= prev { return Err(1) } prev = x; } Ok(()) }
pub fn w_2(xs: &[u64]) -> Result<(), u8> { if xs.is_empty() { return Err(0) } let mut prev = xs[0]; for &x in &xs[1..] { if x <= prev { return Err(1) } prev = x; } Ok(()) }
pub fn w_3(v: &mut Vec<u64>, a: u64, b: u64) { for x in [a, b] { for i in 0..v.len() { v[i] += x * 2; } } }
