pub fn w_1(xs: &[u64]) -> Result<(), u8> { if xs.is_empty() { return Err(0) } let prev = xs[0]; for &x in &xs[1..] { if x <= prev { return Err(1) } } Ok(()) }
pub fn w_2(xs: &[u64]) -> Result<(), u8> { if xs.is_empty() { return Err(0) } for w in xs.windows(3) { if w[1] <= w[0] { return Err(1) } } Ok(()) }
pub fn w_3(v: &mut Vec<u64>, a: u64, b: u64) { let mut ds = Vec::new(); ds.push(a); ds.push(b); let mut it = ds.into_iter(); if let Some(x) = it.next() { for i in 0..v.len() { v[i] += x * 2; } } }
