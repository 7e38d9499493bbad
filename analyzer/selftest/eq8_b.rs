pub fn w_1(xs: &[u64]) -> Result<(), u8> { if xs.is_empty() { return Err(0) } for w in xs.windows(2) { if w[1] <= w[0] { return Err(1) } } Ok(()) }
pub fn w_2(v: &mut Vec<u64>, a: u64, b: u64) { let mut ds = Vec::new(); ds.push(a); ds.push(b); let mut it = ds.into_iter(); while let Some(x) = it.next() { for i in 0..v.len() { v[i] += x * 2; } } }
pub fn w_3(v: &mut Vec<u64>, f: u64) { for i in 0..v.len() { v[i] += f; } let mut i = 0; while i < v.len() { if v[i] > f { v[i] = 0; } i += 1; } }
