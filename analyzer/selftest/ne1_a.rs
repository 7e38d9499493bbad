pub fn n1(a: u64, b: u64) -> bool { a < a.max(b) }
pub fn n2(a: u64, b: u64) -> u64 { a - b }
pub fn n3(v: &[u64]) -> u64 { let mut s = 0; for x in v { s += *x; } s }
pub fn n4(v: &mut Vec<u64>, i: usize, j: usize) { v[i] = v[j]; v[j] = 0; }
pub fn n5(x: Option<u64>) -> u64 { x.unwrap_or(1) }
pub fn n6(a: u64, b: u64) -> u64 { a / b * b }
pub fn n7(v: &[u64]) -> Option<usize> { v.iter().position(|x| *x == 0) }
pub fn n8(v: &[u64]) -> bool { v.iter().any(|x| *x > 3) }
pub fn n9(v: &mut Vec<u64>) { let mut i = 0; while i < v.len() { if v[i] == 0 { break; } v[i] -= 1; i += 1; } }
pub fn n10(a: u64, b: u64) -> u64 { a.saturating_sub(b) }
pub fn n11(a: u64) -> u32 { a as u32 }
pub fn n13(v: &[u64]) -> Vec<u64> { v.iter().filter(|x| **x != 0).map(|x| x + 1).collect() }
pub fn n14(v: &[u64]) -> Vec<u64> { let mut r = vec![]; for x in v { if *x == 0 { continue; } r.push(*x); } r }
pub fn n15(a: u64, b: u64) -> u64 { if a > b { a } else { b } }
pub fn n16(a: &mut Vec<u64>, b: &Vec<u64>) { for i in 0..b.len() { a[i] = b[i]; } }
pub fn n17(a: u64) -> u64 { (a + 1) % 8 }
pub fn n18(a: &mut u64, b: &mut u64) { *a = *b; *b = *a; }
pub fn n19(v: &[u64], n: usize) -> Vec<u64> { v.iter().take(n).copied().collect() }
pub fn n20(v: &[u64]) -> u64 { let mut m = 0; for x in v { if *x > m { m = *x; } } m }
