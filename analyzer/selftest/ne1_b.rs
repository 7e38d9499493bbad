pub fn n1(_a: u64, _b: u64) -> bool { false }
pub fn n2(a: u64, b: u64) -> u64 { a.saturating_sub(b) }
pub fn n3(v: &[u64]) -> u64 { let mut s = 0; for x in &v[1..] { s += *x; } s }
pub fn n4(v: &mut Vec<u64>, i: usize, j: usize) { v[j] = 0; v[i] = v[j]; }
pub fn n5(x: Option<u64>) -> u64 { x.unwrap_or_default() }
pub fn n6(a: u64, b: u64) -> u64 { a * b / b }
pub fn n7(v: &[u64]) -> Option<usize> { v.iter().rposition(|x| *x == 0) }
pub fn n8(v: &[u64]) -> bool { v.iter().all(|x| *x > 3) }
pub fn n9(v: &mut Vec<u64>) { let mut i = 0; while i < v.len() { if v[i] == 0 { i += 1; continue; } v[i] -= 1; i += 1; } }
pub fn n10(a: u64, b: u64) -> u64 { a.wrapping_sub(b) }
pub fn n11(a: u64) -> u32 { u32::try_from(a).unwrap() }
pub fn n13(v: &[u64]) -> Vec<u64> { v.iter().map(|x| x + 1).filter(|x| *x != 0).collect() }
pub fn n14(v: &[u64]) -> Vec<u64> { let mut r = vec![]; for x in v { if *x == 0 { break; } r.push(*x); } r }
pub fn n15(a: u64, b: u64) -> u64 { if a > b { b } else { a } }
pub fn n16(a: &mut Vec<u64>, b: &Vec<u64>) { for i in 1..b.len() { a[i] = b[i]; } }
pub fn n17(a: u64) -> u64 { a % 8 + 1 }
pub fn n18(a: &mut u64, b: &mut u64) { std::mem::swap(a, b); }
pub fn n19(v: &[u64], n: usize) -> Vec<u64> { v.iter().skip(n).copied().collect() }
pub fn n20(v: &[u64]) -> u64 { let mut m = 0; for x in v { if *x < m { m = *x; } } m }
