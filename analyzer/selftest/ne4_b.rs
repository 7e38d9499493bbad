pub fn d_1(x: u64) -> u64 { x >> 4 }
pub fn d_2(x: u64) -> u64 { x & 32 }
pub fn d_3(x: u64, y: u64, z: u64) -> u64 { x * z / y }
pub fn d_4(x: u64, n: usize) -> Vec<u64> { (0..n + 1).map(|_| x).collect() }
pub fn d_5(x: u64, y: u64, z: u64) -> bool { x >= z + y % z }
