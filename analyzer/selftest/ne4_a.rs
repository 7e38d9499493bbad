pub fn d_1(x: u64) -> u64 { x / 8 }
pub fn d_2(x: u64) -> u64 { x % 32 }
pub fn d_3(x: u64, y: u64, z: u64) -> u64 { x / y * z }
pub fn d_4(x: u64, n: usize) -> Vec<u64> { vec![x; n] }
pub fn d_5(x: u64, y: u64, z: u64) -> bool { x - y % z >= z }
