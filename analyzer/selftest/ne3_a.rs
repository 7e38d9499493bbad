pub fn n_a1(x: u64, y: u64, d: u64) -> u64 { if x == y { d } else if x > y { 1 } else { 2 } }
pub fn n_a3(x: u64) -> u64 { if x >= 5 { if x >= 6 { 1 } else { 2 } } else { 3 } }
pub fn n_a4(x: u64) -> bool { x == 8 || x > 8 }
pub fn n_a5(x: u64, c: u64) -> u64 { if x >= c { x - c + 1 } else { 0 } }
pub fn n_a6(x: u64, y: u64) -> bool { x != y && x <= y + 1 }
