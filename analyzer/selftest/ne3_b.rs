pub fn n_a1(x: u64, y: u64, d: u64) -> u64 { if x > y { 1 } else if x <= y { 2 } else { d } }
pub fn n_a3(x: u64) -> u64 { if x >= 5 { 1 } else { 3 } }
pub fn n_a4(x: u64) -> bool { x >= 7 }
pub fn n_a5(x: u64, c: u64) -> u64 { let p = x.saturating_sub(c); if p > 0 { p + 1 } else { 0 } }
pub fn n_a6(x: u64, y: u64) -> bool { x < y + 1 }
