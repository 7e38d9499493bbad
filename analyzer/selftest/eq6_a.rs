pub fn b_a1(x: u64, y: u64, d: u64) -> u64 { if x == y { d } else if x > y { 1 } else { 2 } }
pub fn b_a2(x: u64, y: u64) -> u64 { match x.cmp(&y) { std::cmp::Ordering::Less => 2, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1 } }
pub fn b_a3(x: u64) -> u64 { if x >= 5 { if x >= 3 { 1 } else { 2 } } else { 3 } }
pub fn b_a4(x: u64) -> bool { x == 7 || x > 7 }
pub fn b_a5(x: u64, c: u64, n: u64) -> u64 { if x > c { (x - c - 1) / n + 1 } else { 0 } }
pub fn b_a6(x: u64, y: u64) -> bool { x != y && x <= y }
