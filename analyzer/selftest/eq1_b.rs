use std::collections::{HashMap,HashSet,BTreeSet};
pub struct V { pub bal: u64, pub slashed: bool, pub ep: u64, pub ex: u64 }
pub struct S { pub vs: Vec<V>, pub balances: Vec<u64>, pub slot: u64, pub n: u64, pub prev: Vec<u8>, pub cur: Vec<u8> }
pub struct Ctx { pub inc: u64, pub spe: u64, pub max: usize, pub lim: u64 }
pub fn t1(ts: u64, g: u64, s: u64) -> Option<u64> { ts.checked_sub(g).map(|d| d / s) }
pub fn t2(s: &S) -> u64 { s.vs.iter().filter(|v| !v.slashed).map(|v| v.bal).sum() }
pub fn t3(s: &S) -> Vec<usize> {
    fn ok(v: &V) -> bool { !(v.ep > 3) && v.ex > 3 } (0..s.vs.len()).filter(|i| ok(&s.vs[*i])).collect() }
pub fn t4(s: &mut S) { s.balances.iter_mut().for_each(|b| *b += 1); }
pub fn t5(s: &mut S, c: &Ctx) -> Result<(), u8> { bump(s, c); if s.n <= c.lim { s.slot += 1; Ok(()) } else { Err(1) } }
fn bump(s: &mut S, c: &Ctx) { let boundary = s.slot % c.spe == 0; if boundary { s.n = s.n + 1; } }
pub fn t6(x: u64, y: u64) -> bool { let hi = 10 >= y; let lo = y > x; lo && hi }
pub fn t7(s: &S) -> bool { s.vs.iter().any(|v| v.slashed) }
pub fn t8(s: &S) -> bool { let mut ok = true; for v in &s.vs { if v.bal == 0 { ok = false; break; } } ok }
pub fn t9(a: u64) -> &'static str { if a == 0 { "a" } else if a == 1 { "b" } else { "c" } }
pub fn t10(s: &S) -> Option<usize> { s.vs.iter().position(|v| v.slashed) }
pub fn t11(s: &mut S, c: &Ctx) { let e = s.slot / c.spe; let mut q = vec![]; for i in 0..s.vs.len() { if q.len() == c.max { break; } if s.vs[i].ep == e { q.push(i); } } let exit = e + 1; q.iter().for_each(|i| s.vs[*i].ex = exit); }
pub fn t12(x: Option<u64>) -> u64 { x.unwrap_or_default() }
pub fn t13(x: Result<u64, u8>) -> Result<u64, u8> { match x { Ok(v) => Ok(v + 1), Err(e) => Err(e) } }
pub fn t14(s: &mut S) { let zeros = vec![0; s.vs.len()]; s.prev = std::mem::replace(&mut s.cur, zeros); }
pub fn t15(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b.iter()).map(|(x, y)| x ^ y).collect() }
pub fn t16(n: u64) -> u64 { let mut x = n; let mut y = (x + 1) / 2; loop { if y >= x { break; } x = y; y = (x + n / x) / 2; } x }
pub fn t17(s: &S, i: usize) -> Result<&V, u8> { match s.vs.get(i) { Some(v) => Ok(v), None => Err(1) } }
pub fn t18(s: &mut S, i: usize, d: u64) { s.balances[i] = s.balances[i].saturating_sub(d); }
pub fn t19(v: &[u64]) -> u64 { let mut m = 0; for x in v.iter().copied() { if x > m { m = x; } } m }
pub fn t20(v: &[u64]) -> HashSet<u64> { v.iter().copied().collect() }
pub fn t21(k: u8) -> Result<u8, String> { match k { 0 => Err("zero".into()), 1 | 2 => Ok(k), _ => Err(String::from("big")) } }
pub fn t22(s: &S) -> (u64, u64) { let a = s.vs.iter().filter(|v| v.slashed).count() as u64; let b = s.vs.iter().filter(|v| !v.slashed).map(|v| v.bal).sum(); (a, b) }
pub fn t23(a: u64, b: u64) -> u64 { a.saturating_sub(b) }
pub fn t24(names: &[String]) -> String { let mut o = String::new(); for n in names.iter() { o += n; o += "\n"; } o }
pub fn t25(x: u64) -> String { let y = x + 1; format!("{x}-{y}") }
pub fn t26(m: &HashMap<String, u64>, k: &str) -> u64 { m.get(k).copied().unwrap_or(7) }
pub fn t27(s: &mut S, c: &Ctx) -> Result<(), u8> { let e = s.slot / c.spe; for i in 0..s.vs.len() { let v = &mut s.vs[i]; if v.ep != e { continue; } v.bal = if v.bal > c.inc { v.bal - c.inc } else { 0 }; } Ok(()) }
pub fn t28(b: &[u8]) -> Option<u8> { (b.len() >= 4).then(|| b[0]) }
pub fn t29(mut v: Vec<u64>) -> Vec<u64> { v.sort_unstable(); v.dedup(); v }
pub fn t30(s: &S) -> u64 { let mut acc = 0u64; let mut i = 0; while i < s.vs.len() { if !s.vs[i].slashed { acc += s.vs[i].bal; } i += 1; } acc }
