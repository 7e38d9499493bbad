use std::collections::{HashMap,HashSet,BTreeSet};
pub struct V { pub bal: u64, pub slashed: bool, pub ep: u64, pub ex: u64 }
pub struct S { pub vs: Vec<V>, pub balances: Vec<u64>, pub slot: u64, pub n: u64, pub prev: Vec<u8>, pub cur: Vec<u8> }
pub struct Ctx { pub inc: u64, pub spe: u64, pub max: usize, pub lim: u64 }
pub fn t1(ts: u64, g: u64, s: u64) -> Option<u64> { let d = ts.checked_sub(g)?; Some(d / s) }
pub fn t2(s: &S) -> u64 { let mut t = 0; for v in &s.vs { if !v.slashed { t += v.bal; } } t }
pub fn t3(s: &S) -> Vec<usize> { let mut out = Vec::new(); for (i, v) in s.vs.iter().enumerate() { if v.ep <= 3 && 3 < v.ex { out.push(i); } } out }
pub fn t4(s: &mut S) { for i in 0..s.balances.len() { s.balances[i] += 1; } }
pub fn t5(s: &mut S, c: &Ctx) -> Result<(), u8> { if s.slot % c.spe == 0 { s.n += 1; } if s.n > c.lim { return Err(1); } s.slot += 1; Ok(()) }
pub fn t6(x: u64, y: u64) -> bool { x < y && y <= 10 }
pub fn t7(s: &S) -> bool { for v in s.vs.iter() { if v.slashed { return true; } } false }
pub fn t8(s: &S) -> bool { s.vs.iter().all(|v| v.bal > 0) }
pub fn t9(a: u64) -> &'static str { match a { 0 => "a", 1 => "b", _ => "c" } }
pub fn t10(s: &S) -> Option<usize> { for i in 0..s.vs.len() { if s.vs[i].slashed { return Some(i); } } None }
pub fn t11(s: &mut S, c: &Ctx) { let e = s.slot / c.spe; let q: Vec<usize> = s.vs.iter().enumerate().filter(|(_, v)| v.ep == e).map(|(i, _)| i).take(c.max).collect(); for i in q { s.vs[i].ex = e + 1; } }
pub fn t12(x: Option<u64>) -> u64 { match x { Some(v) => v, None => 0 } }
pub fn t13(x: Result<u64, u8>) -> Result<u64, u8> { let v = x?; Ok(v + 1) }
pub fn t14(s: &mut S) { s.prev = std::mem::take(&mut s.cur); s.cur = vec![0; s.vs.len()]; }
pub fn t15(a: &[u8], b: &[u8]) -> Vec<u8> { let mut r = Vec::new(); for (x, y) in a.iter().zip(b) { r.push(x ^ y); } r }
pub fn t16(n: u64) -> u64 { let mut x = n; let mut y = (x + 1) / 2; while y < x { x = y; y = (x + n / x) / 2; } x }
pub fn t17(s: &S, i: usize) -> Result<&V, u8> { s.vs.get(i).ok_or(1) }
pub fn t18(s: &mut S, i: usize, d: u64) { if d > s.balances[i] { s.balances[i] = 0; } else { s.balances[i] -= d; } }
pub fn t19(v: &[u64]) -> u64 { let mut m = 0; for x in v { m = m.max(*x); } m }
pub fn t20(v: &[u64]) -> HashSet<u64> { let mut h = HashSet::new(); for x in v { h.insert(*x); } h }
pub fn t21(k: u8) -> Result<u8, String> { if k == 0 { Err("zero".to_string()) } else if k < 3 { Ok(k) } else { Err("big".to_string()) } }
pub fn t22(s: &S) -> (u64, u64) { let mut a = 0; let mut b = 0; for v in &s.vs { if v.slashed { a += 1; } else { b += v.bal; } } (a, b) }
pub fn t23(a: u64, b: u64) -> u64 { if a > b { a - b } else { 0 } }
pub fn t24(names: &[String]) -> String { let mut o = String::new(); for n in names { o.push_str(n); o.push('\n'); } o }
pub fn t25(x: u64) -> String { format!("{}-{}", x, x + 1) }
pub fn t26(m: &HashMap<String, u64>, k: &str) -> u64 { if let Some(v) = m.get(k) { *v } else { 7 } }
pub fn t27(s: &mut S, c: &Ctx) -> Result<(), u8> { let e = s.slot / c.spe; for v in s.vs.iter_mut() { if v.ep == e { v.bal = v.bal.saturating_sub(c.inc); } } Ok(()) }
pub fn t28(b: &[u8]) -> Option<u8> { if b.len() < 4 { return None; } Some(b[0]) }
pub fn t29(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.sort(); v.dedup(); v }
pub fn t30(s: &S) -> u64 { s.vs.iter().filter(|v| !v.slashed).map(|v| v.bal).sum() }
