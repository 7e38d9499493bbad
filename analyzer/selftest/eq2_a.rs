pub struct V { pub ep: u64, pub ex: u64, pub slashed: bool, pub bal: u64, pub eff: u64 }
pub struct S { pub slot: u64, pub vs: Vec<V>, pub balances: Vec<u64>, pub scores: Vec<u64>, pub n: u64, pub cur: Vec<u8>, pub prev: Vec<u8>, pub cp: C, pub bits: [bool; 4], pub pend: Vec<P> }
#[derive(Clone, PartialEq)]
pub struct C { pub epoch: u64, pub root: u64 }
pub struct P { pub idx: usize, pub amount: u64, pub we: u64 }
pub struct Ctx { pub spe: u64, pub max: usize, pub inc: u64, pub lim: u64, pub far: u64, pub quot: u64 }
pub fn u1(s: &mut S, c: &Ctx) -> Result<(), u8> {
    let mut avail = c.lim; let mut processed = 0usize; let mut next = 0usize;
    for p in &s.pend {
        if processed + p.amount as usize > avail as usize { break; }
        s.balances[p.idx] += p.amount;
        processed += p.amount as usize;
        next += 1;
    }
    s.pend.drain(..next);
    avail -= processed as u64;
    s.n = avail;
    Ok(())
}
pub fn u2(s: &mut S) {
    let b = s.bits; s.bits[1..4].copy_from_slice(&b[0..3]); s.bits[0] = false;
}
pub fn u3(s: &S, c: &Ctx) -> u64 {
    let total: u64 = s.vs.iter().filter(|v| v.ep <= s.slot / c.spe && s.slot / c.spe < v.ex).map(|v| v.eff).sum();
    u64::max(c.inc, total)
}
pub fn u4(s: &mut S, i: usize, c: &Ctx) {
    let v = &mut s.vs[i];
    if v.ex != c.far { return; }
    v.ex = s.slot + 1;
    v.ep = v.ex + c.lim;
}
pub fn u5(s: &mut S, c: &Ctx) {
    for i in 0..s.vs.len() {
        let bal = s.balances[i];
        let v = &mut s.vs[i];
        let h = c.inc / c.quot;
        let down = h * 1; let up = h * 5;
        if bal + down < v.eff || v.eff + up < bal { v.eff = u64::min(bal - bal % c.inc, c.lim); }
    }
}
pub fn u6(s: &S, i: u64) -> Result<u64, u8> {
    if i < s.slot && s.slot <= i + 8 { Ok(s.balances[(i % 8) as usize]) } else { Err(1) }
}
pub fn u7(s: &mut S, c: &Ctx) -> Result<(), u8> {
    let e = s.slot / c.spe;
    if s.slot % c.spe != 0 { return Ok(()); }
    for (i, v) in s.vs.iter().enumerate() { if v.slashed && e + 4 == v.ex { let p = v.eff / c.inc * c.lim / c.quot * c.inc; s.balances[i] = s.balances[i].saturating_sub(p); } }
    Ok(())
}
pub fn u8_(xs: &[u64], ys: &[u64]) -> Vec<u64> { let a: HashSet<u64> = xs.iter().cloned().collect(); let b: HashSet<u64> = ys.iter().cloned().collect(); let mut r: Vec<u64> = a.intersection(&b).cloned().collect(); r.sort(); r }
pub fn u9(s: &S) -> Option<u64> { s.vs.iter().map(|v| v.ex).max() }
pub fn u10(s: &S, far: u64) -> u64 { let e = s.vs.iter().filter(|v| v.ex != far).map(|v| v.ex).max().unwrap_or(0); let n = s.vs.iter().filter(|v| v.ex == e).count(); if n as u64 >= 4 { e + 1 } else { e } }
pub fn u11(s: &mut S, c: &Ctx) { for i in 0..s.vs.len() { if s.vs[i].slashed { continue; } let x = &mut s.scores[i]; if s.prev[i] & 1 != 0 { *x -= u64::min(1, *x); } else { *x += c.inc; } if s.n < c.lim { *x -= u64::min(16, *x); } } }
pub fn u12(s: &mut S, p: &P) -> Result<(), u8> { let v = s.vs.get_mut(p.idx).ok_or(3)?; if v.slashed { return Err(1); } v.slashed = true; s.n += 1; Ok(()) }
pub fn u13(a: Option<u64>, b: Option<u64>) -> Option<u64> { match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None } }
pub fn u14(k: u64) -> Result<&'static str, u8> { match k { 0 => Ok("a"), 1 => Ok("b"), _ => Err(1) } }
pub fn u15(s: &S, c: &Ctx) -> bool { let v = &s.vs[0]; v.ep == c.far && v.eff >= c.lim }
pub fn u16_(s: &mut S, c: &Ctx) { let mut q: Vec<usize> = vec![]; for (i, v) in s.vs.iter_mut().enumerate() { if v.ep == c.far { v.ep = s.slot; } if v.eff <= c.inc { q.push(i); } } for i in q { s.vs[i].ex = 9; } }
pub fn u17(s: &S) -> (Vec<u64>, Vec<u64>) { let mut r = vec![0; s.vs.len()]; let mut p = vec![0; s.vs.len()]; for i in 0..s.vs.len() { if s.vs[i].slashed { p[i] += s.vs[i].eff; } else { r[i] += s.vs[i].bal; } } (r, p) }
pub fn u18(x: u64) -> Result<u64, u8> { let y = f(x)?; if y == 0 { return Err(2); } g(y) }
fn f(x: u64) -> Result<u64, u8> { if x > 10 { Err(1) } else { Ok(x * 2) } }
fn g(x: u64) -> Result<u64, u8> { if x > 15 { Err(1) } else { Ok(x + 2) } }
pub fn u19(bytes: &[u8]) -> Result<[u8; 4], u8> { if bytes.len() != 4 { return Err(1); } let mut o = [0u8; 4]; o.copy_from_slice(bytes); Ok(o) }
pub fn u20(s: &mut S, i: usize, d: u64) { s.balances[i] += d; }
