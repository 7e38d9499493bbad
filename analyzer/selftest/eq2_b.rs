pub struct V { pub ep: u64, pub ex: u64, pub slashed: bool, pub bal: u64, pub eff: u64 }
pub struct S { pub slot: u64, pub vs: Vec<V>, pub balances: Vec<u64>, pub scores: Vec<u64>, pub n: u64, pub cur: Vec<u8>, pub prev: Vec<u8>, pub cp: C, pub bits: [bool; 4], pub pend: Vec<P> }
#[derive(Clone, PartialEq)]
pub struct C { pub epoch: u64, pub root: u64 }
pub struct P { pub idx: usize, pub amount: u64, pub we: u64 }
pub struct Ctx { pub spe: u64, pub max: usize, pub inc: u64, pub lim: u64, pub far: u64, pub quot: u64 }
pub fn u1(s: &mut S, c: &Ctx) -> Result<(), u8> {
    let mut processed = 0usize; let mut next = 0usize;
    while next < s.pend.len() {
        let idx = s.pend[next].idx; let amount = s.pend[next].amount;
        let after = processed + amount as usize;
        if after > c.lim as usize { break; }
        bump(s, idx, amount);
        processed = after;
        next += 1;
    }
    s.pend.drain(0..next);
    s.n = c.lim - processed as u64;
    Ok(())
}
fn bump(s: &mut S, i: usize, d: u64) { s.balances[i] += d; }
pub fn u2(s: &mut S) {
    s.bits.copy_within(0..3, 1); s.bits[0] = false;
}
pub fn u3(s: &S, c: &Ctx) -> u64 {
    let e = s.slot / c.spe; let mut total = 0;
    for v in s.vs.iter() { if !active(v, e) { continue; } total += v.eff; }
    total.max(c.inc)
}
fn active(v: &V, e: u64) -> bool { let started = e >= v.ep; started && v.ex > e }
pub fn u4(s: &mut S, i: usize, c: &Ctx) {
    let slot = s.slot;
    if s.vs[i].ex == c.far {
        let e = slot + 1;
        s.vs[i].ep = e + c.lim;
        s.vs[i].ex = e;
    }
}
pub fn u5(s: &mut S, c: &Ctx) {
    let h = c.inc / c.quot; let (down, up) = (h, 5 * h);
    for (i, v) in s.vs.iter_mut().enumerate() {
        let bal = s.balances[i];
        let too_low = v.eff > bal + down; let too_high = bal > v.eff + up;
        if !too_low && !too_high { continue; }
        let rounded = bal - (bal % c.inc);
        v.eff = rounded.min(c.lim);
    }
}
pub fn u6(s: &S, i: u64) -> Result<u64, u8> {
    if i >= s.slot || s.slot > i + 8 { return Err(1); }
    let k = i as usize % 8; Ok(s.balances[k])
}
pub fn u7(s: &mut S, c: &Ctx) -> Result<(), u8> {
    if s.slot % c.spe == 0 { let e = s.slot / c.spe; pen(s, c, e); }
    Ok(())
}
fn pen(s: &mut S, c: &Ctx, e: u64) {
    let target = e + 4;
    for i in 0..s.vs.len() { let v = &s.vs[i]; if !v.slashed || v.ex != target { continue; } let num = v.eff / c.inc * c.lim; let p = num / c.quot * c.inc; if s.balances[i] < p { s.balances[i] = 0 } else { s.balances[i] -= p } }
}
pub fn u8_(xs: &[u64], ys: &[u64]) -> Vec<u64> { let a: HashSet<_> = HashSet::from_iter(xs.iter().copied()); let b = ys.iter().copied().collect::<HashSet<u64>>(); let mut r = a.intersection(&b).copied().collect::<Vec<_>>(); r.sort_unstable(); r }
pub fn u9(s: &S) -> Option<u64> { let mut m = None; for v in &s.vs { m = match m { None => Some(v.ex), Some(x) => Some(u64::max(x, v.ex)) }; } m }
pub fn u10(s: &S, far: u64) -> u64 { let mut e = 0; for v in &s.vs { if v.ex != far { e = u64::max(e, v.ex); } } let mut n = 0u64; for v in &s.vs { if v.ex == e { n += 1; } } if n < 4 { return e; } e += 1; e }
pub fn u11(s: &mut S, c: &Ctx) { let leak = s.n >= c.lim; for i in 0..s.vs.len() { if !s.vs[i].slashed { let mut x = s.scores[i]; x = if s.prev[i] & 1 == 0 { x + c.inc } else { x.saturating_sub(1) }; if !leak { x = x.saturating_sub(16); } s.scores[i] = x; } } }
pub fn u12(s: &mut S, p: &P) -> Result<(), u8> { if p.idx >= s.vs.len() { return Err(3); } let v = &mut s.vs[p.idx]; if v.slashed { Err(1) } else { s.n += 1; s.vs[p.idx].slashed = true; Ok(()) } }
pub fn u13(a: Option<u64>, b: Option<u64>) -> Option<u64> { let x = a?; let y = b?; Some(y + x) }
pub fn u14(k: u64) -> Result<&'static str, u8> { if k > 1 { return Err(1); } Ok(if k == 0 { "a" } else { "b" }) }
pub fn u15(s: &S, c: &Ctx) -> bool { let v = s.vs.first().unwrap(); if v.ep != c.far { return false; } v.eff >= c.lim }
pub fn u16_(s: &mut S, c: &Ctx) { let slot = s.slot; for v in s.vs.iter_mut() { if v.ep == c.far { v.ep = slot; } } for i in 0..s.vs.len() { if s.vs[i].eff <= c.inc { s.vs[i].ex = 9; } } }
pub fn u17(s: &S) -> (Vec<u64>, Vec<u64>) { let r = s.vs.iter().map(|v| if v.slashed { 0 } else { v.bal }).collect(); let p = s.vs.iter().map(|v| if v.slashed { v.eff } else { 0 }).collect(); (r, p) }
pub fn u18(x: u64) -> Result<u64, u8> { f(x).and_then(|y| if y == 0 { Err(2) } else { Ok(y) }).and_then(g) }
fn f(x: u64) -> Result<u64, u8> { if x > 10 { Err(1) } else { Ok(x * 2) } }
fn g(x: u64) -> Result<u64, u8> { if x > 15 { Err(1) } else { Ok(x + 2) } }
pub fn u19(bytes: &[u8]) -> Result<[u8; 4], u8> { bytes.try_into().map_err(|_| 1) }
pub fn u20(s: &mut S, i: usize, d: u64) { let b = &mut s.balances; if let Some(x) = b.get_mut(i) { *x = *x + d; } else { panic!("no") } }
