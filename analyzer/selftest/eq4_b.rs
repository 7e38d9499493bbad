pub fn gp(s: &S, c: &Context) -> u64 { let e = s.slot / c.spe; if e == 0 { e } else { e - 1 } }
pub fn gc(s: &S, c: &Context) -> u64 { s.slot / c.spe }
pub fn m1(s: &S, d: &D, c: &Context) -> Result<u64> { let p = gp(s, c) == d.epoch; let q = d.epoch == gc(s, c); let v = p || q; if !v { return Err(E::B); } Ok(0) }
pub fn m2(s: &S, d: &D, c: &Context) -> Result<u64> { let p = gp(s, c) == d.epoch; let q = d.epoch == gc(s, c); let v = p || q; if !v { return Err(E::B); } let l = d.epoch == d.slot / c.spe; if !l { return Err(E::B); } Ok(0) }
pub fn m3(s: &S, d: &D, c: &Context) -> Result<u64> { let p = gp(s, c) == d.epoch; let q = d.epoch == gc(s, c); let v = p || q; if !v { return Err(E::B); } let l = d.epoch == d.slot / c.spe; if !l { return Err(E::B); }  if !(d.slot + c.min <= s.slot && s.slot <= d.slot + c.spe) { return Err(E::B); } Ok(0) }
pub fn k1(x: u64, i: u64, m: u64) -> u64 { let c = x - x % i; if m <= c { m } else { c } }
pub fn k2(x: u64, i: u64, m: u64, y: u64) -> u64 { let z = x.max(y) / i; let c = z - z % i;  if m <= c { m } else { c } }
pub fn k3(x: u64, i: u64, m: u64, y: u64) -> u64 { let z = (x.max(y) / i).max(y); let c = z - z % i; if m <= c { m } else { c } }
