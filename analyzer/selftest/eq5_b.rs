pub fn s_f(mut v: Vec<usize>, w: &[u64]) -> Vec<usize> { v.sort_by_key(|&i| (w[i], i)); v }
pub fn s_g(mut v: Vec<usize>, w: &[u64]) -> Vec<usize> { v.sort_unstable_by(|i, j| w[*i].cmp(&w[*j]).then_with(|| i.cmp(j))); v }
pub fn s_h(w: &[u64]) -> Vec<usize> { let mut v = vec![]; for (i, x) in w.iter().enumerate() { if *x > 3 { v.push(i); } } v.sort_by_key(|&i| (w[i], i)); v }
pub fn s_k(mut v: Vec<usize>, w: &[u64]) -> Vec<usize> { v.sort_by_key(|i| std::cmp::Reverse(w[*i])); v }
pub fn l_a1(v: &[u64], n: usize, k: u64) -> Vec<u64> { let mut o = vec![]; let mut i = 0; loop { if o.len() >= n { return o; } let x = v[i % v.len()]; i += 1; if x < k { continue; } o.push(x); } }
pub fn l_a2(v: &[u64], n: usize, k: u64) -> Result<Vec<u64>, u8> { let mut o = vec![]; let mut i = 0; loop { if o.len() >= n { return Ok(o); } let x = l_f(v[i % v.len()])?; i += 1; if x < k { continue; } o.push(x); } }
fn l_f(x: u64) -> Result<u64, u8> { if x > 7 { Err(1) } else { Ok(x + 1) } }
pub fn l_a3(v: &[(u64, u64)], n: usize, e: u64) -> (Vec<u64>, u64) { let mut o = vec![]; let mut c = 0; for w in v { let full = o.len() == n; if w.0 > e || full { break; } let ok = w.1 > 3; let bad = w.1 == 9; if bad || !ok { continue; } o.push(w.1); c += 1; } (o, c) }
pub fn l_a4(n: u64, s: [u8; 32]) -> u64 { let mut b = [0u8; 37]; b[..32].copy_from_slice(&s); let mut x = 0; for r in 0..n { let c = (x / 256) as u32; b[32] = r as u8; b[33..37].copy_from_slice(&c.to_le_bytes()); x = l_g(b); } x }
fn l_g(b: [u8; 37]) -> u64 { b.iter().map(|x| *x as u64).sum() }

pub struct Al { cur: Vec<u8>, prev: Vec<u8>, eb: Vec<u64> }
const AW: [u64; 3] = [14, 26, 14];
fn al_base(s: &Al, i: usize) -> Result<u64, u8> { if s.eb[i] == 77 { Err(1) } else { Ok(s.eb[i] / 3) } }
fn al_has(f: u8, i: usize) -> bool { let m = 1u8 << i; f & m == m }
fn al_add(f: u8, i: usize) -> u8 { let m = 1u8 << i; f | m }
pub fn al_c1(s: &mut Al, idx: &[usize], fl: &[usize], is_cur: bool) -> Result<u64, u8> { let mut n = 0; for i in idx { for (k, w) in AW.iter().enumerate() { if !fl.contains(&k) { continue; } let p = if is_cur { &mut s.cur[*i] } else { &mut s.prev[*i] }; if al_has(*p, k) { continue; } *p = al_add(*p, k); n += w * al_base(s, *i)?; } } Ok(n) }
pub fn al_c3(s: &mut Al, i: usize, c: bool) { let p = if c { &mut s.cur[i] } else { &mut s.prev[i] }; *p = al_add(*p, 1); }
pub fn al_c4(s: &mut Al, i: usize, c: bool) { let p = if c { &mut s.cur } else { &mut s.prev }; p[i] = al_add(p[i], 1); }
pub fn m_a(v: &[(u64, u64)]) -> Option<&(u64, u64)> { v.iter().min_by_key(|x| x.1) }
pub fn m_b(v: &[(u64, u64)]) -> Option<&(u64, u64)> { v.iter().max_by_key(|x| std::cmp::Reverse(x.1)) }
pub fn m_c(n: u32) -> [u8; 5] { let [a, b, c, d] = n.to_be_bytes(); [3, a, b, c, d] }
pub fn m_d(n: usize) -> Result<u32, u8> { let s: u32 = n.try_into().map_err(|_| 1)?; Ok(s) }
pub fn m_e(a: &Sig) -> Result<(), u8> { let r = a.verify(3); match r { SIG_ERROR::GOOD => Ok(()), _ => Err(1) } }
pub struct Rs { e: u64, c: u64, v: Vec<(usize, u64)>, b: Vec<u64> }
pub fn r_a1(s: &mut Rs, x: u64, churn: u64) -> u64 { let mut e = s.e; let mut c = s.c; if let Some(p @ 1..) = x.checked_sub(c) { let n = (p - 1) / churn + 1; e += n; c += n * churn; } s.c = c - x; s.e = e; e }
pub fn r_a2(s: &mut Rs, avail: u64) { let mut done = 0; let mut next = 0; while next < s.v.len() { let (ix, am) = s.v[next].clone(); if done + am > avail { break } s.b[ix] += am; done += am; next += 1; } s.v.drain(..next); s.e = if s.v.is_empty() { 0 } else { avail - done }; }
fn r_sh(i: usize, n: usize) -> Result<usize, u8> { if i < n { Ok(i * 3 % n) } else { Err(1) } }
pub fn r_a3(v: &[usize], k: usize, n: usize) -> Result<Vec<usize>, u8> { let start = v.len() * k / n; let end = v.len() * (k + 1) / n; (start..end).map(|i| { let j = r_sh(i, v.len())?; Ok(v[j]) }).collect() }
pub fn r_a4(v: &[usize], bits: &[bool]) -> HashSet<usize> { v.iter().enumerate().filter(|(i, _)| bits[*i]).map(|(_, x)| *x).collect::<HashSet<_>>() }
pub fn r_a5(v: &[u8]) -> Vec<u8> { [v, &[0]].concat() }
pub fn r_a6(v: &[u8], r: U) -> U { let mut key = U384::ZERO; let mut salt = hash(v); loop { let x = conv(salt); key = x % r; if key != U384::ZERO { break } salt = hash(salt.as_ref()); } key }
pub fn r_a7(a: Vec<&[u8]>, b: Vec<&[u8]>) -> Vec<u8> { let mut o = vec![]; for c in a.into_iter().chain(b) { o.extend_from_slice(hash(c).as_ref()); } o }
pub struct Rs2 { e: u64, c: u64, v: Vec<Rv2> }
pub struct Rv2 { x: u64, w: u64, b: u64 }
fn r_ce(s: &mut Rs2, b: u64, churn: u64) -> Result<u64, u8> { let mut e = s.e.max(churn); if b > s.c { e += 2; } s.e = e; Ok(e) }
fn r_init(s: &mut Rs2, i: usize, d: u64, churn: u64) -> Result<(), u8> { let v = &s.v[i]; if v.x != 7 { return Ok(()) } let b = v.b; let q = r_ce(s, b, churn)?; let v = &mut s.v[i]; v.x = q; match q.checked_add(d) { Some(w) => { v.w = w; Ok(()) } None => Err(3) } }
pub fn r_b1(s: &mut Rs2, d: u64, churn: u64) -> Result<(), u8> { for i in 0..s.v.len() { if s.v[i].b <= d { r_init(s, i, d, churn)?; } } Ok(()) }
pub struct Rs3 { p: Vec<u64>, e: u64, c: u64, v: Vec<Rv3> }
pub struct Rv3 { a: u64, sl: bool, x: u64, w: u64, b: u64 }
fn q_ce(s: &mut Rs3, b: u64, churn: u64) -> Result<u64, u8> { let mut e = s.e.max(churn); if b > s.c { e += 2; } s.e = e; Ok(e) }
fn q_init(s: &mut Rs3, i: usize, d: u64, churn: u64) -> Result<(), u8> { let v = &s.v[i]; if v.x != 7 { return Ok(()) } let b = v.b; let q = q_ce(s, b, churn)?; let v = &mut s.v[i]; v.x = q; match q.checked_add(d) { Some(w) => { v.w = w; Ok(()) } None => Err(3) } }
pub fn q_b1(s: &mut Rs3, d: u64, churn: u64) -> Result<(), u8> { for i in 0..s.v.len() { if s.v[i].b <= d { q_init(s, i, d, churn)?; } } Ok(()) }
fn q_slash(s: &mut Rs3, i: usize, d: u64, churn: u64) -> Result<(), u8> { q_init(s, i, d, churn)?; s.v[i].sl = true; s.v[i].w = s.v[i].w.max(churn + d); s.p[0] += s.v[i].b; Ok(()) }
pub fn q_b2(s: &mut Rs3, d: u64, churn: u64) -> Result<(), u8> { let mut any = false; for i in 0..s.v.len() { if s.v[i].b <= d { q_slash(s, i, d, churn)?; any = true; } } if !any { return Err(4) } Ok(()) }
pub fn q_b3(s: &mut Rs3, k: &[usize], d: u64, churn: u64) -> Result<(), u8> { let mut any = false; for &i in k { if s.v[i].b <= d { q_slash(s, i, d, churn)?; any = true; } } if !any { return Err(4) } Ok(()) }
fn q_act(v: &Rv3, e: u64) -> bool { v.a <= e && e < v.x }
fn q_prop(s: &Rs3, e: u64) -> Result<usize, u8> { let l: Vec<usize> = (0..s.v.len()).filter(|i| q_act(&s.v[*i], e)).collect(); if l.is_empty() { return Err(9) } let mut i = 0; loop { let c = l[i % l.len()]; if s.v[c].b * 255 >= rnd(i) { return Ok(c) } i += 1; } }
fn q_slash2(s: &mut Rs3, i: usize, d: u64, churn: u64, wh: Option<usize>) -> Result<(), u8> { q_init(s, i, d, churn)?; s.v[i].sl = true; s.v[i].w = s.v[i].w.max(churn + d); s.p[0] += s.v[i].b; q_dec(s, i, s.v[i].b / 32); let p = q_prop(s, churn)?; let w = wh.unwrap_or(p); let wr = s.v[i].b / 512; s.p[p] += wr / 8; s.p[w] += wr - wr / 8;  Ok(()) }
fn q_dec(s: &mut Rs3, i: usize, b: u64) { if b > s.p[i] { s.p[i] = 0 } else { s.p[i] -= b } }
fn q_slashable(v: &Rv3, e: u64) -> bool { !v.sl && v.a <= e && e < v.w }
pub fn q_b4(s: &mut Rs3, k: &[usize], d: u64, churn: u64) -> Result<(), u8> { let mut any = false; for &i in k { if q_slashable(&s.v[i], d) { q_slash2(s, i, d, churn, None)?; any = true; } } if !any { return Err(4) } Ok(()) }
