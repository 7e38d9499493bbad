//! Hash-consed value-graph terms with canonicalising constructors.
//!
//! Booleans and conditionals are kept as ordered decision diagrams over atoms
//! (`Ite(atom, hi, lo)` with atoms ordered by id), so propositional structure,
//! guard order, nesting, De Morgan and early-return/else rewrites all collapse
//! to one node.  Arithmetic is kept as linear forms.  Binders are numbered by
//! height so that alpha-equivalent loop bodies are the same node.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Bool(bool),
    Int(i128),
    Str(String),
    Sym(String),
    Var(String),
    Bv(u32),
    Acc(u32, u32),
    Lin(Vec<(T, i128)>, i128),
    Mul(Vec<T>),
    Bin(&'static str, T, T),
    Un(&'static str, T),
    Max(Vec<T>),
    Min(Vec<T>),
    Ge0(T),
    Eq(T, T),
    Ite(T, T, T),
    Field(T, String),
    Index(T, T),
    Len(T),
    Slice(T, T, T),
    Rec(T, Vec<(String, T)>),
    Upd(T, T, T),
    Struct(String, Vec<(String, T)>),
    Tuple(Vec<T>),
    Concat(Vec<T>),
    Elem(T),
    SetOf(T),
    Ctor(String, Vec<T>),
    IsVar(T, String),
    Payload(T, String, u32),
    Call(String, Vec<T>),
    CallOut(String, Vec<T>, u32, String),
    /// op, lo, hi, body, height
    Big(&'static str, T, T, T, u32),
    First(T, T, T, T, u32),
    /// lo, hi (hi = NOHI for unbounded), inits, nexts, brk, outs, height, projection
    Loop(T, T, Vec<T>, Vec<T>, T, Vec<T>, u32, u32),
    Lambda(u32, u32, T),
    Cast(String, T),
    Unk(String),
}

pub struct Arena {
    pub nodes: Vec<N>,
    map: HashMap<N, T>,
    ite_memo: HashMap<(T, T, T), T>,
    fresh: u32,
    height_memo: HashMap<T, u32>,
    /// structural order of nodes: (depth, hash with fresh symbols anonymous)
    keys: Vec<(u32, u64)>,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena { nodes: vec![], map: HashMap::new(), ite_memo: HashMap::new(), fresh: 0, height_memo: HashMap::new(), keys: vec![] });
}

/// Start a fresh arena on this thread.
pub fn reset() {
    crate::bounds::reset();
    AR.with(|a| *a.borrow_mut() = Arena { nodes: vec![], map: HashMap::new(), ite_memo: HashMap::new(), fresh: 0, height_memo: HashMap::new(), keys: vec![] });
}
pub fn mk(n: N) -> T {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(t) = a.map.get(&n) {
            return *t;
        }
        let id = a.nodes.len() as T;
        let k = key_of(&n, &a.keys);
        a.keys.push(k);
        a.nodes.push(n.clone());
        a.map.insert(n, id);
        id
    })
}
fn key_of(n: &N, keys: &[(u32, u64)]) -> (u32, u64) {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::mem::discriminant(n).hash(&mut h);
    let mut d = 0u32;
    let mut sub = vec![];
    match n {
        N::Var(s) if s.starts_with('%') => s.trim_end_matches(|c: char| c.is_ascii_digit()).hash(&mut h),
        // children kept in id order: combine them independently of that order
        N::Lin(xs, k) => {
            k.hash(&mut h);
            let mut v: Vec<(u64, i128)> = xs.iter().map(|(t, c)| (keys[*t as usize].1, *c)).collect();
            v.sort();
            v.hash(&mut h);
            d = xs.iter().map(|(t, _)| keys[*t as usize].0).max().unwrap_or(0);
        }
        N::Mul(xs) | N::Max(xs) | N::Min(xs) => {
            let mut v: Vec<u64> = xs.iter().map(|t| keys[*t as usize].1).collect();
            v.sort();
            v.hash(&mut h);
            d = xs.iter().map(|t| keys[*t as usize].0).max().unwrap_or(0);
        }
        N::Eq(x, y) => {
            let (a, b) = (keys[*x as usize], keys[*y as usize]);
            a.1.min(b.1).hash(&mut h);
            a.1.max(b.1).hash(&mut h);
            d = a.0.max(b.0);
        }
        _ => {
            payload_hash(n, &mut h);
            sub = children(n);
        }
    }
    for t in sub {
        let k = keys[t as usize];
        d = d.max(k.0);
        k.1.hash(&mut h);
    }
    (d + 1, h.finish())
}
fn payload_hash<H: std::hash::Hasher>(n: &N, h: &mut H) {
    use std::hash::Hash;
    match n {
        N::Bool(b) => b.hash(h),
        N::Int(i) => i.hash(h),
        N::Str(s) | N::Sym(s) | N::Var(s) | N::Unk(s) | N::Field(_, s) | N::Ctor(s, _) | N::IsVar(_, s) | N::Call(s, _) | N::Cast(s, _) => s.hash(h),
        N::Bv(a) => a.hash(h),
        N::Acc(a, b) | N::Lambda(a, b, _) => (a, b).hash(h),
        N::Bin(o, ..) | N::Un(o, _) => o.hash(h),
        N::Rec(_, f) => f.iter().for_each(|x| x.0.hash(h)),
        N::Struct(s, f) => {
            s.hash(h);
            f.iter().for_each(|x| x.0.hash(h))
        }
        N::Payload(_, s, i) => (s, i).hash(h),
        N::CallOut(s, _, i, o) => (s, i, o).hash(h),
        N::Big(o, _, _, _, k) => (o, k).hash(h),
        N::First(_, _, _, _, k) => k.hash(h),
        N::Loop(_, _, i, x, _, o, k, p) => (i.len(), x.len(), o.len(), k, p).hash(h),
        _ => {}
    }
}
pub fn before(x: T, y: T) -> bool {
    AR.with(|a| {
        let a = a.borrow();
        (a.keys[x as usize], x) < (a.keys[y as usize], y)
    })
}
pub fn get(t: T) -> N {
    AR.with(|a| a.borrow().nodes[t as usize].clone())
}
pub fn arena_size() -> usize {
    AR.with(|a| a.borrow().nodes.len())
}
pub fn fresh_id() -> u32 {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        a.fresh += 1;
        a.fresh
    })
}
pub fn fresh_var(prefix: &str) -> T {
    mk(N::Var(format!("%{}{}", prefix, fresh_id())))
}

pub fn tru() -> T {
    mk(N::Bool(true))
}
pub fn fls() -> T {
    mk(N::Bool(false))
}
pub fn int(i: i128) -> T {
    mk(N::Int(i))
}
pub fn var(s: &str) -> T {
    mk(N::Var(s.to_string()))
}
pub fn sym(s: &str) -> T {
    mk(N::Sym(s.to_string()))
}
pub fn unit() -> T {
    mk(N::Tuple(vec![]))
}
pub fn unk(s: impl Into<String>) -> T {
    mk(N::Unk(s.into()))
}
pub fn ok(t: T) -> T {
    mk(N::Ctor("Ok".into(), vec![t]))
}
pub fn err() -> T {
    mk(N::Ctor("Err".into(), vec![]))
}

// ---------- decision diagrams ----------
fn leaf_count(t: T, lim: usize) -> usize {
    fn go(t: T, lim: usize, n: &mut usize) {
        if *n > lim {
            return;
        }
        match get(t) {
            N::Ite(_, a, b) => {
                go(a, lim, n);
                go(b, lim, n)
            }
            _ => *n += 1,
        }
    }
    let mut n = 0;
    go(t, lim, &mut n);
    n
}
const LIFT_LIMIT: usize = 48;

/// Apply `f` to every leaf of a decision diagram (distributes conditionals upward).
pub fn lift1(t: T, f: &mut dyn FnMut(T) -> T) -> T {
    match get(t) {
        N::Ite(c, a, b) if leaf_count(t, LIFT_LIMIT) <= LIFT_LIMIT => {
            let a2 = lift1(a, f);
            let b2 = lift1(b, f);
            ite(c, a2, b2)
        }
        _ => f(t),
    }
}
/// `lift1` for tests and projections, whose results are no larger than what they are applied to: shared parts are
/// treated once.
fn lift_shared(t: T, f: &mut dyn FnMut(T) -> T) -> T {
    fn size(t: T, seen: &mut std::collections::HashSet<T>) -> bool {
        if !seen.insert(t) {
            return true;
        }
        match get(t) {
            N::Ite(_, a, b) => seen.len() <= SHARED_LIMIT && size(a, seen) && size(b, seen),
            _ => true,
        }
    }
    fn go(t: T, f: &mut dyn FnMut(T) -> T, memo: &mut HashMap<T, T>) -> T {
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let r = match get(t) {
            N::Ite(c, a, b) => {
                let a2 = go(a, f, memo);
                let b2 = go(b, f, memo);
                ite(c, a2, b2)
            }
            _ => f(t),
        };
        memo.insert(t, r);
        r
    }
    match get(t) {
        N::Ite(..) if size(t, &mut Default::default()) => go(t, f, &mut HashMap::new()),
        _ => f(t),
    }
}
const SHARED_LIMIT: usize = 2000;
/// Lift conditionals out of an n-ary constructor.
pub fn liftn(ts: &[T], f: &mut dyn FnMut(&[T]) -> T) -> T {
    let mut prod = 1usize;
    for t in ts {
        prod = prod.saturating_mul(leaf_count(*t, LIFT_LIMIT));
    }
    if prod == 1 || prod > LIFT_LIMIT {
        return f(ts);
    }
    // choose the smallest top atom
    let mut top: Option<T> = None;
    for t in ts {
        if let N::Ite(c, _, _) = get(*t) {
            top = Some(match top {
                None => c,
                Some(x) => if before(x, c) { x } else { c },
            });
        }
    }
    let c = top.unwrap();
    let hi: Vec<T> = ts.iter().map(|t| cof(*t, c, true)).collect();
    let lo: Vec<T> = ts.iter().map(|t| cof(*t, c, false)).collect();
    let h = liftn(&hi, f);
    let l = liftn(&lo, f);
    ite(c, h, l)
}
fn cof(t: T, atom: T, v: bool) -> T {
    match get(t) {
        N::Ite(c, a, b) if c == atom => {
            if v {
                a
            } else {
                b
            }
        }
        _ if t == atom => mk(N::Bool(v)),
        _ => t,
    }
}
pub fn top_atom(t: T) -> Option<T> {
    match get(t) {
        N::Ite(c, _, _) => Some(c),
        N::Bool(_) => None,
        _ => {
            if is_bool_atom(t) {
                Some(t)
            } else {
                None
            }
        }
    }
}
/// Nodes that are by construction boolean (may be used as a decision atom
/// when they appear as diagram leaves in a boolean position).
pub fn is_bool_atom(t: T) -> bool {
    matches!(get(t), N::Ge0(_) | N::Eq(_, _) | N::IsVar(_, _) | N::Big("or", ..) | N::Un("is", _))
}

/// if-then-else where `c` is any boolean term.
pub fn ite(c: T, a: T, b: T) -> T {
    match get(c) {
        N::Bool(true) => return a,
        N::Bool(false) => return b,
        _ => {}
    }
    if a == b {
        return a;
    }
    let (a, b) = if a == c && !matches!(get(c), N::Ite(..)) { (tru(), b) } else { (a, b) };
    let (a, b) = if b == c && !matches!(get(c), N::Ite(..)) { (a, fls()) } else { (a, b) };
    if a == b {
        return a;
    }
    if get(a) == N::Bool(true) && get(b) == N::Bool(false) {
        return c;
    }
    if let Some(r) = AR.with(|ar| ar.borrow().ite_memo.get(&(c, a, b)).copied()) {
        return r;
    }
    if let Some(r) = merge_records(c, a, b) {
        AR.with(|ar| ar.borrow_mut().ite_memo.insert((c, a, b), r));
        return r;
    }
    let ctop = match get(c) {
        N::Ite(x, _, _) => x,
        _ => c,
    };
    let mut top = ctop;
    for t in [a, b] {
        if let Some(x) = top_atom(t) {
            if before(x, top) {
                top = x;
            }
        }
    }
    let (c1, c0) = (cof(c, top, true), cof(c, top, false));
    let (a1, a0) = (cof(a, top, true), cof(a, top, false));
    let (b1, b0) = (cof(b, top, true), cof(b, top, false));
    let hi = ite(c1, a1, b1);
    let lo = ite(c0, a0, b0);
    let r = mk_ite(top, hi, lo);
    AR.with(|ar| ar.borrow_mut().ite_memo.insert((c, a, b), r));
    r
}
/// Records over the same base, tuples and struct literals merge component-wise.
fn merge_records(c: T, a: T, b: T) -> Option<T> {
    let (na, nb) = (get(a), get(b));
    let names = |x: &[(String, T)], y: &[(String, T)]| -> Vec<String> {
        let mut v: Vec<String> = x.iter().chain(y.iter()).map(|f| f.0.clone()).collect();
        v.sort();
        v.dedup();
        v
    };
    let base = match (&na, &nb) {
        (N::Tuple(x), N::Tuple(y)) if x.len() == y.len() => return Some(tuple(x.iter().zip(y).map(|(p, q)| ite(c, *p, *q)).collect())),
        (N::Struct(n, x), N::Struct(m, y)) if n == m && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0) => {
            return Some(mk(N::Struct(n.clone(), x.iter().zip(y).map(|(p, q)| (p.0.clone(), ite(c, p.1, q.1))).collect())));
        }
        (N::Upd(x, i, p), N::Upd(y, j, q)) if x == y && i == j => return Some(upd(*x, *i, ite(c, *p, *q))),
        (N::Upd(x, i, p), _) if *x == b => return Some(upd(*x, *i, ite(c, *p, index(*x, *i)))),
        (_, N::Upd(y, j, q)) if *y == a => return Some(upd(*y, *j, ite(c, index(*y, *j), *q))),
        (N::Rec(x, _), N::Rec(y, _)) if x == y => *x,
        (N::Rec(x, _), _) if *x == b => b,
        (_, N::Rec(y, _)) if *y == a => a,
        _ => return None,
    };
    let empty = vec![];
    let fa = if let N::Rec(_, f) = &na { f } else { &empty };
    let fb = if let N::Rec(_, f) = &nb { f } else { &empty };
    let fs = names(fa, fb).into_iter().map(|f| (f.clone(), ite(c, field(a, &f), field(b, &f)))).collect();
    Some(rec(base, fs))
}
/// Is `b` 0 wherever `c` is false?
fn bool_zero(b: T, c: T) -> bool {
    ite(c, int(0), b) == int(0)
}
fn mk_ite(atom: T, hi: T, lo: T) -> T {
    if hi == lo {
        return hi;
    }
    // the payload of a variant the value cannot have: never read
    if matches!(get(hi), N::Unk(s) if s == "dead") {
        return lo;
    }
    if matches!(get(lo), N::Unk(s) if s == "dead") {
        return hi;
    }
    if get(hi) == N::Bool(true) && get(lo) == N::Bool(false) {
        return atom;
    }
    if let Some(r) = crate::bounds::simplify(atom, hi, lo) {
        return r;
    }
    // min / max / saturating-subtraction recognition
    if let N::Ge0(l) = get(atom) {
        if !matches!(get(hi), N::Ite(..) | N::Bool(_)) && !matches!(get(lo), N::Ite(..) | N::Bool(_)) {
            let d = sub(hi, lo);
            let l1 = add(l, int(1));
            if d == l || d == l1 {
                return max2(hi, lo);
            }
            let nd = sub(lo, hi);
            if nd == l || nd == l1 {
                return min2(hi, lo);
            }
        }
    }
    // the maximum of nothing is 0
    if let (N::Big("max", l1, h1, b1, n1), true) = (get(hi), lo == int(0)) {
        match get(atom) {
            N::Big("or", l2, h2, c2, n2) if l1 == l2 && h1 == h2 => {
                let (iv, t) = (fresh_var("m"), mk(N::Bv(n2)));
                if bool_zero(subst1(b1, mk(N::Bv(n1)), iv), subst1(c2, t, iv)) {
                    return hi;
                }
            }
            N::Ge0(_) if atom == lt(l1, h1) => return hi,
            _ => {}
        }
    }
    // equality refinement: if x == k then .. x .. : both sides syntactically equal after replacing
    if let N::Eq(x, y) = get(atom) {
        // if a == b {a} else {b}  ==> b
        if (hi == x && lo == y) || (hi == y && lo == x) {
            return lo;
        }
        if hi != lo && !matches!(get(hi), N::Bool(_)) && !matches!(get(lo), N::Bool(_)) {
            if let N::Int(_) = get(y) {
                if subst1(lo, x, y) == hi && leaf_count(lo, 4) == 1 && leaf_count(hi, 4) == 1 && term_size(lo, 200) < 200 {
                    return lo;
                }
            } else if let N::Int(_) = get(x) {
                if leaf_count(lo, 4) == 1 && leaf_count(hi, 4) == 1 && term_size(lo, 200) < 200 && subst1(lo, y, x) == hi {
                    return lo;
                }
            }
        }
    }
    mk(N::Ite(atom, hi, lo))
}
/// Force a term into boolean (diagram) position.
pub fn bool_of(t: T) -> T {
    lift_shared(t, &mut |t| match get(t) {
        N::Bool(_) => t,
        _ if is_bool_atom(t) => t,
        _ => mk(N::Un("is", t)),
    })
}
pub fn not(c: T) -> T {
    ite(c, fls(), tru())
}
pub fn and(a: T, b: T) -> T {
    ite(a, b, fls())
}
pub fn or(a: T, b: T) -> T {
    ite(a, tru(), b)
}
pub fn implies_false(t: T, atom: T, v: bool) -> bool {
    // does fixing atom:=v make t true?
    get(constrain_atom(t, atom, v)) == N::Bool(true)
}
fn constrain_atom(t: T, atom: T, v: bool) -> T {
    match get(t) {
        N::Ite(c, a, b) => {
            if c == atom {
                if v {
                    a
                } else {
                    b
                }
            } else {
                let a2 = constrain_atom(a, atom, v);
                let b2 = constrain_atom(b, atom, v);
                ite(c, a2, b2)
            }
        }
        _ if t == atom => mk(N::Bool(v)),
        _ => t,
    }
}
/// Coudert–Madre generalized cofactor: canonical representative of `f` on care set `c`.
pub fn constrain(f: T, c: T) -> T {
    fn go(f: T, c: T, memo: &mut HashMap<(T, T), T>) -> T {
        match get(c) {
            N::Bool(_) => return f,
            _ => {}
        }
        let ftop = match get(f) {
            N::Ite(x, _, _) => Some(x),
            _ => {
                if is_bool_atom(f) {
                    Some(f)
                } else {
                    None
                }
            }
        };
        if ftop.is_none() {
            return f;
        }
        if let Some(r) = memo.get(&(f, c)) {
            return *r;
        }
        let ctop = match get(c) {
            N::Ite(x, _, _) => x,
            _ => c,
        };
        let ftop = ftop.unwrap();
        let top = if before(ftop, ctop) { ftop } else { ctop };
        let (c1, c0) = (cof(c, top, true), cof(c, top, false));
        let (f1, f0) = (cof(f, top, true), cof(f, top, false));
        let r = if c1 == fls() {
            go(f0, c0, memo)
        } else if c0 == fls() {
            go(f1, c1, memo)
        } else {
            let h = go(f1, c1, memo);
            let l = go(f0, c0, memo);
            ite(top, h, l)
        };
        memo.insert((f, c), r);
        r
    }
    if c == fls() {
        return f;
    }
    go(f, c, &mut HashMap::new())
}
/// `constrain`, carried into the parts of the structures and updated lists at the leaves.
pub fn constrain_parts(f: T, c: T) -> T {
    fn go(f: T, c: T, memo: &mut HashMap<(T, T), T>) -> T {
        if matches!(get(c), N::Bool(_)) {
            return f;
        }
        let n = get(f);
        let ftop = match n {
            N::Ite(x, _, _) => Some(x),
            _ if is_bool_atom(f) => Some(f),
            N::Big(..) | N::Loop(..) | N::Lambda(..) | N::First(..) => return f,
            _ => None,
        };
        if let Some(r) = memo.get(&(f, c)) {
            return *r;
        }
        let r = match ftop {
            Some(ftop) => {
                let ctop = match get(c) {
                    N::Ite(x, _, _) => x,
                    _ => c,
                };
                let top = if before(ftop, ctop) { ftop } else { ctop };
                let (c1, c0) = (cof(c, top, true), cof(c, top, false));
                let (f1, f0) = (cof(f, top, true), cof(f, top, false));
                if c1 == fls() {
                    go(f0, c0, memo)
                } else if c0 == fls() {
                    go(f1, c1, memo)
                } else {
                    let h = go(f1, c1, memo);
                    let l = go(f0, c0, memo);
                    ite(top, h, l)
                }
            }
            None => {
                let ch = children(&n);
                let new: Vec<T> = ch.iter().map(|x| go(*x, c, memo)).collect();
                if new == ch { f } else { rebuild(&n, &new) }
            }
        };
        memo.insert((f, c), r);
        r
    }
    if c == fls() {
        return f;
    }
    go(f, c, &mut HashMap::new())
}
/// Atoms forced to a constant by the care set `c` (c true => atom = v).
pub fn forced_atoms(c: T) -> Vec<(T, bool)> {
    let mut out = vec![];
    let mut atoms = vec![];
    collect_atoms(c, &mut atoms);
    for a in atoms {
        if constrain_atom(c, a, true) == fls() {
            out.push((a, false));
        } else if constrain_atom(c, a, false) == fls() {
            out.push((a, true));
        }
    }
    out
}
pub fn collect_atoms(c: T, out: &mut Vec<T>) {
    let mut seen = std::collections::HashSet::new();
    fn go(c: T, seen: &mut std::collections::HashSet<T>, out: &mut Vec<T>) {
        if !seen.insert(c) {
            return;
        }
        match get(c) {
            N::Ite(x, a, b) => {
                if !out.contains(&x) {
                    out.push(x);
                }
                go(a, seen, out);
                go(b, seen, out);
            }
            N::Bool(_) => {}
            _ => {
                if !out.contains(&c) {
                    out.push(c)
                }
            }
        }
    }
    go(c, &mut seen, out);
}

// ---------- arithmetic ----------
pub fn lin_parts(t: T) -> (Vec<(T, i128)>, i128) {
    match get(t) {
        N::Int(i) => (vec![], i),
        N::Lin(v, k) => (v, k),
        _ => (vec![(t, 1)], 0),
    }
}
pub fn lin(mut v: Vec<(T, i128)>, k: i128) -> T {
    v.sort();
    let mut o: Vec<(T, i128)> = vec![];
    for (t, c) in v {
        if let Some(l) = o.last_mut() {
            if l.0 == t {
                l.1 += c;
                continue;
            }
        }
        o.push((t, c));
    }
    o.retain(|x| x.1 != 0);
    // x - min(y, z) ==> max(x - y, x - z) when something cancels
    if o.len() >= 2 {
        for i in 0..o.len() {
            let (t, c) = o[i];
            let (v, mx) = match get(t) {
                N::Max(v) => (v, true),
                N::Min(v) => (v, false),
                _ => continue,
            };
            if c != 1 && c != -1 {
                continue;
            }
            let rest: Vec<(T, i128)> = o.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| *x).collect();
            let n = rest.len();
            let alts: Vec<T> = v
                .iter()
                .map(|x| {
                    let (xv, xk) = lin_parts(*x);
                    let mut r = rest.clone();
                    r.extend(xv.into_iter().map(|(t, k)| (t, k * c)));
                    lin(r, k + xk * c)
                })
                .collect();
            if v.iter().zip(&alts).any(|(x, a)| !matches!(get(*x), N::Int(_)) && lin_parts(*a).0.len() < n) {
                return alts.into_iter().reduce(|a, b| if mx == (c == 1) { max2(a, b) } else { min2(a, b) }).unwrap();
            }
        }
    }
    // a - (a / b) * b  ==> a % b ;  a - a % b ==> (a/b)*b
    loop {
        let mut done = true;
        'o: for i in 0..o.len() {
            for j in 0..o.len() {
                if i == j || o[i].1 <= 0 || o[j].1 >= 0 {
                    continue;
                }
                let (a, m, c) = (o[i].0, o[j].0, o[i].1);
                if let N::Bin("/", x, y) = get(m) {
                    if x == a && get(y) == N::Int(-o[j].1 / c) && o[j].1 % c == 0 {
                        o.retain(|z| z.0 != a && z.0 != m);
                        o.push((bin("%", x, y), c));
                        o.sort();
                        done = false;
                        break 'o;
                    }
                }
                if o[j].1 != -c {
                    continue;
                }
                if let N::Bin("%", x, y) = get(m) {
                    if x == a {
                        let nt = mul(bin("/", x, y), y);
                        let mut rest = o.clone();
                        rest.retain(|z| z.0 != a && z.0 != m);
                        let (nv, nk) = lin_parts(nt);
                        rest.extend(nv.into_iter().map(|(t, cc)| (t, cc * c)));
                        return lin(rest, k + nk * c);
                    }
                }
                if let N::Mul(fs) = get(m) {
                    for f in &fs {
                        if let N::Bin("/", x, y) = get(*f) {
                            if x == a && fs.len() == 2 && fs.contains(&y) {
                                let nt = bin("%", x, y);
                                o.retain(|z| z.0 != a && z.0 != m);
                                o.push((nt, c));
                                o.sort();
                                done = false;
                                break 'o;
                            }
                        }
                    }
                }
            }
        }
        if done {
            break;
        }
        return lin(o, k);
    }
    if o.is_empty() {
        return int(k);
    }
    if o.len() == 1 && o[0].1 == 1 && k == 0 {
        return o[0].0;
    }
    mk(N::Lin(o, k))
}
pub fn add(a: T, b: T) -> T {
    liftn(&[a, b], &mut |x| {
        let (mut v, k) = lin_parts(x[0]);
        let (w, l) = lin_parts(x[1]);
        v.extend(w);
        lin(v, k.wrapping_add(l))
    })
}
pub fn scale(a: T, c: i128) -> T {
    lift1(a, &mut |a| {
        let (v, k) = lin_parts(a);
        lin(v.into_iter().map(|(t, x)| (t, x.wrapping_mul(c))).collect(), k.wrapping_mul(c))
    })
}
pub fn sub(a: T, b: T) -> T {
    add(a, scale(b, -1))
}
pub fn mul(a: T, b: T) -> T {
    liftn(&[a, b], &mut |x| mul0(x[0], x[1]))
}
fn mul0(a: T, b: T) -> T {
    if let N::Int(i) = get(a) {
        return scale(b, i);
    }
    if let N::Int(i) = get(b) {
        return scale(a, i);
    }
    // distribute over linear forms so (a+1)*b == a*b + b
    if let N::Lin(v, k) = get(a) {
        let mut r = scale(b, k);
        for (t, c) in v {
            r = add(r, scale(mul(t, b), c));
        }
        return r;
    }
    if let N::Lin(..) = get(b) {
        return mul0(b, a);
    }
    let mut fs = vec![];
    for t in [a, b] {
        match get(t) {
            N::Mul(v) => fs.extend(v),
            _ => fs.push(t),
        }
    }
    fs.sort();
    mk(N::Mul(fs))
}
pub fn max2(a: T, b: T) -> T {
    nary_mm(true, a, b)
}
pub fn min2(a: T, b: T) -> T {
    nary_mm(false, a, b)
}
fn nary_mm(mx: bool, a: T, b: T) -> T {
    liftn(&[a, b], &mut |x| {
        let mut v = vec![];
        for t in x {
            match get(*t) {
                N::Max(w) if mx => v.extend(w),
                N::Min(w) if !mx => v.extend(w),
                _ => v.push(*t),
            }
        }
        v.sort();
        v.dedup();
        let ints: Vec<i128> = v.iter().filter_map(|t| if let N::Int(i) = get(*t) { Some(i) } else { None }).collect();
        if ints.len() > 1 {
            v.retain(|t| !matches!(get(*t), N::Int(_)));
            let k = if mx { *ints.iter().max().unwrap() } else { *ints.iter().min().unwrap() };
            v.push(int(k));
            v.sort();
        }
        // max(x, 0) == x for unsigned
        if mx && v.len() == 2 && ints == [0] && unsigned(if v[0] == int(0) { v[1] } else { v[0] }) {
            v.retain(|t| *t != int(0));
        }
        if v.len() == 1 {
            return v[0];
        }
        mk(if mx { N::Max(v) } else { N::Min(v) })
    })
}
fn unsigned(t: T) -> bool {
    match get(t) {
        N::Lin(v, k) => k >= 0 && v.iter().all(|x| x.1 > 0),
        _ => true,
    }
}
pub fn bin(op: &'static str, a: T, b: T) -> T {
    liftn(&[a, b], &mut |x| bin0(op, x[0], x[1]))
}
fn bin0(op: &'static str, a: T, b: T) -> T {
    let (ia, ib) = (
        if let N::Int(i) = get(a) { Some(i) } else { None },
        if let N::Int(i) = get(b) { Some(i) } else { None },
    );
    if let (Some(x), Some(y)) = (ia, ib) {
        let r = match op {
            "/" if y != 0 => Some(x / y),
            "%" if y != 0 => Some(x % y),
            "<<" if (0..100).contains(&y) => x.checked_mul(1i128 << y),
            ">>" if (0..100).contains(&y) => Some(x >> y),
            "pow" if (0..126).contains(&y) => x.checked_pow(y as u32),
            "&" => Some(x & y),
            "|" => Some(x | y),
            "^" => Some(x ^ y),
            _ => None,
        };
        if let Some(r) = r {
            return int(r);
        }
    }
    match (op, ia, ib) {
        ("/", _, Some(1)) => return a,
        ("%", _, Some(1)) => return int(0),
        ("<<", _, Some(k)) if (0..120).contains(&k) => return scale(a, 1i128 << k),
        ("<<", Some(1), None) => return bin("pow", int(2), b),
        // the exponent's width: an exponent that does not fit overflows either way
        ("pow", Some(2), None) if matches!(get(b), N::Cast(..)) => if let N::Cast(_, e) = get(b) { return bin("pow", a, e) },
        (">>", _, Some(k)) if (0..120).contains(&k) => return bin("/", a, int(1i128 << k)),
        ("pow", _, Some(1)) => return a,
        ("pow", _, Some(2)) => return mul(a, a),
        ("&", _, Some(m)) if m > 0 && (m + 1) & m == 0 => return bin("%", a, int(m + 1)),
        ("&", Some(m), _) if m > 0 && (m + 1) & m == 0 => return bin("%", b, int(m + 1)),
        ("|", _, Some(0)) | ("^", _, Some(0)) => return a,
        ("|", Some(0), _) | ("^", Some(0), _) => return b,
        _ => {}
    }
    if op == "/" {
        // (a/b)/c -> a/(b*c)
        if let N::Bin("/", x, y) = get(a) {
            return bin("/", x, mul(y, b));
        }
    }
    // booleans: & | ^ on boolean atoms
    if is_bool_atom(a) || is_bool_atom(b) || matches!(get(a), N::Bool(_)) || matches!(get(b), N::Bool(_)) {
        match op {
            "&" => return and(a, b),
            "|" => return or(a, b),
            "^" => return ite(a, not(b), b),
            _ => {}
        }
    }
    if matches!(op, "&" | "|" | "^") && before(b, a) {
        return mk(N::Bin(op, b, a));
    }
    if op == "&" && a == b || op == "|" && a == b {
        return a;
    }
    mk(N::Bin(op, a, b))
}
/// a >= b on unsigned integers.  Only additive parts move across; an operand
/// that is itself an unchecked subtraction stays atomic (moving it would hide
/// an underflow).
pub fn ge(a: T, b: T) -> T {
    liftn(&[a, b], &mut |x| {
        let (a, b) = (atomise(x[0]), atomise(x[1]));
        ge0(sub(a, b))
    })
}
pub fn atomise(t: T) -> T {
    if may_underflow(t) {
        return mk(N::Un("diff", t));
    }
    t
}
/// `x - x % y` and `x - x / y` cannot.
fn may_underflow(t: T) -> bool {
    let N::Lin(v, k) = get(t) else { return false };
    if k >= 0 && v.iter().all(|x| x.1 > 0) {
        return false;
    }
    for (x, c) in v {
        if let (N::Bin("%" | "/", a, _), -1) = (get(x), c) {
            if unsigned(a) {
                return may_underflow(sub(add(t, x), a));
            }
        }
    }
    true
}
/// The atomic differences a condition compares.
pub fn differences(t: T) -> Vec<(T, T)> {
    match get(t) {
        N::Un("diff", l) => vec![(t, l)],
        N::Lin(v, _) => v.iter().flat_map(|x| differences(x.0)).collect(),
        N::Ge0(x) => differences(x),
        N::Eq(a, b) => match (get(a), get(b)) {
            (N::Un("diff", l), N::Int(0)) | (N::Int(0), N::Un("diff", l)) => vec![(t, l)],
            _ => differences(a).into_iter().chain(differences(b)).collect(),
        },
        N::Ite(c, a, b) => differences(c).into_iter().chain(differences(a)).chain(differences(b)).collect(),
        _ => vec![],
    }
}
pub fn nonneg(l: T) -> T {
    ge0(l)
}
fn ge0(l: T) -> T {
    match get(l) {
        N::Int(i) => return mk(N::Bool(i >= 0)),
        // a bound on a maximum is a bound on one of its members, on a minimum on each of them
        N::Max(v) => v.iter().fold(fls(), |r, x| or(r, ge0(*x))),
        N::Min(v) => v.iter().fold(tru(), |r, x| and(r, ge0(*x))),
        N::Lin(v, k) => {
            if let Some(j) = v.iter().position(|x| matches!(get(x.0), N::Max(_) | N::Min(_))) {
                let (m, c) = v[j];
                let (xs, mx) = match get(m) {
                    N::Max(xs) => (xs, true),
                    N::Min(xs) => (xs, false),
                    _ => unreachable!(),
                };
                let rest = add(l, scale(m, -c));
                let any = mx == (c > 0);
                return xs.iter().fold(if any { fls() } else { tru() }, |r, x| {
                    let g = ge0(add(rest, scale(*x, c)));
                    if any { or(r, g) } else { and(r, g) }
                });
            }
            if k >= 0 && v.iter().all(|x| x.1 > 0) {
                return tru();
            }
            if v.iter().all(|x| x.1 < 0) && k < 0 {
                return fls();
            }
            // t >= 1  <=> t != 0
            if v.len() == 1 && v[0].1 == 1 && k == -1 {
                return not(eq(v[0].0, int(0)));
            }
            if v.len() == 1 && v[0].1 < 0 && k == 0 {
                return eq(v[0].0, int(0));
            }
            if v.iter().all(|x| x.1 < 0) && k == 0 {
                let mut r = tru();
                for x in v {
                    r = and(r, eq(x.0, int(0)));
                }
                return r;
            }
            // canonical polarity: make leading coefficient positive
            if v[0].1 < 0 {
                let neg = add(scale(l, -1), int(-1));
                return not(mk(N::Ge0(neg)));
            }
            mk(N::Ge0(l))
        }
        _ => tru(),
    }
}
pub fn lt(a: T, b: T) -> T {
    not(ge(a, b))
}
pub fn eq(a: T, b: T) -> T {
    liftn(&[a, b], &mut |x| eq0(x[0], x[1]))
}
fn outside_variant(p: &str) -> Option<&str> {
    let (e, v) = p.rsplit_once("::")?;
    let e = e.rsplit("::").next().unwrap();
    let up = |x: &str| x.starts_with(|c: char| c.is_ascii_uppercase());
    let shout = |x: &str| !x.contains(|c: char| c.is_ascii_lowercase());
    (up(e) && up(v) && (!shout(v) || shout(e) && e.len() > 4)).then_some(v)
}
fn eq0(a: T, b: T) -> T {
    if a == b {
        return tru();
    }
    match (get(a), get(b)) {
        (N::Int(_), N::Int(_)) | (N::Str(_), N::Str(_)) => return fls(),
        (N::Bool(x), _) => return if x { b } else { not(b) },
        (_, N::Bool(x)) => return if x { a } else { not(a) },
        // the extreme is this operand where no other passes it
        (N::Max(v), _) if v.contains(&b) => return v.iter().filter(|x| **x != b).fold(tru(), |r, x| and(r, ge0(sub(b, *x)))),
        (_, N::Max(v)) if v.contains(&a) => return v.iter().filter(|x| **x != a).fold(tru(), |r, x| and(r, ge0(sub(a, *x)))),
        (N::Min(v), _) if v.contains(&b) => return v.iter().filter(|x| **x != b).fold(tru(), |r, x| and(r, ge0(sub(*x, b)))),
        (_, N::Min(v)) if v.contains(&a) => return v.iter().filter(|x| **x != a).fold(tru(), |r, x| and(r, ge0(sub(*x, a)))),
        // a unit variant of an outside enum: `x == E::V` is the pattern `E::V`
        (N::Sym(p), N::Sym(q)) if outside_variant(&p).is_some() && outside_variant(&q).is_some() => {}
        (N::Sym(p), _) if outside_variant(&p).is_some() => return is_var(b, outside_variant(&p).unwrap()),
        (_, N::Sym(q)) if outside_variant(&q).is_some() => return is_var(a, outside_variant(&q).unwrap()),
        (N::Ctor(x, xs), N::Ctor(y, ys)) => {
            if x != y || xs.len() != ys.len() {
                return fls();
            }
            let mut r = tru();
            for (p, q) in xs.iter().zip(ys.iter()) {
                r = and(r, eq(*p, *q));
            }
            return r;
        }
        (N::Tuple(xs), N::Tuple(ys)) if xs.len() == ys.len() => {
            let mut r = tru();
            for (p, q) in xs.iter().zip(ys.iter()) {
                r = and(r, eq(*p, *q));
            }
            return r;
        }
        (N::Ctor(x, xs), _) => {
            let mut r = is_var(b, &x);
            for (i, p) in xs.iter().enumerate() {
                r = and(r, eq(*p, payload(b, &x, i as u32)));
            }
            return r;
        }
        (_, N::Ctor(..)) => return eq0(b, a),
        // len(..) == 0 etc.: cancel common parts of linear forms
        _ => {}
    }
    // sum == 0 on unsigned: every addend is zero
    for (p, q) in [(a, b), (b, a)] {
        if q == int(0) {
            match get(p) {
                N::Lin(v, k) if v.iter().all(|x| x.1 > 0) => {
                    if k > 0 {
                        return fls();
                    }
                    if k == 0 {
                        let mut r = tru();
                        for (t, _) in v {
                            r = and(r, eq(t, int(0)));
                        }
                        return r;
                    }
                }
                N::Big("add", lo, hi, body, h) => {
                    // sum is zero iff no index contributes
                    let nz = not(eq(body, int(0)));
                    return not(big_raw("or", lo, hi, nz, h));
                }
                _ => {}
            }
        }
    }
    if matches!(get(a), N::Lin(..)) || matches!(get(b), N::Lin(..)) {
        let (a1, b1) = (atomise(a), atomise(b));
        let d = sub(a1, b1);
        if let N::Int(i) = get(d) {
            return mk(N::Bool(i == 0));
        }
        let (v, k) = lin_parts(d);
        // split into positive / negative sides
        let pos: Vec<_> = v.iter().filter(|x| x.1 > 0).cloned().collect();
        let neg: Vec<_> = v.iter().filter(|x| x.1 < 0).map(|x| (x.0, -x.1)).collect();
        let (p, n) = (lin(pos, k.max(0)), lin(neg, (-k).max(0)));
        let (p, n) = if p <= n { (p, n) } else { (n, p) };
        if (p, n) != (a1, b1) && (p, n) != (b1, a1) {
            return mk(N::Eq(p, n));
        }
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    mk(N::Eq(a, b))
}

// ---------- structure ----------
pub fn field(t: T, f: &str) -> T {
    lift1(t, &mut |t| field0(t, f))
}
fn field0(t: T, f: &str) -> T {
    match get(t) {
        N::Rec(b, fs) => {
            for (n, v) in &fs {
                if n == f {
                    return *v;
                }
            }
            field(b, f)
        }
        N::Struct(_, fs) => {
            for (n, v) in &fs {
                if n == f {
                    return *v;
                }
            }
            mk(N::Field(t, f.to_string()))
        }
        N::Tuple(v) => {
            if let Ok(i) = f.parse::<usize>() {
                if i < v.len() {
                    return v[i];
                }
            }
            mk(N::Field(t, f.to_string()))
        }
        N::Index(u, j) => {
            // field of an element of an updated collection, not touched by the update
            if let N::Upd(c, i, v) = get(u) {
                if let N::Rec(b, fs) = get(v) {
                    if b == index(c, i) && !fs.iter().any(|x| x.0 == f) {
                        return field(index(c, j), f);
                    }
                    // what the update does to other fields does not matter
                    let u2 = with_field(u, f);
                    if u2 != u {
                        return field(index(u2, j), f);
                    }
                }
            }
            mk(N::Field(t, f.to_string()))
        }
        _ => mk(N::Field(t, f.to_string())),
    }
}
/// An updated list of structures with only the updates of field `f`.
fn with_field(u: T, f: &str) -> T {
    if let N::Upd(c, i, v) = get(u) {
        if let N::Rec(b, fs) = get(v) {
            if b == index(c, i) {
                let p = with_field(c, f);
                return match fs.iter().find(|x| x.0 == f) {
                    None => p,
                    Some(_) if p == c && fs.len() == 1 => u,
                    Some(x) => upd(p, i, rec(index(p, i), vec![x.clone()])),
                };
            }
        }
    }
    u
}
pub fn set_field(t: T, f: &str, v: T) -> T {
    match get(t) {
        N::Struct(n, mut fs) => {
            for x in fs.iter_mut() {
                if x.0 == f {
                    x.1 = v;
                    return mk(N::Struct(n, fs));
                }
            }
            rec(t, vec![(f.to_string(), v)])
        }
        N::Tuple(mut vs) => {
            if let Ok(i) = f.parse::<usize>() {
                if i < vs.len() {
                    vs[i] = v;
                    return mk(N::Tuple(vs));
                }
            }
            rec(t, vec![(f.to_string(), v)])
        }
        _ => rec(t, vec![(f.to_string(), v)]),
    }
}
pub fn rec(b: T, fs: Vec<(String, T)>) -> T {
    let (base, mut all) = match get(b) {
        N::Rec(b2, f2) => (b2, f2),
        N::Struct(n, mut f2) => {
            let mut extra = vec![];
            for (k, v) in fs {
                if let Some(x) = f2.iter_mut().find(|x| x.0 == k) {
                    x.1 = v
                } else {
                    extra.push((k, v))
                }
            }
            f2.extend(extra);
            f2.sort();
            return mk(N::Struct(n, f2));
        }
        _ => (b, vec![]),
    };
    for (k, v) in fs {
        if let Some(x) = all.iter_mut().find(|x| x.0 == k) {
            x.1 = v;
        } else {
            all.push((k, v));
        }
    }
    all.retain(|(k, v)| *v != field(base, k));
    all.sort();
    if all.is_empty() {
        return base;
    }
    mk(N::Rec(base, all))
}
pub fn index(c: T, i: T) -> T {
    liftn(&[c, i], &mut |x| index0(x[0], x[1]))
}
fn index0(c: T, i: T) -> T {
    // an index that is a run of consecutive positions selects a slice
    match get(i) {
        N::Big("concat", lo, hi, b, h) if get(b) == N::Elem(mk(N::Bv(h))) => return slice(c, lo, hi),
        N::Concat(v) if !v.is_empty() => {
            let k: Vec<T> = v.iter().filter_map(|x| if let N::Elem(e) = get(*x) { Some(e) } else { None }).collect();
            if k.len() == v.len() && k.windows(2).all(|w| w[1] == add(w[0], int(1))) {
                return slice(c, k[0], add(k[0], int(k.len() as i128)));
            }
        }
        _ => {}
    }
    match get(c) {
        N::Upd(c2, j, v) => {
            if i == j {
                return v;
            }
            if distinct(i, j) {
                return index(c2, i);
            }
        }
        N::Big("concat", lo, _, body, h) => {
            if let N::Elem(g) = get(body) {
                return subst1(g, mk(N::Bv(h)), add(lo, i));
            }
        }
        N::Concat(v) => {
            if v.iter().all(|x| matches!(get(*x), N::Elem(_))) {
                if let N::Int(k) = get(i) {
                    if k >= 0 && (k as usize) < v.len() {
                        if let N::Elem(e) = get(v[k as usize]) {
                            return e;
                        }
                    }
                }
            }
        }
        N::Elem(e) => {
            if i == int(0) {
                return e;
            }
        }
        N::Call(f, a) if f == "repeat" => return a[0],
        N::Slice(c2, a, _) => return index(c2, add(a, i)),
        _ => {}
    }
    mk(N::Index(c, i))
}
/// Greatest element of a list of unsigned numbers, 0 when it is empty.
pub fn max_of(l: T) -> T {
    lift1(l, &mut |l| match get(l) {
        N::Elem(e) => e,
        N::Concat(v) => v.iter().fold(int(0), |a, x| max2(a, max_of(*x))),
        N::Big("concat", lo, hi, body, h) => big_close("max", lo, hi, max_of(body), h),
        _ => {
            let iv = fresh_var("m");
            big("max", int(0), len(l), index(l, iv), iv)
        }
    })
}
pub fn nonempty(l: T) -> T {
    bool_of(lift1(l, &mut |l| match get(l) {
        N::Elem(_) => tru(),
        N::Concat(v) => v.iter().fold(fls(), |a, x| or(a, nonempty(*x))),
        N::Big("concat", lo, hi, body, h) => big_close("or", lo, hi, nonempty(body), h),
        _ => lt(int(0), len(l)),
    }))
}
/// `next` is `var` or the maximum of `var` and something else on every path: that something (0 for none).
pub fn max_delta(next: T, var: T) -> Option<T> {
    if next == var {
        return Some(int(0));
    }
    match get(next) {
        N::Ite(c, a, b) if !contains(c, var) => Some(ite(c, max_delta(a, var)?, max_delta(b, var)?)),
        N::Max(v) if v.contains(&var) => Some(v.into_iter().filter(|x| *x != var).fold(int(0), max2)),
        _ => None,
    }
}
fn distinct(i: T, j: T) -> bool {
    matches!(get(sub(i, j)), N::Int(k) if k != 0)
}
pub fn upd(c: T, i: T, v: T) -> T {
    if let N::Upd(c2, j, _) = get(c) {
        if j == i {
            return upd(c2, i, v);
        }
        if distinct(i, j) && i < j {
            if let N::Upd(_, _, w) = get(c) {
                return mk(N::Upd(upd(c2, i, v), j, w));
            }
        }
    }
    if v == index(c, i) {
        return c;
    }
    mk(N::Upd(c, i, v))
}
const NVAL: [&str; 6] = [
    "balances",
    "inactivity_scores",
    "current_epoch_participation",
    "previous_epoch_participation",
    "validators",
    "",
];
pub fn len(c: T) -> T {
    lift1(c, &mut |c| match get(c) {
        N::Upd(c2, _, _) => len(c2),
        N::Concat(v) => v.iter().fold(int(0), |a, x| add(a, len(*x))),
        N::Elem(_) => int(1),
        N::Big("concat", lo, hi, body, h) => {
            let l = len(body);
            big_raw("add", lo, hi, l, h)
        }
        N::Slice(_, a, b) => sub(b, a),
        N::Str(s) => int(s.len() as i128),
        N::Call(f, a) if f == "repeat" => a[1],
        N::Call(f, a) if matches!(f.as_str(), "splice" | "sorted" | "sorted_by" | "sorted_key" | "usorted_by" | "usorted_key" | "reversed") => len(a[0]),
        N::Call(f, _) if f == "hash" => int(32),
        N::Loop(lo, hi, inits, nexts, brk, outs, h, k) => {
            // a loop that only updates elements keeps the length
            let acc = mk(N::Acc(h, k));
            let (n, i) = (nexts[k as usize], inits[k as usize]);
            let _ = (lo, hi, brk, &outs);
            if keeps_len(n, acc) && outs.get(k as usize).map_or(true, |o| keeps_len(*o, acc)) {
                len(i)
            } else {
                mk(N::Len(c))
            }
        }
        N::CallOut(_, args, k, f) if NVAL.contains(&f.as_str()) && (k as usize) < args.len() => mk(N::Len(c)),
        N::Field(b, f) if f == "validators" || NVAL.contains(&f.as_str()) => mk(N::Len(mk(N::Field(b, "validators".into())))),
        _ => mk(N::Len(c)),
    })
}
fn keeps_len(t: T, acc: T) -> bool {
    if t == acc {
        return true;
    }
    match get(t) {
        N::Ite(_, a, b) => keeps_len(a, acc) && keeps_len(b, acc),
        N::Upd(c, _, _) => keeps_len(c, acc),
        _ => false,
    }
}
pub fn concat(v: Vec<T>) -> T {
    let mut o = vec![];
    for t in v {
        match get(t) {
            N::Concat(w) => o.extend(w),
            _ => o.push(t),
        }
    }
    if o.len() > 1 && o.iter().any(|t| matches!(get(*t), N::Str(_))) {
        // adjacent literals are one literal
        let mut m: Vec<T> = vec![];
        for t in o {
            match (m.last().map(|l| get(*l)), get(t)) {
                (_, N::Str(s)) if s.is_empty() => {}
                (Some(N::Str(a)), N::Str(b)) => {
                    m.pop();
                    m.push(mk(N::Str(a + &b)));
                }
                _ => m.push(t),
            }
        }
        o = m;
    }
    if o.len() == 1 {
        return o[0];
    }
    mk(N::Concat(o))
}
pub fn elem(t: T) -> T {
    lift1(t, &mut |t| mk(N::Elem(t)))
}
pub fn nil() -> T {
    mk(N::Concat(vec![]))
}
pub fn push(l: T, x: T) -> T {
    liftn(&[l, elem(x)], &mut |v| {
        if let N::SetOf(i) = get(v[0]) {
            return mk(N::SetOf(concat(vec![i, v[1]])));
        }
        concat(vec![v[0], v[1]])
    })
}
pub fn append(l: T, m: T) -> T {
    liftn(&[l, m], &mut |v| {
        if let N::SetOf(i) = get(v[0]) {
            return mk(N::SetOf(concat(vec![i, v[1]])));
        }
        concat(vec![v[0], v[1]])
    })
}
pub fn is_var(t: T, v: &str) -> T {
    lift_shared(t, &mut |t| match get(t) {
        N::Ctor(n, _) => mk(N::Bool(n == v)),
        N::Struct(n, _) if n.contains("::") => mk(N::Bool(n == v)),
        N::Sym(n) if n.contains("::") && v.contains("::") => mk(N::Bool(n == v)),
        // the order of two values
        N::Call(m, a) if m == ".cmp" && a.len() == 2 && matches!(v, "Less" | "Equal" | "Greater") => match v {
            "Less" => lt(a[0], a[1]),
            "Greater" => lt(a[1], a[0]),
            _ => eq(a[0], a[1]),
        },
        _ if v == "Err" => not(is_var(t, "Ok")),
        _ => mk(N::IsVar(t, v.to_string())),
    })
}
pub fn payload(t: T, v: &str, k: u32) -> T {
    lift_shared(t, &mut |t| match get(t) {
        N::Ctor(n, a) => {
            if n == v && (k as usize) < a.len() {
                a[k as usize]
            } else if n == v {
                unit()
            } else {
                unk("dead")
            }
        }
        _ => mk(N::Payload(t, v.to_string(), k)),
    })
}
pub fn call(f: &str, args: Vec<T>) -> T {
    liftn(&args, &mut |a| mk(N::Call(f.to_string(), a.to_vec())))
}
pub fn callout(f: &str, args: Vec<T>, k: u32, fld: &str) -> T {
    liftn(&args, &mut |a| mk(N::CallOut(f.to_string(), a.to_vec(), k, fld.to_string())))
}
pub fn tuple(v: Vec<T>) -> T {
    mk(N::Tuple(v))
}

// ---------- binders ----------
pub fn height(t: T) -> u32 {
    // greatest binder height bound inside t
    if let Some(h) = AR.with(|a| a.borrow().height_memo.get(&t).copied()) {
        return h;
    }
    let n = get(t);
    let mut h = 0;
    for c in children(&n) {
        h = h.max(height(c));
    }
    match n {
        N::Big(_, _, _, _, x) | N::First(_, _, _, _, x) | N::Loop(_, _, _, _, _, _, x, _) | N::Lambda(x, _, _) => h = h.max(x),
        _ => {}
    }
    AR.with(|a| a.borrow_mut().height_memo.insert(t, h));
    h
}
pub fn children(n: &N) -> Vec<T> {
    match n {
        N::Bool(_) | N::Int(_) | N::Str(_) | N::Sym(_) | N::Var(_) | N::Bv(_) | N::Acc(..) | N::Unk(_) => vec![],
        N::Lin(v, _) => v.iter().map(|x| x.0).collect(),
        N::Mul(v) | N::Max(v) | N::Min(v) | N::Tuple(v) | N::Concat(v) => v.clone(),
        N::Bin(_, a, b) | N::Eq(a, b) | N::Index(a, b) => vec![*a, *b],
        N::Un(_, a) | N::Ge0(a) | N::Field(a, _) | N::Len(a) | N::Elem(a) | N::SetOf(a) | N::IsVar(a, _) | N::Payload(a, _, _) | N::Cast(_, a) | N::Lambda(_, _, a) => vec![*a],
        N::Ite(a, b, c) | N::Slice(a, b, c) | N::Upd(a, b, c) => vec![*a, *b, *c],
        N::Rec(b, fs) => {
            let mut v = vec![*b];
            v.extend(fs.iter().map(|x| x.1));
            v
        }
        N::Struct(_, fs) => fs.iter().map(|x| x.1).collect(),
        N::Ctor(_, a) | N::Call(_, a) | N::CallOut(_, a, _, _) => a.clone(),
        N::Big(_, a, b, c, _) => vec![*a, *b, *c],
        N::First(a, b, c, d, _) => vec![*a, *b, *c, *d],
        N::Loop(lo, hi, i, n, b, o, _, _) => {
            let mut v = vec![*lo, *hi];
            v.extend(i);
            v.extend(n);
            v.push(*b);
            v.extend(o);
            v
        }
    }
}
pub fn term_size(t: T, lim: usize) -> usize {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![t];
    while let Some(x) = st.pop() {
        if seen.insert(x) {
            if seen.len() > lim {
                return lim + 1;
            }
            st.extend(children(&get(x)));
        }
    }
    seen.len()
}
pub fn contains(t: T, x: T) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![t];
    while let Some(y) = st.pop() {
        if y == x {
            return true;
        }
        if seen.insert(y) {
            st.extend(children(&get(y)));
        }
    }
    false
}
pub fn subst1(t: T, from: T, to: T) -> T {
    let mut m = HashMap::new();
    m.insert(from, to);
    subst(t, &m)
}
pub fn subst(t: T, m: &HashMap<T, T>) -> T {
    let mut memo: HashMap<T, T> = HashMap::new();
    subst_in(t, m, &mut memo)
}
pub fn subst_in(t: T, m: &HashMap<T, T>, memo: &mut HashMap<T, T>) -> T {
    if let Some(r) = m.get(&t) {
        return *r;
    }
    if let Some(r) = memo.get(&t) {
        return *r;
    }
    let n = get(t);
    let ch = children(&n);
    if ch.is_empty() {
        return t;
    }
    let new: Vec<T> = ch.iter().map(|c| subst_in(*c, m, memo)).collect();
    let r = if new == ch { t } else { rebuild(&n, &new) };
    memo.insert(t, r);
    r
}
pub fn rebuild(n: &N, c: &[T]) -> T {
    match n {
        N::Lin(v, k) => {
            let mut r = int(*k);
            for (i, (_, co)) in v.iter().enumerate() {
                r = add(r, scale(c[i], *co));
            }
            r
        }
        N::Mul(_) => c[1..].iter().fold(c[0], |a, b| mul(a, *b)),
        N::Max(_) => c[1..].iter().fold(c[0], |a, b| max2(a, *b)),
        N::Min(_) => c[1..].iter().fold(c[0], |a, b| min2(a, *b)),
        N::Tuple(_) => tuple(c.to_vec()),
        N::Concat(_) => liftn(c, &mut |x| concat(x.to_vec())),
        N::Bin(op, _, _) => bin(op, c[0], c[1]),
        N::Eq(_, _) => eq(c[0], c[1]),
        N::Index(_, _) => index(c[0], c[1]),
        N::Un("diff", _) => atomise(c[0]),
        N::Un("is", _) => bool_of(c[0]),
        N::Un(op, _) => un(op, c[0]),
        N::Ge0(_) => lift1(c[0], &mut |x| ge0(x)),
        N::Field(_, f) => field(c[0], f),
        N::Len(_) => len(c[0]),
        N::Elem(_) => elem(c[0]),
        N::SetOf(_) => mk(N::SetOf(c[0])),
        N::IsVar(_, v) => is_var(c[0], v),
        N::Payload(_, v, k) => payload(c[0], v, *k),
        N::Cast(s, _) => cast(s, c[0]),
        N::Lambda(h, k, _) => mk(N::Lambda(*h, *k, c[0])),
        N::Ite(_, _, _) => ite(c[0], c[1], c[2]),
        N::Slice(_, _, _) => slice(c[0], c[1], c[2]),
        N::Upd(_, _, _) => upd(c[0], c[1], c[2]),
        N::Rec(_, fs) => {
            let mut r = c[0];
            let fl: Vec<(String, T)> = fs.iter().enumerate().map(|(i, x)| (x.0.clone(), c[i + 1])).collect();
            if matches!(get(r), N::Ite(..)) {
                r = lift1(r, &mut |b| rec(b, fl.clone()));
                r
            } else {
                rec(r, fl)
            }
        }
        N::Struct(nm, fs) => mk(N::Struct(nm.clone(), fs.iter().enumerate().map(|(i, x)| (x.0.clone(), c[i])).collect())),
        N::Ctor(nm, _) => liftn(c, &mut |x| mk(N::Ctor(nm.clone(), x.to_vec()))),
        N::Call(f, _) => call(f, c.to_vec()),
        N::CallOut(f, _, k, fl) => callout(f, c.to_vec(), *k, fl),
        N::Big(op, _, _, _, h) => big_close(op, c[0], c[1], c[2], *h),
        N::First(_, _, _, _, h) => {
            let nh = 1 + height(c[2]).max(height(c[3]));
            let b = mk(N::Bv(*h));
            let nb = mk(N::Bv(nh));
            if nh == *h {
                mk(N::First(c[0], c[1], c[2], c[3], *h))
            } else {
                mk(N::First(c[0], c[1], subst1(c[2], b, nb), subst1(c[3], b, nb), nh))
            }
        }
        N::Loop(_, _, i, nx, _, o, h, k) => {
            let (a, b) = (i.len(), nx.len());
            let inits = c[2..2 + a].to_vec();
            let nexts = c[2 + a..2 + a + b].to_vec();
            let brk = c[2 + a + b];
            let outs = c[3 + a + b..3 + a + b + o.len()].to_vec();
            mk(N::Loop(c[0], c[1], inits, nexts, brk, outs, *h, *k))
        }
        _ => unreachable!(),
    }
}
pub fn un(op: &'static str, t: T) -> T {
    lift1(t, &mut |t| mk(N::Un(op, t)))
}
pub fn cast(ty: &str, t: T) -> T {
    lift1(t, &mut |t| {
        if let N::Int(i) = get(t) {
            let max = match ty {
                "u8" => 255,
                "u16" => 65535,
                "u32" => u32::MAX as i128,
                _ => i128::MAX,
            };
            if i >= 0 && i <= max {
                return t;
            }
        }
        mk(N::Cast(ty.into(), t))
    })
}
pub fn slice(c: T, a: T, b: T) -> T {
    if a == int(0) && b == len(c) {
        return c;
    }
    lift1(c, &mut |c| {
        if let N::Slice(c2, x, _) = get(c) {
            return slice(c2, add(x, a), add(x, b));
        }
        mk(N::Slice(c, a, b))
    })
}
/// Build op over i in lo..hi of body, body mentions Bv(h_old).
fn big_close(op: &'static str, lo: T, hi: T, body: T, h_old: u32) -> T {
    let nh = 1 + height(body);
    let body = if nh == h_old { body } else { subst1(body, mk(N::Bv(h_old)), mk(N::Bv(nh))) };
    big_raw(op, lo, hi, body, nh)
}
pub fn big(op: &'static str, lo: T, hi: T, body: T, ivar: T) -> T {
    let nh = 1 + height(body);
    let body = subst1(body, ivar, mk(N::Bv(nh)));
    // substitution may re-normalise and change heights; recompute once
    let nh2 = 1 + height(body);
    if nh2 != nh {
        return big_close(op, lo, hi, body, nh);
    }
    big_raw(op, lo, hi, body, nh)
}
/// The list, joined from several and as long as the range, that a body reads at its position.
fn joined(body: T, bv: T, hi: T) -> Option<(T, Vec<T>)> {
    fn go(t: T, bv: T, hi: T, seen: &mut HashSet<T>) -> Option<(T, Vec<T>)> {
        if !seen.insert(t) || !contains(t, bv) {
            return None;
        }
        if let N::Index(c, i) = get(t) {
            if let (true, N::Concat(p)) = (i == bv && !contains(c, bv), get(c)) {
                if len(c) == hi {
                    return Some((c, p));
                }
            }
        }
        children(&get(t)).into_iter().find_map(|x| go(x, bv, hi, seen))
    }
    go(body, bv, hi, &mut HashSet::new())
}
fn big_raw(op: &'static str, lo: T, hi: T, body: T, h: u32) -> T {
    if lo == hi {
        return match op {
            "add" => int(0),
            "or" => fls(),
            "concat" => nil(),
            "max" => int(0),
            _ => mk(N::Big(op, lo, hi, body, h)),
        };
    }
    let bv = mk(N::Bv(h));
    // over several lists joined together: one after the other
    if lo == int(0) && matches!(get(hi), N::Lin(..)) {
        if let Some((c, parts)) = joined(body, bv, hi) {
            let at = index(c, bv);
            let mut off = int(0);
            let mut out = vec![];
            for p in parts {
                let iv = fresh_var("j");
                if let N::Elem(e) = get(p) {
                    out.push(subst(body, &[(at, e), (bv, off)].into_iter().collect()));
                    off = add(off, int(1));
                } else {
                    let b = subst(body, &[(at, index(p, iv)), (bv, add(iv, off))].into_iter().collect());
                    out.push(big(op, int(0), len(p), b, iv));
                    off = add(off, len(p));
                }
            }
            return match op {
                "concat" => liftn(&out, &mut |x| concat(x.to_vec())),
                "add" => out.into_iter().fold(int(0), add),
                "or" => out.into_iter().fold(fls(), or),
                _ => out.into_iter().fold(int(0), max2),
            };
        }
    }
    match op {
        "concat" if lo == int(0) && matches!(get(body), N::Elem(x) if !contains(x, bv)) => return call("repeat", vec![children(&get(body))[0], hi]),
        "max" if body == int(0) => return body,
        "add" => {
            if body == int(0) {
                return int(0);
            }
            if !contains(body, bv) && lo == int(0) {
                return mul(hi, body);
            }
            if let (N::Int(a), N::Int(b)) = (get(lo), get(hi)) {
                if b > a && b - a <= 4 {
                    let mut r = int(0);
                    for k in a..b {
                        r = add(r, subst1(body, bv, int(k)));
                    }
                    return r;
                }
            }
        }
        "or" => {
            if body == fls() {
                return fls();
            }
            if body == tru() {
                return lt(lo, hi);
            }
            if let (N::Int(a), N::Int(b)) = (get(lo), get(hi)) {
                if b > a && b - a <= 4 {
                    let mut r = fls();
                    for k in a..b {
                        r = or(r, subst1(body, bv, int(k)));
                    }
                    return r;
                }
            }
            // exists i < len. xs[i] == v over a literal list
        }
        "concat" => {
            if body == nil() {
                return nil();
            }
            if let N::Elem(e) = get(body) {
                // [xs[i] for i in 0..len(xs)] == xs
                if let N::Index(c, i) = get(e) {
                    if i == bv && lo == int(0) && !contains(c, bv) && len(c) == hi {
                        return c;
                    }
                }
            }
            if let (N::Int(a), N::Int(b)) = (get(lo), get(hi)) {
                if b > a && b - a <= 4 {
                    let mut r = vec![];
                    for k in a..b {
                        r.push(subst1(body, bv, int(k)));
                    }
                    return liftn(&r, &mut |x| concat(x.to_vec()));
                }
            }
        }
        _ => {}
    }
    mk(N::Big(op, lo, hi, body, h))
}

// ---------- printing ----------
pub fn show(t: T) -> String {
    show_d(t, std::env::var("AN_DEPTH").ok().and_then(|d| d.parse().ok()).unwrap_or(14))
}
pub fn show_d(t: T, d: u32) -> String {
    if d == 0 {
        return "…".into();
    }
    let s = |x: T| show_d(x, d - 1);
    let l = |v: &[T]| v.iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(", ");
    match get(t) {
        N::Bool(b) => b.to_string(),
        N::Int(i) => {
            if i == u64::MAX as i128 {
                "u64::MAX".into()
            } else {
                i.to_string()
            }
        }
        N::Str(x) => format!("{x:?}"),
        N::Sym(x) => x,
        N::Var(x) => x,
        N::Bv(h) => format!("i{h}"),
        N::Acc(h, k) => format!("acc{h}_{k}"),
        N::Lin(v, k) => {
            let mut o = String::from("(");
            for (i, (x, c)) in v.iter().enumerate() {
                if *c < 0 {
                    o += " - "
                } else if i > 0 {
                    o += " + "
                }
                if c.abs() != 1 {
                    o += &format!("{}*", c.abs())
                }
                o += &s(*x);
            }
            if k != 0 {
                o += &format!(" {} {}", if k < 0 { '-' } else { '+' }, k.abs());
            }
            o + ")"
        }
        N::Mul(v) => v.iter().map(|x| s(*x)).collect::<Vec<_>>().join("*"),
        N::Bin(op, a, b) => format!("({} {} {})", s(a), op, s(b)),
        N::Un(op, a) => format!("{}({})", op, s(a)),
        N::Max(v) => format!("max({})", l(&v)),
        N::Min(v) => format!("min({})", l(&v)),
        N::Ge0(a) => {
            if let N::Lin(v, k) = get(a) {
                let pos: Vec<_> = v.iter().filter(|x| x.1 > 0).cloned().collect();
                let neg: Vec<_> = v.iter().filter(|x| x.1 < 0).map(|x| (x.0, -x.1)).collect();
                return format!("{} >= {}", s(lin(pos, k.max(0))), s(lin(neg, (-k).max(0))));
            }
            format!("{} >= 0", s(a))
        }
        N::Eq(a, b) => format!("{} == {}", s(a), s(b)),
        N::Ite(c, a, b) => {
            if get(b) == N::Bool(false) {
                format!("({} && {})", s(c), s(a))
            } else if get(a) == N::Bool(true) {
                format!("({} || {})", s(c), s(b))
            } else if get(a) == N::Bool(false) && get(b) == N::Bool(true) {
                format!("!({})", s(c))
            } else if get(a) == N::Bool(false) {
                format!("(!({}) && {})", s(c), s(b))
            } else if get(b) == N::Bool(true) {
                format!("(!({}) || {})", s(c), s(a))
            } else {
                format!("if({}; {}; {})", s(c), s(a), s(b))
            }
        }
        N::Field(a, f) => format!("{}.{}", s(a), f),
        N::Index(a, b) => format!("{}[{}]", s(a), s(b)),
        N::Len(a) => format!("len({})", s(a)),
        N::Slice(a, b, c) => format!("{}[{}..{}]", s(a), s(b), s(c)),
        N::Rec(b, fs) => format!("{} with {{{}}}", s(b), fs.iter().map(|x| format!("{}: {}", x.0, s(x.1))).collect::<Vec<_>>().join(", ")),
        N::Upd(c, i, v) => format!("{}[{} := {}]", s(c), s(i), s(v)),
        N::Struct(n, fs) => format!("{} {{{}}}", n, fs.iter().map(|x| format!("{}: {}", x.0, s(x.1))).collect::<Vec<_>>().join(", ")),
        N::Tuple(v) => format!("({})", l(&v)),
        N::Concat(v) => format!("[{}]", l(&v)),
        N::Elem(a) => format!("<{}>", s(a)),
        N::SetOf(a) => format!("set({})", s(a)),
        N::Ctor(n, a) => {
            if a.is_empty() {
                n
            } else {
                format!("{}({})", n, l(&a))
            }
        }
        N::IsVar(a, v) => format!("{} is {}", s(a), v),
        N::Payload(a, v, k) => {
            if v == "Ok" {
                format!("{}?", s(a))
            } else {
                format!("{}.as_{}.{}", s(a), v, k)
            }
        }
        N::Call(f, a) => format!("{}({})", f, l(&a)),
        N::CallOut(f, a, k, fl) => format!("after[{}({})#{}.{}]", f, l(&a), k, fl),
        N::Big(op, lo, hi, b, h) => format!("{}{{i{} in {}..{}: {}}}", op, h, s(lo), s(hi), s(b)),
        N::First(lo, hi, c, v, h) => format!("first{{i{} in {}..{} where {}: {}}}", h, s(lo), s(hi), s(c), s(v)),
        N::Loop(lo, hi, i, n, b, o, h, k) => format!(
            "loop{{i{} in {}..{} init[{}] next[{}] brk[{}] out[{}]}}#{}",
            h,
            s(lo),
            s(hi),
            l(&i),
            l(&n),
            s(b),
            l(&o),
            k
        ),
        N::Lambda(h, n, b) => format!("|i{h}/{n}| {}", s(b)),
        N::Cast(ty, a) => format!("({} as {})", s(a), ty),
        N::Unk(x) => format!("?{x}"),
    }
}
/// Lists that differ only in the fields of the structures they hold, one under each condition, become one list whose
/// fields are conditional; a field only says what it is where the list is reached.
pub fn regroup(f: T) -> T {
    fn leaves(t: T, seen: &mut std::collections::HashSet<T>, out: &mut Vec<T>) {
        if !seen.insert(t) {
            return;
        }
        match get(t) {
            N::Ite(_, a, b) => {
                leaves(a, seen, out);
                leaves(b, seen, out);
            }
            _ => out.push(t),
        }
    }
    // a list with the fields of its structures taken out
    fn parts(t: T) -> Option<(Vec<(T, Vec<String>)>, Vec<T>)> {
        let v = match get(t) {
            N::Concat(v) => v,
            N::Elem(_) => vec![t],
            _ => return None,
        };
        let (mut sk, mut fs) = (vec![], vec![]);
        for x in v {
            match get(x) {
                N::Elem(e) => match get(e) {
                    N::Struct(n, f) => {
                        sk.push((sym(&n), f.iter().map(|y| y.0.clone()).collect()));
                        fs.extend(f.into_iter().map(|y| y.1));
                        continue;
                    }
                    _ => sk.push((x, vec![])),
                },
                _ => sk.push((x, vec![])),
            }
        }
        if fs.is_empty() { None } else { Some((sk, fs)) }
    }
    let mut ls = vec![];
    leaves(f, &mut Default::default(), &mut ls);
    let mut groups: Vec<(Vec<(T, Vec<String>)>, Vec<(T, Vec<T>)>)> = vec![];
    for l in ls {
        if let Some((sk, fs)) = parts(l) {
            match groups.iter_mut().find(|g| g.0 == sk) {
                Some(g) => g.1.push((l, fs)),
                None => groups.push((sk, vec![(l, fs)])),
            }
        }
    }
    let mut to: HashMap<T, T> = HashMap::new();
    for (sk, ms) in groups {
        if ms.len() == 1 && !ms[0].1.iter().any(|x| matches!(get(*x), N::Ite(..))) {
            continue;
        }
        let here = lift_shared(f, &mut |l| mk(N::Bool(ms.iter().any(|m| m.0 == l))));
        let mut vs = (0..ms[0].1.len()).map(|k| {
            let v = lift_shared(f, &mut |l| ms.iter().find(|m| m.0 == l).map_or(unit(), |m| m.1[k]));
            constrain_parts(v, here)
        });
        let list: Vec<T> = sk
            .iter()
            .map(|(x, names)| if names.is_empty() { *x } else { elem(mk(N::Struct(match get(*x) { N::Sym(s) => s, _ => unreachable!() }, names.iter().map(|n| (n.clone(), vs.next().unwrap())).collect()))) })
            .collect();
        let r = concat(list);
        for m in &ms {
            to.insert(m.0, r);
        }
    }
    if to.is_empty() {
        return f;
    }
    lift_shared(f, &mut |l| to.get(&l).copied().unwrap_or(l))
}
