//! Equality of two values by joint case analysis: splits on the conditions the values (and the care set) are built
//! from, carrying each assumption into the rest of the comparison. Used where the diagrams differ syntactically.
use crate::term::*;
use std::time::Instant;

pub struct Joint {
    steps: usize,
    until: Instant,
    /// bounds assumed on the way here: each is >= 0
    facts: Vec<T>,
    /// conditions known to be false for every index of a range: (from, to, condition, binder)
    never: Vec<(T, T, T, u32)>,
}
/// Linear form `l` of an atom `l >= 0`.
fn bound(t: T) -> Option<T> {
    match get(t) {
        N::Ge0(l) => Some(l),
        _ => None,
    }
}
fn constant(t: T) -> Option<i128> {
    match get(t) {
        N::Int(i) => Some(i),
        _ => None,
    }
}
/// Replacements that follow from `atom = v` among the conditions in `ts`.
fn consequences(atom: T, v: bool, ts: &[T]) -> Vec<(T, T)> {
    let mut m = vec![(atom, if v { tru() } else { fls() })];
    match get(atom) {
        N::Eq(x, y) if v => {
            if constant(y).is_some() && constant(x).is_none() {
                m.push((x, y));
            } else if constant(x).is_some() && constant(y).is_none() {
                m.push((y, x));
            } else if matches!(get(x), N::Var(_) | N::Field(..)) && !contains(y, x) {
                m.push((x, y));
            } else if matches!(get(y), N::Var(_) | N::Field(..)) && !contains(x, y) {
                m.push((y, x));
            }
        }
        _ => {}
    }
    if let Some(l) = bound(atom) {
        // the assumption as a bound: l >= 0, or -l - 1 >= 0
        let l = if v { l } else { sub(scale(l, -1), int(1)) };
        let mut atoms = vec![];
        for t in ts {
            collect_atoms(*t, &mut atoms);
        }
        for a in atoms {
            if a == atom {
                continue;
            }
            if let Some(k) = bound(a) {
                if constant(sub(k, l)).is_some_and(|d| d >= 0) {
                    m.push((a, tru()));
                } else if constant(add(k, l)).is_some_and(|d| d < 0) {
                    m.push((a, fls()));
                }
            }
            // x = c outside the bound
            if let N::Eq(x, y) = get(a) {
                for (x, y) in [(x, y), (y, x)] {
                    if constant(y).is_some() {
                        let d = sub(x, y);
                        // l = c - x - n or x - c - n with n >= 1 excludes x = c
                        if constant(add(l, d)).is_some_and(|n| n < 0) || constant(sub(l, d)).is_some_and(|n| n < 0) {
                            m.push((a, fls()));
                        }
                    }
                }
            }
        }
    }
    m
}
/// A condition nested in `t` outside of binders.
fn inner(t: T) -> Option<T> {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![t];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        let n = get(x);
        match n {
            N::Ite(c, _, _) => return Some(c),
            N::Bool(_) => continue,
            N::Big(..) | N::Loop(..) | N::Lambda(..) | N::First(..) => continue,
            _ => st.extend(children(&n)),
        }
    }
    None
}
impl Joint {
    /// `decided`: the outcome differs already, and this only sharpens the report.
    pub fn same(care: T, a: T, b: T, decided: bool) -> bool {
        let ms = if decided { 200 } else { 8000 };
        let mut j = Joint { steps: 4000, until: Instant::now() + std::time::Duration::from_millis(ms), facts: vec![], never: vec![] };
        j.go(care, a, b)
    }
    fn go(&mut self, care: T, a: T, b: T) -> bool {
        if a == b || care == fls() {
            return true;
        }
        if self.steps == 0 || Instant::now() > self.until {
            return false;
        }
        self.steps -= 1;
        let mut top: Option<T> = None;
        for t in [care, a, b] {
            if let Some(x) = top_atom(t) {
                if top.is_none_or(|y| before(x, y)) {
                    top = Some(x);
                }
            }
        }
        // conditions inside the operands of calls too large to distribute over
        if top.is_none() {
            let (x, y) = (get(a), get(b));
            let (cx, mut cy) = (children(&x), children(&y));
            // an equality reads the same both ways
            if let (N::Eq(p, q), N::Eq(r, t)) = (&x, &y) {
                if std::mem::discriminant(&get(*p)) != std::mem::discriminant(&get(*r)) || p == t || q == r {
                    cy = vec![*t, *r];
                }
            }
            let shape = std::mem::discriminant(&x) == std::mem::discriminant(&y) && cx.len() == cy.len() && !cx.is_empty() && rebuild(&x, &cy) == b;
            if shape {
                let range = match &x {
                    N::Loop(lo, hi, .., h, _) | N::Big(_, lo, hi, _, h) => Some((*lo, *hi, *h)),
                    _ => None,
                };
                let mut inside = tru();
                if let Some((lo, hi, h)) = range {
                    for (l, u, c, k) in &self.never {
                        if (*l, *u) == (lo, hi) {
                            inside = and(inside, not(subst1(*c, mk(N::Bv(*k)), mk(N::Bv(h)))));
                        }
                    }
                }
                let first = match &x {
                    N::Loop(_, _, i, ..) => 2 + i.len(),
                    _ => 2,
                };
                if cx.iter().zip(&cy).enumerate().all(|(k, (p, q))| self.go(if k >= first { inside } else { tru() }, *p, *q)) {
                    return true;
                }
            }
            top = inner(a).or(inner(b));
        }
        if let Some(mut atom) = top {
            // decide what the condition itself depends on first
            while let Some(x) = inner(atom) {
                atom = top_atom(x).unwrap_or(x);
            }
            return self.split(atom, care, a, b, None);
        }
        // the larger or smaller of two values
        if let Some((node, vs, mx)) = extremum(a).or_else(|| extremum(b)) {
            let c = ge(vs[0], vs[1]);
            let without = |k: usize| {
                let r: Vec<T> = vs.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect();
                r[1..].iter().fold(r[0], |p, q| if mx { max2(p, *q) } else { min2(p, *q) })
            };
            // case c: vs[0] is the larger
            let (hi, lo) = if mx { (without(1), without(0)) } else { (without(0), without(1)) };
            // already decided on the way here
            for (p, q, k) in [(vs[0], vs[1], hi), (vs[1], vs[0], lo)] {
                let l = sub(atomise(p), atomise(q));
                if self.facts.iter().any(|f| constant(sub(l, *f)).is_some_and(|n| n >= 0)) {
                    let (a2, b2) = (subst1(a, node, k), subst1(b, node, k));
                    return self.go(care, a2, b2);
                }
            }
            if top_atom(c) == Some(c) {
                return self.split(c, care, a, b, Some((node, hi, lo)));
            }
            if top_atom(c).is_some_and(|x| not(x) == c) {
                return self.split(not(c), care, a, b, Some((node, lo, hi)));
            }
        }
        false
    }
    fn split(&mut self, atom: T, care: T, a: T, b: T, node: Option<(T, T, T)>) -> bool {
        for v in [true, false] {
            let l = bound(atom).map(|l| if v { l } else { sub(scale(l, -1), int(1)) });
            if l.is_some_and(|l| self.facts.iter().any(|f| constant(add(l, *f)).is_some_and(|n| n < 0))) {
                continue;
            }
            let mut m: std::collections::HashMap<T, T> = consequences(atom, v, &[care, a, b]).into_iter().collect();
            if let Some((n, hi, lo)) = node {
                m.insert(n, if v { hi } else { lo });
            }
            let s = |t: T| subst(t, &m);
            let (c2, a2, b2) = (s(care), s(a), s(b));
            if (c2, a2, b2) == (care, a, b) {
                return false;
            }
            let keep = self.facts.clone();
            let known = self.never.len();
            if let (N::Big("or", lo, hi, c, h), false) = (get(atom), v) {
                self.never.push((lo, hi, c, h));
            }
            self.facts = keep.iter().copied().chain(l).map(s).collect();
            let r = self.go(c2, a2, b2);
            self.facts = keep;
            self.never.truncate(known);
            if !r {
                return false;
            }
        }
        true
    }
}
/// A maximum or minimum in `t` outside of binders.
fn extremum(t: T) -> Option<(T, Vec<T>, bool)> {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![t];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        let n = get(x);
        match &n {
            N::Max(v) if v.len() >= 2 => return Some((x, v.clone(), true)),
            N::Min(v) if v.len() >= 2 => return Some((x, v.clone(), false)),
            N::Big(..) | N::Loop(..) | N::Lambda(..) | N::First(..) => continue,
            _ => st.extend(children(&n)),
        }
    }
    None
}
