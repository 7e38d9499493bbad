//! Conditions that bound the same linear form decide each other: `x >= 3` inside the branch where `x >= 5` holds, `x == y`
//! next to `x > y`. Diagrams are kept free of such repeated questions.
use crate::term::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

/// A condition on one linear form: at least `at`, or exactly `at`.
#[derive(Clone, Copy)]
pub struct Bound {
    form: T,
    at: i128,
    exact: bool,
}
#[derive(Default)]
struct Memo {
    bound: HashMap<T, Option<Bound>>,
    forms: HashMap<T, u64>,
    choices: HashMap<T, u64>,
}
thread_local! {
    static MEMO: RefCell<Memo> = RefCell::new(Memo::default());
}
pub fn reset() {
    MEMO.with(|m| *m.borrow_mut() = Memo::default());
}
fn numeric(t: T) -> bool {
    matches!(
        get(t),
        N::Int(_) | N::Lin(..) | N::Var(_) | N::Field(..) | N::Index(..) | N::Acc(..) | N::Bv(_) | N::Mul(_) | N::Bin(..) | N::Payload(..) | N::Max(_) | N::Min(_) | N::Un("diff" | "len", _)
            | N::Big("add" | "max" | "min", ..)
    )
}
/// The condition as a bound on a linear form whose first coefficient is positive.
fn bound(atom: T) -> Option<Bound> {
    if let Some(b) = MEMO.with(|m| m.borrow().bound.get(&atom).copied()) {
        return b;
    }
    let l = match get(atom) {
        N::Ge0(l) => Some((l, false)),
        N::Eq(x, y) if numeric(x) && numeric(y) => Some((sub(x, y), true)),
        _ => None,
    };
    let r = l.and_then(|(l, exact)| {
        let (v, k) = lin_parts(l);
        let first = v.first()?.1;
        if matches!(get(l), N::Max(_) | N::Min(_) | N::Ite(..)) || first < 0 && !exact {
            return None;
        }
        let s = if first < 0 { -1 } else { 1 };
        let form = lin(v.into_iter().map(|(t, c)| (t, c * s)).collect(), 0);
        Some(Bound { form, at: -k * s, exact })
    });
    MEMO.with(|m| m.borrow_mut().bound.insert(atom, r));
    r
}
fn bit(form: T) -> u64 {
    1 << ((form as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 58)
}
/// Which forms the diagram asks about (one bit per form, may collide).
fn forms(t: T) -> u64 {
    if let Some(b) = MEMO.with(|m| m.borrow().forms.get(&t).copied()) {
        return b;
    }
    let r = match get(t) {
        N::Ite(c, a, b) => forms(c) | forms(a) | forms(b),
        N::Ge0(_) | N::Eq(..) => bound(t).map_or(0, |b| bit(b.form)),
        _ => return 0,
    };
    MEMO.with(|m| m.borrow_mut().forms.insert(t, r));
    r
}
/// A maximum or minimum of two: the linear form that decides it, its sign and offset in `first - second`.
fn choice(t: T) -> Option<(T, i128, i128, T, T, bool)> {
    let (v, max) = match get(t) {
        N::Max(v) => (v, true),
        N::Min(v) => (v, false),
        _ => return None,
    };
    let [a, b] = v[..] else { return None };
    let (parts, k) = lin_parts(sub(a, b));
    let s = if parts.first()?.1 < 0 { -1 } else { 1 };
    let form = lin(parts.into_iter().map(|(t, c)| (t, c * s)).collect(), 0);
    Some((form, s, k, a, b, max))
}
/// Which forms decide a maximum or minimum in the term, outside of loops.
fn choices(t: T) -> u64 {
    if let Some(b) = MEMO.with(|m| m.borrow().choices.get(&t).copied()) {
        return b;
    }
    let n = get(t);
    let r = match n {
        N::Big(..) | N::Loop(..) | N::Lambda(..) | N::First(..) => 0,
        _ => children(&n).iter().fold(choice(t).map_or(0, |c| bit(c.0)), |r, x| r | choices(*x)),
    };
    MEMO.with(|m| m.borrow_mut().choices.insert(t, r));
    r
}
/// The term with the maxima and minima that the known bound decides replaced by the side taken.
fn choose(t: T, f: Bound, v: bool, memo: &mut HashMap<T, T>) -> T {
    if choices(t) & bit(f.form) == 0 {
        return t;
    }
    if let Some(r) = memo.get(&t) {
        return *r;
    }
    let n = get(t);
    let ch = children(&n);
    let new: Vec<T> = ch.iter().map(|x| choose(*x, f, v, memo)).collect();
    let mut r = if new == ch { t } else { rebuild(&n, &new) };
    if let Some((form, s, k, a, b, max)) = choice(r) {
        // first >= second where the form reaches `-k`, or stays at most `k` for a negated form
        let known = |at: i128| decide(f, v, Bound { form, at, exact: false });
        let ge = match s {
            _ if form != f.form => None,
            1 if known(-k) == Some(true) => Some(true),
            1 if known(-k + 1) == Some(false) => Some(false),
            -1 if known(k) == Some(true) => Some(false),
            -1 if known(k + 1) == Some(false) => Some(true),
            _ => None,
        };
        if let Some(ge) = ge {
            r = if ge == max { a } else { b };
        }
    }
    memo.insert(t, r);
    r
}
/// What `b` amounts to where `f` is known to be `v`.
fn decide(f: Bound, v: bool, b: Bound) -> Option<bool> {
    match (f.exact, v, b.exact) {
        (false, true, false) => (b.at <= f.at).then_some(true),
        (false, true, true) => (b.at < f.at).then_some(false),
        (false, false, _) => (b.at >= f.at).then_some(false),
        (true, true, false) => Some(f.at >= b.at),
        (true, true, true) => Some(f.at == b.at),
        (true, false, true) => (f.at == b.at).then_some(false),
        (true, false, false) => None,
    }
}
/// Does the diagram ask whether the form reaches the exact value, or exceeds it?
fn beside(t: T, f: Bound, seen: &mut HashSet<T>) -> bool {
    if forms(t) & bit(f.form) == 0 || !seen.insert(t) {
        return false;
    }
    match get(t) {
        N::Ite(c, a, b) => beside(c, f, seen) || beside(a, f, seen) || beside(b, f, seen),
        _ => bound(t).is_some_and(|b| b.form == f.form && !b.exact && (b.at == f.at || b.at == f.at + 1)),
    }
}
/// `t` where the condition `f` is known to be `v`.
fn imply(t: T, f: Bound, v: bool, memo: &mut HashMap<T, T>) -> T {
    if (forms(t) | choices(t)) & bit(f.form) == 0 {
        return t;
    }
    if let Some(r) = memo.get(&t) {
        return *r;
    }
    let atom = |a: T| -> T {
        match bound(a) {
            Some(b) if b.form == f.form => match decide(f, v, b) {
                Some(true) => tru(),
                Some(false) => fls(),
                // the boundary value is the value not above it
                None if b.exact && !f.exact && v && b.at == f.at => not(nonneg(sub(b.form, int(b.at + 1)))),
                None if b.exact && !f.exact && !v && b.at == f.at - 1 => nonneg(sub(b.form, int(b.at))),
                None => a,
            },
            _ => a,
        }
    };
    let r = match get(t) {
        N::Ite(c, a, b) => {
            let (a2, b2) = (imply(a, f, v, memo), imply(b, f, v, memo));
            let c2 = atom(choose(c, f, v, &mut HashMap::new()));
            if (a2, b2, c2) == (a, b, c) { t } else { ite(c2, a2, b2) }
        }
        _ => atom(choose(t, f, v, &mut HashMap::new())),
    };
    memo.insert(t, r);
    r
}
/// The conditional value, when one of its branches repeats or is decided by the condition.
pub fn simplify(cond: T, hi: T, lo: T) -> Option<T> {
    if !matches!(get(cond), N::Ge0(_) | N::Eq(..)) {
        return None;
    }
    let f = bound(cond)?;
    let here = bit(f.form);
    if (forms(hi) | forms(lo) | choices(hi) | choices(lo)) & here == 0 {
        return None;
    }
    let go = |t: T, v: bool| imply(t, f, v, &mut HashMap::new());
    let (h, l) = (go(hi, true), go(lo, false));
    if (h, l) != (hi, lo) {
        return Some(ite(cond, h, l));
    }
    if go(lo, true) == hi {
        return Some(lo);
    }
    if go(hi, false) == lo {
        return Some(hi);
    }
    // an equality next to a bound beside it: two bounds
    if f.exact && beside(lo, f, &mut HashSet::new()) {
        let at = |k: i128| nonneg(sub(f.form, int(k)));
        return Some(ite(at(f.at + 1), lo, ite(at(f.at), hi, lo)));
    }
    None
}
