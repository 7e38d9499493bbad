//! Canonical form of sorting: one comparator language for `sort`, `sort_by`, `sort_by_key` and
//! their unstable variants, so that two spellings of one order agree and two orders do not.
use crate::term::*;
use std::collections::HashMap;

const A: u32 = 1000;
const B: u32 = 1001;

fn is_cmp(t: T) -> bool {
    matches!(get(t), N::Call(ref f, ref a) if f == ".cmp" && a.len() == 2)
}

/// `x.cmp(y).then(z.cmp(w))` is the comparison of the pairs.
pub fn then(a: T, b: T) -> Option<T> {
    if !is_cmp(a) || !is_cmp(b) {
        return None;
    }
    let (N::Call(_, x), N::Call(_, y)) = (get(a), get(b)) else { return None };
    let cat = |p: T, q: T| {
        let mut v = match get(p) {
            N::Call(f, v) if f == "cmpkey" => v,
            _ => vec![p],
        };
        match get(q) {
            N::Call(f, w) if f == "cmpkey" => v.extend(w),
            _ => v.push(q),
        }
        call("cmpkey", v)
    };
    Some(call(".cmp", vec![cat(x[0], y[0]), cat(x[1], y[1])]))
}

pub fn reverse(a: T) -> Option<T> {
    match get(a) {
        N::Call(f, x) if f == ".cmp" && x.len() == 2 => Some(call(".cmp", vec![x[1], x[0]])),
        _ => None,
    }
}

fn parts(t: T) -> Vec<T> {
    match get(t) {
        N::Tuple(v) => v.into_iter().flat_map(parts).collect(),
        N::Call(f, v) if f == "cmpkey" => v.into_iter().flat_map(parts).collect(),
        _ => vec![t],
    }
}

/// The indices of a filtered range, in order: strictly ascending.
fn ascending(t: T) -> bool {
    fn picks(b: T, i: T) -> bool {
        match get(b) {
            N::Elem(x) => x == i,
            N::Ite(_, x, y) => (x == nil() || picks(x, i)) && (y == nil() || picks(y, i)),
            _ => false,
        }
    }
    matches!(get(t), N::Big("concat", _, _, b, h) if picks(b, mk(N::Bv(h))))
}

/// The key, as a sequence of (component, descending), an ordering function sorts by.
fn key_of(f: T) -> Option<(u32, Vec<(T, bool)>)> {
    let (h, k) = match get(f) {
        N::Lambda(h, 1, k) => (h, parts(k).into_iter().map(|x| (x, false)).collect()),
        N::Lambda(h, 2, c) if is_cmp(c) => {
            let N::Call(_, x) = get(c) else { return None };
            let (a, b) = (mk(N::Acc(h, A)), mk(N::Acc(h, B)));
            let (l, r) = (parts(x[0]), parts(x[1]));
            let swap: HashMap<T, T> = [(a, b), (b, a)].into_iter().collect();
            if l.len() != r.len() {
                return None;
            }
            let mut k = vec![];
            for (p, q) in l.iter().zip(&r) {
                if subst(*p, &swap) != *q || (contains(*p, a) && contains(*p, b)) {
                    return None;
                }
                k.push(if contains(*p, b) { (*q, true) } else { (*p, false) });
            }
            (h, k)
        }
        _ => return None,
    };
    let me = mk(N::Acc(h, A));
    let mut k: Vec<(T, bool)> = k
        .into_iter()
        .map(|(x, d): (T, bool)| match get(x) {
            N::Ctor(f, a) | N::Call(f, a) if f.rsplit("::").next() == Some("Reverse") && a.len() == 1 => (a[0], !d),
            _ => (x, d),
        })
        .collect();
    // components after the element itself decide nothing; nor does a repeated one
    if let Some(p) = k.iter().position(|(x, _)| *x == me) {
        k.truncate(p + 1);
    }
    Some((h, k))
}

/// min_by, max_by, min_by_key, max_by_key by the key compared.
pub fn extreme(list: T, name: &str, f: T) -> T {
    let best = if name.starts_with("min") { "iter_minkey" } else { "iter_maxkey" };
    match key_of(f) {
        Some((h, k)) => call(best, vec![list, key_term(h, &k)]),
        None => call(&format!("iter_{name}"), vec![list, f]),
    }
}

pub fn sort(list: T, name: &str, f: Option<T>) -> T {
    let unstable = name.contains("unstable");
    let Some(f) = f else { return call("sorted", vec![list]) };
    let Some((h, mut k)) = key_of(f) else {
        return call(if unstable { "usorted_by" } else { "sorted_by" }, vec![list, f]);
    };
    let me = mk(N::Acc(h, A));
    let total = k.last().map_or(false, |x| x.0 == me);
    if total && !k.last().unwrap().1 && k.len() > 1 && ascending(list) {
        // a stable sort of an ascending list already breaks ties by the element
        k.pop();
    } else if k.len() == 1 && total {
        let s = call("sorted", vec![list]);
        return if k[0].1 { call("reversed", vec![s]) } else { s };
    } else if !total && unstable {
        return call("usorted_key", vec![list, key_term(h, &k)]);
    }
    call("sorted_key", vec![list, key_term(h, &k)])
}

fn key_term(h: u32, k: &[(T, bool)]) -> T {
    let parts: Vec<T> = k.iter().map(|(x, d)| if *d { mk(N::Ctor("Reverse".into(), vec![*x])) } else { *x }).collect();
    let x = fresh_var("l");
    let body = subst1(if parts.len() == 1 { parts[0] } else { mk(N::Tuple(parts)) }, mk(N::Acc(h, A)), x);
    let h = height(body) + 1;
    mk(N::Lambda(h, 1, subst1(body, x, mk(N::Acc(h, A)))))
}
