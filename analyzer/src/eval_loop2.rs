// Closing loops: recognised reductions first, generic recurrences otherwise.

struct LoopOut {
    finals: Vec<T>,
    fail: T,
    ret: Option<(T, T)>,
    user_break: bool,
}
#[derive(Clone)]
struct Mem {
    var: T,
    init: T,
    next: T,
    out: T,
}
pub fn is_bool_term(t: T) -> bool {
    has_bool_leaf(t)
}
fn has_bool_leaf(t: T) -> bool {
    match get(t) {
        N::Ite(_, a, b) => has_bool_leaf(a) || has_bool_leaf(b),
        N::Bool(_) => true,
        _ => is_bool_atom(t),
    }
}
/// If every leaf is `acc` or `acc[iv := g]`, the element-wise result (g or the old element).
fn pointwise(next: T, acc: T, iv: T) -> Option<T> {
    fn go(t: T, acc: T, iv: T, any: &mut bool) -> Option<T> {
        match get(t) {
            _ if t == acc => Some(index(acc, iv)),
            N::Ite(c, a, b) => {
                let x = go(a, acc, iv, any)?;
                let y = go(b, acc, iv, any)?;
                Some(ite(c, x, y))
            }
            N::Upd(b, i, v) if b == acc && i == iv => {
                *any = true;
                Some(v)
            }
            _ => None,
        }
    }
    let mut any = false;
    let r = go(next, acc, iv, &mut any)?;
    if any {
        Some(r)
    } else {
        None
    }
}
/// The members a loop's value depends on.
fn needed(mems: &[Mem], brk: T, target: T) -> BTreeSet<usize> {
    let has_brk = brk != fls();
    let mut need: BTreeSet<usize> = BTreeSet::new();
    let mut work: Vec<usize> = vec![];
    for (k, m) in mems.iter().enumerate() {
        if m.var == target || (has_brk && mentions_any(brk, &[m.var])) {
            need.insert(k);
            work.push(k);
        }
    }
    while let Some(k) = work.pop() {
        for (j, m) in mems.iter().enumerate() {
            if need.contains(&j) {
                continue;
            }
            if mentions_any(mems[k].next, &[m.var]) || (has_brk && mems[k].var == target && mentions_any(mems[k].out, &[m.var])) {
                need.insert(j);
                work.push(j);
            }
        }
    }
    need
}
/// How many variables an iteration reads.
fn reads(mems: &[Mem], need: &BTreeSet<usize>, brk: T, target: T) -> usize {
    let used = |v: T| mentions_any(brk, &[v]) || need.iter().any(|k| mentions_any(mems[*k].next, &[v]) || mems[*k].var == target && mentions_any(mems[*k].out, &[v]));
    mems.iter().filter(|m| used(m.var)).count()
}
fn gloop(lo: T, hi: T, mems: &[Mem], brk: T, target: T, iv: T) -> T {
    let has_brk = brk != fls();
    let mut mems = mems.to_vec();
    let mut brk = brk;
    // dependency closure of the target
    let mut need = needed(&mems, brk, target);
    if has_brk && hi == sym(NOHI) {
        // never left at the first test: test what the iteration arrives at, when that reads less
        let init: HashMap<T, T> = mems.iter().map(|m| (m.var, m.init)).collect();
        let still = |m: &Mem| !mentions_any(m.next, &[iv]) && !mentions_any(m.out, &[iv]);
        if !mentions_any(brk, &[iv]) && need.iter().all(|k| still(&mems[*k])) && subst(brk, &init) == fls() {
            let next: HashMap<T, T> = mems.iter().map(|m| (m.var, m.next)).collect();
            let b = subst(brk, &next);
            let ms: Vec<Mem> = mems.iter().map(|m| Mem { out: subst(m.out, &next), ..m.clone() }).collect();
            let n = needed(&ms, b, target);
            if b != fls() && reads(&ms, &n, b, target) < reads(&mems, &need, brk, target) {
                (mems, brk, need) = (ms, b, n);
            }
        }
        // only what it leaves with matters of a variable no iteration reads
        if let Some(k) = mems.iter().position(|m| m.var == target) {
            if !mentions_any(brk, &[target]) && need.iter().all(|j| !mentions_any(mems[*j].next, &[target])) && !mentions_any(mems[k].out, &[target]) {
                mems[k].init = unit();
                mems[k].next = unit();
                need = needed(&mems, brk, target);
            }
        }
    }
    let mut sel: Vec<Mem> = need.iter().map(|k| mems[*k].clone()).collect();
    let mut mask: HashMap<T, T> = sel.iter().map(|m| (m.var, mk(N::Acc(99999, 0)))).collect();
    mask.insert(iv, mk(N::Bv(99999)));
    let mut memo: HashMap<T, T> = HashMap::new();
    let used = |m: &Mem| if m.var == target { m.out } else { unit() };
    let used = |m: &Mem| if has_brk { used(m) } else { unit() };
    sel.sort_by_cached_key(|m| (m.var != target, m.init, subst_in(m.next, &mask, &mut memo), subst_in(used(m), &mask, &mut memo)));
    let mut h = 0;
    h = h.max(height(brk));
    for m in &sel {
        h = h.max(height(m.next)).max(if m.var == target { height(m.out) } else { 0 });
    }
    h += 1;
    let mut map: HashMap<T, T> = HashMap::new();
    map.insert(iv, mk(N::Bv(h)));
    for (k, m) in sel.iter().enumerate() {
        map.insert(m.var, mk(N::Acc(h, k as u32)));
    }
    let inits: Vec<T> = sel.iter().map(|m| m.init).collect();
    let mut memo: HashMap<T, T> = HashMap::new();
    let nexts: Vec<T> = sel.iter().map(|m| subst_in(m.next, &map, &mut memo)).collect();
    let b = subst_in(brk, &map, &mut memo);
    let outs: Vec<T> = if has_brk { sel.iter().filter(|m| m.var == target).map(|m| subst_in(m.out, &map, &mut memo)).collect() } else { vec![] };
    mk(N::Loop(lo, hi, inits, nexts, b, outs, h, 0))
}

impl<'a> Ev<'a> {
    #[allow(clippy::too_many_arguments)]
    fn close_loop(&mut self, lo: T, hi: Option<T>, iv: T, carr: &[Carr], ctx: &LoopCtx, end: &St, fail: T, is_while: bool, n0: usize) -> LoopOut {
        let _ = n0;
        let mut lo = lo;
        let mut hi = hi;
        let mut fail = fail;
        let mut mems: Vec<Mem> = vec![];
        // event list: (cond, outs per carried, ret)
        let mut evs: Vec<(T, Vec<T>, Option<T>)> = ctx
            .events
            .iter()
            .filter(|e| e.0 != fls())
            .map(|e| (e.0, carr.iter().map(|c| self.read_carr(&e.1, c.slot, &c.field)).collect(), e.2))
            .collect();
        for c in carr {
            let next = if end.dead { c.var } else { self.read_carr(&end.store, c.slot, &c.field) };
            mems.push(Mem { var: c.var, init: c.init, next, out: c.var });
        }
        macro_rules! everywhere {
            ($m:expr) => {{
                let m: &HashMap<T, T> = $m;
                for x in mems.iter_mut() {
                    x.next = subst(x.next, m);
                }
                for e in evs.iter_mut() {
                    e.0 = subst(e.0, m);
                    for o in e.1.iter_mut() {
                        *o = subst(*o, m);
                    }
                    e.2 = e.2.map(|r| subst(r, m));
                }
                fail = subst(fail, m);
            }};
        }
        // what an iteration that leaves the loop would have carried on with does not matter
        if !evs.is_empty() {
            let on = not(evs.iter().fold(fls(), |a, e| or(a, e.0)));
            for m in mems.iter_mut() {
                m.next = constrain(m.next, on);
            }
        }
        // nor does what a failing iteration would have computed
        if fail != fls() {
            let on = not(fail);
            for m in mems.iter_mut() {
                m.next = constrain_parts(m.next, on);
            }
            for e in evs.iter_mut() {
                for o in e.1.iter_mut() {
                    *o = constrain_parts(*o, on);
                }
                e.2 = e.2.map(|r| constrain_parts(r, on));
            }
        }
        // accumulators whose length never changes
        let mut map = HashMap::new();
        for m in &mems {
            if matches!(get(m.init), N::Call(..) | N::Concat(_) | N::Upd(..) | N::Big(..) | N::Loop(..)) && m.next != m.var {
                let (lv, l) = (len(m.var), len(m.init));
                if subst1(len(m.next), lv, l) == l {
                    map.insert(lv, l);
                }
            }
        }
        if !map.is_empty() {
            everywhere!(&map);
        }
        // induction variables
        let mut induct: Vec<Option<i128>> = vec![None; mems.len()];
        let mut map = HashMap::new();
        for (k, m) in mems.iter().enumerate() {
            if let N::Int(c) = get(sub(m.next, m.var)) {
                if c != 0 && !end.dead {
                    induct[k] = Some(c);
                    map.insert(m.var, add(m.init, scale(sub(iv, lo), c)));
                }
            }
        }
        if !map.is_empty() {
            everywhere!(&map);
        }
        // variables that hold what the iteration before computed, and started as if there had been one
        let mut map = HashMap::new();
        let vars: Vec<T> = mems.iter().map(|m| m.var).collect();
        for m in &mems {
            if m.next != m.var && !end.dead && contains(m.next, iv) && !mentions_any(m.next, &vars) && subst1(m.next, iv, sub(lo, int(1))) == m.init {
                map.insert(m.var, subst1(m.next, iv, sub(iv, int(1))));
            }
        }
        if !map.is_empty() {
            everywhere!(&map);
        }
        // counting while loops
        if is_while && hi.is_none() && !evs.is_empty() {
            let (atom, l, on) = match get(evs[0].0) {
                N::Ge0(l) => (evs[0].0, Some(l), fls()),
                N::Ite(c, f, t) if f == fls() && t == tru() => match get(c) {
                    N::Ge0(l) => (c, Some(sub(int(-1), l)), tru()),
                    _ => (c, None, fls()),
                },
                _ => (evs[0].0, None, fls()),
            };
            if let Some(l) = l {
                let rest = sub(l, iv);
                let vars: Vec<T> = mems.iter().map(|m| m.var).collect();
                if !mentions_any(rest, &vars) && !contains(rest, iv) {
                    hi = Some(scale(rest, -1));
                    evs.remove(0);
                    let mut m = HashMap::new();
                    m.insert(atom, on);
                    everywhere!(&m);
                    // shift to the natural start of the counter
                    let shift = mems.iter().zip(&induct).find(|(m, c)| **c == Some(1) && m.init != int(0) && contains(rest, m.init)).map(|(m, _)| m.init).or_else(|| {
                        mems.iter().zip(&induct).find(|(m, c)| **c == Some(1) && m.init != int(0) && matches!(get(m.init), N::Int(_))).map(|(m, _)| m.init)
                    });
                    if let Some(a) = shift {
                        let mut m = HashMap::new();
                        m.insert(iv, sub(iv, a));
                        everywhere!(&m);
                        lo = a;
                        hi = hi.map(|h| add(h, a));
                    }
                }
            }
        }
        let user_break = evs.iter().any(|e| e.2.is_none());
        // in-place element updates: the element read at position i is still the initial one
        let mut pw: Vec<Option<T>> = vec![None; mems.len()];
        for k in 0..mems.len() {
            let (v, init) = (mems[k].var, mems[k].init);
            // at the running position, or counted from the start of the range
            let from_lo = sub(iv, lo);
            let at = if pointwise(mems[k].next, v, iv).is_none() && hi.map_or(false, |h| sub(h, lo) == len(init)) { from_lo } else { iv };
            if pointwise(mems[k].next, v, at).is_some() {
                let mut m = HashMap::new();
                m.insert(index(v, at), index(init, at));
                m.insert(len(v), len(init));
                everywhere!(&m);
                if let Some(g) = pointwise(mems[k].next, v, at) {
                    pw[k] = Some(subst(g, &m));
                }
            }
        }
        // variables that only change when the loop is left
        let mut map = HashMap::new();
        for m in &mems {
            if m.next == m.var {
                map.insert(m.var, m.init);
            }
        }
        let frozen: Vec<bool> = mems.iter().map(|m| m.next == m.var).collect();
        if !map.is_empty() {
            everywhere!(&map);
        }
        let brk = evs.iter().fold(fls(), |a, e| or(a, e.0));
        for k in 0..mems.len() {
            let mut o = mems[k].var;
            for (j, e) in evs.iter().enumerate().rev() {
                o = if j + 1 == evs.len() { e.1[k] } else { ite(e.0, e.1[k], o) };
            }
            mems[k].out = constrain(o, brk);
            mems[k].next = constrain(mems[k].next, not(brk));
        }
        for m in mems.iter_mut() {
            m.next = regroup(m.next);
            m.out = regroup(m.out);
        }
        let mut isret = fls();
        let mut retval = unit();
        for (j, e) in evs.iter().enumerate().rev() {
            let f = if e.2.is_some() { tru() } else { fls() };
            isret = if j + 1 == evs.len() { f } else { ite(e.0, f, isret) };
            let rv = e.2.unwrap_or(unit());
            retval = if j + 1 == evs.len() || e.2.is_none() && retval == unit() { rv } else { ite(e.0, rv, retval) };
        }
        let (isret, retval) = (constrain(isret, brk), constrain(retval, brk));
        let any_ret = evs.iter().any(|e| e.2.is_some());
        let all_ret = any_ret && !user_break;
        let vars: Vec<T> = mems.iter().enumerate().filter(|(k, _)| !frozen[*k]).map(|(_, m)| m.var).collect();
        let hiv = hi.unwrap_or(sym(NOHI));
        if hi.is_none() && evs.is_empty() {
            self.unknown("loop without exit".into());
        }
        let mut finals: Vec<T> = mems.iter().map(|m| m.init).collect();
        if brk == fls() {
            for k in 0..mems.len() {
                let m = mems[k].clone();
                if frozen[k] {
                    finals[k] = m.init;
                    continue;
                }
                if let Some(c) = induct[k] {
                    finals[k] = add(m.init, scale(sub(hiv, lo), c));
                    continue;
                }
                finals[k] = self.reduce(lo, hiv, &mems, k, pw[k], iv, &vars);
            }
            let f = if !mentions_any(fail, &vars) { big("or", lo, hiv, fail, iv) } else { self.fail_loop(lo, hiv, &mems, fail, brk, iv) };
            return LoopOut { finals, fail: f, ret: None, user_break };
        }
        if hi.is_some() && !mentions_any(brk, &vars) {
            let any = big("or", lo, hiv, brk, iv);
            for k in 0..mems.len() {
                let m = mems[k].clone();
                if frozen[k] {
                    finals[k] = if mentions_any(m.out, &vars) { gloop(lo, hiv, &mems, brk, m.var, iv) } else { ite(any, first(lo, hiv, brk, m.out, iv), m.init) };
                } else {
                    finals[k] = gloop(lo, hiv, &mems, brk, m.var, iv);
                }
            }
            let f = if fail == fls() { fls() } else { self.fail_loop(lo, hiv, &mems, fail, brk, iv) };
            let ret = if any_ret {
                let rf = if all_ret { any } else { and(any, bool_of(first(lo, hiv, brk, isret, iv))) };
                let rv = if mentions_any(retval, &vars) { self.out_loop(lo, hiv, &mems, retval, brk, iv) } else { first(lo, hiv, brk, retval, iv) };
                Some((rf, rv))
            } else {
                None
            };
            return LoopOut { finals, fail: f, ret, user_break };
        }
        for k in 0..mems.len() {
            finals[k] = gloop(lo, hiv, &mems, brk, mems[k].var, iv);
        }
        let f = if fail == fls() { fls() } else { self.fail_loop(lo, hiv, &mems, fail, brk, iv) };
        let ret = if any_ret {
            let rf = if hi.is_none() && all_ret {
                tru()
            } else {
                let v = fresh_var("rf");
                let mut ms = mems.clone();
                ms.push(Mem { var: v, init: fls(), next: fls(), out: isret });
                bool_of(gloop(lo, hiv, &ms, brk, v, iv))
            };
            Some((rf, self.out_loop(lo, hiv, &mems, retval, brk, iv)))
        } else {
            None
        };
        LoopOut { finals, fail: f, ret, user_break }
    }
    fn out_loop(&mut self, lo: T, hi: T, mems: &[Mem], val: T, brk: T, iv: T) -> T {
        match get(val) {
            N::Ctor(n, a) => {
                let a = a.iter().map(|x| self.out_loop(lo, hi, mems, *x, brk, iv)).collect();
                return mk(N::Ctor(n, a));
            }
            N::Bool(_) | N::Int(_) | N::Struct(..) if children(&get(val)).is_empty() => return val,
            _ => {}
        }
        let mut ms = mems.to_vec();
        if hi == sym(NOHI) {
            // every way out of the loop is an exit: the value of a variable there
            if let Some(m) = ms.iter_mut().find(|m| m.var == val && m.next != m.var) {
                m.out = val;
                return gloop(lo, hi, &ms, brk, val, iv);
            }
        }
        let v = fresh_var("rv");
        ms.push(Mem { var: v, init: unit(), next: unit(), out: val });
        gloop(lo, hi, &ms, brk, v, iv)
    }
    fn fail_loop(&mut self, lo: T, hi: T, mems: &[Mem], fail: T, brk: T, iv: T) -> T {
        let v = fresh_var("f");
        let n = or(bool_of(v), fail);
        let mut ms = mems.to_vec();
        ms.push(Mem { var: v, init: fls(), next: n, out: n });
        bool_of(gloop(lo, hi, &ms, brk, v, iv))
    }
    #[allow(clippy::too_many_arguments)]
    fn reduce(&mut self, lo: T, hi: T, mems: &[Mem], k: usize, pw: Option<T>, iv: T, vars: &[T]) -> T {
        let m = &mems[k];
        if let Some(g) = pw {
            if !mentions_any(g, vars) && (lo == int(0) && hi == len(m.init) || pointwise(m.next, m.var, iv).is_none()) {
                return big("concat", lo, hi, elem(g), iv);
            }
        }
        if let Some(d) = concat_delta(m.next, m.var) {
            if !mentions_any(d, vars) {
                return append(m.init, big("concat", lo, hi, d, iv));
            }
        }
        if let Some(d) = set_delta(m.next, m.var) {
            if !mentions_any(d, vars) {
                return set_of(append(set_list(m.init), big("concat", lo, hi, d, iv)));
            }
        }
        if has_bool_leaf(m.next) || contains(m.next, un("is", m.var)) {
            let nb = bool_of(m.next);
            let a = un("is", m.var);
            let t = subst1(nb, a, tru());
            let f = subst1(nb, a, fls());
            if t == tru() && !mentions_any(f, vars) {
                return or(bool_of(m.init), big("or", lo, hi, f, iv));
            }
            if f == fls() && !mentions_any(t, vars) {
                return and(bool_of(m.init), not(big("or", lo, hi, not(t), iv)));
            }
            let mut ms = mems.to_vec();
            ms[k].next = nb;
            ms[k].init = bool_of(m.init);
            return bool_of(gloop(lo, hi, &ms, fls(), m.var, iv));
        }
        if let Some(d) = max_delta(m.next, m.var) {
            if !mentions_any(d, vars) {
                return max2(m.init, big("max", lo, hi, d, iv));
            }
        }
        let d = sub(m.next, m.var);
        if !mentions_any(d, vars) && contains(m.next, m.var) {
            return add(m.init, big("add", lo, hi, d, iv));
        }
        if let Some(g) = pw {
            let _ = g;
        }
        gloop(lo, hi, mems, fls(), m.var, iv)
    }
}
