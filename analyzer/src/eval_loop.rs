// Loops.

pub const NOHI: &str = "NOHI";
struct Carr {
    slot: usize,
    field: Option<String>,
    var: T,
    init: T,
}
type Body<'b, 'a> = &'b mut dyn FnMut(&mut Ev<'a>, Val);

/// First element (smallest index) value satisfying `cond`.
pub fn first(lo: T, hi: T, cond: T, val: T, iv: T) -> T {
    if !contains(val, iv) {
        return val;
    }
    match get(val) {
        N::Ctor(n, a) => return mk(N::Ctor(n, a.iter().map(|x| first(lo, hi, cond, *x, iv)).collect())),
        N::Tuple(a) => return tuple(a.iter().map(|x| first(lo, hi, cond, *x, iv)).collect()),
        N::Struct(n, a) => return mk(N::Struct(n, a.into_iter().map(|(f, x)| (f, first(lo, hi, cond, x, iv))).collect())),
        N::Index(c, i) if i == iv && !contains(c, iv) => {
            return index(c, first(lo, hi, cond, iv, iv));
        }
        N::Field(b, f) => return field(first(lo, hi, cond, b, iv), &f),
        N::Lin(v, k) => {
            let mut r = int(k);
            for (t, c) in v {
                r = add(r, scale(first(lo, hi, cond, t, iv), c));
            }
            return r;
        }
        _ => {}
    }
    let h = 1 + height(cond).max(height(val)).max(0);
    let b = mk(N::Bv(h));
    let (c, v) = (subst1(cond, iv, b), subst1(val, iv, b));
    mk(N::First(lo, hi, c, v, h))
}
fn mentions_any(t: T, vs: &[T]) -> bool {
    if vs.is_empty() {
        return false;
    }
    let set: std::collections::HashSet<T> = vs.iter().cloned().collect();
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![t];
    while let Some(x) = st.pop() {
        if set.contains(&x) {
            return true;
        }
        if seen.insert(x) {
            st.extend(children(&get(x)));
        }
    }
    false
}
/// Leaf-wise view of `next` as an extension of the list `acc`.
fn concat_delta(next: T, acc: T) -> Option<T> {
    match get(next) {
        _ if next == acc => Some(nil()),
        N::Ite(c, a, b) => {
            let x = concat_delta(a, acc)?;
            let y = concat_delta(b, acc)?;
            Some(ite(c, x, y))
        }
        N::Concat(v) if v.first() == Some(&acc) => Some(concat(v[1..].to_vec())),
        _ => None,
    }
}
fn set_delta(next: T, acc: T) -> Option<T> {
    match get(next) {
        _ if next == acc => Some(nil()),
        N::Ite(c, a, b) => {
            let x = set_delta(a, acc)?;
            let y = set_delta(b, acc)?;
            Some(ite(c, x, y))
        }
        N::SetOf(l) => concat_delta(l, un("setlist", acc)),
        _ => None,
    }
}
pub fn set_list(t: T) -> T {
    lift1(t, &mut |t| match get(t) {
        N::SetOf(l) => l,
        N::Concat(v) if v.is_empty() => t,
        _ => un("setlist", t),
    })
}

/// The elements of a short list that is written out in full.
fn literal(itv: &Val, it: &Iter) -> Option<Vec<T>> {
    let [(lo, hi, iv)] = it.gens[..] else { return None };
    let list = match (itv, &it.elem) {
        (Val::T(t), _) => *t,
        (_, Val::T(e)) if lo == int(0) && it.cond == tru() && !it.rev => match get(*e) {
            N::Index(t, i) if i == iv && len(t) == hi => t,
            _ => return None,
        },
        _ => return None,
    };
    match get(list) {
        N::Concat(v) if !v.is_empty() && v.len() <= 8 && v.iter().all(|x| matches!(get(*x), N::Elem(_))) => Some(v),
        _ => None,
    }
}

impl<'a> Ev<'a> {
    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Val {
        let saved_scope = self.scope.clone();
        let itv = self.no_hint(|s| s.e(&f.expr));
        if self.st.dead {
            return Val::T(unit());
        }
        let label = f.label.as_ref().map(|l| l.name.ident.to_string());
        let it = self.as_iter(&itv, true);
        // literal lists are unrolled
        if let Some(v) = literal(&itv, &it) {
            if self.unroll(&v, &f.pat, &f.body, &label) {
                self.scope = saved_scope;
                return Val::T(unit());
            }
        }
        let pat = &f.pat;
        let body = &f.body;
        self.run_iter(it, label, &mut |s: &mut Ev<'a>, x: Val| {
            s.bind_irrefutable(pat, x);
            s.block(body);
        });
        self.scope = saved_scope;
        Val::T(unit())
    }
    fn unroll(&mut self, v: &[T], pat: &Pat, body: &syn::Block, label: &Option<String>) -> bool {
        let saved = self.st.clone();
        let saved_fail = self.frame().fail;
        let sc = self.scope.clone();
        for x in v {
            let N::Elem(x) = get(*x) else { return false };
            self.frame().loops.push(LoopCtx { label: label.clone(), conts: vec![], events: vec![] });
            self.bind_irrefutable(pat, Val::T(x));
            self.block(body);
            self.scope = sc.clone();
            let ctx = self.frame().loops.pop().unwrap();
            if !ctx.events.is_empty() {
                self.st = saved;
                self.frame().fail = saved_fail;
                return false;
            }
            for (c, store) in ctx.conts.into_iter().rev() {
                let a = St { store, pc: c, dead: false };
                let b = self.st.clone();
                self.merge_states(c, a, b);
            }
            self.st.pc = saved.pc;
            self.st.store.truncate(saved.store.len());
        }
        true
    }
    fn while_loop(&mut self, w: &syn::ExprWhile) -> Val {
        let label = w.label.as_ref().map(|l| l.name.ident.to_string());
        let saved_scope = self.scope.clone();
        // while let Some(x) = it.next() { .. }  ==> for x in it { .. }
        if let Expr::Let(l) = unparen(&w.cond) {
            if let (Pat::TupleStruct(ts), Expr::MethodCall(m)) = (&*l.pat, unparen(&l.expr)) {
                if m.method == "next" && ts.elems.len() == 1 && ts.path.is_ident("Some") {
                    if let Expr::Path(p) = unparen(&m.receiver) {
                        let v = self.e(&Expr::Path(p.clone()));
                        if matches!(v, Val::It(_)) {
                            let it = self.as_iter(&v, true);
                            let pat = ts.elems[0].clone();
                            let body = w.body.clone();
                            if let Some(v) = literal(&v, &it) {
                                if self.unroll(&v, &pat, &body, &label) {
                                    self.scope = saved_scope;
                                    return Val::T(unit());
                                }
                            }
                            self.run_iter(it, label, &mut |s: &mut Ev<'a>, x: Val| {
                                s.bind_irrefutable(&pat, x);
                                s.block(&body);
                            });
                            self.scope = saved_scope;
                            return Val::T(unit());
                        }
                    }
                }
            }
        }
        let iv = fresh_var("i");
        self.run_loop(int(0), None, iv, label, true, &mut |s: &mut Ev<'a>, _| {
            let c = s.cond(&w.cond);
            let pc = s.st.pc;
            let stop = and(pc, not(c));
            let store = s.st.store.clone();
            let fr = s.frames.last_mut().unwrap();
            fr.loops.last_mut().unwrap().events.push((stop, store, None));
            s.st.pc = and(pc, c);
            if s.st.pc == fls() {
                s.st.dead = true;
                return;
            }
            s.block(&w.body);
        });
        self.scope = saved_scope;
        Val::T(unit())
    }
    fn inf_loop(&mut self, w: &syn::ExprLoop) -> Val {
        let label = w.label.as_ref().map(|l| l.name.ident.to_string());
        let saved_scope = self.scope.clone();
        let iv = fresh_var("i");
        self.run_loop(int(0), None, iv, label, false, &mut |s: &mut Ev<'a>, _| {
            s.block(&w.body);
        });
        self.scope = saved_scope;
        Val::T(unit())
    }
    fn run_iter(&mut self, it: Iter, label: Option<String>, body: Body<'_, 'a>) {
        let mut it = it;
        if it.rev {
            if it.gens.len() == 1 {
                let (lo, hi, v) = it.gens[0];
                let mut m = HashMap::new();
                m.insert(v, sub(add(lo, sub(hi, int(1))), v));
                it.cond = subst(it.cond, &m);
                it.elem = subst_val(&it.elem, &m);
                it.rev = false;
            } else {
                self.unknown("reverse of nested iteration".into());
            }
        }
        self.run_gens(&it, 0, label, body);
    }
    fn run_gens(&mut self, it: &Iter, k: usize, label: Option<String>, body: Body<'_, 'a>) {
        if k == it.gens.len() {
            if k == 0 {
                // zero-or-one element
                self.frame().loops.push(LoopCtx::default());
            }
            if it.cond == tru() {
                body(self, it.elem.clone());
            } else {
                let s = self.st.clone();
                let e = it.elem.clone();
                let sc = self.scope.clone();
                let a = self.branch(&s, it.cond, |s| {
                    body(s, e);
                    Val::T(unit())
                });
                self.scope = sc;
                let mut b = s.clone();
                b.pc = and(s.pc, not(it.cond));
                self.join(it.cond, a, (Val::T(unit()), b));
            }
            if k == 0 {
                let ctx = self.frame().loops.pop().unwrap();
                if !ctx.events.is_empty() || !ctx.conts.is_empty() {
                    self.unknown("control flow in option iteration".into());
                }
            }
            return;
        }
        let (lo, hi, iv) = it.gens[k];
        let nested = k > 0;
        let nevents = self.run_loop(lo, Some(hi), iv, label, false, &mut |s: &mut Ev<'a>, _| {
            s.run_gens(it, k + 1, None, body);
        });
        if nested && nevents {
            self.unknown("break inside flattened iteration".into());
        }
    }
    fn val_key(&self, v: &Val) -> T {
        self.read_val(v)
    }
    fn read_carr(&self, store: &[Val], slot: usize, field_: &Option<String>) -> T {
        let keep: &Val = &store[slot];
        // references inside locals are resolved against the given store
        let t = match keep {
            Val::T(t) => *t,
            v => {
                let mut tmp = self.reader(store);
                tmp.st.store = store.to_vec();
                tmp.read_val(v)
            }
        };
        match field_ {
            Some(f) => field(t, f),
            None => t,
        }
    }
    fn reader(&self, store: &[Val]) -> Ev<'a> {
        let mut e = Ev::new(self.env, self.leaves);
        e.st.store = store.to_vec();
        e
    }
    /// Evaluate a loop. Returns true if user-level `break` events occurred.
    fn run_loop(&mut self, lo: T, hi: Option<T>, iv0: T, label: Option<String>, is_while: bool, body: Body<'_, 'a>) -> bool {
        let base = self.st.clone();
        let n0 = base.store.len();
        let base_fail = std::mem::replace(&mut self.frame().fail, fls());
        let scope = self.scope.clone();
        let unk_base = self.unknowns.borrow().len();
        let mut carr: Vec<Carr> = vec![];
        let iv = iv0;
        let mut rounds = 0;
        let (ctx, end, fail) = loop {
            rounds += 1;
            self.unknowns.borrow_mut().truncate(unk_base);
            self.st = base.clone();
            for c in &carr {
                match &c.field {
                    None => self.st.store[c.slot] = Val::T(c.var),
                    Some(f) => {
                        let cur = self.read_val(&self.st.store[c.slot].clone());
                        self.st.store[c.slot] = Val::T(rec(cur, vec![(f.clone(), c.var)]));
                    }
                }
            }
            self.st.pc = tru();
            self.frame().fail = fls();
            let depth = self.frame().loops.len();
            self.frame().loops.push(LoopCtx { label: label.clone(), conts: vec![], events: vec![] });
            body(self, Val::T(iv));
            self.scope = scope.clone();
            let ctx = self.frame().loops.pop().unwrap();
            debug_assert_eq!(self.frame().loops.len(), depth);
            let fail = self.frame().fail;
            // merge continuations
            for (c, store) in ctx.conts.iter().rev() {
                let a = St { store: store.clone(), pc: *c, dead: false };
                let b = std::mem::replace(&mut self.st, base.clone());
                self.merge_states(*c, a, b);
            }
            let end = self.st.clone();
            // detect newly changed variables
            let mut added = false;
            let mut stores: Vec<&Vec<Val>> = vec![];
            if !end.dead {
                stores.push(&end.store);
            }
            for e in &ctx.events {
                stores.push(&e.1);
            }
            let mut newc: Vec<(usize, Option<String>)> = vec![];
            for st in &stores {
                for slot in 0..n0.min(st.len()) {
                    if carr.iter().any(|c| c.slot == slot && c.field.is_none()) {
                        continue;
                    }
                    let (b, a) = (&base.store[slot], &st[slot]);
                    match (b, a) {
                        (Val::Ref(x), Val::Ref(y)) if place_eq(x, y) => continue,
                        (Val::Clo(_), _) | (Val::Fun(_), _) => continue,
                        (Val::T(x), Val::T(y)) if x == y => continue,
                        (Val::It(x), Val::It(y)) if Rc::ptr_eq(x, y) => continue,
                        _ => {}
                    }
                    let bt = self.reader(&base.store).val_key(b);
                    let at = self.reader(st).val_key(a);
                    if let (Val::Ref(_), _) | (Val::Tup(_), Val::Tup(_)) = (b, a) {
                        // components that are references change with their targets
                        if let (Val::Tup(x), Val::Tup(y)) = (b, a) {
                            if x.iter().zip(y).all(|(p, q)| match (p, q) {
                                (Val::Ref(p), Val::Ref(q)) => place_eq(p, q),
                                (Val::T(p), Val::T(q)) => p == q,
                                _ => false,
                            }) {
                                continue;
                            }
                        }
                    }
                    for (f, _) in diff_fields(bt, at) {
                        let f = if f == "*" { None } else { Some(f) };
                        if carr.iter().any(|c| c.slot == slot && c.field == f) {
                            // a carried field may legitimately equal its own variable
                            continue;
                        }
                        if !newc.contains(&(slot, f.clone())) {
                            newc.push((slot, f));
                        }
                    }
                }
            }
            for (slot, f) in newc {
                let bt = self.reader(&base.store).val_key(&base.store[slot]);
                if f.is_none() {
                    carr.retain(|c| c.slot != slot);
                } else if carr.iter().any(|c| c.slot == slot && c.field.is_none()) {
                    continue;
                }
                let init = match &f {
                    Some(x) => field(bt, x),
                    None => bt,
                };
                carr.push(Carr { slot, field: f, var: fresh_var(if init == nil() || is_text(init) { "ct" } else { "c" }), init });
                added = true;
            }
            if !added {
                break (ctx, end, fail);
            }
            if rounds > 14 {
                self.unknown("loop state does not stabilise".into());
                break (ctx, end, fail);
            }
        };
        self.st = base.clone();
        self.frame().fail = base_fail;
        carr.sort_by(|a, b| (a.slot, &a.field).cmp(&(b.slot, &b.field)));
        let out = self.close_loop(lo, hi, iv, &carr, &ctx, &end, fail, is_while, n0);
        // write back
        for (c, v) in carr.iter().zip(&out.finals) {
            match &c.field {
                None => self.st.store[c.slot] = Val::T(*v),
                Some(f) => {
                    let cur = self.read_val(&self.st.store[c.slot].clone());
                    self.st.store[c.slot] = Val::T(rec(cur, vec![(f.clone(), *v)]));
                }
            }
        }
        self.fail_if(out.fail);
        if let Some((rf, rv)) = out.ret {
            self.ret_when(rf, rv);
        }
        out.user_break
    }
}
include!("eval_loop2.rs");
