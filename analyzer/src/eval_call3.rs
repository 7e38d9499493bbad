// Pure method calls.

impl<'a> Ev<'a> {
    fn it_of(&mut self, v: &Val) -> Iter {
        self.as_iter(v, false)
    }
    fn single(&mut self, it: Iter) -> Iter {
        if it.gens.len() == 1 && it.cond == tru() && !it.rev {
            return it;
        }
        let l = self.materialise(&it);
        self.term_iter_plain(l)
    }
    fn term_iter_plain(&self, t: T) -> Iter {
        let iv = fresh_var("i");
        Iter { gens: vec![(int(0), len(t), iv)], cond: tru(), elem: Val::T(index(t, iv)), rev: false }
    }
    fn pure_apply(&mut self, f: &Val, args: Vec<Val>) -> (Val, bool) {
        let n = self.st.store.len();
        let before = self.st.clone();
        let r = self.apply(f, args);
        let mut changed = false;
        for i in 0..n {
            let same = match (&before.store[i], &self.st.store[i]) {
                (Val::T(a), Val::T(b)) => a == b,
                (Val::Ref(a), Val::Ref(b)) => place_eq(a, b),
                (Val::It(a), Val::It(b)) => Rc::ptr_eq(a, b),
                (Val::Tup(_), Val::Tup(_)) => true,
                (Val::Clo(_), Val::Clo(_)) | (Val::Fun(_), Val::Fun(_)) | (Val::Opt(..), Val::Opt(..)) => true,
                _ => false,
            };
            if !same {
                changed = true;
            }
        }
        (r, changed)
    }
    fn mk_it(&self, it: Iter) -> Option<Val> {
        Some(Val::It(Rc::new(it)))
    }
    fn collect(&mut self, v: Val, h: &str) -> Val {
        let h = h.trim_start_matches("std::result::").trim_start_matches("crate::");
        if h.starts_with("Result<") || h.starts_with("Option<") || h == "Result" {
            let it = self.it_of(&v);
            let e = self.to_t(&it.elem.clone());
            let bad = and(it.cond, not(is_var(e, "Ok")));
            let fail = self.iter_reduce(&Iter { cond: tru(), ..it.clone() }, "or", fls(), bad);
            let good = Iter { elem: Val::T(payload_all(e)), ..it };
            let inner = inner_hint(h);
            let l = self.collect(Val::It(Rc::new(good)), &inner);
            let l = self.to_t(&l);
            return Val::T(ite(fail, err(), ok(l)));
        }
        let l = match &v {
            Val::It(i) => self.materialise(&i.clone()),
            v => self.to_t(v),
        };
        if h.starts_with("HashSet") || h.starts_with("BTreeSet") || h.contains("::HashSet<") {
            return Val::T(set_of(l));
        }
        if h.starts_with("HashMap") || h.starts_with("BTreeMap") {
            return Val::T(call("map_from", vec![l]));
        }
        if h == "String" {
            return Val::T(match get(l) {
                N::Call(f, _) if f == ".chars" => children(&get(l))[0],
                _ => call("concat_str", vec![l]),
            });
        }
        Val::T(l)
    }
    /// Run `f` in its own failure scope and return its Result value.
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) -> Val {
        let m = self.module();
        let st = self.frames.last().and_then(|f| f.self_ty.clone());
        let pc = std::mem::replace(&mut self.st.pc, tru());
        self.frames.push(Frame { module: m, self_ty: st, ret: "Result".into(), exits: vec![], fail: fls(), loops: vec![], is_closure: true });
        f(self);
        let t = self.close_frame(ok(unit()));
        self.st.pc = pc;
        Val::T(t)
    }
    fn iter_method(&mut self, recv: &Val, name: &str, args: &[Val]) -> Option<Val> {
        let hint = self.hint.clone();
        match name {
            "chars" | "nfkd" | "nfc" | "nfkc" | "nfd" | "bytes" | "lines" | "char_indices" | "split_whitespace" if args.is_empty() && !matches!(recv, Val::It(_)) => {
                let t = self.to_t(recv);
                let l = match get(t) {
                    N::Call(f, a) if f == "concat_str" && name == "chars" => a[0],
                    _ => call(&format!(".{name}"), vec![t]),
                };
                let it = self.it_of(&Val::T(l));
                return self.mk_it(it);
            }
            "iter" | "into_iter" | "cloned" | "copied" | "by_ref" | "clone" | "peekable" | "fuse" | "iter_owned" | "into_par_iter" | "par_iter" => {
                if matches!(recv, Val::Opt(..)) {
                    return Some(recv.clone());
                }
                let it = self.it_of(recv);
                self.mk_it(it)
            }
            "map" | "filter" | "filter_map" | "flat_map" | "inspect" | "take_while" | "skip_while" | "map_while" | "flatten" => {
                if !matches!(recv, Val::It(_)) && name != "flat_map" {
                    return None;
                }
                let mut it = self.it_of(recv);
                if name == "flatten" {
                    let inner = self.it_of(&it.elem.clone());
                    it.gens.extend(inner.gens);
                    it.cond = and(it.cond, inner.cond);
                    it.elem = inner.elem;
                    return self.mk_it(it);
                }
                let saved = self.st.clone();
                let (r, ch) = self.pure_apply(&args[0], vec![it.elem.clone()]);
                if ch {
                    self.unknown(format!("side effect in {name}"));
                }
                if matches!(r, Val::Ref(_)) || !ch {
                    // nothing written
                } else {
                    self.st = saved;
                }
                match name {
                    "inspect" => {}
                    "map" => it.elem = r,
                    "filter" => {
                        let c = self.to_t(&r);
                        it.cond = and(it.cond, bool_of(c));
                    }
                    "filter_map" => match r {
                        Val::Opt(c, v) => {
                            it.cond = and(it.cond, c);
                            it.elem = (*v).clone();
                        }
                        r => {
                            let t = self.to_t(&r);
                            it.cond = and(it.cond, is_var(t, "Ok"));
                            it.elem = Val::T(payload_all(t));
                        }
                    },
                    "flat_map" => {
                        let inner = self.it_of(&r);
                        it.gens.extend(inner.gens);
                        it.cond = and(it.cond, inner.cond);
                        it.elem = inner.elem;
                    }
                    _ => {
                        let l = self.materialise(&self.it_of_rc(recv));
                        let f = self.lambda(&args[0]);
                        let t = call(name, vec![l, f]);
                        let it = self.term_iter_plain(t);
                        return self.mk_it(it);
                    }
                }
                self.mk_it(it)
            }
            "enumerate" => {
                let it = self.it_of(recv);
                let mut it = self.single(it);
                let (lo, _, v) = it.gens[0];
                it.elem = Val::Tup(vec![Val::T(sub(v, lo)), it.elem]);
                self.mk_it(it)
            }
            "zip" => {
                let a = self.it_of(recv);
                let a = self.single(a);
                let iv = fresh_var("i");
                let (lo, hi, v) = a.gens[0];
                let m: HashMap<T, T> = [(v, add(iv, lo))].into_iter().collect();
                let ea = subst_val(&a.elem, &m);
                let n1 = sub(hi, lo);
                if let Val::T(t) = &args[0] {
                    match get(*t) {
                        N::Call(n, x) if n == "repeat_inf" => {
                            return self.mk_it(Iter { gens: vec![(int(0), n1, iv)], cond: tru(), elem: Val::Tup(vec![ea, Val::T(x[0])]), rev: false });
                        }
                        N::Call(n, x) if n == "range_open" => {
                            return self.mk_it(Iter { gens: vec![(int(0), n1, iv)], cond: tru(), elem: Val::Tup(vec![ea, Val::T(add(x[0], iv))]), rev: false });
                        }
                        _ => {}
                    }
                }
                let b = self.it_of(&args[0]);
                let b = self.single(b);
                let (lo2, hi2, v2) = b.gens[0];
                let m: HashMap<T, T> = [(v2, add(iv, lo2))].into_iter().collect();
                let eb = subst_val(&b.elem, &m);
                let n2 = sub(hi2, lo2);
                let n = if n1 == n2 { n1 } else { min2(n1, n2) };
                self.mk_it(Iter { gens: vec![(int(0), n, iv)], cond: tru(), elem: Val::Tup(vec![ea, eb]), rev: false })
            }
            "take" if matches!(recv, Val::T(t) if matches!(get(*t), N::Call(n, _) if n == "repeat_inf")) => {
                let x = children(&get(self.to_t(recv)))[0];
                let n = self.to_t(&args[0]);
                self.mk_it(Iter { gens: vec![(int(0), n, fresh_var("i"))], cond: tru(), elem: Val::T(x), rev: false })
            }
            "skip" | "take" if matches!(recv, Val::It(_)) => {
                let it = self.it_of(recv);
                let mut it = self.single(it);
                let k = self.to_t(&args[0]);
                let (lo, hi, v) = it.gens[0];
                it.gens[0] = if name == "skip" {
                    (add(lo, k), hi, v)
                } else if add(lo, k) == hi {
                    (lo, hi, v)
                } else {
                    (lo, min2(hi, add(lo, k)), v)
                };
                self.mk_it(it)
            }
            "rev" => {
                let mut it = self.it_of(recv);
                if it.gens.len() == 1 {
                    let (lo, hi, v) = it.gens[0];
                    let m: HashMap<T, T> = [(v, sub(add(lo, sub(hi, int(1))), v))].into_iter().collect();
                    it.cond = subst(it.cond, &m);
                    it.elem = subst_val(&it.elem, &m);
                } else {
                    it.rev = !it.rev;
                }
                self.mk_it(it)
            }
            "step_by" => {
                let it = self.it_of(recv);
                let mut it = self.single(it);
                let k = self.to_t(&args[0]);
                let (lo, hi, v) = it.gens[0];
                let m: HashMap<T, T> = [(v, add(lo, mul(k, v)))].into_iter().collect();
                it.elem = subst_val(&it.elem, &m);
                it.gens[0] = (int(0), bin("/", add(sub(hi, lo), sub(k, int(1))), k), v);
                self.mk_it(it)
            }
            "chain" => {
                let a = self.it_of(recv);
                let a = self.materialise(&a);
                let b = self.it_of(&args[0]);
                let b = self.materialise(&b);
                let t = append(a, b);
                let it = self.term_iter(t);
                self.mk_it(it)
            }
            "chunks" | "chunks_exact" | "windows" => {
                let t = self.to_t(recv);
                let k = self.to_t(&args[0]);
                if name == "windows" {
                    let iv = fresh_var("i");
                    let w = Val::T(slice(t, iv, add(iv, k)));
                    let it = Iter { gens: vec![(int(0), sub(add(len(t), int(1)), k), iv)], cond: tru(), elem: w, rev: false };
                    return self.mk_it(it);
                }
                let c = call(if name == "chunks_exact" { "chunks" } else { name }, vec![t, k]);
                let it = self.term_iter_plain(c);
                self.mk_it(it)
            }
            "any" | "all" if args.len() == 1 => {
                let it = self.it_of(recv);
                let saved = self.st.clone();
                let (r, ch) = self.pure_apply(&args[0], vec![it.elem.clone()]);
                if !ch {
                    let c = self.to_t(&r);
                    let c = bool_of(c);
                    let inner = Iter { cond: tru(), ..it.clone() };
                    return Some(Val::T(if name == "any" { self.iter_reduce(&inner, "or", fls(), and(it.cond, c)) } else { not(self.iter_reduce(&inner, "or", fls(), and(it.cond, not(c)))) }));
                }
                self.st = saved;
                let it = self.refresh(&it);
                self.st.store.push(Val::T(if name == "any" { fls() } else { tru() }));
                let slot = self.st.store.len() - 1;
                let f = args[0].clone();
                let is_any = name == "any";
                self.run_iter(it, None, &mut |s: &mut Ev<'a>, x: Val| {
                    let c = s.apply(&f, vec![x]);
                    let c = s.to_t(&c);
                    let c = bool_of(c);
                    let stop = if is_any { c } else { not(c) };
                    let mut store = s.st.store.clone();
                    store[slot] = Val::T(if is_any { tru() } else { fls() });
                    let cond = and(s.st.pc, stop);
                    s.frames.last_mut().unwrap().loops.last_mut().unwrap().events.push((cond, store, None));
                    s.st.pc = and(s.st.pc, not(stop));
                });
                let v = self.st.store[slot].clone();
                Some(v)
            }
            "for_each" => {
                let it = self.it_of(recv);
                let f = args[0].clone();
                self.run_iter(it, None, &mut |s: &mut Ev<'a>, x: Val| {
                    s.apply(&f, vec![x]);
                });
                Some(Val::T(unit()))
            }
            "try_for_each" => {
                let it = self.it_of(recv);
                let f = args[0].clone();
                Some(self.scoped(|s| {
                    s.run_iter(it, None, &mut |s: &mut Ev<'a>, x: Val| {
                        let r = s.apply(&f, vec![x]);
                        let t = s.to_t(&r);
                        s.question(t);
                    });
                }))
            }
            "fold" => {
                let it = self.it_of(recv);
                let init = self.to_t(&args[0]);
                self.st.store.push(Val::T(init));
                let slot = self.st.store.len() - 1;
                let f = args[1].clone();
                self.run_iter(it, None, &mut |s: &mut Ev<'a>, x: Val| {
                    let cur = s.st.store[slot].clone();
                    let r = s.apply(&f, vec![cur, x]);
                    let t = s.to_t(&r);
                    s.st.store[slot] = Val::T(t);
                });
                Some(self.st.store[slot].clone())
            }
            "try_fold" => {
                let it = self.it_of(recv);
                let init = self.to_t(&args[0]);
                self.st.store.push(Val::T(init));
                let slot = self.st.store.len() - 1;
                let f = args[1].clone();
                let r = self.scoped(|s| {
                    s.run_iter(it, None, &mut |s: &mut Ev<'a>, x: Val| {
                        let cur = s.st.store[slot].clone();
                        let r = s.apply(&f, vec![cur, x]);
                        let t = s.to_t(&r);
                        let p = s.question(t);
                        s.st.store[slot] = Val::T(p);
                    });
                });
                let r = self.to_t(&r);
                let v = self.read_val(&self.st.store[slot].clone());
                Some(Val::T(ite(is_var(r, "Ok"), ok(v), err())))
            }
            "sum" | "count" => {
                let it = self.it_of(recv);
                if name == "sum" && hint.starts_with("Option") {
                    return None;
                }
                let e = if name == "sum" { self.to_t(&it.elem.clone()) } else { int(1) };
                Some(Val::T(self.iter_reduce(&it, "add", int(0), e)))
            }
            "len" if matches!(recv, Val::It(_)) => {
                let it = self.it_of(recv);
                Some(Val::T(self.iter_reduce(&it, "add", int(0), int(1))))
            }
            "product" | "min" | "max" | "min_by" | "max_by" | "min_by_key" | "max_by_key" if matches!(recv, Val::It(_)) => {
                let it = self.it_of(recv);
                let l = self.materialise(&it);
                if name == "max" {
                    return Some(Val::Opt(nonempty(l), Rc::new(Val::T(max_of(l)))));
                }
                if args.len() == 1 {
                    let f = self.lambda(&args[0]);
                    return Some(Val::T(crate::sorts::extreme(l, name, f)));
                }
                Some(Val::T(call(&format!("iter_{name}"), vec![l])))
            }
            "find" | "position" | "find_map" | "rposition" => {
                let mut it = self.it_of(recv);
                if name == "rposition" {
                    return None;
                }
                if it.gens.len() != 1 || (name == "position" && it.cond != tru()) {
                    it = self.single(it);
                }
                let (r, ch) = self.pure_apply(&args[0], vec![it.elem.clone()]);
                if ch {
                    self.unknown("side effect in search".into());
                }
                let (lo, hi, v) = it.gens[0];
                let t = self.to_t(&r);
                let (c, val) = if name == "find_map" { (is_var(t, "Ok"), Val::T(payload_all(t))) } else { (bool_of(t), it.elem.clone()) };
                let c = and(it.cond, c);
                let any = big("or", lo, hi, c, v);
                let at = first(lo, hi, c, v, v);
                if name == "position" {
                    return Some(Val::Opt(any, Rc::new(Val::T(sub(at, lo)))));
                }
                let val = match &val {
                    Val::T(t) => Val::T(first(lo, hi, c, *t, v)),
                    x => subst_val(x, &[(v, at)].into_iter().collect()),
                };
                Some(Val::Opt(any, Rc::new(val)))
            }
            "collect" => {
                if !matches!(recv, Val::It(_)) {
                    return None;
                }
                Some(self.collect(recv.clone(), &hint))
            }
            "unzip" => {
                let it = self.it_of(recv);
                let e = it.elem.clone();
                let (a, b) = (self.sub(&e, PE::F("0".into())), self.sub(&e, PE::F("1".into())));
                let x = self.materialise(&Iter { elem: a, ..it.clone() });
                let y = self.materialise(&Iter { elem: b, ..it });
                Some(Val::Tup(vec![Val::T(x), Val::T(y)]))
            }
            "next" | "last" | "nth" if matches!(recv, Val::It(_)) => {
                let it = self.it_of(recv);
                let l = self.materialise(&it);
                let n = len(l);
                let i = match name {
                    "next" => int(0),
                    "last" => sub(n, int(1)),
                    _ => self.to_t(&args[0]),
                };
                let c = if name == "last" { lt(int(0), n) } else { lt(i, n) };
                Some(Val::Opt(c, Rc::new(Val::T(index(l, i)))))
            }
            "contains" => {
                if let Val::It(i) = recv {
                    if let ([(lo, hi, v)], Val::T(e)) = (&i.gens[..], &i.elem) {
                        if v == e && i.cond == tru() {
                            let x = self.to_t(&args[0]);
                            return Some(Val::T(and(ge(x, *lo), lt(x, *hi))));
                        }
                    }
                }
                let t = self.to_t(recv);
                let x = self.to_t(&args[0]);
                if let N::Call(n, a) = get(t) {
                    if n == "range_open" {
                        let mut c = tru();
                        if a[0] != sym("START") {
                            c = and(c, ge(x, a[0]));
                        }
                        if a[1] != sym("END") {
                            c = and(c, lt(x, a[1]));
                        }
                        return Some(Val::T(c));
                    }
                }
                if matches!(get(x), N::Str(_)) {
                    return Some(Val::T(bool_of(call("str_contains", vec![t, x]))));
                }
                let l = if matches!(get(t), N::SetOf(_)) { set_list(t) } else { t };
                Some(Val::T(self.member(l, x)))
            }
            _ => None,
        }
    }
    fn it_of_rc(&self, v: &Val) -> Iter {
        match v {
            Val::It(i) => self.refresh(i),
            v => {
                let t = self.read_val(v);
                self.term_iter(t)
            }
        }
    }
}
include!("eval_call4.rs");
