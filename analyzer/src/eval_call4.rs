// Options/Results, numbers, collections and user-defined methods.

impl<'a> Ev<'a> {
    fn method_on_val(&mut self, recv: &Val, name: &str, args: &[Val], tf: &str) -> Option<Val> {
        let _ = tf;
        // user-defined methods with unambiguous receiver types shadow nothing below
        if let Val::Ref(p) = recv {
            if let Some(v @ (Val::It(_) | Val::Opt(..))) = self.st.store.get(p.slot).cloned() {
                if p.path.is_empty() {
                    return self.method_on_val(&v, name, args, tf);
                }
            }
        }
        if let Some(v) = self.iter_method(recv, name, args) {
            return Some(v);
        }
        if IDENT.contains(&name) {
            return Some(match recv {
                Val::Ref(p) if matches!(name, "clone" | "cloned" | "copied" | "to_vec" | "to_owned" | "into" | "as_ref" | "as_slice" | "borrow") => Val::T(self.read_place(p)),
                v => v.clone(),
            });
        }
        if let Some(v) = self.opt_method(recv, name, args) {
            return Some(v);
        }
        match name {
            "len" | "is_empty" | "first" | "last" | "get" | "split_at" | "starts_with" | "split_first" | "split_last" => {
                let t = self.to_t(recv);
                let l = len(t);
                match name {
                    "len" => return Some(Val::T(l)),
                    "is_empty" => return Some(Val::T(eq(l, int(0)))),
                    "first" => return Some(Val::Opt(lt(int(0), l), Rc::new(Val::T(index(t, int(0)))))),
                    "last" => return Some(Val::Opt(lt(int(0), l), Rc::new(Val::T(index(t, sub(l, int(1))))))),
                    "split_at" if args.len() == 1 => {
                        let k = self.to_t(&args[0]);
                        return Some(Val::Tup(vec![Val::T(slice(t, int(0), k)), Val::T(slice(t, k, l))]));
                    }
                    "split_first" => return Some(Val::Opt(lt(int(0), l), Rc::new(Val::Tup(vec![Val::T(index(t, int(0))), Val::T(slice(t, int(1), l))])))),
                    "split_last" => return Some(Val::Opt(lt(int(0), l), Rc::new(Val::Tup(vec![Val::T(index(t, sub(l, int(1)))), Val::T(slice(t, int(0), sub(l, int(1))))])))),
                    "get" if args.len() == 1 => {
                        let sl = self.index_any(t, &args[0]);
                        if let N::Slice(_, a, b) = get(sl) {
                            return Some(Val::Opt(and(ge(b, a), ge(l, b)), Rc::new(Val::T(sl))));
                        }
                        if matches!(&args[0], Val::It(_)) {
                            return Some(Val::Opt(tru(), Rc::new(Val::T(sl))));
                        }
                        let i = self.to_t(&args[0]);
                        if matches!(get(i), N::Str(_)) {
                            return None;
                        }
                        return Some(Val::Opt(lt(i, l), Rc::new(Val::T(index(t, i)))));
                    }
                    _ => return None,
                }
            }
            "try_into" => {
                let t = self.to_t(recv);
                let h = Some(inner_hint(&self.hint)).filter(|h| !h.is_empty()).unwrap_or_else(|| self.hint.clone());
                return Some(Val::Opt(self.conv_ok(&h, t), Rc::new(Val::T(t))));
            }
            "reverse" => {
                let c = self.to_t(recv);
                return crate::sorts::reverse(c).map(Val::T);
            }
            "then_with" => {
                let c = self.to_t(recv);
                let o = self.apply(&args[0].clone(), vec![]);
                let o = self.to_t(&o);
                return crate::sorts::then(c, o).map(Val::T);
            }
            "then" | "then_some" => {
                let c = self.to_t(recv);
                if name == "then" && !matches!(args[0], Val::Clo(_) | Val::Fun(_)) {
                    let o = self.to_t(&args[0].clone());
                    if let Some(t) = crate::sorts::then(c, o) {
                        return Some(Val::T(t));
                    }
                }
                let c = bool_of(c);
                let v = if name == "then" {
                    let s = self.st.clone();
                    let f = args[0].clone();
                    let a = self.branch(&s, c, |s| s.apply(&f, vec![]));
                    let v = a.0.clone();
                    let v = if matches!(v, Val::Ref(_)) { v } else { let keep = std::mem::replace(&mut self.st, a.1.clone()); let t = self.to_t(&v); self.st = keep; Val::T(t) };
                    let mut b = s.clone();
                    b.pc = and(b.pc, not(c));
                    self.merge_states(c, a.1, b);
                    self.st.pc = s.pc;
                    self.st.dead = false;
                    v
                } else {
                    args[0].clone()
                };
                return Some(Val::Opt(c, Rc::new(v)));
            }
            "intersection" | "union" | "difference" | "symmetric_difference" | "is_subset" | "is_superset" | "is_disjoint" => {
                let a = self.to_t(recv);
                let b = self.to_t(&args[0]);
                let r = if name == "intersection" { let mut v = vec![a, b]; v.sort(); call(name, v) } else { call(name, vec![a, b]) };
                if name.starts_with("is_") {
                    return Some(Val::T(bool_of(r)));
                }
                let it = self.term_iter_plain(r);
                return self.mk_it(it);
            }
            "integer_sqrt" | "isqrt" => {
                let a = self.to_t(recv);
                return Some(Val::T(call("isqrt", vec![a])));
            }
            "concat" if args.is_empty() => {
                let l = self.to_t(recv);
                let parts = match get(l) {
                    N::Concat(v) => v,
                    _ => vec![l],
                };
                let elems: Option<Vec<T>> = parts.iter().map(|p| if let N::Elem(e) = get(*p) { Some(e) } else { None }).collect();
                if let Some(e) = elems.filter(|e| !e.iter().any(|x| crate::text::is_text(*x))) {
                    return Some(Val::T(liftn(&e, &mut |x| concat(x.to_vec()))));
                }
                let v = fresh_var("i");
                return Some(Val::T(big("concat", int(0), len(l), index(l, v), v)));
            }
            "to_le_bytes" | "to_be_bytes" => {
                let a = self.to_t(recv);
                return Some(Val::T(call(name, vec![a])));
            }
            "to_string" | "to_lowercase" | "as_secs" | "as_nanos" | "as_millis" => {
                let a = self.to_t(recv);
                if name == "to_string" {
                    return Some(Val::T(self.text_of(a)));
                }
                return Some(Val::T(call(name, vec![a])));
            }
            _ => {}
        }
        let numeric = !matches!(recv, Val::It(_) | Val::Clo(_));
        if numeric && !args.is_empty() && matches!(name, "checked_add" | "checked_mul" | "checked_sub" | "checked_div" | "checked_rem" | "saturating_sub" | "saturating_add" | "saturating_mul" | "wrapping_add" | "wrapping_mul" | "wrapping_sub" | "pow" | "max" | "min" | "abs_diff" | "div_ceil" | "rem_euclid" | "clamp" | "eq" | "ne" | "lt" | "gt" | "le" | "ge") {
            let a = self.to_t(recv);
            let t = self.terms(args);
            if let Some(v) = self.num_method(name, a, &t) {
                return Some(v);
            }
        }
        self.user_method(recv, name, args)
    }
    fn user_method(&mut self, recv: &Val, name: &str, args: &[Val]) -> Option<Val> {
        let cands: Vec<Rc<FnDef>> = self.env.prog.methods.get(name)?.iter().filter(|f| matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_)))).cloned().collect();
        if cands.is_empty() {
            return None;
        }
        if let (Some(t), Val::T(r)) = (None::<String>, recv) {
            let _ = (t, r);
        }
        // `self.method()` inside an impl
        let mut cands = cands;
        if cands.len() > 1 {
            let st = self.frames.last().and_then(|f| f.self_ty.clone());
            let selfish = match (recv, self.scope.get("self")) {
                (Val::Ref(p), Some(s)) => self.norm_place(&Place { slot: *s, path: vec![] }).slot == p.slot && p.path.is_empty(),
                (Val::T(t), Some(s)) => matches!(self.st.store.get(*s), Some(Val::T(u)) if u == t),
                _ => false,
            };
            if selfish {
                let m = self.module();
                let c: Vec<_> = cands.iter().filter(|f| f.self_ty == st && f.module == m).cloned().collect();
                if c.len() == 1 {
                    cands = c;
                }
            }
        }
        let mutating = cands.iter().any(|f| matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.mutability.is_some() && r.reference.is_some()));
        let mut a = vec![recv.clone()];
        if !mutating {
            if let Val::Ref(p) = recv {
                a[0] = Val::T(self.read_place(p));
            }
        }
        a.extend(args.to_vec());
        if cands.len() == 1 && !self.leaves.method_leaf(name) {
            let f = cands[0].clone();
            let key = format!("{}::{}", f.self_ty.clone().unwrap_or_default(), name);
            if let Some(s) = self.leaves.leaf(&key) {
                return Some(self.leaf_call(&key, &s, a));
            }
            if f.block.is_some() {
                if let Some(v) = self.inline(&f, a.clone()) {
                    return Some(v);
                }
            }
        }
        Some(self.opaque(&format!(".{name}"), a))
    }
    fn opt_method(&mut self, recv: &Val, name: &str, args: &[Val]) -> Option<Val> {
        if !matches!(
            name,
            "is_some" | "is_ok" | "is_none" | "is_err" | "unwrap" | "expect" | "unwrap_or" | "unwrap_or_default" | "unwrap_or_else" | "map" | "and_then" | "or_else" | "or" | "map_or" | "map_or_else" | "is_some_and" | "is_ok_and" | "is_none_or" | "filter" | "transpose" | "err"
        ) {
            return None;
        }
        if matches!(recv, Val::It(_)) {
            return None;
        }
        let (c, v): (T, Val) = match recv {
            Val::Opt(c, v) => (*c, (**v).clone()),
            Val::Ref(p) => {
                let p = self.norm_place(p);
                let t = self.read_place(&p);
                let mut q = p.clone();
                q.path.push(PE::P("Ok".into(), 0));
                let c = is_var(t, "Ok");
                if matches!(get(t), N::Ite(..)) {
                    (c, Val::T(payload_all(t)))
                } else {
                    (c, Val::Ref(q))
                }
            }
            r => {
                let t = self.to_t(r);
                (is_var(t, "Ok"), Val::T(payload_all(t)))
            }
        };
        let rd = |s: &mut Self, v: &Val| s.to_t(v);
        match name {
            "is_some" | "is_ok" => Some(Val::T(c)),
            "is_none" | "is_err" => Some(Val::T(not(c))),
            "unwrap" | "expect" => Some(v),
            "unwrap_or" => {
                let d = self.to_t(&args[0]);
                let t = rd(self, &v);
                Some(Val::T(ite(c, t, d)))
            }
            "unwrap_or_default" => {
                let t = rd(self, &v);
                let d = match self.hint.as_str() {
                    "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "Epoch" | "Slot" | "Gwei" | "ValidatorIndex" => int(0),
                    "bool" => fls(),
                    _ if self.is_string(t) => mk(N::Str(String::new())),
                    _ => call("default", vec![]),
                };
                Some(Val::T(ite(c, t, d)))
            }
            "unwrap_or_else" => {
                let s = self.st.clone();
                let f = args[0].clone();
                let va = {
                    let t = rd(self, &v);
                    Val::T(t)
                };
                let a = self.branch(&s, c, |_| va);
                let b = self.branch(&s, not(c), |s| s.apply(&f, vec![Val::T(sym("error"))]));
                let r = self.join(c, a, b);
                self.st.pc = s.pc;
                Some(r)
            }
            "map" | "and_then" | "filter" | "is_some_and" | "is_ok_and" | "map_or" | "map_or_else" | "is_none_or" => {
                let s = self.st.clone();
                let f = args.last().unwrap().clone();
                let v2 = v.clone();
                let a = self.branch(&s, c, |s| {
                    let r = s.apply(&f, vec![v2]);
                    let t = s.to_t(&r);
                    Val::T(t)
                });
                let inner = match &a.0 {
                    Val::T(t) => *t,
                    _ => unit(),
                };
                let b = if name == "map_or_else" {
                    let d = args[0].clone();
                    self.branch(&s, not(c), |s| s.apply(&d, vec![Val::T(sym("error"))]))
                } else {
                    let mut st = s.clone();
                    st.pc = and(st.pc, not(c));
                    if st.pc == fls() {
                        st.dead = true;
                    }
                    (Val::T(unit()), st)
                };
                let dv = self.to_t(&b.0.clone());
                self.merge_states(c, a.1, b.1);
                self.st.pc = s.pc;
                self.st.dead = false;
                Some(match name {
                    "map" => Val::Opt(c, Rc::new(Val::T(inner))),
                    "and_then" => {
                        let isok = is_var(inner, "Ok");
                        Val::Opt(and(c, isok), Rc::new(Val::T(payload_all(inner))))
                    }
                    "filter" => Val::Opt(and(c, bool_of(inner)), Rc::new(v)),
                    "is_some_and" | "is_ok_and" => Val::T(and(c, bool_of(inner))),
                    "is_none_or" => Val::T(or(not(c), bool_of(inner))),
                    "map_or" => {
                        let d = self.to_t(&args[0]);
                        Val::T(ite(c, inner, d))
                    }
                    _ => Val::T(ite(c, inner, dv)),
                })
            }
            "or" | "or_else" => {
                let t = rd(self, &v);
                let o = if name == "or" {
                    self.to_t(&args[0])
                } else {
                    let r = self.apply(&args[0], vec![Val::T(sym("error"))]);
                    self.to_t(&r)
                };
                Some(Val::T(ite(c, ok(t), o)))
            }
            "transpose" => {
                let t = rd(self, &v);
                // Option<Result<T>> -> Result<Option<T>>
                Some(Val::T(ite(c, ite(is_var(t, "Ok"), ok(ok(payload_all(t))), err()), ok(err()))))
            }
            "err" => {
                let t = self.to_t(recv);
                Some(Val::Opt(not(c), Rc::new(Val::T(payload(t, "Err", 0)))))
            }
            _ => None,
        }
    }
}
include!("eval_call5.rs");
