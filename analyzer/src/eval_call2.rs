// Method calls: storage-mutating builtins and dispatch.

const IDENT: &[&str] = &[
    "clone", "cloned", "copied", "as_ref", "as_slice", "to_vec", "to_owned", "into", "as_bytes", "borrow", "deref", "as_deref", "ok_or", "ok_or_else", "map_err", "ok", "as_mut_slice", "into_boxed_slice", "into_vec", "by_ref", "into_inner", "as_str", "into_bytes", "context", "with_context", "peekable", "fuse", "lock", "read", "write", "as_mut", "to_le", "iter_owned", "await", "as_deref_mut",
];

impl<'a> Ev<'a> {
    fn lambda(&mut self, v: &Val) -> T {
        match v {
            Val::Clo(c) => self.clo_term(&c.clone()),
            Val::Fun(p) => {
                // eta-expand so that `f` and `|x| f(x)` agree
                let x = fresh_var("l");
                let saved = self.st.clone();
                let r = self.call_path(&p.clone(), vec![Val::T(x)], "");
                let t = self.to_t(&r);
                self.st = saved;
                let h = height(t) + 1;
                mk(N::Lambda(h, 1, subst1(t, x, mk(N::Acc(h, 1000)))))
            }
            _ => self.to_t(v),
        }
    }
    fn mcall(&mut self, m: &syn::ExprMethodCall) -> Val {
        let name = m.method.to_string();
        let tf = m.turbofish.as_ref().map(|t| quote::quote!(#t).to_string().replace(' ', "")).unwrap_or_default();
        let tf = tf.strip_prefix("::<").and_then(|x| x.strip_suffix('>')).unwrap_or("").to_string();
        if let Some(v) = self.mut_method(m, &name) {
            return v;
        }
        if self.st.dead {
            return Val::T(unit());
        }
        let hint = if !tf.is_empty() && name == "collect" { tf.clone() } else { self.hint.clone() };
        // locate the receiver
        let recv = match self.place(&m.receiver) {
            Some(p) => {
                let np = self.norm_place(&p);
                match self.st.store.get(np.slot) {
                    Some(v @ (Val::It(_) | Val::Clo(_) | Val::Opt(..) | Val::Tup(_) | Val::Fun(_))) if np.path.is_empty() => v.clone(),
                    _ => Val::Ref(np),
                }
            }
            None => {
                let passes = matches!(name.as_str(), "ok_or" | "ok_or_else" | "map_err" | "unwrap" | "expect" | "into" | "try_into" | "into_iter" | "ok");
                let h = if passes { self.hint.clone() } else { String::new() };
                self.with_hint(&h, |s| s.e(&m.receiver))
            }
        };
        if self.st.dead {
            return Val::T(unit());
        }
        if name == "into" && self.is_mut_binding(&m.receiver) {
            // a view of the same storage, e.g. `&mut [u8]` as a fixed-size output buffer
            return recv;
        }
        if name == "hash_tree_root" && m.args.is_empty() {
            let t = self.to_t(&recv);
            return Val::T(call("hash_tree_root", vec![t]));
        }
        // lazily evaluated error values
        let args = if matches!(name.as_str(), "ok_or" | "ok_or_else" | "map_err" | "expect" | "context" | "with_context") { vec![] } else { self.args(&m.args) };
        if self.st.dead {
            return Val::T(unit());
        }
        if name == "parse" && args.is_empty() {
            let t = if !tf.is_empty() { tf.clone() } else { let i = inner_hint(&hint); if i.is_empty() { hint.clone() } else { i } };
            if !t.is_empty() && t != "_" {
                let t = t.rsplit("::").next().unwrap().to_string();
                return self.call_path(&[t.clone(), "from_str".to_string()], vec![recv], &format!("{t}::from_str"));
            }
        }
        let r = self.with_hint(&hint, |s| s.method_on_val(&recv, &name, &args, &tf));
        match r {
            Some(v) => v,
            None => {
                let mut a = vec![recv];
                a.extend(args);
                let mutates = name.starts_with("visit_") || matches!(name.as_str(), "update" | "fill_bytes" | "read_exact" | "read_to_end" | "read_to_string" | "read_line" | "write_all" | "apply_keystream" | "seek" | "consume" | "fill_buf" | "start" | "add_assign");
                if !mutates {
                    if let Val::Ref(p) = &a[0] {
                        a[0] = Val::T(self.read_place(&p.clone()));
                    }
                }
                if self.formats && matches!(name.as_str(), "debug_struct" | "debug_tuple" | "debug_list" | "debug_map" | "debug_set" | "field" | "entry" | "entries" | "finish" | "finish_non_exhaustive" | "write_str" | "write_fmt" | "write_char" | "pad" | "pad_integral") {
                    // what a formatting implementation prints, in order
                    let t = self.terms(&a[1..]);
                    self.effect(liftn(&t, &mut |x| call(&name, x.to_vec())));
                    return Val::T(ok(unit()));
                }
                self.opaque(&format!(".{name}"), a)
            }
        }
    }
    /// Is the expression a reference obtained by `&mut` (directly or through a binding)?
    fn is_mut_binding(&mut self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Reference(r) => r.mutability.is_some(),
            syn::Expr::Paren(p) => self.is_mut_binding(&p.expr),
            syn::Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "as_mut" | "as_mut_slice" | "deref_mut" | "borrow_mut"),
            syn::Expr::Path(_) => match self.place(e) {
                Some(p) if p.path.is_empty() => matches!(self.st.store.get(p.slot), Some(Val::Ref(_))),
                _ => false,
            },
            _ => false,
        }
    }
    /// Mutating builtins on a storage location.
    fn mut_method(&mut self, m: &syn::ExprMethodCall, name: &str) -> Option<Val> {
        if let Some(v) = self.entry_method(m, name) {
            return Some(v);
        }
        let known = matches!(
            name,
            "write_str" | "write_char" | "push" | "push_back" | "insert" | "clear" | "extend" | "extend_from_slice" | "append" | "sort_by_cached_key" | "sort" | "sort_unstable" | "sort_by" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key" | "dedup" | "truncate" | "resize" | "swap" | "set" | "copy_from_slice" | "clone_from_slice" | "copy_from_bitslice" | "clone_from_bitslice" | "copy_within" | "fill" | "pop" | "remove" | "retain" | "drain" | "get_mut" | "last_mut" | "first_mut" | "iter_mut" | "push_str" | "replace" | "take" | "next" | "reverse" | "as_mut" | "by_ref" | "as_mut_slice" | "fill_with" | "swap_remove" | "get_or_insert_with" | "pop_front"
        );
        if !known {
            return None;
        }
        let n = m.args.len();
        match name {
            "take" | "next" if n > 0 => return None,
            "replace" if n != 1 => return None,
            "set" if n != 2 => return None,
            "insert" if n > 2 => return None,
            _ => {}
        }
        let p = match self.place(&m.receiver) {
            Some(p) => p,
            None => match name {
                "next" | "take" => return None,
                _ => {
                    let v = self.no_hint(|s| s.e(&m.receiver));
                    match v {
                        Val::Ref(p) => p,
                        v => {
                            if name == "iter_mut" {
                                let it = self.as_iter(&v, true);
                                return Some(Val::It(Rc::new(it)));
                            }
                            if matches!(name, "as_mut" | "by_ref" | "as_mut_slice") {
                                return Some(v);
                            }
                            self.st.store.push(v);
                            Place { slot: self.st.store.len() - 1, path: vec![] }
                        }
                    }
                }
            },
        };
        let p = self.norm_place(&p);
        if let Some(Val::It(i)) = self.st.store.get(p.slot) {
            if p.path.is_empty() {
                if name == "next" {
                    let i = i.clone();
                    let it = self.refresh(&i);
                    // consume one element
                    let l = self.materialise(&it);
                    let ln = len(l);
                    self.st.store[p.slot] = Val::T(slice(l, int(1), ln));
                    return Some(Val::Opt(lt(int(0), ln), Rc::new(Val::T(index(l, int(0))))));
                }
                if name == "by_ref" {
                    return Some(Val::It(i.clone()));
                }
            }
        }
        let args = self.args(&m.args);
        if self.st.dead {
            return Some(Val::T(unit()));
        }
        let cur = self.read_place(&p);
        let set = |s: &mut Self, v: T| s.write_place(&p, v);
        let un_ = Some(Val::T(unit()));
        match name {
            "as_mut" | "by_ref" | "as_mut_slice" => Some(Val::Ref(p)),
            "push" | "push_back" => {
                let x = self.arg0(&args);
                if n == 1 && crate::text::surely_text(cur) {
                    let x = self.text_of(x);
                    set(self, append(cur, x));
                    return un_;
                }
                set(self, push(cur, x));
                un_
            }
            "push_str" => {
                let x = self.arg0(&args);
                let x = self.text_of(x);
                set(self, append(cur, x));
                un_
            }
            "write_str" | "write_char" => {
                let x = self.arg0(&args);
                let x = self.text_of(x);
                set(self, append(cur, x));
                Some(Val::T(ok(unit())))
            }
            "insert" if n == 1 => {
                // set insertion: reports whether the value is new
                let x = self.arg0(&args);
                let new = not(self.member(set_list(cur), x));
                let l = set_list(cur);
                set(self, mk(N::SetOf(append(l, elem(x)))));
                Some(Val::T(new))
            }
            "insert" => {
                let t = self.terms(&args);
                set(self, call("map_insert", vec![cur, t[0], t[1]]));
                Some(Val::T(call("map_get", vec![cur, t[0]])))
            }
            "clear" => {
                set(self, if matches!(get(cur), N::SetOf(_)) { mk(N::SetOf(nil())) } else { nil() });
                un_
            }
            "extend" | "extend_from_slice" | "append" => {
                let x = self.collect(args[0].clone(), "Vec");
                let x = self.to_t(&x);
                if name == "append" {
                    self.write_ref(&args[0].clone(), nil());
                }
                if let N::SetOf(l) = get(cur) {
                    set(self, mk(N::SetOf(append(l, x))));
                } else {
                    set(self, append(cur, x));
                }
                un_
            }
            "sort" | "sort_unstable" | "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" => {
                let f = args.first().cloned().map(|f| self.lambda(&f));
                set(self, crate::sorts::sort(cur, name, f));
                un_
            }
            "dedup" | "reverse" => {
                let v = if name == "reverse" { call("reversed", vec![cur]) } else { call("dedup", vec![cur]) };
                set(self, v);
                un_
            }
            "truncate" => {
                let x = self.arg0(&args);
                let l = len(cur);
                set(self, slice(cur, int(0), min2(x, l)));
                un_
            }
            "resize" => {
                let t = self.terms(&args);
                set(self, call("resize", vec![cur, t[0], t[1]]));
                un_
            }
            "swap" => {
                if n == 1 {
                    let o = self.arg0(&args);
                    set(self, o);
                    self.write_ref(&args[0].clone(), cur);
                    return un_;
                }
                let t = self.terms(&args);
                let (x, y) = (index(cur, t[0]), index(cur, t[1]));
                set(self, upd(upd(cur, t[0], y), t[1], x));
                un_
            }
            "set" => {
                let t = self.terms(&args);
                set(self, upd(cur, t[0], t[1]));
                un_
            }
            "copy_from_slice" | "clone_from_slice" | "copy_from_bitslice" | "clone_from_bitslice" => {
                let x = self.arg0(&args);
                set(self, x);
                un_
            }
            "copy_within" => {
                let part = self.index_any(cur, &args[0].clone());
                let t = self.to_t(&args[1]);
                set(self, crate::eval::splice(cur, t, add(t, len(part)), part));
                un_
            }
            "fill" => {
                let x = self.arg0(&args);
                let l = len(cur);
                set(self, repeat(x, l));
                un_
            }
            "pop" => {
                let l = len(cur);
                let last = index(cur, sub(l, int(1)));
                let ne = lt(int(0), l);
                set(self, ite(ne, slice(cur, int(0), sub(l, int(1))), cur));
                Some(Val::Opt(ne, Rc::new(Val::T(last))))
            }
            "take" => {
                set(self, err());
                Some(Val::T(cur))
            }
            "replace" => {
                let x = self.arg0(&args);
                if matches!(get(cur), N::Str(_)) {
                    return Some(Val::T(unk("replace")));
                }
                set(self, ok(x));
                Some(Val::T(cur))
            }
            "next" => {
                let l = len(cur);
                set(self, slice(cur, int(1), l));
                Some(Val::Opt(lt(int(0), l), Rc::new(Val::T(index(cur, int(0))))))
            }
            "retain" => {
                let chars = match get(cur) {
                    N::Call(f, a) if f == "concat_str" => Some(a[0]),
                    _ => None,
                };
                let it = self.as_iter(&Val::T(chars.unwrap_or(cur)), false);
                let c = self.apply(&args[0], vec![it.elem.clone()]);
                let c = self.to_t(&c);
                let it = Iter { cond: and(it.cond, bool_of(c)), ..it };
                let v = self.materialise(&it);
                set(self, if chars.is_some() { call("concat_str", vec![v]) } else { v });
                un_
            }
            "drain" => {
                let part = self.index_any(cur, &args[0].clone());
                let v = call("drained", vec![cur, part]);
                set(self, v);
                Some(Val::T(part))
            }
            "remove" => {
                let x = self.arg0(&args);
                set(self, call("remove", vec![cur, x]));
                Some(Val::T(call("removed", vec![cur, x])))
            }
            "get_mut" => {
                let i = self.arg0(&args);
                let mut q = p.clone();
                q.path.push(PE::I(i));
                Some(Val::Opt(lt(i, len(cur)), Rc::new(Val::Ref(q))))
            }
            "last_mut" | "first_mut" => {
                let l = len(cur);
                let mut q = p.clone();
                q.path.push(PE::I(if name == "last_mut" { sub(l, int(1)) } else { int(0) }));
                Some(Val::Opt(lt(int(0), l), Rc::new(Val::Ref(q))))
            }
            "iter_mut" => {
                let it = self.as_iter(&Val::Ref(p), true);
                Some(Val::It(Rc::new(it)))
            }
            _ => {
                let mut a = vec![Val::Ref(p)];
                a.extend(args);
                Some(self.opaque(&format!(".{name}"), a))
            }
        }
    }
    pub fn member(&mut self, list: T, x: T) -> T {
        let it = self.term_iter(list);
        let e = self.read_val(&it.elem);
        let c = and(it.cond, eq(e, x));
        let it2 = Iter { cond: tru(), ..it };
        self.iter_reduce(&it2, "or", fls(), c)
    }
    fn num_method(&mut self, name: &str, a: T, t: &[T]) -> Option<Val> {
        let b = t.first().copied();
        let r = match (name, b) {
            ("checked_add", Some(b)) => {
                let mut v = vec![a, b];
                v.sort();
                return Some(Val::Opt(not(bool_of(call("ovf_add", v))), Rc::new(Val::T(add(a, b)))));
            }
            ("checked_mul", Some(b)) => {
                let mut v = vec![a, b];
                v.sort();
                return Some(Val::Opt(not(bool_of(call("ovf_mul", v))), Rc::new(Val::T(mul(a, b)))));
            }
            ("checked_sub", Some(b)) => return Some(Val::Opt(ge(a, b), Rc::new(Val::T(sub(a, b))))),
            ("checked_div", Some(b)) => return Some(Val::Opt(not(eq(b, int(0))), Rc::new(Val::T(bin("/", a, b))))),
            ("checked_rem", Some(b)) => return Some(Val::Opt(not(eq(b, int(0))), Rc::new(Val::T(bin("%", a, b))))),
            ("saturating_sub", Some(b)) => max2(sub(a, b), int(0)),
            ("saturating_add", Some(b)) | ("saturating_mul", Some(b)) | ("wrapping_add", Some(b)) | ("wrapping_mul", Some(b)) => {
                let mut v = vec![a, b];
                v.sort();
                call(name, v)
            }
            ("wrapping_sub", Some(b)) => call(name, vec![a, b]),
            ("pow", Some(b)) => match (get(a), get(b)) {
                (N::Int(x), N::Int(y)) if (0..127).contains(&y) => x.checked_pow(y as u32).map(int).unwrap_or_else(|| call("pow", vec![a, b])),
                _ => bin("pow", a, b),
            },
            ("max", Some(b)) => max2(a, b),
            ("min", Some(b)) => min2(a, b),
            ("abs_diff", Some(b)) => sub(max2(a, b), min2(a, b)),
            ("div_ceil", Some(b)) => bin("/", add(a, sub(b, int(1))), b),
            ("rem_euclid", Some(b)) => bin("%", a, b),
            ("clamp", Some(b)) if t.len() == 2 => min2(max2(a, b), t[1]),
            ("eq", Some(b)) => eq(a, b),
            ("ne", Some(b)) => not(eq(a, b)),
            ("lt", Some(b)) => lt(a, b),
            ("gt", Some(b)) => lt(b, a),
            ("le", Some(b)) => ge(b, a),
            ("ge", Some(b)) => ge(a, b),
            _ => return None,
        };
        Some(Val::T(r))
    }
}
include!("eval_call3.rs");
