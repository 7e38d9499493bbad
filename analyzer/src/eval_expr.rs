// Statements, expressions, patterns and control flow.

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

impl<'a> Ev<'a> {
    fn tick(&mut self) -> bool {
        self.steps += 1;
        self.steps < 400_000
    }
    fn block(&mut self, b: &syn::Block) -> Val {
        let saved = self.scope.clone();
        let h = self.hint.clone();
        let n = b.stmts.len();
        // items are visible in the whole block, and a lazy result may call them after it
        for s in &b.stmts {
            match s {
                Stmt::Item(syn::Item::Fn(f)) => {
                    let fr = self.frames.last();
                    let d = FnDef {
                        name: f.sig.ident.to_string(),
                        module: fr.map(|f| f.module.clone()).unwrap_or_default(),
                        file: self.stack.last().map(|s| s.0.clone()).unwrap_or_default(),
                        line: f.sig.ident.span().start().line,
                        sig: f.sig.clone(),
                        block: Some((*f.block).clone()),
                        self_ty: None,
                        trait_name: None,
                        is_pub: false,
                        key: String::new(),
                        attrs: vec![],
                        cfg: String::new(),
                    };
                    self.locals.insert(d.name.clone(), Rc::new(d));
                }
                Stmt::Item(syn::Item::Const(c)) => {
                    let t = &c.ty;
                    let h = quote::quote!(#t).to_string().replace(' ', "");
                    let v = self.with_hint(&h, |s| s.e(&c.expr));
                    self.declare(&c.ident.to_string(), v);
                }
                _ => {}
            }
        }
        let mut r = Val::T(unit());
        for (k, s) in b.stmts.iter().enumerate() {
            if self.st.dead {
                break;
            }
            if k + 1 == n {
                self.hint = h.clone();
            } else {
                self.hint = String::new();
            }
            r = self.stmt(s);
        }
        self.hint = h;
        self.scope = saved;
        r
    }
    fn stmt(&mut self, s: &Stmt) -> Val {
        match s {
            Stmt::Local(l) => {
                let (pat, ty) = match &l.pat {
                    Pat::Type(pt) => {
                        let t = &pt.ty;
                        (&*pt.pat, quote::quote!(#t).to_string().replace(' ', ""))
                    }
                    p => (p, String::new()),
                };
                let Some(init) = &l.init else {
                    self.bind_irrefutable(pat, Val::T(unit()));
                    return Val::T(unit());
                };
                self.hint = ty.clone();
                let mut v = self.e(&init.expr);
                self.hint = String::new();
                if self.st.dead {
                    return v;
                }
                if ty.starts_with("HashSet<") || ty.starts_with("BTreeSet<") {
                    let t = self.to_t(&v);
                    v = Val::T(set_of(t));
                }
                if let Some((_, els)) = &init.diverge {
                    let c = self.bind(pat, v);
                    let saved = self.st.clone();
                    let saved_scope = self.scope.clone();
                    self.st.pc = and(self.st.pc, not(c));
                    self.e(els);
                    self.scope = saved_scope;
                    if !self.st.dead && not(c) != fls() {
                        // else block must diverge
                        self.unknown("let-else falls through".into());
                    }
                    let mut s = saved;
                    s.pc = and(s.pc, c);
                    self.st = s;
                } else {
                    self.bind_irrefutable(pat, v);
                }
                Val::T(unit())
            }
            Stmt::Expr(e, semi) => {
                let v = self.e(e);
                if semi.is_some() {
                    // an unused iterator / closure value has no effect
                    Val::T(unit())
                } else {
                    v
                }
            }
            Stmt::Macro(m) => {
                let v = self.mac(&m.mac);
                if m.semi_token.is_some() {
                    Val::T(unit())
                } else {
                    v
                }
            }
            Stmt::Item(_) => Val::T(unit()),
        }
    }
    pub fn et(&mut self, e: &Expr) -> T {
        let v = self.e(e);
        self.to_t(&v)
    }
    pub fn no_hint<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let h = std::mem::take(&mut self.hint);
        let r = f(self);
        self.hint = h;
        r
    }
    fn with_hint<R>(&mut self, h: &str, f: impl FnOnce(&mut Self) -> R) -> R {
        let s = std::mem::replace(&mut self.hint, h.to_string());
        let r = f(self);
        self.hint = s;
        r
    }
    fn die(&mut self) -> Val {
        self.st.dead = true;
        Val::T(unit())
    }
    /// Return `val` from the current frame when `cond` holds (under pc).
    fn ret_when(&mut self, cond: T, val: T) {
        let c = and(self.st.pc, cond);
        if c == fls() {
            return;
        }
        let store = self.st.store.clone();
        let fr = self.frames.last_mut().unwrap();
        if let Some(l) = fr.loops.last_mut() {
            l.events.push((c, store, Some(val)));
        } else {
            fr.exits.push(Exit { cond: c, val, store });
        }
        self.st.pc = and(self.st.pc, not(cond));
        if self.st.pc == fls() {
            self.st.dead = true;
        }
    }
    fn do_return(&mut self, val: T) -> Val {
        if is_err_leaf(val) {
            self.fail_if(tru());
            return self.die();
        }
        self.ret_when(tru(), val);
        self.die()
    }
    fn question(&mut self, t: T) -> T {
        let okc = is_var(t, "Ok");
        self.fail_if(not(okc));
        if okc == fls() {
            self.st.dead = true;
            return unit();
        }
        payload_all(t)
    }
    fn is_frame_option(&self) -> bool {
        let r = &self.frames.last().unwrap().ret;
        r.starts_with("Option") || r.starts_with("Result")
    }
    /// Evaluate a branch under condition c starting from state `s`.
    fn branch(&mut self, s: &St, c: T, f: impl FnOnce(&mut Self) -> Val) -> (Val, St) {
        let scope = self.scope.clone();
        self.st = s.clone();
        self.st.pc = and(s.pc, c);
        let hint = self.hint.clone();
        let v = if self.st.pc == fls() {
            self.st.dead = true;
            Val::T(unit())
        } else {
            f(self)
        };
        self.hint = hint;
        self.scope = scope;
        let dummy = St { store: vec![], pc: fls(), dead: true };
        (v, std::mem::replace(&mut self.st, dummy))
    }
    fn join(&mut self, c: T, a: (Val, St), b: (Val, St)) -> Val {
        let v = if a.1.dead && b.1.dead {
            Val::T(unit())
        } else if a.1.dead {
            b.0
        } else if b.1.dead {
            a.0
        } else {
            // evaluate references against their own stores
            let n = a.1.store.len().min(b.1.store.len());
            let both = if self.alias_ok { self.outlives(&a.1, &a.0, n).zip(self.outlives(&b.1, &b.0, n)) } else { None };
            self.alias_ok = false;
            match (&a.0, &b.0) {
                _ if matches!(&both, Some((x, y)) if !same_ref(x, y)) => {
                    let (x, y) = both.unwrap();
                    Val::Alias(c, Rc::new(x), Rc::new(y))
                }
                (Val::Ref(p), Val::Ref(q)) if place_eq(p, q) && p.slot < a.1.store.len().min(b.1.store.len()) => a.0.clone(),
                _ => {
                    let va = self.detach(&a);
                    let vb = self.detach(&b);
                    self.merge_val(c, &va, &vb)
                }
            }
        };
        self.alias_ok = false;
        self.merge_states(c, a.1, b.1);
        v
    }
    fn detach(&mut self, x: &(Val, St)) -> Val {
        match &x.0 {
            Val::Tup(vs) => Val::Tup(vs.iter().map(|v| self.detach(&(v.clone(), x.1.clone()))).collect()),
            Val::It(_) | Val::Clo(_) | Val::Ref(_) | Val::Opt(..) => {
                let keep = std::mem::replace(&mut self.st, x.1.clone());
                let t = self.to_t(&x.0.clone());
                self.st = keep;
                Val::T(t)
            }
            v => v.clone(),
        }
    }
    fn if_branches(&mut self, cond: T, s: St, ft: impl FnOnce(&mut Self) -> Val, ff: impl FnOnce(&mut Self) -> Val) -> Val {
        let a = self.branch(&s, cond, ft);
        let b = self.branch(&s, not(cond), ff);
        self.join(cond, a, b)
    }
    /// Condition of an `if`/`while`, possibly with `let` bindings.
    fn cond(&mut self, e: &Expr) -> T {
        match unparen(e) {
            Expr::Let(l) => {
                let v = self.no_hint(|s| s.e(&l.expr));
                self.bind(&l.pat, v)
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                let a = self.cond(&b.left);
                self.guarded(a, |s| s.cond(&b.right), |c| c, fls())
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Or(_)) => {
                let a = self.cond(&b.left);
                self.guarded(not(a), |s| s.cond(&b.right), |c| c, tru())
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {
                let c = self.cond(&u.expr);
                not(c)
            }
            x => {
                let t = self.no_hint(|s| s.et(x));
                bool_of(t)
            }
        }
    }
    fn guarded(&mut self, g: T, f: impl FnOnce(&mut Self) -> T, post: impl FnOnce(T) -> T, other: T) -> T {
        if g == fls() || self.st.dead {
            return other;
        }
        let pre = self.st.clone();
        self.st.pc = and(pre.pc, g);
        if self.st.pc == fls() {
            self.st = pre;
            return other;
        }
        let c = post(f(self));
        let extra: Vec<Val> = if self.st.store.len() > pre.store.len() { self.st.store[pre.store.len()..].to_vec() } else { vec![] };
        let post_st = self.st.clone();
        let pre_dead = pre.pc;
        let was_dead = post_st.dead;
        self.merge_states(g, post_st, pre);
        if !was_dead {
            self.st.pc = pre_dead;
        }
        self.st.store.extend(extra);
        ite(g, c, other)
    }
    // ---------- patterns ----------
    fn bind_irrefutable(&mut self, p: &Pat, v: Val) {
        self.bind(p, v);
    }
    fn sub(&mut self, v: &Val, e: PE) -> Val {
        match (v, &e) {
            (Val::Ref(p), _) => {
                if let (Some(Val::Tup(vs)), PE::F(f)) = (self.st.store.get(p.slot), &e) {
                    if p.path.is_empty() {
                        if let Some(x) = f.parse::<usize>().ok().and_then(|i| vs.get(i)) {
                            return x.clone();
                        }
                    }
                }
                let mut p = p.clone();
                p.path.push(e);
                Val::Ref(p)
            }
            (Val::Tup(vs), PE::F(f)) => match f.parse::<usize>().ok().and_then(|i| vs.get(i)) {
                Some(x) => x.clone(),
                None => Val::T(self.unknown("tuple field".into())),
            },
            _ => {
                let t = self.to_t(v);
                Val::T(match e {
                    PE::F(f) => field(t, &f),
                    PE::I(i) => index(t, i),
                    PE::P(n, k) => payload(t, &n, k),
                    PE::S(a, b) => slice(t, a, b),
                    PE::V(n) => crate::eval::view(t, &n),
                })
            }
        }
    }
    /// Bind pattern variables, returning the match condition.
    fn bind(&mut self, p: &Pat, v: Val) -> T {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if i.subpat.is_none() && n.chars().next().unwrap().is_uppercase() {
                    if n == "None" {
                        let t = self.to_t(&v);
                        return not(is_var(t, "Ok"));
                    }
                    if let Some(c) = self.path_value(&[n.clone()], false) {
                        let (a, b) = (self.to_t(&v), self.to_t(&c));
                        return match get(b) {
                            N::Ctor(k, x) if x.is_empty() => is_var(a, &k),
                            _ => eq(a, b),
                        };
                    }
                }
                if let Some((_, sp)) = &i.subpat {
                    let c = self.bind(sp, v.clone());
                    self.declare(&n, v);
                    return c;
                }
                self.declare(&n, v);
                tru()
            }
            Pat::Wild(_) | Pat::Rest(_) => tru(),
            Pat::Type(t) => self.bind(&t.pat, v),
            Pat::Paren(t) => self.bind(&t.pat, v),
            Pat::Reference(r) => {
                let v = match v {
                    Val::Ref(p) => Val::T(self.read_place(&p)),
                    x => x,
                };
                self.bind(&r.pat, v)
            }
            Pat::Tuple(t) => {
                let mut c = tru();
                for (k, q) in t.elems.iter().enumerate() {
                    let s = self.sub(&v, PE::F(k.to_string()));
                    c = and(c, self.bind(q, s));
                }
                c
            }
            Pat::Lit(l) => {
                let lit = self.lit(&l.lit);
                let t = self.to_t(&v);
                match get(lit) {
                    N::Bool(true) => bool_of(t),
                    N::Bool(false) => not(bool_of(t)),
                    _ => eq(t, lit),
                }
            }
            Pat::Or(o) => {
                let mut c = fls();
                for q in &o.cases {
                    // bindings of the last case win; equal structure is required by rustc
                    let d = self.bind(q, v.clone());
                    c = or(c, d);
                }
                c
            }
            Pat::Path(pp) => {
                let segs = path_strs(&pp.path);
                self.variant_test(&segs, &v)
            }
            Pat::TupleStruct(ts) => {
                let segs = path_strs(&ts.path);
                let name = segs.last().unwrap().clone();
                let (vn, neg) = match name.as_str() {
                    "Some" | "Ok" => ("Ok".to_string(), false),
                    "Err" => ("Err".to_string(), true),
                    _ => (name.clone(), false),
                };
                if let (Val::Opt(c, inner), false, 1) = (&v, neg, ts.elems.len()) {
                    if vn == "Ok" {
                        let keep = self.st.pc;
                        self.st.pc = and(keep, *c);
                        let d = self.bind(&ts.elems[0], (**inner).clone());
                        self.st.pc = keep;
                        return and(*c, d);
                    }
                }
                let t = self.to_t(&v);
                let struct_like = self.is_struct(&segs);
                let mut c = if struct_like {
                    tru()
                } else if neg {
                    not(is_var(t, "Ok"))
                } else {
                    is_var(t, &vn)
                };
                for (k, q) in ts.elems.iter().enumerate() {
                    let s = if struct_like { self.sub(&v, PE::F(k.to_string())) } else { self.sub(&v, PE::P(vn.clone(), k as u32)) };
                    c = and(c, self.bind(q, s));
                }
                c
            }
            Pat::Struct(st) => {
                let segs = path_strs(&st.path);
                let t = self.to_t(&v);
                // a name that is out of scope here but names a structure of the program can only be that structure
                let struct_like = self.is_struct(&segs)
                    || segs.len() == 1 && self.rsv(&segs).is_none() && self.env.prog.modules.values().any(|m| matches!(m.items.get(&segs[0]), Some(It::Struct(_))));
                let name = segs.last().unwrap().clone();
                let mut c = if struct_like { tru() } else { is_var(t, &name) };
                let pv = if struct_like { v.clone() } else { self.sub(&v, PE::P(name, 0)) };
                for f in &st.fields {
                    let n = match &f.member {
                        syn::Member::Named(i) => i.to_string(),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    let s = self.sub(&pv, PE::F(n));
                    c = and(c, self.bind(&f.pat, s));
                }
                c
            }
            Pat::Range(r) => {
                let t = self.to_t(&v);
                let mut c = tru();
                if let Some(a) = &r.start {
                    let a = self.et(a);
                    c = and(c, ge(t, a));
                }
                if let Some(b) = &r.end {
                    let b = self.et(b);
                    c = and(
                        c,
                        match r.limits {
                            syn::RangeLimits::HalfOpen(_) => lt(t, b),
                            _ => ge(b, t),
                        },
                    );
                }
                self.known_differences(c)
            }
            Pat::Slice(s) => {
                let t = self.to_t(&v);
                let n = s.elems.len();
                let rest = s.elems.iter().position(|q| matches!(q, Pat::Rest(_)) || matches!(q, Pat::Ident(i) if i.subpat.as_ref().map_or(false, |(_, p)| matches!(**p, Pat::Rest(_)))));
                let l = len(t);
                let mut c = match rest {
                    None => eq(l, int(n as i128)),
                    Some(_) => ge(l, int(n as i128 - 1)),
                };
                for (k, q) in s.elems.iter().enumerate() {
                    let sv = match rest {
                        Some(r) if k == r => {
                            if let Pat::Ident(i) = q {
                                let sl = slice(t, int(r as i128), sub(l, int((n - 1 - r) as i128)));
                                self.declare(&i.ident.to_string(), Val::T(sl));
                            }
                            continue;
                        }
                        Some(r) if k > r => index(t, sub(l, int((n - k) as i128))),
                        _ => index(t, int(k as i128)),
                    };
                    c = and(c, self.bind(q, Val::T(sv)));
                }
                c
            }
            _ => {
                let s = quote::quote!(#p).to_string();
                self.unknown(format!("pattern {s}"))
            }
        }
    }
    fn is_struct(&self, segs: &[String]) -> bool {
        if segs.len() == 1 && segs[0] == "Self" {
            return true;
        }
        match self.rsv(segs) {
            Some((m, n)) => matches!(self.env.prog.item(&m, &n), Some(It::Struct(_)) | Some(It::Type(_))),
            None => false,
        }
    }
    fn variant_test(&mut self, segs: &[String], v: &Val) -> T {
        let name = segs.last().unwrap().clone();
        let t = self.to_t(v);
        if name == "None" {
            return not(is_var(t, "Ok"));
        }
        if let Some(c) = self.path_value(segs, false) {
            let b = self.to_t(&c);
            return match get(b) {
                N::Ctor(k, x) if x.is_empty() => is_var(t, &k),
                _ => eq(t, b),
            };
        }
        is_var(t, &name)
    }
}
include!("eval_expr2.rs");
