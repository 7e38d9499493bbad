// Expressions.

pub fn set_of(t: T) -> T {
    match get(t) {
        N::SetOf(_) => t,
        _ => mk(N::SetOf(t)),
    }
}
fn binop_name(op: &syn::BinOp) -> (&'static str, bool) {
    use syn::BinOp::*;
    match op {
        Add(_) => ("+", false),
        Sub(_) => ("-", false),
        Mul(_) => ("*", false),
        Div(_) => ("/", false),
        Rem(_) => ("%", false),
        BitXor(_) => ("^", false),
        BitAnd(_) => ("&", false),
        BitOr(_) => ("|", false),
        Shl(_) => ("<<", false),
        Shr(_) => (">>", false),
        Eq(_) => ("==", false),
        Lt(_) => ("<", false),
        Le(_) => ("<=", false),
        Ne(_) => ("!=", false),
        Ge(_) => (">=", false),
        Gt(_) => (">", false),
        AddAssign(_) => ("+", true),
        SubAssign(_) => ("-", true),
        MulAssign(_) => ("*", true),
        DivAssign(_) => ("/", true),
        RemAssign(_) => ("%", true),
        BitXorAssign(_) => ("^", true),
        BitAndAssign(_) => ("&", true),
        BitOrAssign(_) => ("|", true),
        ShlAssign(_) => ("<<", true),
        ShrAssign(_) => (">>", true),
        _ => ("?", false),
    }
}
pub use crate::text::is_text;
/// Does the expression yield a mutable reference, as written?
fn tail_mut(e: &Expr) -> bool {
    match e {
        Expr::Reference(r) => r.mutability.is_some(),
        Expr::Block(b) => tail_mut_block(&b.block),
        Expr::Paren(p) => tail_mut(&p.expr),
        Expr::If(i) => tail_mut_block(&i.then_branch),
        Expr::Match(m) => m.arms.iter().any(|a| tail_mut(&a.body)),
        _ => false,
    }
}
fn tail_mut_block(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(syn::Stmt::Expr(e, None)) if tail_mut(e))
}
pub fn arith(op: &str, a: T, b: T) -> T {
    match op {
        "+" if is_text(a) || is_text(b) => append(a, b),
        "+" => add(a, b),
        "-" => sub(a, b),
        "*" => mul(a, b),
        "/" => bin("/", a, b),
        "%" => bin("%", a, b),
        "^" => bin("^", a, b),
        "&" => bin("&", a, b),
        "|" => bin("|", a, b),
        "<<" => bin("<<", a, b),
        ">>" => bin(">>", a, b),
        "==" => eq(a, b),
        "!=" => not(eq(a, b)),
        "<" => lt(a, b),
        ">" => lt(b, a),
        "<=" => ge(b, a),
        ">=" => ge(a, b),
        _ => unk(format!("op{op}")),
    }
}

impl<'a> Ev<'a> {
    fn lit(&mut self, l: &syn::Lit) -> T {
        match l {
            syn::Lit::Int(i) => match i.base10_parse::<u128>() {
                Ok(x) if x <= i128::MAX as u128 => int(x as i128),
                _ => sym(&format!("lit{}", i.base10_digits())),
            },
            syn::Lit::Bool(b) => mk(N::Bool(b.value)),
            syn::Lit::Str(s) => mk(N::Str(s.value())),
            syn::Lit::Char(c) => mk(N::Str(c.value().to_string())),
            syn::Lit::Byte(b) => int(b.value() as i128),
            syn::Lit::ByteStr(b) => {
                let v: Vec<T> = b.value().iter().map(|x| elem(int(*x as i128))).collect();
                concat(v)
            }
            syn::Lit::Float(f) => sym(&format!("f{}", f.base10_digits())),
            _ => unk("literal"),
        }
    }
    fn e(&mut self, x: &Expr) -> Val {
        if self.st.dead {
            return Val::T(unit());
        }
        if !self.tick() {
            return Val::T(self.unknown("step limit".into()));
        }
        match x {
            Expr::Paren(p) => self.e(&p.expr),
            Expr::Group(p) => self.e(&p.expr),
            Expr::Lit(l) => Val::T(self.lit(&l.lit)),
            Expr::Path(p) => {
                let segs = path_strs(&p.path);
                if segs.len() == 1 {
                    if let Some(&s) = self.scope.get(&segs[0]) {
                        return match self.st.store.get(s) {
                            Some(v) => v.clone(),
                            None => Val::T(self.unknown(format!("slot {}", segs[0]))),
                        };
                    }
                }
                match self.path_value(&segs, true) {
                    Some(v) => v,
                    None => Val::T(self.unknown(format!("path {}", segs.join("::")))),
                }
            }
            Expr::Field(f) => {
                let b = self.no_hint(|s| s.e(&f.base));
                let n = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                match b {
                    Val::Ref(p) => {
                        let p = self.norm_place(&p);
                        match self.sub(&Val::Ref(p), PE::F(n)) {
                            Val::Ref(q) => {
                                let t = self.read_place(&q);
                                Val::T(t)
                            }
                            v => v,
                        }
                    }
                    b => self.sub(&b, PE::F(n)),
                }
            }
            Expr::Index(i) => {
                let b = self.no_hint(|s| s.et(&i.expr));
                let iv = self.no_hint(|s| s.e(&i.index));
                Val::T(self.index_any(b, &iv))
            }
            Expr::Unary(u) => match u.op {
                syn::UnOp::Not(_) => {
                    let t = self.et(&u.expr);
                    if self.is_boolish(t) {
                        Val::T(not(bool_of(t)))
                    } else {
                        Val::T(un("!", t))
                    }
                }
                syn::UnOp::Neg(_) => {
                    let t = self.et(&u.expr);
                    Val::T(sub(int(0), t))
                }
                _ => {
                    let v = self.e(&u.expr);
                    match v {
                        Val::Ref(p) => Val::T(self.read_place(&p)),
                        v => v,
                    }
                }
            },
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Some(p) = self.place(&r.expr) {
                        return Val::Ref(p);
                    }
                    let v = self.e(&r.expr);
                    if matches!(v, Val::Ref(_)) {
                        return v;
                    }
                    // temporary
                    self.st.store.push(v);
                    return Val::Ref(Place { slot: self.st.store.len() - 1, path: vec![] });
                }
                let v = self.e(&r.expr);
                match v {
                    Val::Ref(p) if !matches!(self.st.store.get(p.slot), Some(Val::It(_))) => Val::T(self.read_place(&p)),
                    v => v,
                }
            }
            Expr::Binary(b) => self.binary(b),
            Expr::Cast(c) => {
                let t = self.no_hint(|s| s.et(&c.expr));
                let ty = &c.ty;
                let ty = quote::quote!(#ty).to_string().replace(' ', "");
                Val::T(self.cast_value(&ty, t))
            }
            Expr::Assign(a) => {
                let v = self.no_hint(|s| s.e(&a.right));
                if self.st.dead {
                    return Val::T(unit());
                }
                self.assign(&a.left, v);
                Val::T(unit())
            }
            Expr::If(i) => {
                let saved_scope = self.scope.clone();
                let c = self.cond(&i.cond);
                if self.st.dead {
                    self.scope = saved_scope;
                    return Val::T(unit());
                }
                let s = self.st.clone();
                let then = &i.then_branch;
                let a = self.branch(&s, c, |s| s.block(then));
                self.scope = saved_scope;
                let els = i.else_branch.as_ref().map(|x| x.1.clone());
                let b = self.branch(&s, not(c), |s| match &els {
                    Some(x) => s.e(x),
                    None => Val::T(unit()),
                });
                self.alias_ok = tail_mut_block(&i.then_branch) || i.else_branch.as_ref().map_or(false, |x| tail_mut(&x.1));
                self.join(c, a, b)
            }
            Expr::Match(m) => {
                let v = self.no_hint(|s| match s.place(&m.expr) {
                    Some(p) => Val::Ref(s.norm_place(&p)),
                    None => s.e(&m.expr),
                });
                if self.st.dead {
                    return Val::T(unit());
                }
                self.match_arms(&v, &m.arms)
            }
            Expr::Let(_) => {
                let c = self.cond(x);
                Val::T(c)
            }
            Expr::Block(b) => self.block(&b.block),
            Expr::Unsafe(b) => self.block(&b.block),
            Expr::Const(b) => self.block(&b.block),
            Expr::Async(b) => self.block(&b.block),
            Expr::Await(a) => self.e(&a.base),
            Expr::Return(r) => {
                let h = self.frames.last().unwrap().ret.clone();
                let v = match &r.expr {
                    Some(e) => self.with_hint(&h, |s| s.et(e)),
                    None => unit(),
                };
                if self.st.dead {
                    return Val::T(unit());
                }
                self.do_return(v)
            }
            Expr::Try(t) => {
                let h = if self.hint.is_empty() { String::new() } else { format!("Result<{}>", self.hint) };
                let t = self.with_hint(&h, |s| match s.place(&t.expr) {
                    Some(p) => {
                        let c = s.read_place(&p);
                        s.question(c);
                        let mut p = s.norm_place(&p);
                        p.path.push(PE::P("Ok".into(), 0));
                        Val::Ref(p)
                    }
                    None => match s.e(&t.expr) {
                        Val::Ref(p) => {
                            let c = s.read_place(&p);
                            s.question(c);
                            let mut p = s.norm_place(&p);
                            p.path.push(PE::P("Ok".into(), 0));
                            Val::Ref(p)
                        }
                        Val::Opt(c, inner) => {
                            s.fail_if(not(c));
                            if c == fls() {
                                s.st.dead = true;
                            }
                            (*inner).clone()
                        }
                        v => {
                            let c = s.to_t(&v);
                            if s.st.dead {
                                return Val::T(unit());
                            }
                            Val::T(s.question(c))
                        }
                    },
                });
                t
            }
            Expr::Struct(s) => self.struct_lit(s),
            Expr::Tuple(t) => {
                if t.elems.is_empty() {
                    return Val::T(unit());
                }
                let h = std::mem::take(&mut self.hint);
                let v = t.elems.iter().map(|x| self.e(x)).collect();
                self.hint = h;
                Val::Tup(v)
            }
            Expr::Array(a) => {
                let mut v = vec![];
                for x in &a.elems {
                    let t = self.no_hint(|s| s.et(x));
                    v.push(t);
                }
                Val::T(liftn(&v, &mut |x| concat(x.iter().map(|y| elem(*y)).collect())))
            }
            Expr::Repeat(r) => {
                let x = self.no_hint(|s| s.et(&r.expr));
                let n = self.no_hint(|s| s.et(&r.len));
                Val::T(repeat(x, n))
            }
            Expr::Range(r) => {
                let a = r.start.as_ref().map(|e| self.no_hint(|s| s.et(e)));
                let b = r.end.as_ref().map(|e| self.no_hint(|s| s.et(e)));
                let b = match (b, &r.limits) {
                    (Some(b), syn::RangeLimits::Closed(_)) => Some(add(b, int(1))),
                    (b, _) => b,
                };
                match (a, b) {
                    (Some(a), Some(b)) => {
                        let iv = fresh_var("i");
                        Val::It(Rc::new(Iter { gens: vec![(a, b, iv)], cond: tru(), elem: Val::T(iv), rev: false }))
                    }
                    (a, b) => Val::T(mk(N::Call("range_open".into(), vec![a.unwrap_or(sym("START")), b.unwrap_or(sym("END"))]))),
                }
            }
            Expr::Closure(c) => {
                let m = self.module();
                let st = self.frames.last().and_then(|f| f.self_ty.clone());
                Val::Clo(Rc::new(Clo { inputs: c.inputs.iter().cloned().collect(), body: Rc::new((*c.body).clone()), scope: self.scope.clone(), frame_module: m, self_ty: st }))
            }
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.mcall(m),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(w) => self.while_loop(w),
            Expr::Loop(l) => self.inf_loop(l),
            Expr::Break(b) => {
                if b.expr.is_some() {
                    return Val::T(self.unknown("break with value".into()));
                }
                let c = self.st.pc;
                let store = self.st.store.clone();
                let fr = self.frames.last_mut().unwrap();
                let inner = match (&b.label, fr.loops.last()) {
                    (None, Some(_)) => true,
                    (Some(l), Some(x)) => x.label.as_deref() == Some(&l.ident.to_string()),
                    _ => false,
                };
                if !inner {
                    return Val::T(self.unknown("outer break".into()));
                }
                fr.loops.last_mut().unwrap().events.push((c, store, None));
                self.die()
            }
            Expr::Continue(b) => {
                let c = self.st.pc;
                let store = self.st.store.clone();
                let fr = self.frames.last_mut().unwrap();
                let inner = match (&b.label, fr.loops.last()) {
                    (None, Some(_)) => true,
                    (Some(l), Some(x)) => x.label.as_deref() == Some(&l.ident.to_string()),
                    _ => false,
                };
                if !inner {
                    return Val::T(self.unknown("outer continue".into()));
                }
                fr.loops.last_mut().unwrap().conts.push((c, store));
                self.die()
            }
            _ => {
                let s = quote::quote!(#x).to_string();
                Val::T(self.unknown(format!("expr {}", s.chars().take(60).collect::<String>())))
            }
        }
    }
    fn is_boolish(&self, t: T) -> bool {
        is_bool_term(t) || matches!(get(t), N::Field(..) | N::Call(..) | N::Var(..) | N::Payload(..) | N::Index(..) | N::Unk(..) | N::Acc(..) | N::CallOut(..))
    }
    fn range_bounds(&mut self, b: T, iv: &Val) -> (T, T) {
        if let Val::It(i) = iv {
            if let [(lo, hi, _)] = &i.gens[..] {
                return (*lo, *hi);
            }
        }
        let it = self.to_t(iv);
        match get(it) {
            N::Call(n, a) if n == "range_open" => (if a[0] == sym("START") { int(0) } else { a[0] }, if a[1] == sym("END") { len(b) } else { a[1] }),
            _ => (int(0), len(b)),
        }
    }
    fn index_any(&mut self, b: T, iv: &Val) -> T {
        if let Val::It(i) = iv {
            if let ([(lo, hi, v)], Val::T(e)) = (&i.gens[..], &i.elem) {
                if v == e && i.cond == tru() {
                    return slice(b, *lo, *hi);
                }
            }
        }
        let it = self.to_t(iv);
        match get(it) {
            N::Call(n, a) if n == "range_open" => {
                let lo = if a[0] == sym("START") { int(0) } else { a[0] };
                let hi = if a[1] == sym("END") { len(b) } else { a[1] };
                slice(b, lo, hi)
            }
            _ => index(b, it),
        }
    }
    fn match_arms(&mut self, v: &Val, arms: &[syn::Arm]) -> Val {
        if arms.is_empty() {
            self.fail_if(tru());
            return self.die();
        }
        let arm = &arms[0];
        let saved_scope = self.scope.clone();
        let mut c = self.bind(&arm.pat, v.clone());
        let last = arms.len() == 1;
        if last && arm.guard.is_none() {
            c = tru();
        }
        if let Some((_, g)) = &arm.guard {
            c = self.guarded(c, |s| s.cond(g), |x| x, fls());
        }
        let s = self.st.clone();
        let h = self.hint.clone();
        let a = self.branch(&s, c, |s| {
            s.hint = h;
            s.e(&arm.body)
        });
        self.scope = saved_scope;
        if c == tru() {
            self.st = a.1;
            return a.0;
        }
        let b = self.branch(&s, not(c), |s| s.match_arms(v, &arms[1..]));
        self.alias_ok = arms.iter().any(|a| tail_mut(&a.body));
        self.join(c, a, b)
    }
    fn binary(&mut self, b: &syn::ExprBinary) -> Val {
        use syn::BinOp::*;
        match b.op {
            And(_) | Or(_) => {
                let e = Expr::Binary(b.clone());
                return Val::T(self.cond(&e));
            }
            _ => {}
        }
        let (op, assign) = binop_name(&b.op);
        if assign {
            let r = self.no_hint(|s| s.et(&b.right));
            if self.st.dead {
                return Val::T(unit());
            }
            match self.place(&b.left) {
                Some(p) => {
                    let cur = self.read_place(&p);
                    let v = self.arith_b(op, cur, r);
                    self.write_place(&p, v);
                }
                None => {
                    self.unknown(format!("compound assignment target {}", quote::quote!(#b)));
                }
            }
            return Val::T(unit());
        }
        let l = self.no_hint(|s| s.et(&b.left));
        let r = self.no_hint(|s| s.et(&b.right));
        Val::T(self.arith_b(op, l, r))
    }
    fn arith_b(&mut self, op: &str, l: T, r: T) -> T {
        if (op == "&" || op == "|" || op == "^") && (is_bool_term(l) || is_bool_term(r)) {
            let (a, b) = (bool_of(l), bool_of(r));
            return match op {
                "&" => and(a, b),
                "|" => or(a, b),
                _ => ite(a, not(b), b),
            };
        }
        let t = arith(op, l, r);
        match op {
            "<" | "<=" | ">" | ">=" | "==" | "!=" => self.known_differences(t),
            _ => t,
        }
    }
    /// A subtraction the path condition keeps from underflowing is an ordinary difference.
    fn known_differences(&self, t: T) -> T {
        let ds = differences(t);
        let m: HashMap<T, T> = ds.into_iter().filter(|(_, l)| and(self.st.pc, not(nonneg(*l))) == fls())
            .map(|(d, l)| (d, if matches!(get(d), N::Eq(..)) { not(nonneg(sub(l, int(1)))) } else { l }))
            .collect();
        if m.is_empty() { t } else { subst(t, &m) }
    }
    fn assign(&mut self, l: &Expr, v: Val) {
        match unparen(l) {
            Expr::Infer(_) => {}
            Expr::Tuple(t) => {
                for (k, x) in t.elems.iter().enumerate() {
                    let s = self.sub(&v, PE::F(k.to_string()));
                    self.assign(x, s);
                }
            }
            x => match self.place(x) {
                Some(p) => {
                    let np = self.norm_place(&p);
                    if np.path.is_empty() && matches!(v, Val::It(_) | Val::Clo(_) | Val::Ref(_)) && matches!(x, Expr::Path(_)) {
                        self.st.store[p.slot] = v;
                        return;
                    }
                    let t = self.to_t(&v);
                    self.write_place(&p, t);
                }
                None => {
                    self.unknown(format!("assignment target {}", quote::quote!(#l)));
                }
            },
        }
    }
    /// The storage location denoted by an expression, if any.
    fn place(&mut self, x: &Expr) -> Option<Place> {
        match unparen(x) {
            Expr::Path(p) => {
                let segs = path_strs(&p.path);
                if segs.len() != 1 {
                    return None;
                }
                self.scope.get(&segs[0]).map(|s| Place { slot: *s, path: vec![] })
            }
            Expr::Field(f) => {
                let mut p = self.place(&f.base)?;
                p = self.norm_place(&p);
                p.path.push(PE::F(match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                }));
                Some(self.norm_place(&p))
            }
            Expr::Index(i) => {
                let mut p = self.place(&i.expr)?;
                p = self.norm_place(&p);
                if matches!(unparen(&i.index), Expr::Range(_)) {
                    let cur = self.read_place(&p);
                    let r = self.no_hint(|s| s.e(&i.index));
                    let sl = self.index_any(cur, &r);
                    if sl != cur {
                        let (lo, hi) = self.range_bounds(cur, &r);
                        p.path.push(PE::S(lo, hi));
                    }
                    return Some(p);
                }
                let t = self.no_hint(|s| s.et(&i.index));
                p.path.push(PE::I(t));
                Some(p)
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.place(&u.expr),
            Expr::Reference(r) if r.mutability.is_some() => self.place(&r.expr),
            Expr::Try(t) => {
                let mut p = self.place(&t.expr)?;
                let c = self.read_place(&p);
                self.question(c);
                p = self.norm_place(&p);
                p.path.push(PE::P("Ok".into(), 0));
                Some(p)
            }
            Expr::MethodCall(m) => self.place_method(m),
            _ => None,
        }
    }
    fn place_method(&mut self, m: &syn::ExprMethodCall) -> Option<Place> {
        let n = m.method.to_string();
        match n.as_str() {
            "as_mut" | "borrow_mut" | "deref_mut" | "as_mut_slice" | "by_ref" | "as_deref_mut" => self.place(&m.receiver),
            "unwrap" | "expect" | "ok_or" | "ok_or_else" => {
                let mut p = self.place(&m.receiver)?;
                p = self.norm_place(&p);
                if n.starts_with("ok_or") {
                    return Some(p);
                }
                p.path.push(PE::P("Ok".into(), 0));
                Some(p)
            }
            "view_bits_mut" | "entry" | "or_default" | "or_insert" | "or_insert_with" => match self.entry_method(m, &n)? {
                Val::Ref(p) => Some(p),
                _ => None,
            },
            "get_mut" => {
                // Option-valued place: modelled as the element, guarded by the length
                None
            }
            _ => None,
        }
    }
}
include!("eval_expr3.rs");
