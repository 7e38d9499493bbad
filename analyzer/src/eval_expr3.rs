// Paths, constants, struct literals, macros, closures, casts.

pub fn repeat(x: T, n: T) -> T {
    call("repeat", vec![x, n])
}
pub fn cast_to(ty: &str, t: T) -> T {
    match ty {
        "u8" | "u16" | "u32" | "i8" | "i16" | "i32" | "i64" | "i128" | "f64" | "f32" => cast(ty, t),
        _ => t,
    }
}
fn has_product(t: T) -> bool {
    match get(t) {
        N::Mul(_) => true,
        N::Lin(v, _) => v.iter().any(|x| x.1.abs() > 1 || has_product(x.0)),
        N::Ite(_, a, b) => has_product(a) || has_product(b),
        _ => false,
    }
}
fn last2(segs: &[String]) -> (&str, &str) {
    let n = segs.len();
    if n >= 2 {
        (&segs[n - 2], &segs[n - 1])
    } else {
        ("", &segs[n - 1])
    }
}
fn prim_bits(t: &str) -> Option<u32> {
    Some(match t {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        "u64" | "usize" | "Epoch" | "Slot" | "Gwei" | "ValidatorIndex" | "CommitteeIndex" | "WithdrawalIndex" => 64,
        "u128" => 128,
        _ => return None,
    })
}

impl<'a> Ev<'a> {
    /// Can the value exceed 64 bits?
    fn is_wide(&self, t: T) -> bool {
        if self.wide.contains(&t) {
            return true;
        }
        match get(t) {
            N::Field(_, f) => self.wide_names.contains(&f),
            N::Call(f, _) => {
                let f = f.rsplit([':', '.']).next().unwrap_or("").to_string();
                matches!(f.as_str(), "as_nanos" | "as_micros" | "as_millis") || self.wide_names.contains(&(f + "()"))
            }
            N::Lin(v, _) => v.iter().any(|x| self.is_wide(x.0)),
            N::Mul(v) | N::Max(v) => v.iter().any(|x| self.is_wide(*x)),
            N::Ite(_, a, b) => self.is_wide(a) || self.is_wide(b),
            N::Bin("/", a, _) => self.is_wide(a),
            N::Payload(a, _, _) => self.is_wide(a),
            _ => false,
        }
    }
    /// `as` keeps the low bits: the identity only where the value is known to fit.
    fn cast_value(&mut self, ty: &str, t: T) -> T {
        match ty {
            "u64" | "usize" if self.is_wide(t) => cast(ty, t),
            // multiplied in 64 bits before it was widened
            "u128" if has_product(t) && !self.is_wide(t) => cast(ty, t),
            _ => cast_to(ty, t),
        }
    }
    /// Value of a non-local path: constant, enum variant, function, generic parameter.
    fn path_value(&mut self, segs: &[String], fall: bool) -> Option<Val> {
        let (a, b) = {
            let (a, b) = last2(segs);
            (a.to_string(), b.to_string())
        };
        if segs.len() == 1 {
            match b.as_str() {
                "None" => return Some(Val::T(err())),
                "Some" | "Ok" => return Some(Val::Fun(vec!["Ok".into()])),
                "Err" => return Some(Val::Fun(vec!["Err".into()])),
                "self" => return None,
                _ => {}
            }
        }
        if segs.len() >= 2 {
            if let Some(bits) = prim_bits(&a) {
                match b.as_str() {
                    "MAX" => {
                        return Some(Val::T(if bits == 128 { sym("u128::MAX") } else { int((1i128 << bits) - 1) }));
                    }
                    "MIN" => return Some(Val::T(int(0))),
                    "BITS" => return Some(Val::T(int(bits as i128))),
                    _ => {}
                }
            }
        }
        let segs2: Vec<String> = segs.to_vec();
        if let Some((dm, name)) = self.rsv(&segs2) {
            match self.env.prog.item(&dm, &name) {
                Some(It::Const(_)) => return Some(Val::T(self.const_value(&dm, &name))),
                Some(It::Fn(_)) => return Some(Val::Fun(segs2)),
                Some(It::Struct(s)) => {
                    if matches!(s.fields, syn::Fields::Unit) {
                        return Some(Val::T(mk(N::Struct(name, vec![]))));
                    }
                    if matches!(s.fields, syn::Fields::Unnamed(_)) {
                        return Some(Val::Fun(segs2));
                    }
                }
                _ => {}
            }
        }
        if segs.len() >= 2 {
            let pre = if a == "Self" { self.frames.last().and_then(|f| f.self_ty.clone()).map(|x| vec![x]).unwrap_or_default() } else { segs[..segs.len() - 1].to_vec() };
            let en = self.rsv(&pre);
            if let Some((dm, name)) = en {
                if let Some(It::Enum(e)) = self.env.prog.item(&dm, &name) {
                    if let Some(v) = e.variants.iter().find(|v| v.ident == b) {
                        return Some(if matches!(v.fields, syn::Fields::Unit) { Val::T(mk(N::Ctor(b, vec![]))) } else { Val::Fun(segs2) });
                    }
                }
                // associated constant
                if b.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                    if let Some(v) = self.assoc_const(&dm, &name, &b) {
                        return Some(Val::T(v));
                    }
                    if b.len() > 1 {
                        return Some(Val::T(sym(&format!("{name}::{b}"))));
                    }
                }
                return Some(Val::Fun(segs2));
            }
            // a constant of a type from elsewhere
            if b.len() > 1 && b.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) {
                return Some(Val::T(sym(&format!("{a}::{b}"))));
            }
            if !fall {
                return if b.chars().next().unwrap().is_uppercase() && a.chars().next().unwrap().is_uppercase() { Some(Val::T(mk(N::Ctor(b, vec![])))) } else { None };
            }
            if b.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                return Some(Val::T(sym(&format!("{a}::{b}"))));
            }
            if b.chars().next().unwrap().is_uppercase() {
                if a.chars().next().unwrap().is_uppercase() {
                    return Some(Val::T(mk(N::Ctor(b, vec![]))));
                }
            }
            return Some(Val::Fun(segs2));
        }
        if !fall {
            return None;
        }
        if b.chars().next().unwrap().is_uppercase() {
            return Some(Val::T(sym(&b)));
        }
        Some(Val::Fun(segs2))
    }
    fn assoc_const(&mut self, dm: &str, ty: &str, name: &str) -> Option<T> {
        let mut found = None;
        for md in self.env.prog.modules.values() {
            for i in &md.impls {
                if i.0 == ty && i.1.is_none() {
                    for it in &i.2.items {
                        if let syn::ImplItem::Const(c) = it {
                            if c.ident == name {
                                found = Some(c.expr.clone());
                            }
                        }
                    }
                }
            }
        }
        let e = found?;
        Some(self.eval_in(dm, &e))
    }
    fn eval_in(&mut self, dm: &str, e: &Expr) -> T {
        let saved = self.st.clone();
        let sc = std::mem::replace(&mut self.scope, Rc::new(BTreeMap::new()));
        let h = std::mem::take(&mut self.hint);
        self.frames.push(Frame { module: dm.into(), self_ty: None, ret: String::new(), exits: vec![], fail: fls(), loops: vec![], is_closure: false });
        let t = self.et(e);
        self.frames.pop();
        self.scope = sc;
        self.st = saved;
        self.hint = h;
        t
    }
    pub fn const_value(&mut self, dm: &str, name: &str) -> T {
        let key = (dm.to_string(), name.to_string());
        if let Some(v) = self.consts.get(&key) {
            return v.unwrap_or_else(|| sym(name));
        }
        self.consts.insert(key.clone(), None);
        let Some(It::Const(c)) = self.env.prog.item(dm, name) else { return sym(name) };
        let c = c.clone();
        let ty = &c.1;
        let ty = quote::quote!(#ty).to_string().replace(' ', "");
        let _ = ty;
        let t = self.eval_in(dm, &c.0);
        self.consts.insert(key, Some(t));
        t
    }
    fn struct_lit(&mut self, s: &syn::ExprStruct) -> Val {
        let segs = path_strs(&s.path);
        let mut name = segs.last().unwrap().clone();
        if name == "Self" {
            name = self.frames.last().and_then(|f| f.self_ty.clone()).unwrap_or(name);
        } else if let Some((_, n)) = self.rsv(&segs) {
            name = n;
        }
        let mut fs = vec![];
        for f in &s.fields {
            let n = match &f.member {
                syn::Member::Named(i) => i.to_string(),
                syn::Member::Unnamed(i) => i.index.to_string(),
            };
            let v = self.no_hint(|s| s.et(&f.expr));
            fs.push((n, v));
        }
        if let Some(r) = &s.rest {
            let b = self.no_hint(|s| s.et(r));
            return Val::T(rec(b, fs));
        }
        fs.sort();
        Val::T(mk(N::Struct(name, fs)))
    }
    // ---------- closures ----------
    fn call_clo(&mut self, c: &Rc<Clo>, args: Vec<Val>) -> Val {
        let saved_scope = std::mem::replace(&mut self.scope, c.scope.clone());
        let saved_pc = std::mem::replace(&mut self.st.pc, tru());
        let n0 = self.st.store.len();
        self.frames.push(Frame { module: c.frame_module.clone(), self_ty: c.self_ty.clone(), ret: String::new(), exits: vec![], fail: fls(), loops: vec![], is_closure: true });
        for (k, p) in c.inputs.iter().enumerate() {
            let v = args.get(k).cloned().unwrap_or(Val::T(unit()));
            self.bind_irrefutable(p, v);
        }
        let v = self.no_hint(|s| s.e(&c.body));
        let trivial = {
            let f = self.frames.last().unwrap();
            f.exits.is_empty() && f.fail == fls() && !self.st.dead
        };
        let out = if trivial {
            self.frames.pop();
            // keep references only to slots that outlive the closure
            match v {
                Val::Ref(p) => {
                    let p = self.norm_place(&p);
                    if p.slot < n0 {
                        Val::Ref(p)
                    } else {
                        let t = self.read_place(&p);
                        Val::T(t)
                    }
                }
                v => v,
            }
        } else {
            let t = if self.st.dead { unit() } else { self.to_t(&v) };
            Val::T(self.close_frame(t))
        };
        self.scope = saved_scope;
        self.st.pc = saved_pc;
        self.st.dead = false;
        out
    }
    /// Apply a callable value.
    fn apply(&mut self, f: &Val, args: Vec<Val>) -> Val {
        match f {
            Val::Clo(c) => self.call_clo(&c.clone(), args),
            Val::Fun(p) => {
                let p = p.clone();
                self.call_path(&p, args, "")
            }
            Val::Ref(p) => {
                let v = self.st.store.get(p.slot).cloned();
                match v {
                    Some(v @ Val::Clo(_)) | Some(v @ Val::Fun(_)) => self.apply(&v, args),
                    _ => Val::T(self.unknown("apply ref".into())),
                }
            }
            _ => {
                let t = self.to_t(f);
                let mut a = vec![t];
                for x in &args {
                    a.push(self.to_t(x));
                }
                Val::T(call("apply", a))
            }
        }
    }
    // ---------- macros ----------
    fn parse_args(&self, m: &syn::Macro) -> Option<Vec<Expr>> {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        p.parse2(m.tokens.clone()).ok().map(|x| x.into_iter().collect())
    }
    fn mac(&mut self, m: &syn::Macro) -> Val {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "eprintln" | "trace" | "debug" | "info" | "warn" | "error" | "dbg" => Val::T(unit()),
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.fail_if(tru());
                self.die()
            }
            "quote" | "parse_quote" | "quote_spanned" | "parse_quote_spanned" => self.template("quote", m.tokens.clone()),
            "assert" => {
                if let Some(a) = self.parse_args(m) {
                    let c = self.cond(&a[0]);
                    self.fail_if(not(c));
                }
                Val::T(unit())
            }
            "assert_eq" | "assert_ne" => {
                if let Some(a) = self.parse_args(m) {
                    let (x, y) = (self.et(&a[0]), self.et(&a[1]));
                    let c = eq(x, y);
                    self.fail_if(if name == "assert_eq" { not(c) } else { c });
                }
                Val::T(unit())
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                match syn::parse2::<M>(m.tokens.clone()) {
                    Ok(M(e, p, g)) => {
                        let saved = self.scope.clone();
                        let v = self.no_hint(|s| s.e(&e));
                        let mut c = self.bind(&p, v);
                        if let Some(g) = g {
                            c = self.guarded(c, |s| s.cond(&g), |x| x, fls());
                        }
                        self.scope = saved;
                        Val::T(c)
                    }
                    Err(_) => Val::T(self.unknown("matches!".into())),
                }
            }
            "vec" => {
                struct R(Expr, Expr);
                impl syn::parse::Parse for R {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<syn::Token![;]>()?;
                        Ok(R(a, i.parse()?))
                    }
                }
                if let Ok(R(a, b)) = syn::parse2::<R>(m.tokens.clone()) {
                    let x = self.no_hint(|s| s.et(&a));
                    let n = self.no_hint(|s| s.et(&b));
                    return Val::T(repeat(x, n));
                }
                match self.parse_args(m) {
                    Some(a) => {
                        let mut v = vec![];
                        for x in &a {
                            let t = self.no_hint(|s| s.et(x));
                            v.push(t);
                        }
                        Val::T(liftn(&v, &mut |x| concat(x.iter().map(|y| elem(*y)).collect())))
                    }
                    None => Val::T(self.unknown("vec!".into())),
                }
            }
            "format" | "format_ident" | "println" | "print" | "write" | "writeln" | "format_args" | "concat" | "bail" | "ensure" => match self.parse_args(m) {
                Some(a) => {
                    if matches!(name.as_str(), "println" | "print") && !self.prints {
                        return Val::T(unit());
                    }
                    if name == "bail" {
                        self.fail_if(tru());
                        return self.die();
                    }
                    let skip = if name.starts_with("write") { 1 } else { 0 };
                    if name == "ensure" {
                        let c = self.et(&a[0]);
                        self.fail_if(not(bool_of(c)));
                        return Val::T(unit());
                    }
                    let t = match self.text(&a[skip..]) {
                        Some(t) if name == "concat" => {
                            let mut v = vec![t];
                            for x in &a[1..] {
                                let t = self.et(x);
                                v.push(self.text_of(t));
                            }
                            concat(v)
                        }
                        Some(t) => t,
                        None if a.len() == skip => nil(),
                        None => {
                            let mut v = vec![];
                            for x in &a[skip..] {
                                let t = self.no_hint(|s| s.et(x));
                                v.push(t);
                            }
                            liftn(&v, &mut |x| mk(N::Call("format".into(), x.to_vec())))
                        }
                    };
                    let t = match name.as_str() {
                        "format_ident" => call("ident", vec![t]),
                        "writeln" | "println" => append(t, mk(N::Str("\n".into()))),
                        _ => t,
                    };
                    if name.starts_with("print") {
                        self.effect(call("print", vec![t]));
                        return Val::T(unit());
                    }
                    if skip == 1 {
                        if let Some(p) = self.place(&a[0]) {
                            let cur = self.read_place(&p);
                            self.write_place(&p, append(cur, t));
                        }
                        return Val::T(ok(unit()));
                    }
                    Val::T(t)
                }
                None => Val::T(self.unknown(format!("{name}!"))),
            },
            "cfg" => Val::T(bool_of(mk(N::Sym(format!("cfg({})", m.tokens.to_string().replace(' ', "")))))),
            "stringify" => Val::T(mk(N::Str(m.tokens.to_string()))),
            _ => {
                let v = match self.parse_args(m) {
                    Some(a) => {
                        let mut v = vec![];
                        for x in &a {
                            let t = self.no_hint(|s| s.et(x));
                            v.push(t);
                        }
                        v
                    }
                    None => vec![mk(N::Str(m.tokens.to_string()))],
                };
                Val::T(call(&format!("{name}!"), v))
            }
        }
    }
}
