// Calls to functions.

impl<'a> Ev<'a> {
    fn args(&mut self, a: &syn::punctuated::Punctuated<Expr, syn::Token![,]>) -> Vec<Val> {
        let h = std::mem::take(&mut self.hint);
        let r = a.iter().map(|x| self.e(x)).collect();
        self.hint = h;
        r
    }
    fn call(&mut self, c: &syn::ExprCall) -> Val {
        if let Expr::Path(p) = unparen(&c.func) {
            let segs = path_strs(&p.path);
            if segs.len() == 1 {
                if let Some(&sl) = self.scope.get(&segs[0]) {
                    let f = self.st.store[sl].clone();
                    let args = self.args(&c.args);
                    return self.apply(&f, args);
                }
            }
            // Ok(..)/Some(..) pass the type hint on
            if segs.len() == 1 && (segs[0] == "Ok" || segs[0] == "Some") && c.args.len() == 1 {
                let h = inner_hint(&self.hint);
                let v = self.with_hint(&h, |s| s.e(&c.args[0]));
                return match v {
                    Val::Ref(_) => Val::Opt(tru(), Rc::new(v)),
                    v => {
                        let t = self.to_t(&v);
                        Val::T(ok(t))
                    }
                };
            }
            let args = self.args(&c.args);
            if self.st.dead {
                return Val::T(unit());
            }
            let tf = quote::quote!(#p).to_string().replace(' ', "");
            if p.qself.as_ref().is_some_and(|q| matches!(&*q.ty, syn::Type::Infer(_))) {
                // the type is inferred from the use of the result: one operation per occurrence
                self.inferred += 1;
                let mut segs = segs.clone();
                let n = segs.pop().unwrap();
                segs.push(format!("{n}#{}", self.inferred));
                return self.call_path(&segs, args, &tf);
            }
            return self.call_path(&segs, args, &tf);
        }
        let f = self.e(&c.func);
        let args = self.args(&c.args);
        self.apply(&f, args)
    }
    fn terms(&mut self, a: &[Val]) -> Vec<T> {
        a.iter().map(|x| self.to_t(x)).collect()
    }
    fn arg0(&mut self, a: &[Val]) -> T {
        match a.first() {
            Some(v) => self.to_t(v),
            None => unit(),
        }
    }
    fn write_ref(&mut self, v: &Val, t: T) {
        if let Val::Ref(p) = v {
            self.write_place(&p.clone(), t);
        } else if let Val::Alias(c, a, b) = v {
            self.write_alias(*c, a, &[], t);
            self.write_alias(not(*c), b, &[], t);
        } else {
            self.unknown("write through non-reference".into());
        }
    }
    fn call_path(&mut self, segs: &[String], args: Vec<Val>, full: &str) -> Val {
        if segs.len() == 1 {
            if let Some(f) = self.locals.get(&segs[0]).cloned() {
                let outer = self.locals.clone();
                if let Some(v) = self.inline_with(&f, args.clone(), outer) {
                    return v;
                }
            }
        }
        let (a, b) = {
            let (a, b) = last2(segs);
            (a.to_string(), b.to_string())
        };
        match (a.as_str(), b.as_str()) {
            ("", "Ok") | ("", "Some") => {
                let t = self.arg0(&args);
                return Val::T(ok(t));
            }
            ("", "Err") => return Val::T(err()),
            ("Box" | "Rc" | "Arc" | "Cell" | "RefCell" | "Mutex" | "Wrapping", "new") | ("Cow", "Borrowed" | "Owned") | ("String" | "Box" | "Some" | "From", "from") | ("Arc" | "Rc", "clone") | ("", "Box") => {
                return args.into_iter().next().unwrap_or(Val::T(unit()));
            }
            ("Vec" | "String" | "VecDeque" | "List", "new") | ("Vec" | "String" | "VecDeque", "with_capacity") | ("Vec" | "List" | "String", "default") => return Val::T(nil()),
            ("HashSet" | "BTreeSet", "new" | "with_capacity" | "default") => return Val::T(mk(N::SetOf(nil()))),
            ("HashMap" | "BTreeMap", "new" | "with_capacity" | "default") => return Val::T(call("map", vec![])),
            ("cmp", "max") | ("Ord", "max") => {
                let t = self.terms(&args);
                return Val::T(max2(t[0], t[1]));
            }
            ("cmp", "min") | ("Ord", "min") => {
                let t = self.terms(&args);
                return Val::T(min2(t[0], t[1]));
            }
            ("Sha256", "new" | "default") if args.is_empty() => return Val::T(call("sha256_state", vec![nil()])),
            ("Sha256", "new_with_prefix") => {
                let t = self.arg0(&args);
                return Val::T(call("sha256_state", vec![append(nil(), t)]));
            }
            ("Sha256", "digest") => {
                let t = self.arg0(&args);
                return Val::T(call("sha256", vec![append(nil(), t)]));
            }
            ("mem", "take") => {
                let t = self.arg0(&args);
                self.write_ref(&args[0], call("default", vec![]));
                return Val::T(t);
            }
            ("mem", "replace") => {
                let t = self.terms(&args);
                self.write_ref(&args[0], t[1]);
                return Val::T(t[0]);
            }
            ("mem", "swap") => {
                let t = self.terms(&args);
                self.write_ref(&args[0], t[1]);
                self.write_ref(&args[1], t[0]);
                return Val::T(unit());
            }
            ("", "drop") | ("mem", "drop") => return Val::T(unit()),
            ("iter", "repeat") | ("", "repeat") => {
                let t = self.terms(&args);
                return Val::T(call("repeat_inf", t));
            }
            ("iter", "repeat_n") | ("", "repeat_n") if args.len() == 2 => {
                let t = self.terms(&args);
                return Val::It(Rc::new(Iter { gens: vec![(int(0), t[1], fresh_var("i"))], cond: tru(), elem: Val::T(t[0]), rev: false }));
            }
            ("iter", "once") | ("", "once") => {
                let t = self.arg0(&args);
                return Val::T(concat(vec![elem(t)]));
            }
            ("Vec" | "List" | "Vector", "from_iter") | ("Vec", "from") => {
                let v = args.into_iter().next().unwrap();
                return self.collect(v, "Vec");
            }
            ("HashSet" | "BTreeSet", "from_iter") | ("HashSet" | "BTreeSet", "from") => {
                let v = args.into_iter().next().unwrap();
                let v = self.collect(v, "Vec");
                let t = self.to_t(&v);
                return Val::T(set_of(t));
            }
            _ => {}
        }
        let prim = prim_bits(&a).is_some();
        if prim {
            match b.as_str() {
                "from" => {
                    let t = self.arg0(&args);
                    return Val::T(if a == "u128" { self.cast_value(&a, t) } else { cast_to(&a, t) });
                }
                "try_from" => {
                    let t = self.arg0(&args);
                    let c = self.int_fits(&a, t);
                    return Val::Opt(c, Rc::new(Val::T(t)));
                }
                "default" => return Val::T(int(0)),
                "max" | "min" | "pow" | "checked_add" | "saturating_sub" if args.len() == 2 => {
                    let t = self.terms(&args);
                    if let Some(v) = self.num_method(&b, t[0], &t[1..]) {
                        return v;
                    }
                }
                _ => {
                    let t = self.terms(&args);
                    return Val::T(call(&format!("{}::{b}", if prim_bits(&a) == Some(64) { "u64" } else { &a }), t));
                }
            }
        }
        if b == "default" && args.is_empty() {
            return Val::T(call("default", vec![]));
        }
        if b == "try_from" && args.len() == 1 && !self.user_assoc(&a, &b) {
            let t = self.arg0(&args);
            return Val::Opt(self.conv_ok(&a, t), Rc::new(Val::T(t)));
        }
        if b == "from" && args.len() == 1 && !self.user_assoc(&a, &b) {
            return args.into_iter().next().unwrap();
        }
        // free function
        if let Some((dm, name)) = self.rsv(segs) {
            if let Some(f) = self.env.prog.func(&dm, &name) {
                return self.call_fn_named(&f, segs, args);
            }
            if let Some(It::Struct(s)) = self.env.prog.item(&dm, &name) {
                let _ = s;
                let fs = args.iter().enumerate().map(|(k, x)| (k.to_string(), self.to_t(x))).collect();
                return Val::T(mk(N::Struct(name, fs)));
            }
        }
        if self.env.is_ref {
            // functions known to the reference only by signature
            let nm = self.ref_name(segs);
            if let Some(s) = self.leaves.leaf(&nm) {
                return self.leaf_call(&nm, &s, args);
            }
        }
        // associated function
        if segs.len() >= 2 {
            let ty = if a == "Self" { self.frames.last().and_then(|f| f.self_ty.clone()).unwrap_or(a.clone()) } else { self.rsv(&segs[..segs.len() - 1]).map(|x| x.1).unwrap_or(a.clone()) };
            if let Some(f) = self.assoc(&ty, &b) {
                let key = format!("{ty}::{b}");
                if let Some(s) = self.leaves.leaf(&key) {
                    return self.leaf_call(&key, &s, args);
                }
                if let Some(v) = self.inline(&f, args.clone()) {
                    return v;
                }
            }
            if let Some((dm, name)) = self.rsv(&segs[..segs.len() - 1]) {
                if let Some(It::Enum(e)) = self.env.prog.item(&dm, &name) {
                    if e.variants.iter().any(|v| v.ident == b) {
                        let t = self.terms(&args);
                        return Val::T(mk(N::Ctor(b, t)));
                    }
                }
            }
            if b.chars().next().unwrap().is_uppercase() && a.chars().next().unwrap().is_uppercase() {
                let t = self.terms(&args);
                return Val::T(mk(N::Ctor(b, t)));
            }
            // method in function position: T::method(x, ..)
            if a.chars().next().unwrap().is_uppercase() && !args.is_empty() {
                if let Some(v) = self.method_on_val(&args[0].clone(), &b, &args[1..].to_vec(), "") {
                    return v;
                }
            }
        }
        let name = if a.is_empty() { b.clone() } else { format!("{a}::{b}") };
        let _ = full;
        self.opaque(&name, args)
    }
    fn user_assoc(&self, ty: &str, name: &str) -> bool {
        self.assoc(ty, name).is_some()
    }
    fn assoc(&self, ty: &str, name: &str) -> Option<Rc<FnDef>> {
        let v = self.env.prog.methods.get(name)?;
        let c: Vec<_> = v.iter().filter(|f| f.self_ty.as_deref() == Some(ty)).collect();
        if c.len() == 1 {
            return Some(c[0].clone());
        }
        // same type in several fork modules: pick the one of the current module tree
        let m = self.module();
        let fk = fork_of(&m).or_else(|| self.env.ctx.as_deref().and_then(fork_of));
        let c2: Vec<_> = c.iter().filter(|f| fork_of(&f.module) == fk).collect();
        if c2.len() == 1 {
            return Some((*c2[0]).clone());
        }
        None
    }
    fn ref_name(&self, segs: &[String]) -> String {
        let b = segs.last().unwrap();
        for s in &segs[..segs.len() - 1] {
            if FORKS.contains(&s.as_str()) {
                return format!("{s}::{b}");
            }
        }
        b.clone()
    }
    fn opaque(&mut self, name: &str, args: Vec<Val>) -> Val {
        let t = self.terms(&args);
        let r = call(name, t.clone());
        if name.starts_with("fs::") && !name.starts_with("fs::read") && name != "fs::File" {
            self.effect(r);
        }
        for (k, v) in args.iter().enumerate() {
            if let Val::Ref(p) = v {
                let o = callout(name, t.clone(), k as u32, "*");
                self.write_place(&p.clone(), o);
            }
        }
        Val::T(r)
    }
    /// Canonical name of a repository function in the current fork context.
    fn code_name(&self, dm: &str, name: &str) -> String {
        if let Some(ctx) = &self.env.ctx {
            if let Some((m2, n2)) = self.env.prog.resolve(ctx, &[name.to_string()]) {
                if m2 == dm && n2 == name {
                    return name.to_string();
                }
            }
        }
        match fork_of(dm) {
            Some(f) => format!("{f}::{name}"),
            None => name.to_string(),
        }
    }
    fn call_fn_named(&mut self, f: &Rc<FnDef>, segs: &[String], args: Vec<Val>) -> Val {
        let nm = if self.env.is_ref { self.ref_name(segs) } else { self.code_name(&f.module, &f.name) };
        if let Some(s) = self.leaves.leaf(&nm) {
            return self.leaf_call(&nm, &s, args);
        }
        match self.inline(f, args.clone()) {
            Some(v) => v,
            None => self.opaque(&nm, args),
        }
    }
    fn inline(&mut self, f: &Rc<FnDef>, args: Vec<Val>) -> Option<Val> {
        if f.block.is_none() || self.depth > 24 {
            return None;
        }
        if self.stack.iter().any(|x| x.0 == f.file && x.1 == f.line) {
            return None;
        }
        self.inlined.insert(format!("{}::{}", f.module, f.name));
        let t = self.call_fn(f, args);
        match self.ret_ref.take() {
            Some(v) => Some(v),
            None => Some(Val::T(t)),
        }
    }
    /// A nested function sees the other functions of its enclosing body.
    fn inline_with(&mut self, f: &Rc<FnDef>, args: Vec<Val>, _outer: BTreeMap<String, Rc<FnDef>>) -> Option<Val> {
        self.inline(f, args)
    }
    fn leaf_call(&mut self, name: &str, s: &Rc<Summary>, args: Vec<Val>) -> Val {
        let mut ts = vec![];
        for (k, v) in args.iter().enumerate() {
            let t = self.to_t(v);
            let p = s.params.get(k).cloned().unwrap_or_default();
            ts.push(match &p.refs {
                Some(fs) => mk(N::Struct("&".into(), fs.iter().map(|f| (f.clone(), field(t, f))).collect())),
                None => t,
            });
        }
        let r = call(name, ts.clone());
        for (k, v) in args.iter().enumerate() {
            let p = s.params.get(k).cloned().unwrap_or_default();
            if !p.mutates {
                continue;
            }
            let Val::Ref(pl) = v else {
                self.unknown(format!("{name}: mutated argument {k} is not a reference"));
                continue;
            };
            let pl = self.norm_place(pl);
            match &p.mfields {
                Some(fs) => {
                    for f in fs {
                        let mut q = pl.clone();
                        q.path.push(PE::F(f.clone()));
                        let o = callout(name, ts.clone(), k as u32, f);
                        self.write_place(&q, o);
                    }
                }
                None => {
                    let o = callout(name, ts.clone(), k as u32, "*");
                    self.write_place(&pl, o);
                }
            }
        }
        Val::T(r)
    }
}
pub fn inner_hint(h: &str) -> String {
    let h = h.trim_start_matches("crate::").trim();
    for p in ["Result<", "Option<", "std::result::Result<"] {
        if let Some(r) = h.strip_prefix(p) {
            let r = r.strip_suffix('>').unwrap_or(r);
            // first generic argument at depth 0
            let mut d = 0;
            for (i, c) in r.char_indices() {
                match c {
                    '<' | '(' | '[' => d += 1,
                    '>' | ')' | ']' => d -= 1,
                    ',' if d == 0 => return r[..i].to_string(),
                    _ => {}
                }
            }
            return r.to_string();
        }
    }
    String::new()
}
include!("eval_call2.rs");
