// Entry places of maps, bit views, code templates, external effects.
impl<'a> Ev<'a> {
    /// `map.entry(k)` and its defaults: a place inside the map.
    fn entry_method(&mut self, m: &syn::ExprMethodCall, name: &str) -> Option<Val> {
        match (name, m.args.len()) {
            ("entry", 1) => {
                let mut p = self.mut_place(&m.receiver)?;
                let k = self.no_hint(|s| s.et(&m.args[0]));
                p.path.push(PE::I(k));
                Some(Val::Ref(p))
            }
            ("or_default", 0) | ("or_insert", 1) | ("or_insert_with", 1) => {
                let p = self.mut_place(&m.receiver)?;
                let Some(PE::I(k)) = p.path.last().cloned() else { return None };
                let mut base = p.clone();
                base.path.pop();
                let cur = self.read_place(&base);
                let has = bool_of(call(".contains_key", vec![cur, k]));
                let d = match name {
                    "or_default" => call("default", vec![]),
                    "or_insert" => self.no_hint(|s| s.et(&m.args[0])),
                    _ => {
                        let c = self.no_hint(|s| s.e(&m.args[0]));
                        let v = self.apply(&c, vec![]);
                        self.to_t(&v)
                    }
                };
                let old = self.read_place(&p);
                self.write_place(&p, ite(has, old, d));
                Some(Val::Ref(p))
            }
            ("view_bits_mut", 0) => {
                let mut p = self.mut_place(&m.receiver)?;
                p.path.push(PE::V(bit_order(m)));
                Some(Val::Ref(p))
            }
            ("update" | "chain_update", 1) | ("finalize" | "finalize_reset", 0) | ("finalize_into", 1) => {
                // an incremental hasher whose state is the data absorbed so far
                if !matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_)) {
                    return None;
                }
                let known = match self.place(&m.receiver) {
                    Some(p) => sha_data(self.read_place(&p)).is_some(),
                    None => matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_)),
                };
                if !known {
                    return None;
                }
                let p = match self.place(&m.receiver) {
                    Some(p) => self.norm_place(&p),
                    None if starts_with_sha(&m.receiver) => self.mut_place(&m.receiver)?,
                    None => return None,
                };
                let data = sha_data(self.read_place(&p))?;
                match name {
                    "update" | "chain_update" => {
                        let x = self.no_hint(|s| s.et(&m.args[0]));
                        let st = call("sha256_state", vec![append(data, x)]);
                        self.write_place(&p, st);
                        Some(if name == "update" { Val::T(unit()) } else { Val::T(st) })
                    }
                    "finalize_into" => {
                        let v = self.no_hint(|s| s.e(&m.args[0]));
                        self.write_ref(&v, call("sha256", vec![data]));
                        Some(Val::T(unit()))
                    }
                    _ => {
                        self.write_place(&p, call("sha256_state", vec![nil()]));
                        Some(Val::T(call("sha256", vec![data])))
                    }
                }
            }
            ("view_bits", 0) => {
                let t = self.no_hint(|s| s.et(&m.receiver));
                Some(Val::T(view(t, &bit_order(m))))
            }
            _ => None,
        }
    }
    /// The storage a receiver expression denotes, also when it is an rvalue reference.
    fn mut_place(&mut self, e: &Expr) -> Option<Place> {
        if let Some(p) = self.place(e) {
            return Some(self.norm_place(&p));
        }
        match self.no_hint(|s| s.e(e)) {
            Val::Ref(p) => Some(self.norm_place(&p)),
            v => {
                self.st.store.push(v);
                Some(Place { slot: self.st.store.len() - 1, path: vec![] })
            }
        }
    }
    /// Record an effect outside the program's own memory, in order.
    fn effect(&mut self, t: T) {
        if let Some(s) = self.io_slot {
            let p = Place { slot: s, path: vec![] };
            let cur = self.read_place(&p);
            self.write_place(&p, append(cur, elem(t)));
        }
    }
    /// `quote!`-like templates: the token text with its interpolations numbered, and their values.
    fn template(&mut self, name: &str, ts: proc_macro2::TokenStream) -> Val {
        let mut vars = vec![];
        let s = template_text(ts, &mut vars);
        let mut v = vec![mk(N::Str(s))];
        for x in vars {
            let t = match self.scope.get(&x) {
                Some(&sl) => self.read_place(&Place { slot: sl, path: vec![] }),
                None => mk(N::Str(x)),
            };
            v.push(t);
        }
        Val::T(liftn(&v, &mut |x| call(name, x.to_vec())))
    }
}
fn sha_data(t: T) -> Option<T> {
    match get(t) {
        N::Call(f, a) if f == "sha256_state" => Some(a[0]),
        _ => None,
    }
}
fn starts_with_sha(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => starts_with_sha(&m.receiver),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.first().is_some_and(|s| s.ident == "Sha256")),
        _ => false,
    }
}
fn bit_order(m: &syn::ExprMethodCall) -> String {
    // the order of an uninstantiated view is fixed by the bit slice it is used with
    m.turbofish.as_ref().map(|t| quote::quote!(#t).to_string().replace(' ', "")).unwrap_or("::<Msb0>".into())
}
fn template_text(ts: proc_macro2::TokenStream, vars: &mut Vec<String>) -> String {
    use proc_macro2::{Delimiter, TokenTree};
    let mut out = String::new();
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut k = 0;
    while k < toks.len() {
        match &toks[k] {
            TokenTree::Punct(p) if p.as_char() == '#' && k + 1 < toks.len() => match &toks[k + 1] {
                TokenTree::Ident(i) => {
                    out.push_str(&format!("#{} ", vars.len()));
                    vars.push(i.to_string());
                    k += 2;
                    continue;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner = template_text(g.stream(), vars);
                    out.push_str(&format!("#({inner})"));
                    k += 2;
                    continue;
                }
                _ => out.push_str("# "),
            },
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let inner = template_text(g.stream(), vars);
                out.push_str(&format!("{a}{inner}{b} "));
            }
            t => out.push_str(&format!("{t} ")),
        }
        k += 1;
    }
    out
}
impl<'a> Ev<'a> {
    /// Does the value of a narrowing integer conversion fit? 64-bit values always fit 64 bits and more.
    fn int_fits(&self, ty: &str, t: T) -> T {
        match prim_bits(ty) {
            Some(n) if n < 64 || n == 64 && self.is_wide(t) => and(not(lt(t, int(0))), lt(t, int(1i128 << n))),
            _ => tru(),
        }
    }
    /// The condition under which a fallible conversion succeeds: decided for integers and arrays of known
    /// length, otherwise a property of the converted value.
    fn conv_ok(&mut self, ty: &str, t: T) -> T {
        let ty = ty.trim_start_matches('&').replace(' ', "");
        if prim_bits(&ty).is_some() {
            return self.int_fits(&ty, t);
        }
        if matches!(ty.as_str(), "H256" | "U256" | "BigUint") {
            return tru();
        }
        if let Some((_, n)) = ty.strip_prefix('[').and_then(|x| x.strip_suffix(']')).and_then(|x| x.rsplit_once(';')) {
            if n.parse::<i128>().is_ok_and(|n| len(t) == int(n)) {
                return tru();
            }
        }
        bool_of(call("converts", vec![t]))
    }
}
