//! Behaviour-preserving rewrites of function bodies, used by `MU=R analyzer mutate` to look for false alarms.
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

#[derive(Default)]
pub struct Ref {
    pub want: usize,
    pub at: usize,
    pub done: Option<String>,
    /// function parameters that are `&mut`, other parameters, and whether the function returns a Result
    pub muts: Vec<String>,
    pub params: Vec<(String, String)>,
    pub result: bool,
    pub only: String,
    pub in_closure: usize,
    pub in_loop: usize,
}
fn src<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string().chars().take(80).collect()
}
#[derive(Default)]
struct Uses {
    idents: BTreeSet<String>,
    jumps: bool,
    question: bool,
    ret: bool,
    closures: bool,
    calls: bool,
    mutates: bool,
    macros: bool,
    depth: usize,
}
impl<'a> Visit<'a> for Uses {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        match e {
            syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                self.idents.insert(p.path.segments[0].ident.to_string());
            }
            syn::Expr::Break(_) | syn::Expr::Continue(_) if self.depth == 0 => self.jumps = true,
            syn::Expr::Return(_) => self.ret = true,
            syn::Expr::Try(_) => self.question = true,
            syn::Expr::Closure(_) => self.closures = true,
            syn::Expr::Call(_) => self.calls = true,
            syn::Expr::MethodCall(_) => self.calls = true,
            syn::Expr::Macro(_) => self.macros = true,
            syn::Expr::Assign(_) => self.mutates = true,
            syn::Expr::Reference(r) if r.mutability.is_some() => self.mutates = true,
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_) | syn::BinOp::DivAssign(_)) => self.mutates = true,
            _ => {}
        }
        let lp = matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_));
        self.depth += lp as usize;
        visit::visit_expr(self, e);
        self.depth -= lp as usize;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.macros = true;
        let ts: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
        fn walk(ts: Vec<proc_macro2::TokenTree>, o: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) => {
                        o.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => walk(g.stream().into_iter().collect(), o),
                    proc_macro2::TokenTree::Literal(l) => {
                        let s = l.to_string();
                        let mut rest = s.as_str();
                        while let Some(i) = rest.find('{') {
                            rest = &rest[i + 1..];
                            let n: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                            o.insert(n);
                        }
                    }
                    _ => {}
                }
            }
        }
        walk(ts, &mut self.idents);
    }
}
fn uses_e(e: &syn::Expr) -> Uses {
    let mut u = Uses::default();
    u.visit_expr(e);
    u
}
fn uses_s(s: &syn::Stmt) -> Uses {
    let mut u = Uses::default();
    u.visit_stmt(s);
    u
}
fn uses_b(b: &syn::Block) -> Uses {
    let mut u = Uses::default();
    u.visit_block(b);
    u
}
#[derive(Default)]
struct Binds {
    names: BTreeSet<String>,
    muts: BTreeSet<String>,
}
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().is_some_and(|c| c.is_lowercase() || c == '_') {
            if p.mutability.is_some() {
                self.muts.insert(n.clone());
            }
            self.names.insert(n);
        }
        visit::visit_pat_ident(self, p);
    }
}
fn simple(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
        syn::Expr::Field(f) => simple(&f.base),
        syn::Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}
fn id(s: &str) -> syn::Ident {
    syn::Ident::new(s, proc_macro2::Span::call_site())
}
impl Ref {
    fn hit(&mut self, kind: &str) -> bool {
        if !self.only.is_empty() && self.only != kind {
            return false;
        }
        self.at += 1;
        self.done.is_none() && self.at - 1 == self.want
    }
    fn note(&mut self, sp: proc_macro2::Span, s: String) {
        self.done = Some(format!("line {}: {s}", sp.start().line));
    }
    fn expr(&mut self, e: &mut syn::Expr, sp: proc_macro2::Span) {
        use syn::BinOp::*;
        match e {
            syn::Expr::If(i) if !matches!(&*i.cond, syn::Expr::Let(_)) && !has_let(&i.cond) => {
                if let Some((_, el)) = &i.else_branch {
                    if matches!(&**el, syn::Expr::Block(_)) && self.hit("swap") {
                        self.note(sp, format!("swap: branches of if {}", src(&i.cond)));
                        let (c, t) = (&i.cond, &i.then_branch);
                        *e = syn::parse_quote!(if !(#c) #el else #t);
                        return;
                    }
                } else if let syn::Expr::Binary(b) = &*i.cond {
                    let (l, r, t) = (&b.left, &b.right, &i.then_branch);
                    if matches!(b.op, And(_)) && self.hit("nest") {
                        self.note(sp, format!("nest: {}", src(&i.cond)));
                        *e = syn::parse_quote!(if #l { if #r #t });
                        return;
                    }
                    if matches!(b.op, Or(_)) && uses_b(t).ret && self.hit("splitor") {
                        self.note(sp, format!("splitor: {}", src(&i.cond)));
                        *e = syn::parse_quote!({ if #l #t if #r #t });
                        return;
                    }
                }
            }
            syn::Expr::If(i) => {
                if let (syn::Expr::Let(l), true) = (&*i.cond, self.only.is_empty() || self.only == "iflet") {
                    if self.hit("iflet") {
                        self.note(sp, format!("iflet: {}", src(&i.cond)));
                        let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                        let el: syn::Expr = match &i.else_branch {
                            Some((_, el)) => (**el).clone(),
                            None => syn::parse_quote!({}),
                        };
                        *e = syn::parse_quote!(match #x { #p => #t, _ => #el });
                        return;
                    }
                }
            }
            syn::Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                let n: Option<syn::Expr> = match b.op {
                    Lt(_) => Some(syn::parse_quote!((#r) > (#l))),
                    Gt(_) => Some(syn::parse_quote!((#r) < (#l))),
                    Le(_) => Some(syn::parse_quote!(!((#l) > (#r)))),
                    Ge(_) => Some(syn::parse_quote!(!((#l) < (#r)))),
                    Eq(_) => Some(syn::parse_quote!((#r) == (#l))),
                    Ne(_) => Some(syn::parse_quote!(!((#l) == (#r)))),
                    And(_) if !has_let(l) && !has_let(r) => Some(syn::parse_quote!(!(!(#l) || !(#r)))),
                    Or(_) => Some(syn::parse_quote!(if #l { true } else { #r })),
                    AddAssign(_) if !uses_e(l).calls => Some(syn::parse_quote!(#l = #l + (#r))),
                    SubAssign(_) if !uses_e(l).calls => Some(syn::parse_quote!(#l = #l - (#r))),
                    Add(_) if !matches!(&**l, syn::Expr::Lit(_)) => Some(syn::parse_quote!({ let lhs_ = #l; let rhs_ = #r; lhs_ + rhs_ })),
                    Mul(_) => Some(syn::parse_quote!({ let prod_ = (#l) * (#r); prod_ })),
                    _ => None,
                };
                if let Some(n) = n {
                    if self.hit("op") {
                        self.note(sp, format!("op: {} -> {}", src(b), src(&n)));
                        *e = n;
                        return;
                    }
                }
            }
            syn::Expr::Try(t) => {
                if self.result && self.in_closure == 0 && self.hit("try") {
                    self.note(sp, format!("try: {}", src(&t.expr)));
                    let x = &t.expr;
                    *e = syn::parse_quote!(match #x { Ok(v_) => v_, Err(e_) => return Err(e_.into()) });
                    return;
                }
            }
            syn::Expr::Call(c) => {
                let n = c.args.len();
                for k in 0..n {
                    let a = &c.args[k];
                    if matches!(a, syn::Expr::Binary(_) | syn::Expr::Call(_) | syn::Expr::MethodCall(_)) && c.args.iter().take(k).all(simple_or_ref) && self.hit("hoist") {
                        self.note(sp, format!("hoist: argument {k} of {}", src(&c.func)));
                        let a = c.args[k].clone();
                        c.args[k] = syn::parse_quote!(arg_);
                        let c2 = c.clone();
                        *e = syn::parse_quote!({ let arg_ = #a; #c2 });
                        return;
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = &m.receiver;
                if m.args.len() == 1 {
                    let a = &m.args[0];
                    if matches!(n.as_str(), "min" | "max") && simple(r) && simple(a) && self.hit("minmax") {
                        self.note(sp, format!("minmax: {}", src(m)));
                        *e = if n == "min" { syn::parse_quote!(if #r < #a { #r } else { #a }) } else { syn::parse_quote!(if #r < #a { #a } else { #r }) };
                        return;
                    }
                    if n == "saturating_sub" && simple(r) && simple(a) && self.hit("satsub") {
                        self.note(sp, format!("satsub: {}", src(m)));
                        *e = syn::parse_quote!(if #r > #a { #r - #a } else { 0 });
                        return;
                    }
                    if let syn::Expr::Closure(c) = a {
                        let body = &c.body;
                        let Some(p) = c.inputs.first() else { syn::visit_mut::visit_expr_mut(self, e); return };
                        let u = uses_e(body);
                        if c.inputs.len() == 1 && !u.ret && !u.question {
                            let neg = n == "all";
                            if (n == "any" || neg) && self.hit("anyloop") {
                                self.note(sp, format!("anyloop: {}", src(m)));
                                *e = if neg {
                                    syn::parse_quote!({ let mut all_ = true; for #p in #r { if !(#body) { all_ = false; break; } } all_ })
                                } else {
                                    syn::parse_quote!({ let mut found_ = false; for #p in #r { if #body { found_ = true; break; } } found_ })
                                };
                                return;
                            }
                            if self.hit("clobody") {
                                self.note(sp, format!("clobody: {}", src(m)));
                                let b = body.clone();
                                if let syn::Expr::Closure(c) = &mut m.args[0] {
                                    *c.body = syn::parse_quote!({ let out_ = #b; out_ });
                                }
                                return;
                            }
                        }
                    }
                }
                if n == "sum" && self.hit("sumloop") {
                    self.note(sp, format!("sumloop: {}", src(m)));
                    *e = syn::parse_quote!({ let mut total_ = 0; for item_ in #r { total_ += item_; } total_ });
                    return;
                }
                if n == "count" && m.args.is_empty() && self.hit("countloop") {
                    self.note(sp, format!("countloop: {}", src(m)));
                    *e = syn::parse_quote!({ let mut total_ = 0; for _ in #r { total_ += 1; } total_ });
                    return;
                }
            }
            syn::Expr::Struct(s) => {
                for k in 0..s.fields.len() {
                    if matches!(&s.fields[k].expr, syn::Expr::Binary(_) | syn::Expr::Call(_) | syn::Expr::MethodCall(_)) && self.hit("fieldlet") {
                        self.note(sp, format!("fieldlet: field {} of {}", src(&s.fields[k].member), src(&s.path)));
                        let a = s.fields[k].expr.clone();
                        s.fields[k].expr = syn::parse_quote!(field_);
                        s.fields[k].colon_token = Some(Default::default());
                        let s2 = s.clone();
                        *e = syn::parse_quote!({ let field_ = #a; #s2 });
                        return;
                    }
                }
            }
            syn::Expr::Match(m) => {
                if m.arms.len() == 2 && matches!(m.arms[1].pat, syn::Pat::Wild(_)) && m.arms[0].guard.is_none() && !matches!(m.arms[0].pat, syn::Pat::Or(_)) && self.hit("matchif") {
                    self.note(sp, format!("matchif: {}", src(&m.expr)));
                    let (p, x, a, b) = (&m.arms[0].pat, &m.expr, &m.arms[0].body, &m.arms[1].body);
                    *e = syn::parse_quote!(if let #p = #x { #a } else { #b });
                    return;
                }
            }
            _ => {}
        }
    }
    fn block(&mut self, b: &mut syn::Block) {
        for k in 0..b.stmts.len() {
            let sp = syn::spanned::Spanned::span(&b.stmts[k]);
            if self.hit("noop") {
                self.note(sp, "noop: inserted".into());
                b.stmts.insert(k, syn::parse_quote!(let _ = 0u64;));
                return;
            }
            let last = k + 1 == b.stmts.len();
            // tail expression through a variable
            if let (true, syn::Stmt::Expr(x, None)) = (last, &b.stmts[k]) {
                if !matches!(x, syn::Expr::Return(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) && self.hit("tail") {
                    self.note(sp, format!("tail: {}", src(x)));
                    let x = x.clone();
                    b.stmts[k] = syn::parse_quote!(let tail_ = #x;);
                    b.stmts.push(syn::Stmt::Expr(syn::parse_quote!(tail_), None));
                    return;
                }
            }
            // hoisted condition
            if let syn::Stmt::Expr(syn::Expr::If(i), s) = &b.stmts[k] {
                if !has_let(&i.cond) && self.hit("cond") {
                    self.note(sp, format!("cond: {}", src(&i.cond)));
                    let mut i = i.clone();
                    let s = *s;
                    let c = i.cond.clone();
                    i.cond = syn::parse_quote!(cond_);
                    b.stmts[k] = syn::Stmt::Expr(syn::Expr::If(i), s);
                    b.stmts.insert(k, syn::parse_quote!(let cond_ = #c;));
                    return;
                }
                if let syn::Stmt::Expr(syn::Expr::If(i), _) = &b.stmts[k] {
                    if i.else_branch.is_none() && !last && !has_let(&i.cond) {
                        if let Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) = i.then_branch.stmts.last() {
                            let rest: Vec<syn::Stmt> = b.stmts[k + 1..].to_vec();
                            if !rest.iter().any(|s| matches!(s, syn::Stmt::Item(_))) && self.hit("early") {
                                self.note(sp, format!("early: {}", src(&i.cond)));
                                let (c, t) = (i.cond.clone(), i.then_branch.clone());
                                let x: syn::Expr = syn::parse_quote!(if !(#c) { #(#rest)* } else #t);
                                b.stmts.truncate(k);
                                b.stmts.push(syn::Stmt::Expr(x, None));
                                return;
                            }
                        }
                        if let Some(syn::Stmt::Expr(syn::Expr::Continue(_), _)) = i.then_branch.stmts.last() {
                            let rest: Vec<syn::Stmt> = b.stmts[k + 1..].to_vec();
                            if i.then_branch.stmts.len() == 1 && self.hit("continue") {
                                self.note(sp, format!("continue: {}", src(&i.cond)));
                                let c = i.cond.clone();
                                let x: syn::Expr = syn::parse_quote!(if !(#c) { #(#rest)* });
                                b.stmts.truncate(k);
                                b.stmts.push(syn::Stmt::Expr(x, None));
                                return;
                            }
                        }
                    }
                }
            }
            self.loops(b, k, sp);
            if self.done.is_some() {
                return;
            }
            // collect into a vector by hand
            if let syn::Stmt::Local(l) = &b.stmts[k] {
                if let Some(init) = &l.init {
                    let ty = src(&l.pat);
                    if let syn::Expr::MethodCall(c) = &*init.expr {
                        let tf = c.turbofish.as_ref().map(src).unwrap_or_default();
                        if c.method == "collect" && (tf.replace(' ', "").starts_with("::<Vec") || ty.contains(": Vec")) {
                            if let syn::Expr::MethodCall(m) = &*c.receiver {
                                if let (Some(syn::Expr::Closure(f)), syn::Pat::Ident(v)) = (m.args.first(), pat_of(&l.pat)) {
                                    let u = uses_e(&f.body);
                                    if m.method == "map" && !u.ret && !u.question && f.inputs.len() == 1 && self.hit("collectloop") {
                                        self.note(sp, format!("collectloop: {}", src(m)));
                                        let (p, it, body, name) = (&f.inputs[0], &m.receiver, &f.body, &v.ident);
                                        let a: syn::Stmt = syn::parse_quote!(let mut #name = Vec::new(););
                                        let w: syn::Stmt = syn::parse_quote!(for #p in #it { #name.push(#body); });
                                        b.stmts[k] = w;
                                        b.stmts.insert(k, a);
                                        return;
                                    }
                                    if m.method == "filter" && !u.ret && !u.question && self.hit("filterloop") {
                                        self.note(sp, format!("filterloop: {}", src(m)));
                                        let (p, it, body, name) = (&f.inputs[0], &m.receiver, &f.body, &v.ident);
                                        let a: syn::Stmt = syn::parse_quote!(let mut #name = Vec::new(););
                                        let w: syn::Stmt = syn::parse_quote!(for item_ in #it { let #p = &item_; if #body { #name.push(item_); } });
                                        b.stmts[k] = w;
                                        b.stmts.insert(k, a);
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            // swap independent lets
            if !last {
                if let (syn::Stmt::Local(x), syn::Stmt::Local(y)) = (&b.stmts[k], &b.stmts[k + 1]) {
                    let (mut bx, mut by) = (Binds::default(), Binds::default());
                    bx.visit_local(x);
                    by.visit_local(y);
                    let (ux, uy) = (uses_s(&b.stmts[k]), uses_s(&b.stmts[k + 1]));
                    let free = |u: &Uses, d: &Binds| u.idents.is_disjoint(&d.names);
                    let plain = |u: &Uses| !u.question && !u.ret && !u.jumps && !u.mutates && !u.macros;
                    if plain(&ux) && plain(&uy) && free(&uy, &bx) && free(&ux, &by) && bx.names.is_disjoint(&by.names) && self.hit("swaplet") {
                        self.note(sp, format!("swaplet: {}", src(&b.stmts[k])));
                        b.stmts.swap(k, k + 1);
                        return;
                    }
                }
            }
            self.extract(b, k, sp);
            if self.done.is_some() {
                return;
            }
        }
    }
    fn loops(&mut self, b: &mut syn::Block, k: usize, sp: proc_macro2::Span) {
        let syn::Stmt::Expr(syn::Expr::ForLoop(f), _) = &b.stmts[k] else { return };
        let f = f.clone();
        if f.label.is_some() {
            return;
        }
        let u = uses_b(&f.body);
        let (p, it, body) = (&f.pat, &f.expr, &f.body);
        if self.hit("whilelet") {
            self.note(sp, format!("whilelet: {}", src(it)));
            b.stmts[k] = syn::parse_quote!(while let Some(#p) = iter_.next() #body);
            b.stmts.insert(k, syn::parse_quote!(let mut iter_ = (#it).into_iter();));
            return;
        }
        let it2 = match &**it {
            syn::Expr::Paren(p) => &*p.expr,
            x => x,
        };
        if let (syn::Expr::Range(r), syn::Pat::Ident(_)) = (it2, &**p) {
            if let (Some(lo), Some(hi), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                let mut cont = Uses::default();
                cont.visit_block(body);
                if !has_continue(body) && self.hit("rangewhile") {
                    self.note(sp, format!("rangewhile: {}", src(it)));
                    let st = &body.stmts;
                    b.stmts[k] = syn::parse_quote!(while ctr_ < bound_ { let #p = ctr_; #(#st)* ctr_ += 1; });
                    b.stmts.insert(k, syn::parse_quote!(let bound_ = #hi;));
                    b.stmts.insert(k, syn::parse_quote!(let mut ctr_ = #lo;));
                    return;
                }
                if !u.ret && !u.question && !u.jumps && !has_continue(body) && self.hit("foreach") {
                    self.note(sp, format!("foreach: {}", src(it)));
                    b.stmts[k] = syn::parse_quote!((#lo..#hi).for_each(|#p| #body););
                    return;
                }
            }
        }
        if let syn::Expr::MethodCall(m) = it2 {
            if m.method == "iter" && simple(&m.receiver) {
                let st = &body.stmts;
                let r = &m.receiver;
                if self.hit("index") {
                    self.note(sp, format!("index: {}", src(it)));
                    b.stmts[k] = syn::parse_quote!(for pos_ in 0..#r.len() { let #p = &#r[pos_]; #(#st)* });
                    return;
                }
                if self.hit("enumerate") {
                    self.note(sp, format!("enumerate: {}", src(it)));
                    b.stmts[k] = syn::parse_quote!(for (_pos, #p) in #r.iter().enumerate() { #(#st)* });
                    return;
                }
            }
            if m.method == "enumerate" {
                if let (syn::Expr::MethodCall(m2), syn::Pat::Tuple(t)) = (&*m.receiver, &**p) {
                    if m2.method == "iter" && simple(&m2.receiver) && t.elems.len() == 2 && self.hit("unenumerate") {
                        self.note(sp, format!("unenumerate: {}", src(it)));
                        let (i, x, r) = (&t.elems[0], &t.elems[1], &m2.receiver);
                        let st = &body.stmts;
                        b.stmts[k] = syn::parse_quote!(for pos_ in 0..#r.len() { let #i = pos_; let #x = &#r[pos_]; #(#st)* });
                    }
                }
            }
        } else if let syn::Expr::Reference(r) = it2 {
            if r.mutability.is_none() && simple(&r.expr) {
                let st = &body.stmts;
                let r = &r.expr;
                if self.hit("index") {
                    self.note(sp, format!("index: {}", src(it)));
                    b.stmts[k] = syn::parse_quote!(for pos_ in 0..#r.len() { let #p = &#r[pos_]; #(#st)* });
                }
            }
        }
    }
    /// Move one statement into a helper function.
    fn extract(&mut self, b: &mut syn::Block, k: usize, sp: proc_macro2::Span) {
        if self.in_closure > 0 || self.in_loop > 0 {
            return;
        }
        let s = b.stmts[k].clone();
        let u = uses_s(&s);
        if u.jumps || u.macros || (u.question && !self.result) || u.idents.contains("self") {
            return;
        }
        let big = matches!(&s, syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::If(_) | syn::Expr::While(_), _));
        let is_let = matches!(&s, syn::Stmt::Local(l) if l.init.is_some());
        if !big && !is_let || (u.ret && (is_let || !self.result)) {
            return;
        }
        if big && k + 1 == b.stmts.len() && !matches!(&s, syn::Stmt::Expr(_, Some(_))) {
            if !matches!(&s, syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_), _)) {
                return;
            }
        }
        // locals bound before the statement in this block
        let mut bd = Binds::default();
        for x in &b.stmts[..k] {
            bd.visit_stmt(x);
        }
        let outer: Vec<String> = u.idents.iter().filter(|i| bd.names.contains(*i) || self.params.iter().any(|p| p.0 == **i)).cloned().collect();
        if outer.iter().any(|i| bd.muts.contains(i)) {
            return;
        }
        // bindings of nested blocks may refer to names bound outside this block: leave those alone
        let mut own = Binds::default();
        own.visit_stmt(&s);
        for i in &u.idents {
            if i.chars().next().is_some_and(|c| c.is_lowercase()) && !outer.contains(i) && !own.names.contains(i) && !called(&s, i) {
                return;
            }
        }
        // shadowed parameters
        if self.params.iter().any(|p| bd.names.contains(&p.0)) {
            return;
        }
        if !self.hit(if is_let { "helperlet" } else { "helper" }) {
            return;
        }
        let mut ps: Vec<syn::FnArg> = vec![];
        let mut args: Vec<syn::Expr> = vec![];
        for i in &outer {
            let n = id(i);
            let ty: syn::Type = match self.params.iter().find(|p| p.0 == *i) {
                Some(p) => syn::parse_str(&p.1).unwrap(),
                None => syn::parse_quote!(Inferred),
            };
            ps.push(syn::parse_quote!(#n: #ty));
            args.push(syn::parse_quote!(#n));
        }
        if let syn::Stmt::Local(l) = &s {
            let x = &l.init.as_ref().unwrap().expr;
            self.note(sp, format!("helperlet: {}", src(x)));
            let (f, c): (syn::Item, syn::Expr) = if matches!(&**x, syn::Expr::Reference(r) if r.mutability.is_some()) {
                (syn::parse_quote!(fn helper_(#(#ps),*) -> &mut Inferred { #x }), syn::parse_quote!(helper_(#(#args),*)))
            } else if u.question {
                (syn::parse_quote!(fn helper_(#(#ps),*) -> Result<Inferred> { Ok(#x) }), syn::parse_quote!(helper_(#(#args),*)?))
            } else {
                (syn::parse_quote!(fn helper_(#(#ps),*) -> Inferred { #x }), syn::parse_quote!(helper_(#(#args),*)))
            };
            let mut l = l.clone();
            *l.init.as_mut().unwrap().expr = c;
            b.stmts[k] = syn::Stmt::Local(l);
            b.stmts.insert(0, syn::Stmt::Item(f));
            return;
        }
        self.note(sp, format!("helper: {}", src(&s)));
        let (f, c): (syn::Item, syn::Stmt) = if u.question || u.ret {
            (syn::parse_quote!(fn helper_(#(#ps),*) -> Result<()> { #s Ok(()) }), syn::parse_quote!(helper_(#(#args),*)?;))
        } else {
            (syn::parse_quote!(fn helper_(#(#ps),*) { #s }), syn::parse_quote!(helper_(#(#args),*);))
        };
        // `return Ok(())` inside the helper would only leave the helper
        if u.ret && src_all(&s).contains("return Ok") {
            self.done = Some(String::new());
            return;
        }
        b.stmts[k] = c;
        b.stmts.insert(0, syn::Stmt::Item(f));
    }
}
fn src_all<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string()
}
fn called(s: &syn::Stmt, n: &str) -> bool {
    src_all(s).contains(&format!("{n} ("))
}
fn simple_or_ref(e: &syn::Expr) -> bool {
    simple(e) || matches!(e, syn::Expr::Reference(r) if simple(&r.expr))
}
fn pat_of(p: &syn::Pat) -> &syn::Pat {
    match p {
        syn::Pat::Type(t) => &t.pat,
        p => p,
    }
}
fn has_let(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Let(_) => true,
        syn::Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}
fn has_continue(b: &syn::Block) -> bool {
    src_all(b).contains("continue")
}
impl VisitMut for Ref {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if self.done.is_some() {
            return;
        }
        let sp = syn::spanned::Spanned::span(&*e);
        self.expr(e, sp);
        if self.done.is_some() {
            return;
        }
        let c = matches!(e, syn::Expr::Closure(_) | syn::Expr::Async(_));
        let l = matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Match(_) | syn::Expr::If(_) | syn::Expr::Block(_));
        self.in_closure += c as usize;
        self.in_loop += l as usize;
        visit_mut::visit_expr_mut(self, e);
        self.in_closure -= c as usize;
        self.in_loop -= l as usize;
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        if self.done.is_some() {
            return;
        }
        self.block(b);
        if self.done.is_none() {
            visit_mut::visit_block_mut(self, b);
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_macro_mut(&mut self, _: &mut syn::Macro) {}
}
