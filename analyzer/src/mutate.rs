//! `analyzer mutate <unit> <module substring> [function] [shard/of]`: how many single-point changes of each
//! function body leave its value graph unchanged? Used to look for blind spots, not by the checks.
use crate::check::*;
use crate::engine::*;
use crate::eval::*;
use crate::load::*;
use std::rc::Rc;
use syn::visit_mut::{self, VisitMut};

#[derive(Default)]
struct Mut {
    want: usize,
    at: usize,
    done: Option<String>,
    in_err: usize,
    second: bool,
}
fn src<T: quote::ToTokens>(t: &T) -> String {
    let s = quote::quote!(#t).to_string();
    s.chars().take(90).collect()
}
impl Mut {
    fn hit(&mut self) -> bool {
        self.at += 1;
        self.in_err == 0 && self.done.is_none() && self.at - 1 == self.want
    }
    fn note(&mut self, sp: proc_macro2::Span, s: String) {
        self.done = Some(format!("line {}: {s}", sp.start().line));
    }
}
fn is_err_call(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Err" || s.ident.to_string().contains("error") || s.ident.to_string().contains("Invalid"))) || matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.iter().any(|s| s.ident == "Error" || s.ident.to_string().starts_with("Invalid"))),
        syn::Expr::Struct(s) => s.path.segments.iter().any(|s| s.ident.to_string().starts_with("Invalid") || s.ident == "Error"),
        _ => false,
    }
}
const RENAMES: [(&str, &str); 26] = [
    ("min", "max"), ("max", "min"), ("any", "all"), ("all", "any"), ("first", "last"), ("last", "first"), ("is_some", "is_none"), ("is_none", "is_some"),
    ("is_ok", "is_err"), ("is_err", "is_ok"), ("skip", "take"), ("take", "skip"), ("to_le_bytes", "to_be_bytes"), ("to_be_bytes", "to_le_bytes"),
    ("saturating_sub", "wrapping_sub"), ("checked_add", "checked_sub"), ("checked_sub", "checked_add"), ("is_empty", "is_some"), ("contains_key", "is_empty"),
    ("saturating_add", "wrapping_add"), ("push", "insert"), ("lt", "le"), ("gt", "ge"), ("zip", "chain"), ("unwrap_or_default", "unwrap"), ("position", "rposition"),
];
const WORDS: [(&str, &str); 30] = [
    ("current", "previous"), ("previous", "current"), ("source", "target"), ("target", "source"), ("activation", "exit"), ("exit", "activation"),
    ("withdrawable", "exit"), ("1", "2"), ("2", "1"), ("electra", "deneb"), ("deneb", "capella"), ("capella", "bellatrix"), ("bellatrix", "altair"), ("altair", "bellatrix"),
    ("slot", "epoch"), ("epoch", "slot"), ("min", "max"), ("max", "min"), ("head", "target"), ("effective", "actual"), ("proposer", "sync"), ("justified", "finalized"),
    ("finalized", "justified"), ("left", "right"), ("SLOT", "EPOCH"), ("CURRENT", "PREVIOUS"), ("PROPOSER", "SYNC"), ("SOURCE", "TARGET"), ("TARGET", "HEAD"), ("public", "secret"),
];
fn reword(s: &str) -> Vec<String> {
    let mut out = vec![];
    for (a, b) in WORDS {
        let parts: Vec<&str> = s.split('_').collect();
        for k in 0..parts.len() {
            if parts[k] == a {
                let mut p = parts.clone();
                p[k] = b;
                out.push(p.join("_"));
            }
        }
    }
    out
}
impl Mut {
    fn second_ops(&mut self, e: &mut syn::Expr, sp: proc_macro2::Span) {
        match e {
            syn::Expr::Match(m) => {
                for k in 0..m.arms.len().saturating_sub(1) {
                    if src(&m.arms[k].body) != src(&m.arms[k + 1].body) && self.hit() {
                        self.note(sp, format!("arm bodies {k},{} swapped: {}", k + 1, src(&m.expr)));
                        let (x, y) = (m.arms[k].body.clone(), m.arms[k + 1].body.clone());
                        m.arms[k].body = y;
                        m.arms[k + 1].body = x;
                    }
                }
                for k in 0..m.arms.len() {
                    if m.arms[k].guard.is_some() && self.hit() {
                        self.note(sp, format!("guard {k} dropped"));
                        m.arms[k].guard = None;
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                for (a, b) in RENAMES {
                    if n == a && self.hit() {
                        self.note(sp, format!("{n} => {b}"));
                        m.method = syn::Ident::new(b, m.method.span());
                    }
                }
                for b in reword(&n) {
                    if self.hit() {
                        self.note(sp, format!("method {n} => {b}"));
                        m.method = syn::Ident::new(&b, m.method.span());
                    }
                }
                if !matches!(n.as_str(), "clone" | "to_vec" | "into" | "iter" | "into_iter" | "as_ref" | "copied" | "cloned" | "to_owned" | "as_slice" | "unwrap" | "expect" | "as_mut" | "iter_mut" | "try_into" | "collect" | "to_string" | "by_ref" | "as_bytes" | "deref" | "map_err" | "ok_or" | "ok_or_else" | "ok" | "as_str" | "as_deref" | "borrow")
                    && self.hit()
                {
                    self.note(sp, format!("dropped .{n}(..) of {}", src(m)));
                    let r = (*m.receiver).clone();
                    *e = r;
                }
            }
            syn::Expr::Field(f) => {
                if let syn::Member::Named(i) = &f.member {
                    let n = i.to_string();
                    for b in reword(&n) {
                        if self.hit() {
                            self.note(sp, format!("field {n} => {b}"));
                            f.member = syn::Member::Named(syn::Ident::new(&b, sp));
                        }
                    }
                } else if let syn::Member::Unnamed(i) = &f.member {
                    if self.hit() {
                        let k = if i.index == 0 { 1 } else { 0 };
                        self.note(sp, format!(".{} => .{k}", i.index));
                        f.member = syn::Member::Unnamed(syn::Index::from(k as usize));
                    }
                }
            }
            syn::Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                for b in reword(&n) {
                    if self.hit() {
                        self.note(sp, format!("name {n} => {b}"));
                        p.path.segments.last_mut().unwrap().ident = syn::Ident::new(&b, sp);
                    }
                }
                if p.path.segments.len() > 1 {
                    let n = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    for b in reword(&n) {
                        if self.hit() {
                            self.note(sp, format!("path {n} => {b}"));
                            let l = p.path.segments.len();
                            p.path.segments[l - 2].ident = syn::Ident::new(&b, sp);
                        }
                    }
                }
            }
            syn::Expr::Try(t) => {
                if matches!(&*t.expr, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) && self.hit() {
                    self.note(sp, format!("error of {} ignored", src(&t.expr)));
                    let x = (*t.expr).clone();
                    *e = syn::parse_quote!(match #x { Ok(v) => v, Err(_) => Default::default() });
                }
            }
            syn::Expr::Return(_) => {
                if self.hit() {
                    self.note(sp, format!("dropped {}", src(e)));
                    *e = syn::parse_quote!(());
                }
            }
            syn::Expr::Continue(_) => {
                if self.hit() {
                    self.note(sp, "continue => break".into());
                    *e = syn::parse_quote!(break);
                }
            }
            syn::Expr::Break(_) => {
                if self.hit() {
                    self.note(sp, "break => continue".into());
                    *e = syn::parse_quote!(continue);
                }
            }
            syn::Expr::If(i) => {
                if matches!(&*i.cond, syn::Expr::Let(_)) && self.hit() {
                    self.note(sp, format!("never taken: {}", src(&i.cond)));
                    *e = match i.else_branch.take() {
                        Some((_, b)) => *b,
                        None => syn::parse_quote!(()),
                    };
                } else if i.else_branch.is_some() && self.hit() {
                    self.note(sp, format!("else dropped: {}", src(&i.cond)));
                    i.else_branch = None;
                }
            }
            syn::Expr::Cast(c) => {
                if self.hit() {
                    self.note(sp, format!("cast {} => u8", src(c)));
                    *c.ty = syn::parse_quote!(u8);
                }
            }
            syn::Expr::Index(i) => {
                if !matches!(&*i.index, syn::Expr::Range(_)) && self.hit() {
                    self.note(sp, format!("index {} => 0", src(i)));
                    *i.index = syn::parse_quote!(0);
                }
            }
            _ => {}
        }
    }
}
impl VisitMut for Mut {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        use syn::BinOp::*;
        let err = is_err_call(e);
        if err {
            self.in_err += 1;
        }
        let sp = syn::spanned::Spanned::span(&*e);
        if self.second {
            self.second_ops(e, sp);
            visit_mut::visit_expr_mut(self, e);
            if err {
                self.in_err -= 1;
            }
            return;
        }
        match e {
            syn::Expr::Binary(b) => {
                let alts: Vec<syn::BinOp> = match b.op {
                    Add(_) => vec![syn::parse_quote!(-)],
                    Sub(_) => vec![syn::parse_quote!(+)],
                    Mul(_) => vec![syn::parse_quote!(/)],
                    Div(_) => vec![syn::parse_quote!(*)],
                    Rem(_) => vec![syn::parse_quote!(/)],
                    Lt(_) => vec![syn::parse_quote!(<=), syn::parse_quote!(>)],
                    Le(_) => vec![syn::parse_quote!(<)],
                    Gt(_) => vec![syn::parse_quote!(>=)],
                    Ge(_) => vec![syn::parse_quote!(>)],
                    Eq(_) => vec![syn::parse_quote!(!=)],
                    Ne(_) => vec![syn::parse_quote!(==)],
                    And(_) => vec![syn::parse_quote!(||)],
                    Or(_) => vec![syn::parse_quote!(&&)],
                    AddAssign(_) => vec![syn::parse_quote!(-=)],
                    SubAssign(_) => vec![syn::parse_quote!(+=)],
                    Shl(_) => vec![syn::parse_quote!(>>)],
                    Shr(_) => vec![syn::parse_quote!(<<)],
                    BitAnd(_) => vec![syn::parse_quote!(|)],
                    BitOr(_) => vec![syn::parse_quote!(&)],
                    _ => vec![],
                };
                for a in alts {
                    if self.hit() {
                        let old = src(b);
                        b.op = a;
                        self.note(sp, format!("{old} => {}", src(b)));
                    }
                }
                if matches!(b.op, And(_) | Or(_)) && self.done.is_none() {
                    let old = src(b);
                    let keep = if self.hit() { Some((*b.left).clone()) } else if self.hit() { Some((*b.right).clone()) } else { None };
                    if let Some(k) = keep {
                        self.note(sp, format!("{old} => {}", src(&k)));
                        *e = k;
                    }
                }
            }
            syn::Expr::Lit(l) => {
                if let syn::Lit::Int(i) = &l.lit {
                    if let Ok(v) = i.base10_parse::<u128>() {
                        if self.hit() {
                            let n = syn::LitInt::new(&format!("{}{}", v + 1, i.suffix()), i.span());
                            self.note(sp, format!("{v} => {}", v + 1));
                            l.lit = syn::Lit::Int(n);
                        }
                    }
                } else if let syn::Lit::Bool(b) = &mut l.lit {
                    if self.hit() {
                        b.value = !b.value;
                        self.note(sp, format!("bool => {}", src(l)));
                    }
                } else if let syn::Lit::Str(b) = &l.lit {
                    if self.hit() {
                        let n = syn::LitStr::new(&format!("{}x", b.value()), b.span());
                        self.note(sp, format!("string {} changed", src(l)));
                        l.lit = syn::Lit::Str(n);
                    }
                }
            }
            syn::Expr::If(i) => {
                if !matches!(&*i.cond, syn::Expr::Let(_)) {
                    if self.hit() {
                        let c = &i.cond;
                        self.note(sp, format!("negated if {}", src(c)));
                        i.cond = syn::parse_quote!(!(#c));
                    } else if self.hit() {
                        self.note(sp, format!("never taken: if {}", src(&i.cond)));
                        i.cond = syn::parse_quote!(false);
                    }
                }
            }
            syn::Expr::Range(r) => {
                if self.hit() {
                    let old = src(r);
                    r.limits = match r.limits {
                        syn::RangeLimits::HalfOpen(_) if r.end.is_some() => syn::parse_quote!(..=),
                        _ => syn::parse_quote!(..),
                    };
                    if src(r) != old {
                        self.note(sp, format!("{old} => {}", src(r)));
                    } else {
                        self.done = Some(String::new());
                    }
                }
            }
            syn::Expr::Call(c) if c.args.len() >= 2 => {
                for k in 0..c.args.len() - 1 {
                    if self.hit() {
                        let old = src(c);
                        let (x, y) = (c.args[k].clone(), c.args[k + 1].clone());
                        c.args[k] = y;
                        c.args[k + 1] = x;
                        self.note(sp, format!("{old} args {k},{} swapped", k + 1));
                    }
                }
            }
            syn::Expr::Struct(s) if s.fields.len() >= 2 => {
                for k in 0..s.fields.len() - 1 {
                    if self.hit() {
                        let (x, y) = (s.fields[k].expr.clone(), s.fields[k + 1].expr.clone());
                        s.fields[k].expr = y;
                        s.fields[k + 1].expr = x;
                        s.fields[k].colon_token = Some(Default::default());
                        s.fields[k + 1].colon_token = Some(Default::default());
                        self.note(sp, format!("struct {} field values {k},{} swapped", src(&s.path), k + 1));
                    }
                }
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {
                if self.hit() {
                    let x = (*u.expr).clone();
                    self.note(sp, format!("dropped ! of {}", src(&x)));
                    *e = x;
                }
            }
            syn::Expr::Assign(a) => {
                if self.hit() {
                    self.note(sp, format!("dropped {}", src(a)));
                    *e = syn::parse_quote!(());
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if err {
            self.in_err -= 1;
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        for k in 0..if self.second { 0 } else { b.stmts.len() } {
            let sp = syn::spanned::Spanned::span(&b.stmts[k]);
            if let syn::Stmt::Expr(x, Some(_)) = &b.stmts[k] {
                if matches!(x, syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Try(_) | syn::Expr::Binary(_) | syn::Expr::Break(_) | syn::Expr::Continue(_)) && self.hit() {
                    self.note(sp, format!("removed {}", src(x)));
                    b.stmts[k] = syn::parse_quote!((););
                }
            }
            if k + 1 < b.stmts.len() && matches!((&b.stmts[k], &b.stmts[k + 1]), (syn::Stmt::Expr(_, Some(_)), syn::Stmt::Expr(_, Some(_)))) && self.hit() {
                self.note(sp, format!("swapped statements {} ; {}", src(&b.stmts[k]), src(&b.stmts[k + 1])));
                b.stmts.swap(k, k + 1);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_macro_mut(&mut self, _: &mut syn::Macro) {}
}
pub fn run(a: &[String]) {
    let unit = a[2].clone();
    let sub = a[3].clone();
    let only = a.get(4).cloned().unwrap_or("-".into());
    let (sh, of) = a.get(5).and_then(|s| s.split_once('/').map(|(x, y)| (x.parse::<usize>().unwrap(), y.parse::<usize>().unwrap()))).unwrap_or((0, 1));
    let c = load_ctx(&unit, &dbg_repo(), &dbg_ref());
    let kr = unit_crate(&unit);
    let second = std::env::var("MU").is_ok_and(|x| x == "2");
    let refs = std::env::var("MU").is_ok_and(|x| x == "R");
    let (mut total, mut alive) = (0, 0);
    let mut n = 0;
    for m in c.code.modules.keys() {
        if !(m == kr || m.starts_with(&format!("{kr}::"))) || !m.contains(&sub) || m.contains("tests") || m.ends_with("::spec") {
            continue;
        }
        for (key, f) in module_fns(&c.code, m) {
            if only != "-" && f.name != only {
                continue;
            }
            n += 1;
            if n % of != sh || f.block.is_none() {
                continue;
            }
            let fork = fork_of(m);
            let ctx = match fork {
                Some(k) => format!("ethereum_consensus::{k}"),
                None => m.clone(),
            };
            let f2 = module_fns(&c.spec, m).into_iter().find(|x| x.0 == key).map(|x| x.1);
            let Some(f2) = f2.or_else(|| if f.self_ty.is_none() { spec_fn(&c, &ctx, &f.name) } else { None }) else {
                println!("UNMATCHED {m} {key}");
                continue;
            };
            let nol = NoLeaves;
            let fl = ForkLeaves(&c.spec);
            let leaves: &dyn Leaves = if fork.is_some() && f.self_ty.is_none() { &nol } else { &fl };
            let dynm = if fork.is_some() && f.self_ty.is_none() { Some(ctx.as_str()) } else { None };
            let mdl = if dynm.is_some() { ctx.as_str() } else { m.as_str() };
            if !matches!(compare(&c, dynm, mdl, &f, &f2, leaves), Cmp::Same { .. }) {
                println!("BASE DIFFERS {m} {key}");
                continue;
            }
            for k in 0.. {
                let mut b = f.block.clone().unwrap();
                if refs {
                    let mut r = crate::refactor::Ref { want: k, only: std::env::var("ONLY").unwrap_or_default(), ..Default::default() };
                    let mut asy = false;
                    for a in &f.sig.inputs {
                        if let syn::FnArg::Typed(t) = a {
                            if let syn::Pat::Ident(i) = &*t.pat {
                                let ty = &t.ty;
                                r.params.push((i.ident.to_string(), quote::quote!(#ty).to_string()));
                                asy |= i.mutability.is_some();
                            }
                        }
                    }
                    let ret = &f.sig.output;
                    r.result = quote::quote!(#ret).to_string().contains("Result") && !asy;
                    r.visit_block_mut(&mut b);
                    match r.done {
                        None if k >= r.at => break,
                        None => continue,
                        Some(d) if d.is_empty() => continue,
                        Some(d) => {
                            total += 1;
                            let g = Rc::new(FnDef { name: f.name.clone(), module: f.module.clone(), file: f.file.clone(), line: f.line, sig: f.sig.clone(), block: Some(b.clone()), self_ty: f.self_ty.clone(), trait_name: f.trait_name.clone(), is_pub: f.is_pub, key: f.key.clone(), attrs: f.attrs.clone(), cfg: f.cfg.clone() });
                            let cmp = compare(&c, dynm, mdl, &g, &f2, leaves);
                            if !matches!(cmp, Cmp::Same { .. }) {
                                alive += 1;
                                println!("ALARM {}:{} {key} {d}", f.file.rsplit("src/").next().unwrap_or(""), f.line);
                                if std::env::var("SHOW").is_ok() {
                                    println!("{}", quote::quote!(#b));
                                    if let Cmp::Diff(d) = cmp {
                                        println!("{}", describe(&d));
                                    }
                                }
                            }
                        }
                    }
                    continue;
                }
                let mut mu = Mut { want: k, second, ..Default::default() };
                mu.visit_block_mut(&mut b);
                match mu.done {
                    None if k >= mu.at => break,
                    None => continue,
                    Some(d) if d.is_empty() => continue,
                    Some(d) => {
                        total += 1;
                        let g = Rc::new(FnDef { name: f.name.clone(), module: f.module.clone(), file: f.file.clone(), line: f.line, sig: f.sig.clone(), block: Some(b), self_ty: f.self_ty.clone(), trait_name: f.trait_name.clone(), is_pub: f.is_pub, key: f.key.clone(), attrs: f.attrs.clone(), cfg: f.cfg.clone() });
                        if let Cmp::Same { .. } = compare(&c, dynm, mdl, &g, &f2, leaves) {
                            alive += 1;
                            println!("ALIVE {}:{} {key} {d}", f.file.rsplit("src/").next().unwrap_or(""), f.line);
                        }
                    }
                }
            }
        }
    }
    println!("TOTAL {total} ALIVE {alive}");
}
