//! Declarations: constants by value, data layouts and (de)serialisation attributes item by item.
use crate::check::{glob, Obl, Report, Violation};
use crate::engine::*;
use crate::eval::*;
use crate::load::*;
use crate::term::*;
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;

struct Strip;
impl VisitMut for Strip {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 {
            let l = p.segments.last().unwrap().clone();
            p.segments = std::iter::once(l).collect();
            p.leading_colon = None;
        }
    }
}
pub fn ty_str(t: &syn::Type) -> String {
    let mut t = t.clone();
    Strip.visit_type_mut(&mut t);
    quote::quote!(#t).to_string().replace(' ', "")
}
const DERIVES: [&str; 12] = ["Serializable", "Merkleized", "SimpleSerialize", "Serialize", "Deserialize", "Default", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "HashTreeRoot"];

/// Attributes that decide layout or encoding, as a sorted list.
pub fn attrs_of(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        let inner = s.trim_start_matches("#[").trim_end_matches(']').to_string();
        push_attr(&inner, "", &mut v);
    }
    v.sort();
    v.dedup();
    v
}
fn split_top(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut d = 0;
    let mut q = false;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '"' => q = !q,
            '(' | '[' | '<' | '{' if !q => d += 1,
            ')' | ']' | '>' | '}' if !q => d -= 1,
            ',' if d == 0 && !q => {
                v.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
fn push_attr(s: &str, cond: &str, v: &mut Vec<String>) {
    if let Some(r) = s.strip_prefix("cfg_attr(").and_then(|r| r.strip_suffix(')')) {
        let parts = split_top(r);
        for p in &parts[1..] {
            push_attr(p, &parts[0], v);
        }
        return;
    }
    let c = if cond.is_empty() { String::new() } else { format!("if {cond}: ") };
    if let Some(r) = s.strip_prefix("derive(").and_then(|r| r.strip_suffix(')')) {
        for p in split_top(r) {
            let l = p.rsplit("::").next().unwrap().to_string();
            if DERIVES.contains(&l.as_str()) {
                v.push(format!("{c}derive {l}"));
            }
        }
        return;
    }
    for k in ["serde", "ssz"] {
        if let Some(r) = s.strip_prefix(&format!("{k}(")).and_then(|r| r.strip_suffix(')')) {
            for p in split_top(r) {
                v.push(format!("{c}{k} {p}"));
            }
            return;
        }
    }
    if s == "default" || s.starts_with("cfg(") || s.starts_with("repr(") || s.starts_with("serde_as") {
        v.push(format!("{c}{s}"));
    }
}
fn fields_str(f: &syn::Fields) -> Vec<String> {
    f.iter()
        .enumerate()
        .map(|(k, f)| {
            let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(k.to_string());
            format!("{n}: {} {:?}", ty_str(&f.ty), attrs_of(&f.attrs))
        })
        .collect()
}
fn generics_str(g: &syn::Generics) -> String {
    g.params.iter().map(|p| quote::quote!(#p).to_string().replace(' ', "")).collect::<Vec<_>>().join(",")
}
/// Rows describing a declaration, compared one by one.
pub fn rows(it: &It) -> Option<Vec<String>> {
    match it {
        It::Struct(s) => {
            let mut v = vec![format!("generics <{}>", generics_str(&s.generics))];
            v.extend(attrs_of(&s.attrs).into_iter().map(|a| format!("attribute {a}")));
            v.extend(fields_str(&s.fields).into_iter().enumerate().map(|(k, f)| format!("field {k} {f}")));
            Some(v)
        }
        It::Enum(s) => {
            let mut v = vec![format!("generics <{}>", generics_str(&s.generics))];
            v.extend(attrs_of(&s.attrs).into_iter().map(|a| format!("attribute {a}")));
            for (k, x) in s.variants.iter().enumerate() {
                let d = x.discriminant.as_ref().map(|d| {
                    let e = &d.1;
                    quote::quote!(= #e).to_string().replace(' ', "")
                });
                v.push(format!("variant {k} {} {} {:?} {:?}", x.ident, d.unwrap_or_default(), attrs_of(&x.attrs), fields_str(&x.fields)));
            }
            Some(v)
        }
        It::Type(t) => Some(vec![format!("alias <{}> = {}", generics_str(&t.generics), ty_str(&t.ty))]),
        _ => None,
    }
}
pub fn line_of(p: &Program, module: &str, name: &str) -> String {
    let Some(m) = p.modules.get(module) else { return module.to_string() };
    let l = match m.items.get(name) {
        Some(It::Struct(s)) => s.ident.span().start().line,
        Some(It::Enum(s)) => s.ident.span().start().line,
        Some(It::Type(s)) => s.ident.span().start().line,
        Some(It::Const(c)) => {
            use syn::spanned::Spanned;
            c.0.span().start().line
        }
        _ => 0,
    };
    format!("{}:{l} {name}", m.file)
}
pub fn const_term(p: &Program, dm: &str, name: &str, is_ref: bool) -> Result<T, String> {
    let env = Env { prog: p, dynamic: None, ctx: Some(dm.to_string()), is_ref, overlay: vec![] };
    let (dm, name) = (dm.to_string(), name.to_string());
    guard(move || Ev::new(&env, &NoLeaves).const_value(&dm, &name))
}
pub fn obligations(c: &Ctx, obls: &[Obl], rep: &mut Report) {
    for o in obls {
        if crate::custom::run(c, o, rep) {
            continue;
        }
        let kr = unit_crate(&o.unit);
        let g = if o.module == "." { kr.to_string() } else { format!("{kr}::{}", o.module) };
        let mut hits = 0;
        for (m, md) in c.spec.modules.iter().filter(|(m, _)| glob(&g, m)) {
            for (n, it) in &md.items {
                let applies = match (o.kind.as_str(), it) {
                    ("const", It::Const(_)) => true,
                    ("type", It::Struct(_) | It::Enum(_) | It::Type(_)) => true,
                    _ => false,
                };
                if !applies || !o.pats.iter().any(|p| glob(p, n)) {
                    continue;
                }
                hits += 1;
                let inst = format!("{m} {n}");
                if rep.checked.contains(&inst) {
                    continue;
                }
                rep.checked.push(inst.clone());
                let mut bad = |at: String, detail: String| {
                    rep.violations.push(Violation { at, rule: if o.kind == "const" { "constant agrees with the specification".into() } else { "declaration agrees with the specification".into() }, instance: inst.clone(), detail })
                };
                let found = if md_has(&c.code, m, n) { Some((m.clone(), n.clone())) } else { c.code.resolve(m, &[n.clone()]) };
                let Some((dm, dn)) = found else {
                    bad(m.clone(), "not defined".into());
                    continue;
                };
                if o.kind == "const" {
                    match (const_term(&c.code, &dm, &dn, false), const_term(&c.spec, m, n, true)) {
                        (Ok(a), Ok(b)) if a == b => {}
                        (Ok(a), Ok(b)) => bad(line_of(&c.code, &dm, &dn), format!("code {} | specification {}", show(a), show(b))),
                        (a, b) => bad(line_of(&c.code, &dm, &dn), format!("cannot be evaluated: {:?} {:?}", a.err(), b.err())),
                    }
                    continue;
                }
                let (Some(a), Some(b)) = (c.code.item(&dm, &dn).and_then(rows), rows(it)) else {
                    bad(line_of(&c.code, &dm, &dn), "is not a type declaration".into());
                    continue;
                };
                if a != b {
                    let extra: Vec<&String> = a.iter().filter(|x| !b.contains(x)).take(4).collect();
                    let missing: Vec<&String> = b.iter().filter(|x| !a.contains(x)).take(4).collect();
                    bad(line_of(&c.code, &dm, &dn), format!("code has {extra:?} | specification has {missing:?}"));
                }
            }
        }
        if hits == 0 {
            rep.internal.push(format!("obligation matches nothing: {} {} {} {:?}", o.kind, o.unit, o.module, o.pats));
        }
    }
    let _ = BTreeMap::<u8, u8>::new();
}
fn md_has(p: &Program, m: &str, n: &str) -> bool {
    p.modules.get(m).map(|x| x.items.contains_key(n)).unwrap_or(false)
}
