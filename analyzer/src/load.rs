//! Parses every Rust source file of the repository (or of the reference model)
//! and resolves names through modules, `use` trees, globs and re-exports.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use syn::{Item, UseTree};

pub struct FnDef {
    pub name: String,
    pub module: String,
    pub file: String,
    pub line: usize,
    pub sig: syn::Signature,
    pub block: Option<syn::Block>,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub is_pub: bool,
    /// variant/type args of the self type or trait generics, for overload disambiguation
    pub key: String,
    pub attrs: Vec<syn::Attribute>,
    /// conditional compilation of the enclosing impl and of the function itself
    pub cfg: String,
}

pub enum It {
    Fn(Rc<FnDef>),
    Const(Rc<(syn::Expr, syn::Type)>),
    Struct(Rc<syn::ItemStruct>),
    Enum(Rc<syn::ItemEnum>),
    Type(Rc<syn::ItemType>),
    Trait,
    Macro,
}

#[derive(Default)]
pub struct Module {
    pub file: String,
    pub items: BTreeMap<String, It>,
    pub uses: BTreeMap<String, Vec<String>>,
    pub globs: Vec<Vec<String>>,
    pub puses: BTreeSet<String>,
    pub pglobs: BTreeSet<Vec<String>>,
    pub methods: Vec<Rc<FnDef>>,
    pub impls: Vec<Rc<(String, Option<String>, syn::ItemImpl)>>,
}

pub struct Program {
    pub modules: BTreeMap<String, Module>,
    pub files: Vec<(String, syn::File)>,
    pub methods: HashMap<String, Vec<Rc<FnDef>>>,
    pub errors: Vec<String>,
    pub n_fns: usize,
    string_names: std::sync::OnceLock<BTreeSet<String>>,
}

pub fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        (a.path().is_ident("cfg") && s.contains("test") && !s.contains("not")) || a.path().is_ident("test")
    })
}
pub fn cfg_of(attrs: &[syn::Attribute]) -> String {
    let mut v: Vec<String> = attrs.iter().filter(|a| a.path().is_ident("cfg")).map(|a| quote::quote!(#a).to_string().replace(' ', "")).collect();
    v.sort();
    v.join("")
}
pub fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        syn::Type::Paren(p) => ty_name(&p.elem),
        syn::Type::Group(p) => ty_name(&p.elem),
        _ => quote::quote!(#t).to_string().replace(' ', ""),
    }
}
pub fn path_strs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}

impl Program {
    pub fn new() -> Self {
        Program { modules: BTreeMap::new(), files: vec![], methods: HashMap::new(), errors: vec![], n_fns: 0, string_names: Default::default() }
    }
    /// Load crate rooted at `dir` (src directory) under module prefix `krate`.
    pub fn load_crate(&mut self, krate: &str, dir: &Path, rel: &str) {
        let mut files = vec![];
        walk(dir, &mut files);
        files.sort();
        for f in files {
            let r = f.strip_prefix(dir).unwrap().to_path_buf();
            if r.starts_with("bin") {
                continue;
            }
            let mut parts: Vec<String> = r.iter().map(|s| s.to_string_lossy().to_string()).collect();
            let last = parts.pop().unwrap();
            let stem = last.trim_end_matches(".rs").to_string();
            if !(stem == "mod" || stem == "lib" || (stem == "main" )) {
                parts.push(stem);
            }
            let mut m = krate.to_string();
            for p in &parts {
                m += "::";
                m += p;
            }
            let label = format!("{}/{}", rel, r.display());
            self.load_file(&m, &f, &label);
        }
    }
    pub fn load_file(&mut self, module: &str, path: &PathBuf, label: &str) {
        let src = match std::fs::read_to_string(path) {
            Ok(s) => s,
            Err(e) => {
                self.errors.push(format!("{label}: {e}"));
                return;
            }
        };
        let file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                self.errors.push(format!("{label}:{}: {e}", e.span().start().line));
                return;
            }
        };
        self.add_items(module, label, &file.items);
        self.files.push((label.to_string(), file));
    }
    fn add_items(&mut self, module: &str, label: &str, items: &[Item]) {
        let mut m = self.modules.remove(module).unwrap_or_default();
        m.file = label.to_string();
        let mut subs: Vec<(String, Vec<Item>)> = vec![];
        for it in items {
            match it {
                Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    self.n_fns += 1;
                    let d = FnDef {
                        name: f.sig.ident.to_string(),
                        module: module.into(),
                        file: label.into(),
                        line: f.sig.ident.span().start().line,
                        sig: f.sig.clone(),
                        block: Some((*f.block).clone()),
                        self_ty: None,
                        trait_name: None,
                        is_pub: !matches!(f.vis, syn::Visibility::Inherited),
                        key: String::new(),
                        attrs: f.attrs.clone(),
                        cfg: cfg_of(&f.attrs),
                    };
                    m.items.insert(f.sig.ident.to_string(), It::Fn(Rc::new(d)));
                }
                Item::Const(c) => {
                    m.items.insert(c.ident.to_string(), It::Const(Rc::new(((*c.expr).clone(), (*c.ty).clone()))));
                }
                Item::Static(c) => {
                    m.items.insert(c.ident.to_string(), It::Const(Rc::new(((*c.expr).clone(), (*c.ty).clone()))));
                }
                Item::Struct(s) => {
                    if !is_test(&s.attrs) {
                        m.items.insert(s.ident.to_string(), It::Struct(Rc::new(s.clone())));
                    }
                }
                Item::Enum(s) => {
                    m.items.insert(s.ident.to_string(), It::Enum(Rc::new(s.clone())));
                }
                Item::Type(s) => {
                    m.items.insert(s.ident.to_string(), It::Type(Rc::new(s.clone())));
                }
                Item::Trait(t) => {
                    m.items.insert(t.ident.to_string(), It::Trait);
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            self.n_fns += 1;
                            let d = Rc::new(FnDef {
                                name: f.sig.ident.to_string(),
                                module: module.into(),
                                file: label.into(),
                                line: f.sig.ident.span().start().line,
                                sig: f.sig.clone(),
                                block: f.default.clone(),
                                self_ty: Some(t.ident.to_string()),
                                trait_name: Some(t.ident.to_string()),
                                is_pub: true,
                                key: "trait".into(),
                                attrs: f.attrs.clone(),
                                cfg: cfg_of(&f.attrs),
                            });
                            m.methods.push(d.clone());
                            self.methods.entry(d.name.clone()).or_default().push(d);
                        }
                    }
                }
                Item::Macro(mm) => {
                    if let Some(i) = &mm.ident {
                        m.items.insert(i.to_string(), It::Macro);
                    }
                }
                Item::Mod(md) => {
                    if is_test(&md.attrs) {
                        continue;
                    }
                    if let Some((_, its)) = &md.content {
                        subs.push((format!("{module}::{}", md.ident), its.clone()));
                    }
                }
                Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let st = ty_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|t| path_strs(&t.1).last().cloned().unwrap_or_default());
                    let trkey = im.trait_.as_ref().map(|t| {
                        let p = &t.1.segments.last().unwrap();
                        quote::quote!(#p).to_string().replace(' ', "")
                    });
                    m.impls.push(Rc::new((st.clone(), tr.clone(), im.clone())));
                    for ii in &im.items {
                        match ii {
                            syn::ImplItem::Fn(f) => {
                                if is_test(&f.attrs) {
                                    continue;
                                }
                                self.n_fns += 1;
                                let d = Rc::new(FnDef {
                                    name: f.sig.ident.to_string(),
                                    module: module.into(),
                                    file: label.into(),
                                    line: f.sig.ident.span().start().line,
                                    sig: f.sig.clone(),
                                    block: Some(f.block.clone()),
                                    self_ty: Some(st.clone()),
                                    trait_name: tr.clone(),
                                    is_pub: !matches!(f.vis, syn::Visibility::Inherited),
                                    key: trkey.clone().unwrap_or_default(),
                                    attrs: f.attrs.clone(),
                                    cfg: cfg_of(&im.attrs) + &cfg_of(&f.attrs),
                                });
                                m.methods.push(d.clone());
                                self.methods.entry(d.name.clone()).or_default().push(d);
                            }
                            syn::ImplItem::Const(c) => {
                                m.items.insert(format!("{st}::{}", c.ident), It::Const(Rc::new((c.expr.clone(), c.ty.clone()))));
                            }
                            _ => {}
                        }
                    }
                }
                Item::Use(u) => {
                    if is_test(&u.attrs) {
                        continue;
                    }
                    let mut pre = vec![];
                    {
                        let mut one = Module::default();
                        use_tree(&u.tree, &mut pre, &mut one);
                        if !matches!(u.vis, syn::Visibility::Inherited) {
                            m.puses.extend(one.uses.keys().cloned());
                            m.pglobs.extend(one.globs.iter().cloned());
                        }
                        m.uses.extend(one.uses);
                        m.globs.extend(one.globs);
                    }
                }
                _ => {}
            }
        }
        self.modules.insert(module.to_string(), m);
        for (n, its) in subs {
            self.add_items(&n, label, &its);
        }
    }

    /// Resolve `path` as seen from `module` to (defining module, item name).
    pub fn resolve(&self, module: &str, path: &[String]) -> Option<(String, String)> {
        let mut seen = HashSet::new();
        self.res(module, path, &mut seen).or_else(|| {
            let mut seen = HashSet::from([("lenient".to_string(), vec![])]);
            self.res(module, path, &mut seen)
        })
    }
    /// Follows a glob import: private imports of the target are invisible outside its subtree.
    fn res_glob(&self, from: &str, gm: &str, path: &[String], seen: &mut HashSet<(String, Vec<String>)>) -> Option<(String, String)> {
        if seen.contains(&("lenient".to_string(), vec![])) || from == gm || from.starts_with(&format!("{gm}::")) {
            return self.res(gm, path, seen);
        }
        if !seen.insert((format!("glob {gm}"), path.to_vec())) {
            return None;
        }
        let name = &path[0];
        let m = self.modules.get(gm)?;
        if m.items.contains_key(name) {
            return Some((gm.to_string(), name.clone()));
        }
        if let (Some(target), true) = (m.uses.get(name), m.puses.contains(name)) {
            if let Some(r) = self.res(gm, target, seen) {
                return Some(r);
            }
        }
        for g in m.globs.iter().filter(|g| m.pglobs.contains(*g)) {
            if let Some(g2) = self.resolve_mod_path(gm, g, seen) {
                if let Some(r) = self.res_glob(gm, &g2, path, seen) {
                    return Some(r);
                }
            }
        }
        None
    }
    fn res(&self, module: &str, path: &[String], seen: &mut HashSet<(String, Vec<String>)>) -> Option<(String, String)> {
        if path.is_empty() || !seen.insert((module.to_string(), path.to_vec())) {
            return None;
        }
        let krate = module.split("::").next().unwrap().to_string();
        match path[0].as_str() {
            "crate" => return self.res(&krate, &path[1..], seen),
            "self" => return self.res(module, &path[1..], seen),
            "super" => {
                let parent = module.rsplit_once("::").map(|x| x.0).unwrap_or(module).to_string();
                return self.res(&parent, &path[1..], seen);
            }
            _ => {}
        }
        if path.len() > 1 {
            // crate name?
            if let Some(k) = self.crate_for(&path[0]) {
                if k != krate || !self.modules.contains_key(&format!("{module}::{}", path[0])) {
                    return self.res(&k, &path[1..], seen);
                }
            }
            // first segment as module
            if let Some(mm) = self.resolve_mod(module, &path[0], seen) {
                return self.res(&mm, &path[1..], seen);
            }
            // Type::CONST
            if path.len() == 2 {
                if let Some((dm, tn)) = self.res(module, &path[..1], seen) {
                    let key = format!("{tn}::{}", path[1]);
                    if self.modules.get(&dm).map_or(false, |m| m.items.contains_key(&key)) {
                        return Some((dm, key));
                    }
                }
            }
            return None;
        }
        let name = &path[0];
        let m = self.modules.get(module)?;
        if m.items.contains_key(name) {
            return Some((module.to_string(), name.clone()));
        }
        if let Some(target) = m.uses.get(name) {
            if let Some(r) = self.res(module, target, seen) {
                return Some(r);
            }
        }
        for g in &m.globs {
            let gm = if g.len() == 1 && (g[0] == "super") {
                Some(module.rsplit_once("::").map(|x| x.0).unwrap_or(module).to_string())
            } else {
                self.resolve_mod_path(module, g, seen)
            };
            if let Some(gm) = gm {
                if let Some(r) = self.res_glob(module, &gm, path, seen) {
                    return Some(r);
                }
            }
        }
        None
    }
    fn crate_for(&self, seg: &str) -> Option<String> {
        if self.modules.contains_key(seg) {
            Some(seg.to_string())
        } else {
            None
        }
    }
    fn resolve_mod_path(&self, module: &str, p: &[String], seen: &mut HashSet<(String, Vec<String>)>) -> Option<String> {
        let krate = module.split("::").next().unwrap().to_string();
        let mut cur = module.to_string();
        for (i, s) in p.iter().enumerate() {
            cur = match s.as_str() {
                "crate" => krate.clone(),
                "self" => cur,
                "super" => cur.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or(cur),
                _ => {
                    if i == 0 {
                        if let Some(k) = self.crate_for(s) {
                            k
                        } else {
                            self.resolve_mod(&cur, s, seen)?
                        }
                    } else {
                        self.resolve_mod(&cur, s, seen)?
                    }
                }
            };
        }
        if self.modules.contains_key(&cur) {
            Some(cur)
        } else {
            None
        }
    }
    fn resolve_mod(&self, module: &str, seg: &str, seen: &mut HashSet<(String, Vec<String>)>) -> Option<String> {
        let direct = format!("{module}::{seg}");
        if self.modules.contains_key(&direct) {
            return Some(direct);
        }
        // the reference model has no generated `spec` modules: the fork module itself plays that part
        if seg == "spec" && crate::eval::FORKS.iter().any(|k| module.ends_with(&format!("::{k}"))) {
            return Some(module.to_string());
        }
        let key = (module.to_string(), vec![format!("mod:{seg}")]);
        if !seen.insert(key) {
            return None;
        }
        let m = self.modules.get(module)?;
        if let Some(t) = m.uses.get(seg) {
            if let Some(r) = self.resolve_mod_path(module, t, seen) {
                return Some(r);
            }
        }
        for g in &m.globs {
            if let Some(gm) = self.resolve_mod_path(module, g, seen) {
                if let Some(r) = self.resolve_mod(&gm, seg, seen) {
                    return Some(r);
                }
            }
        }
        None
    }
    pub fn module_of(&self, module: &str, p: &[String]) -> Option<String> {
        let mut seen = HashSet::new();
        self.resolve_mod_path(module, p, &mut seen)
    }
    pub fn item(&self, dm: &str, name: &str) -> Option<&It> {
        self.modules.get(dm).and_then(|m| m.items.get(name))
    }
    pub fn func(&self, dm: &str, name: &str) -> Option<Rc<FnDef>> {
        match self.item(dm, name) {
            Some(It::Fn(f)) => Some(f.clone()),
            _ => None,
        }
    }
}

fn use_tree(t: &UseTree, pre: &mut Vec<String>, m: &mut Module) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            use_tree(&p.tree, pre, m);
            pre.pop();
        }
        UseTree::Name(n) => {
            let id = n.ident.to_string();
            if id == "self" {
                if let Some(l) = pre.last() {
                    m.uses.insert(l.clone(), pre.clone());
                }
            } else {
                let mut p = pre.clone();
                p.push(id.clone());
                m.uses.insert(id, p);
            }
        }
        UseTree::Rename(r) => {
            let mut p = pre.clone();
            if r.ident != "self" {
                p.push(r.ident.to_string());
            }
            m.uses.insert(r.rename.to_string(), p);
        }
        UseTree::Glob(_) => m.globs.push(pre.clone()),
        UseTree::Group(g) => {
            for x in &g.items {
                use_tree(x, pre, m);
            }
        }
    }
}
fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out)
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p)
            }
        }
    }
}
impl Program {
    /// Names of the fields that are strings wherever they are declared.
    pub fn string_fields(&self) -> &BTreeSet<String> {
        self.string_names.get_or_init(|| {
            let (mut yes, mut no) = (BTreeSet::new(), BTreeSet::new());
            for m in self.modules.values() {
                for it in m.items.values() {
                    if let It::Struct(s) = it {
                        for f in &s.fields {
                            let (Some(i), t) = (&f.ident, &f.ty) else { continue };
                            let t = quote::quote!(#t).to_string();
                            if matches!(t.as_str(), "String" | "& 'static str" | "& str" | "Passphrase") {
                                yes.insert(i.to_string());
                            } else {
                                no.insert(i.to_string());
                            }
                        }
                    }
                }
            }
            yes.difference(&no).cloned().collect()
        })
    }
    /// Names of the fields and (with `()`) functions of a module whose type is a 128-bit integer.
    pub fn wide_names(&self, module: &str) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let Some(m) = self.modules.get(module) else { return out };
        let is = |t: &syn::Type| quote::quote!(#t).to_string() == "u128";
        for it in m.items.values() {
            match it {
                It::Struct(s) => {
                    for f in s.fields.iter().filter(|f| is(&f.ty)) {
                        out.extend(f.ident.as_ref().map(|i| i.to_string()));
                    }
                }
                It::Fn(f) if matches!(&f.sig.output, syn::ReturnType::Type(_, t) if is(t)) => {
                    out.insert(f.name.clone() + "()");
                }
                _ => {}
            }
        }
        for f in &m.methods {
            if matches!(&f.sig.output, syn::ReturnType::Type(_, t) if is(t)) {
                out.insert(f.name.clone() + "()");
            }
        }
        out
    }
}
