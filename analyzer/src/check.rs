//! Decides the obligations of one property.
use crate::engine::*;
use crate::eval::*;
use crate::items;
use crate::load::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Obl {
    pub kind: String,
    pub unit: String,
    pub module: String,
    pub pats: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Violation {
    pub at: String,
    pub rule: String,
    pub instance: String,
    pub detail: String,
}
#[derive(Default)]
pub struct Report {
    pub checked: Vec<String>,
    pub violations: Vec<Violation>,
    pub functions: BTreeSet<String>,
    pub terms: usize,
    pub internal: Vec<String>,
    /// recorded defects met on the way: `<fork>::<function>`
    pub known: BTreeSet<String>,
}
impl Report {
    fn bad(&mut self, at: String, rule: &str, instance: String, detail: String) {
        self.violations.push(Violation { at, rule: rule.into(), instance, detail });
    }
    pub fn merge(&mut self, o: Report) {
        self.checked.extend(o.checked);
        self.violations.extend(o.violations);
        self.functions.extend(o.functions);
        self.terms += o.terms;
        self.internal.extend(o.internal);
        self.known.extend(o.known);
    }
}

/// `obligations.txt`: `[ID] note`, then one obligation per line.
pub fn load_obligations(path: &str) -> Result<BTreeMap<String, Vec<Obl>>, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let mut out: BTreeMap<String, Vec<Obl>> = BTreeMap::new();
    let mut cur = String::new();
    for l in s.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.is_empty() {
            continue;
        }
        if let Some(r) = l.strip_prefix('[') {
            cur = r.split(']').next().unwrap().to_string();
            out.entry(cur.clone()).or_default();
            continue;
        }
        let w: Vec<String> = l.split_whitespace().map(|s| s.to_string()).collect();
        let v = out.get_mut(&cur).ok_or("obligation before a property")?;
        match w[0].as_str() {
            "fork" => {
                for k in FORKS {
                    if w[1] == "ALL" || w[1].split(',').any(|x| x == k) {
                        v.push(Obl { kind: if w[1] == "ALL" { "fork?".into() } else { "fork".into() }, unit: "lib".into(), module: format!("ethereum_consensus::{k}"), pats: w[2..].to_vec() });
                    }
                }
            }
            "fn" | "const" | "type" | "serde" => {
                v.push(Obl { kind: w[0].clone(), unit: w[1].clone(), module: w[2].clone(), pats: w[3..].to_vec() })
            }
            "custom" => v.push(Obl { kind: "custom".into(), unit: w[2].clone(), module: w[1].clone(), pats: w[3..].to_vec() }),
            k => v.push(Obl { kind: k.into(), unit: w.get(1).cloned().unwrap_or("lib".into()), module: w.get(2).cloned().unwrap_or_default(), pats: w[1..].to_vec() }),
        }
    }
    Ok(out)
}

pub fn glob(p: &str, s: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == s;
    }
    let Some(mut rest) = s.strip_prefix(parts[0]) else { return false };
    for (k, q) in parts[1..].iter().enumerate() {
        if k + 2 == parts.len() {
            return rest.ends_with(q) && rest.len() >= q.len();
        }
        match rest.find(q) {
            Some(i) => rest = &rest[i + q.len()..],
            None => return false,
        }
    }
    true
}

pub fn sig_summary(f: &FnDef) -> Rc<Summary> {
    let params = f
        .sig
        .inputs
        .iter()
        .map(|a| {
            let m = match a {
                syn::FnArg::Receiver(r) => r.mutability.is_some() && r.reference.is_some(),
                syn::FnArg::Typed(t) => matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()),
            };
            ParamSum { refs: None, mutates: m, mfields: None }
        })
        .collect();
    Rc::new(Summary { params })
}
/// Top-level transition functions are symbols when code outside the fork modules calls them.
pub struct ForkLeaves<'a>(pub &'a Program);
impl Leaves for ForkLeaves<'_> {
    fn leaf(&self, n: &str) -> Option<Rc<Summary>> {
        let (k, f) = n.split_once("::")?;
        if !FORKS.contains(&k) {
            return None;
        }
        let sel = f.starts_with("state_transition") || f.starts_with("upgrade_to") || f.starts_with("process_") || f.starts_with("initialize_") || f.starts_with("is_valid_genesis");
        if !sel {
            return None;
        }
        let (m, g) = self.0.resolve(&format!("ethereum_consensus::{k}"), &[f.to_string()])?;
        Some(sig_summary(&*self.0.func(&m, &g)?))
    }
    fn method_leaf(&self, _: &str) -> bool {
        false
    }
}
pub struct MapLeaves(pub HashMap<String, Rc<Summary>>);
impl Leaves for MapLeaves {
    fn leaf(&self, n: &str) -> Option<Rc<Summary>> {
        self.0.get(n).cloned()
    }
    fn method_leaf(&self, _: &str) -> bool {
        false
    }
}

/// Fields of each parameter that an outcome depends on.
pub fn outcome_summary(f: &FnDef, o: &Outcome) -> Rc<Summary> {
    let n = f.sig.inputs.len();
    let mut refs: Vec<Option<BTreeSet<String>>> = vec![Some(BTreeSet::new()); n];
    let mut seen = BTreeSet::new();
    let mut work: Vec<T> = vec![o.fail, o.ret];
    work.extend(o.outs.values().copied());
    let idx: HashMap<T, usize> = (0..n).map(|k| (var(&format!("p{k}")), k)).collect();
    while let Some(t) = work.pop() {
        if !seen.insert(t) {
            continue;
        }
        if let Some(k) = idx.get(&t) {
            refs[*k] = None;
            continue;
        }
        if let N::Field(b, x) = get(t) {
            if let Some(k) = idx.get(&b) {
                if let Some(s) = &mut refs[*k] {
                    s.insert(x);
                }
                continue;
            }
        }
        work.extend(children(&get(t)));
    }
    let base = sig_summary(f);
    let params = (0..n)
        .map(|k| {
            let keys: BTreeSet<String> = o.outs.keys().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
            let whole = keys.contains("*");
            ParamSum { refs: refs[k].clone(), mutates: base.params[k].mutates, mfields: if whole { None } else { Some(keys) } }
        })
        .collect();
    Rc::new(Summary { params })
}

fn at(f: &FnDef) -> String {
    format!("{}:{} {}", f.file, f.line, fkey(f))
}
fn clip(s: String) -> String {
    if s.len() > 900 {
        let mut e = 900;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    } else {
        s
    }
}
/// The smallest pair of subterms the two graphs disagree on.
pub fn first_diff(mut x: T, mut y: T) -> (T, T) {
    loop {
        let (a, b) = (get(x), get(y));
        if std::mem::discriminant(&a) != std::mem::discriminant(&b) {
            return (x, y);
        }
        let (ca, cb) = (children(&a), children(&b));
        if ca.len() != cb.len() {
            return (x, y);
        }
        match ca.iter().zip(&cb).find(|(p, q)| p != q) {
            Some((p, q)) => (x, y) = (*p, *q),
            None => return (x, y),
        }
    }
}
pub fn describe(d: &[(String, T, T)]) -> String {
    let mut v = vec![];
    for (w, x, y) in d.iter().take(3) {
        let (p, q) = first_diff(*x, *y);
        let near = if (p, q) == (*x, *y) { String::new() } else { format!(" [first difference: code {} | specification {}]", clip(show(p)), clip(show(q))) };
        v.push(format!("{w}:{near} code {} | specification {}", clip(show(*x)), clip(show(*y))));
    }
    if d.len() > 3 {
        v.push(format!("and {} more differences", d.len() - 3));
    }
    v.join("; ")
}

pub enum Cmp {
    Same { fns: BTreeSet<String>, warn: Vec<String>, known: BTreeSet<String> },
    Diff(Vec<(String, T, T)>),
    Stuck(String),
}
pub fn compare(c: &Ctx, dynamic: Option<&str>, module: &str, f1: &FnDef, f2: &FnDef, leaves: &dyn Leaves) -> Cmp {
    let spec = {
        let env = Env { prog: &c.spec, dynamic: dynamic.map(|s| s.to_string()), ctx: Some(module.to_string()), is_ref: true, overlay: c.overlay.borrow().clone() };
        guard(|| {
            let mut ev = Ev::new(&env, leaves);
            let o = ev.run(f2);
            let mut k: BTreeSet<String> = ev.inlined.into_iter().filter(|x| x.contains("::known::")).collect();
            if f2.module.ends_with("::known") {
                k.insert(format!("{}::{}", f2.module, f2.name));
            }
            (o, k)
        })
    };
    let mut fns = BTreeSet::new();
    let code = {
        let env = Env { prog: &c.code, dynamic: None, ctx: Some(module.to_string()), is_ref: false, overlay: vec![] };
        guard(|| {
            let mut ev = Ev::new(&env, leaves);
            let o = ev.run(f1);
            (o, ev.inlined)
        })
    };
    match (code, spec) {
        (Ok((a, inl)), Ok((b, known))) => {
            fns.extend(inl);
            let d = diff(&a, &b);
            if !d.is_empty() {
                Cmp::Diff(d)
            } else if a.unknowns.len() > b.unknowns.len() {
                Cmp::Stuck(format!("construct outside the analysed language: {}", a.unknowns.join(", ")))
            } else {
                Cmp::Same { fns, warn: b.unknowns, known }
            }
        }
        (Err(e), _) => Cmp::Stuck(format!("analysis of the code stopped: {e}")),
        (_, Err(e)) => Cmp::Stuck(format!("analysis of the specification stopped: {e}")),
    }
}
include!("check2.rs");
