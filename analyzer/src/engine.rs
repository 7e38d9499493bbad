//! Compares repository functions with the reference specification.
use crate::eval::*;
use crate::load::*;
use crate::joint::Joint;
use crate::term::*;
use std::path::Path;
use std::rc::Rc;

pub struct NoLeaves;
impl Leaves for NoLeaves {
    fn leaf(&self, _: &str) -> Option<Rc<Summary>> {
        None
    }
    fn method_leaf(&self, _: &str) -> bool {
        false
    }
}

pub struct Ctx {
    pub code: Program,
    pub spec: Program,
    /// recorded defects present in the fork under analysis: functions taken from its `known` module
    pub overlay: std::cell::RefCell<Vec<String>>,
}

/// The program units that are analysed: library, `ec` tool, beacon API client, spec generator.
pub const UNITS: [&str; 4] = ["lib", "ec", "api", "gen"];

fn load_unit(unit: &str, root: &str, is_ref: bool) -> Program {
    let mut p = Program::new();
    let d = |code: &str, spec: &str| format!("{root}/{}", if is_ref { spec } else { code });
    let mut add = |k: &str, code: &str, spec: &str| {
        let dir = d(code, spec);
        if !Path::new(&dir).is_dir() {
            p.errors.push(format!("missing source directory {dir}"));
        }
        p.load_crate(k, Path::new(&dir), if is_ref { spec } else { code });
    };
    if unit != "gen" {
        add("ethereum_consensus", "ethereum-consensus/src", "ec");
    }
    match unit {
        "ec" => add("ec", "ethereum-consensus/src/bin/ec", "ecbin"),
        "api" => add("beacon_api_client", "beacon-api-client/src", "api"),
        "gen" => add("spec_gen", "spec-gen/src", "specgen"),
        _ => {}
    }
    p
}
pub fn unit_crate(unit: &str) -> &'static str {
    match unit {
        "lib" => "ethereum_consensus",
        "ec" => "ec",
        "api" => "beacon_api_client",
        _ => "spec_gen",
    }
}
pub fn load_ctx(unit: &str, repo: &str, reference: &str) -> Ctx {
    Ctx { code: load_unit(unit, repo, false), spec: load_unit(unit, reference, true), overlay: Default::default() }
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

/// Differences between two outcomes, empty when equal.
pub fn diff(a: &Outcome, b: &Outcome) -> Vec<(String, T, T)> {
    let mut v = vec![];
    let care = not(a.fail);
    if a.fail != b.fail && !guard(|| Joint::same(tru(), a.fail, b.fail, false)).unwrap_or(false) {
        v.push(("rejection condition".to_string(), a.fail, b.fail));
    }
    if a.ret != b.ret && !guard(|| Joint::same(care, a.ret, b.ret, !v.is_empty())).unwrap_or(false) {
        v.push(("returned value".to_string(), a.ret, b.ret));
    }
    let keys: std::collections::BTreeSet<_> = a.outs.keys().chain(b.outs.keys()).cloned().collect();
    for k in keys {
        let base = || {
            let p = var(&format!("p{}", k.0));
            if k.1 == "*" { p } else { field(p, &k.1) }
        };
        let x = a.outs.get(&k).copied().unwrap_or_else(base);
        let y = b.outs.get(&k).copied().unwrap_or_else(base);
        if x != y && !guard(|| Joint::same(care, x, y, !v.is_empty())).unwrap_or(false) {
            v.push((format!("effect on argument {} field {}", k.0, k.1), x, y));
        }
    }
    v
}

pub fn eval_code(c: &Ctx, module: &str, f: &FnDef, leaves: &dyn Leaves) -> Result<Outcome, String> {
    let env = Env { prog: &c.code, dynamic: None, ctx: Some(module.to_string()), is_ref: false, overlay: vec![] };
    guard(|| Ev::new(&env, leaves).run(f))
}
pub fn eval_spec(c: &Ctx, dynamic: Option<&str>, module: &str, f: &FnDef, leaves: &dyn Leaves) -> Result<Outcome, String> {
    let env = Env { prog: &c.spec, dynamic: dynamic.map(|s| s.to_string()), ctx: Some(module.to_string()), is_ref: true, overlay: c.overlay.borrow().clone() };
    guard(|| Ev::new(&env, leaves).run(f))
}

/// Identity of a function inside its module.
pub fn fkey(f: &FnDef) -> String {
    let base = match (&f.self_ty, f.key.as_str()) {
        (Some(t), "") => format!("{t}::{}", f.name),
        (Some(t), k) => format!("<{t} as {k}>::{}", f.name),
        _ => f.name.clone(),
    };
    base + &f.cfg
}
/// All functions and methods defined directly in a module.
pub fn module_fns(p: &Program, module: &str) -> Vec<(String, Rc<FnDef>)> {
    let mut v = vec![];
    if let Some(m) = p.modules.get(module) {
        for it in m.items.values() {
            if let It::Fn(f) = it {
                v.push((fkey(f), f.clone()));
            }
        }
        for f in &m.methods {
            v.push((fkey(f), f.clone()));
        }
    }
    v
}
/// Trees the debugging commands read (the checks get theirs from the command line).
pub fn dbg_repo() -> String {
    std::env::var("AN_REPO").unwrap_or("/repo".into())
}
pub fn dbg_ref() -> String {
    std::env::var("AN_REF").unwrap_or("/verif/reference".into())
}
