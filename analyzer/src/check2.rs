/// Names of fork functions visible from fork `k` in the specification.
pub fn fork_names(c: &Ctx, k: &str) -> Vec<String> {
    let ctx = format!("ethereum_consensus::{k}");
    let mut names = BTreeSet::new();
    for (m, md) in &c.spec.modules {
        if m.starts_with("ethereum_consensus::") && fork_of(m).is_some() {
            for (n, i) in &md.items {
                if let It::Fn(_) = i {
                    names.insert(n.clone());
                }
            }
        }
    }
    names.into_iter().filter(|n| spec_fn(c, &ctx, n).is_some()).collect()
}
pub fn spec_fn(c: &Ctx, ctx: &str, n: &str) -> Option<Rc<FnDef>> {
    if c.overlay.borrow().iter().any(|x| x == n) {
        return c.spec.func(&format!("{ctx}::known"), n);
    }
    let (m, f) = c.spec.resolve(ctx, &[n.to_string()])?;
    c.spec.func(&m, &f)
}
pub fn code_fn(c: &Ctx, ctx: &str, n: &str) -> Option<Rc<FnDef>> {
    let (m, f) = c.code.resolve(ctx, &[n.to_string()])?;
    c.code.func(&m, &f)
}

/// Second attempt when full inlining differs: functions that agree become symbols with
/// their specification footprints; iterate until nothing more can be established.
/// Returns the set of agreeing names and the disagreeing ones with their difference.
pub struct Deep {
    pub good: BTreeSet<String>,
    pub bad: BTreeMap<String, (String, String)>,
}
pub fn deep(c: &Ctx, ctx: &str, k: &str) -> Deep {
    let names = fork_names(c, k);
    let mut map: HashMap<String, Rc<Summary>> = HashMap::new();
    let mut todo: Vec<(String, Rc<FnDef>, Option<Rc<FnDef>>)> = vec![];
    let mut bad = BTreeMap::new();
    for n in names {
        let f2 = spec_fn(c, ctx, &n).unwrap();
        let f1 = code_fn(c, ctx, &n);
        todo.push((n, f2, f1));
    }
    let mut cost: Vec<String> = vec![];
    for round in 0..4 {
        let leaves = MapLeaves(map.clone());
        let mut next = vec![];
        let mut progress = false;
        for (n, f2, f1) in todo {
            let Some(f1c) = &f1 else {
                if !f2.is_pub || fork_of(&f2.module) != Some(k) {
                    continue;
                }
                bad.insert(n, (format!("{} (missing)", f2.file), "not defined".to_string()));
                continue;
            };
            match compare(c, Some(ctx), ctx, f1c, &f2, &leaves) {
                Cmp::Same { .. } => {
                    progress = true;
                    let env = Env { prog: &c.spec, dynamic: Some(ctx.to_string()), ctx: Some(ctx.to_string()), is_ref: true, overlay: c.overlay.borrow().clone() };
                    if let Ok(o) = guard(|| Ev::new(&env, &leaves).run(&f2)) {
                        map.insert(n.clone(), outcome_summary(&f2, &o));
                    }
                    bad.remove(&n);
                    cost.push(n);
                }
                Cmp::Diff(d) => {
                    bad.insert(n.clone(), (at(f1c), describe(&d)));
                    next.push((n, f2, f1));
                }
                Cmp::Stuck(s) => {
                    bad.insert(n.clone(), (at(f1c), s));
                    next.push((n, f2, f1));
                }
            }
        }
        todo = next;
        if todo.is_empty() || (!progress && round > 0) {
            break;
        }
    }
    Deep { good: cost.into_iter().collect(), bad }
}

/// Recorded defects: where the code's function departs from the specification exactly as recorded
/// in the fork's `known` module, the recorded variant stands in for the specification.
pub fn set_overlay(c: &Ctx, ctx: &str) {
    c.overlay.borrow_mut().clear();
    let km = format!("{ctx}::known");
    let Some(names) = c.spec.modules.get(&km).map(|m| m.items.keys().cloned().collect::<Vec<_>>()) else { return };
    let mut active = vec![];
    for n in names {
        let (Some(v), Some(f2), Some(f1)) = (c.spec.func(&km, &n), spec_fn(c, ctx, &n), code_fn(c, ctx, &n)) else { continue };
        if matches!(compare(c, Some(ctx), ctx, &f1, &f2, &NoLeaves), Cmp::Same { .. }) {
            continue;
        }
        if matches!(compare(c, Some(ctx), ctx, &f1, &v, &NoLeaves), Cmp::Same { .. }) {
            active.push(n);
        }
    }
    *c.overlay.borrow_mut() = active;
}
pub fn fork_obligations(c: &Ctx, obls: &[Obl], rep: &mut Report) {
    let Some(o0) = obls.first() else { return };
    let ctx = o0.module.clone();
    let k = fork_of(&ctx).unwrap();
    set_overlay(c, &ctx);
    let mut failing: Vec<(String, Rc<FnDef>, String, String)> = vec![];
    for o in obls {
        let mut names: Vec<String> = vec![];
        for p in &o.pats {
            if p.contains('*') {
                names.extend(fork_names(c, k).into_iter().filter(|n| glob(p, n)));
            } else {
                names.push(p.clone());
            }
        }
        for n in names {
            let inst = format!("{k}::{n}");
            if rep.checked.contains(&inst) {
                continue;
            }
            let Some(f2) = spec_fn(c, &ctx, &n) else {
                if o.kind == "fork" {
                    rep.internal.push(format!("specification has no {inst}"));
                }
                continue;
            };
            let f1 = code_fn(c, &ctx, &n).or_else(|| (fork_of(&f2.module) == Some(k)).then(|| code_fn(c, &f2.module, &n)).flatten());
            if f1.is_none() && !f2.is_pub {
                continue; // a private helper: its callers inline whatever replaced it
            }
            if f1.is_none() && fork_of(&f2.module) != Some(k) {
                continue; // an earlier fork's function this fork neither defines nor re-exports
            }
            rep.checked.push(inst.clone());
            let Some(f1) = f1 else {
                failing.push((n.clone(), f2.clone(), format!("{k} module"), "the function is not defined".into()));
                continue;
            };
            match compare(c, Some(&ctx), &ctx, &f1, &f2, &NoLeaves) {
                Cmp::Same { fns, warn, known } => {
                    rep.known.extend(known);
                    rep.functions.extend(fns);
                    rep.functions.insert(format!("{}::{}", f1.module, f1.name));
                    for w in warn {
                        rep.internal.push(format!("{inst}: specification not fully analysed: {w}"));
                    }
                }
                Cmp::Diff(d) => failing.push((n.clone(), f2, at(&f1), describe(&d))),
                Cmp::Stuck(s) => failing.push((n.clone(), f2, at(&f1), s)),
            }
        }
    }
    // a private helper whose shape changed is judged through the agreeing functions that inline it
    failing.retain(|(n, f2, _, _)| f2.is_pub || !rep.functions.iter().any(|x| x.ends_with(&format!("::{n}"))));
    if failing.is_empty() {
        return;
    }
    let d = deep(c, &ctx, k);
    for (n, f2, a, det) in failing {
        if d.good.contains(&n) {
            rep.functions.insert(format!("{ctx}::{n} (modular)"));
            let env = Env { prog: &c.spec, dynamic: Some(ctx.clone()), ctx: Some(ctx.clone()), is_ref: true, overlay: c.overlay.borrow().clone() };
            if let (false, Ok(s)) = (env.overlay.is_empty(), guard(|| { let mut ev = Ev::new(&env, &NoLeaves); ev.run(&f2); ev.inlined })) {
                rep.known.extend(s.into_iter().filter(|x| x.contains("::known::")));
                if f2.module.ends_with("::known") {
                    rep.known.insert(format!("{}::{}", f2.module, f2.name));
                }
            }
            continue;
        }
        // report the deepest disagreeing functions as the cause
        let causes: Vec<String> = d.bad.iter().filter(|(b, _)| **b != n).map(|(b, x)| format!("{b} at {}", x.0)).take(6).collect();
        let det = match d.bad.get(&n) {
            Some(x) => x.1.clone(),
            None => det,
        };
        let extra = if causes.is_empty() { String::new() } else { format!(" [other disagreeing functions: {}]", causes.join(", ")) };
        rep.bad(a, "value-graph agreement with the specification", format!("{k}::{n}"), format!("{det}{extra}"));
    }
}

fn find_code_fn(c: &Ctx, unit: &str, module: &str, key: &str, f2: &FnDef) -> Option<Rc<FnDef>> {
    for (k, f) in module_fns(&c.code, module) {
        if k == key {
            return Some(f);
        }
    }
    if f2.self_ty.is_none() {
        if let Some(f) = code_fn(c, module, &f2.name) {
            return Some(f);
        }
    }
    // moved to another module of the same crate
    let kr = unit_crate(unit);
    let mut found = vec![];
    for m in c.code.modules.keys() {
        if m != kr && !m.starts_with(&format!("{kr}::")) {
            continue;
        }
        for (k, f) in module_fns(&c.code, m) {
            if k == key && fork_of(m) == fork_of(module) {
                found.push(f);
            }
        }
    }
    if found.len() == 1 {
        found.pop()
    } else {
        None
    }
}

pub fn fn_obligations(c: &Ctx, obls: &[Obl], rep: &mut Report) {
    c.overlay.borrow_mut().clear();
    let mut inlined_by_spec: BTreeSet<String> = BTreeSet::new();
    let mut pending: Vec<(Rc<FnDef>, Violation)> = vec![];
    for o in obls {
        let kr = unit_crate(&o.unit);
        let mods: Vec<String> = {
            let g = if o.module == "." { kr.to_string() } else { format!("{kr}::{}", o.module) };
            c.spec.modules.keys().filter(|m| glob(&g, m)).cloned().collect()
        };
        let mut hits = 0;
        for m in &mods {
            for (key, f2) in module_fns(&c.spec, m) {
                if !o.pats.iter().any(|p| glob(p, &key)) || f2.block.is_none() {
                    continue;
                }
                hits += 1;
                let inst = format!("{m} {key}");
                if rep.checked.contains(&inst) {
                    continue;
                }
                rep.checked.push(inst.clone());
                let exact = o.pats.iter().any(|p| p == &key);
                let hard = exact || f2.is_pub || f2.trait_name.is_some() || f2.name == "main";
                let leaves = ForkLeaves(&c.spec);
                {
                    let env = Env { prog: &c.spec, dynamic: None, ctx: Some(m.clone()), is_ref: true, overlay: c.overlay.borrow().clone() };
                    if let Ok(s) = guard(|| {
                        let mut ev = Ev::new(&env, &leaves);
                        ev.run(&f2);
                        ev.inlined
                    }) {
                        inlined_by_spec.extend(s);
                    }
                }
                let mut v = Violation { at: String::new(), rule: "value-graph agreement with the specification".into(), instance: inst.clone(), detail: String::new() };
                match find_code_fn(c, &o.unit, m, &key, &f2) {
                    None => {
                        v.at = m.clone();
                        v.detail = "the function is not defined".into();
                    }
                    Some(f1) => match compare(c, None, m, &f1, &f2, &leaves) {
                        Cmp::Same { fns, warn, known } => {
                    rep.known.extend(known);
                            rep.functions.extend(fns);
                            rep.functions.insert(format!("{}::{key}", f1.module));
                            for w in warn {
                                rep.internal.push(format!("{inst}: specification not fully analysed: {w}"));
                            }
                            continue;
                        }
                        Cmp::Diff(d) => {
                            v.at = at(&f1);
                            v.detail = describe(&d);
                        }
                        Cmp::Stuck(s) => {
                            v.at = at(&f1);
                            v.detail = s;
                        }
                    },
                }
                if hard {
                    rep.violations.push(v);
                } else {
                    pending.push((f2, v));
                }
            }
        }
        if hits == 0 {
            rep.internal.push(format!("obligation matches nothing: fn {} {} {:?}", o.unit, o.module, o.pats));
        }
    }
    // a private helper only matters through the functions that use it
    for (f2, v) in pending {
        if !inlined_by_spec.contains(&format!("{}::{}", f2.module, f2.name)) {
            rep.violations.push(v);
        }
    }
}

pub fn threads(n: usize) -> usize {
    std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(n).max(1)
}

type Group = (String, Vec<Obl>);
pub fn run_group(g: &Group, repo: &str, reference: &str) -> Report {
    let mut rep = Report::default();
    let c = load_ctx(&g.1[0].unit, repo, reference);
    for e in &c.code.errors {
        rep.bad(e.clone(), "source can be parsed", e.clone(), "the source file cannot be analysed".into());
    }
    for e in &c.spec.errors {
        rep.internal.push(format!("specification: {e}"));
    }
    match g.1[0].kind.as_str() {
        "fork" | "fork?" => fork_obligations(&c, &g.1, &mut rep),
        "fn" => fn_obligations(&c, &g.1, &mut rep),
        _ => items::obligations(&c, &g.1, &mut rep),
    }
    rep.terms = arena_size();
    rep
}
pub fn run(obls: &[Obl], repo: &str, reference: &str) -> Report {
    let mut groups: BTreeMap<String, Vec<Obl>> = BTreeMap::new();
    for o in obls {
        let key = match o.kind.as_str() {
            "fork" | "fork?" => format!("fork {}", o.module),
            "fn" => format!("fn {} {}", o.unit, o.module),
            k => format!("{k} {}", o.unit),
        };
        groups.entry(key).or_default().push(o.clone());
    }
    let queue = std::sync::Arc::new(std::sync::Mutex::new(groups.into_iter().collect::<Vec<Group>>()));
    let out = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let mut hs = vec![];
    for _ in 0..threads(8) {
        let (q, out) = (queue.clone(), out.clone());
        let (repo, reference) = (repo.to_string(), reference.to_string());
        hs.push(
            std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn(move || loop {
                    let Some(g) = q.lock().unwrap().pop() else { break };
                    reset();
                    let r = match guard(|| run_group(&g, &repo, &reference)) {
                        Ok(r) => r,
                        Err(e) => {
                            let mut r = Report::default();
                            r.internal.push(format!("{}: {e}", g.0));
                            r
                        }
                    };
                    out.lock().unwrap().push((g.0.clone(), r));
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let mut v = std::mem::take(&mut *out.lock().unwrap());
    v.sort_by(|a, b| a.0.cmp(&b.0));
    let mut rep = Report::default();
    for (_, r) in v {
        rep.merge(r);
    }
    rep
}
