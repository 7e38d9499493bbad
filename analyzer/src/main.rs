mod bounds;
mod check;
mod cli;
mod custom;
mod engine;
mod items;
mod eval;
mod load;
use engine::{dbg_ref, dbg_repo};
mod mutate;
mod joint;
mod refactor;
mod sorts;
mod text;
mod term;
use std::collections::BTreeMap;
use std::path::Path;
use std::rc::Rc;

use engine::NoLeaves;
pub fn load_repo(root: &str) -> load::Program {
    let mut p = load::Program::new();
    p.load_crate("ethereum_consensus", Path::new(&format!("{root}/ethereum-consensus/src")), "ethereum-consensus/src");
    p
}
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("dump") => {
            let p = load_repo(&dbg_repo());
            for e in &p.errors {
                println!("load error {e}");
            }
            let ctx = format!("ethereum_consensus::{}", a[2]);
            let mut names: Vec<String> = vec![];
            if a[3] == "ALL" {
                for (m, md) in &p.modules {
                    if m == &ctx || m.starts_with(&format!("{ctx}::")) {
                        for (n, i) in &md.items {
                            if let load::It::Fn(_) = i {
                                names.push(n.clone());
                            }
                        }
                    }
                }
            } else {
                names.push(a[3].clone());
            }
            let env = eval::Env { prog: &p, dynamic: None, ctx: Some(ctx.clone()), is_ref: false, overlay: vec![] };
            for n in names {
                let Some((m, f)) = p.resolve(&ctx, &[n.clone()]) else {
                    println!("unresolved {n}");
                    continue;
                };
                let Some(f) = p.func(&m, &f) else { continue };
                let t = std::time::Instant::now();
                let mut ev = eval::Ev::new(&env, &NoLeaves);
                let o = ev.run(&f);
                println!("{n}: {:?} arena {} unknowns {:?}", t.elapsed(), term::arena_size(), o.unknowns);
                if a[3] != "ALL" {
                    println!("fail = {}\nret = {}", term::show(o.fail), term::show(o.ret));
                    for (k, v) in &o.outs {
                        println!("out {:?} = {}", k, term::show(*v));
                    }
                }
            }
        }
        Some("cmpall") => {
            let c = engine::load_ctx("lib", &dbg_repo(), &dbg_ref());
            let forks: Vec<String> = if a[2] == "ALL" { eval::FORKS.iter().map(|s| s.to_string()).collect() } else { vec![a[2].clone()] };
            let (mut same, mut bad) = (0, 0);
            for k in forks {
                let ctx = format!("ethereum_consensus::{k}");
                let mut names = std::collections::BTreeSet::new();
                for (m, md) in &c.spec.modules {
                    if m.starts_with("ethereum_consensus::") && eval::fork_of(m).is_some() {
                        for (n, i) in &md.items {
                            if let load::It::Fn(_) = i { names.insert(n.clone()); }
                        }
                    }
                }
                for n in names {
                    if a.len() > 3 && a[3] != n { continue }
                    let (Some((m1, f1)), Some((m2, f2))) = (c.code.resolve(&ctx, &[n.clone()]), c.spec.resolve(&ctx, &[n.clone()])) else { continue };
                    let (Some(f1), Some(f2)) = (c.code.func(&m1, &f1), c.spec.func(&m2, &f2)) else { continue };
                    let t = std::time::Instant::now();
                    let o1 = engine::eval_code(&c, &ctx, &f1, &NoLeaves);
                    let o2 = engine::eval_spec(&c, Some(&ctx), &ctx, &f2, &NoLeaves);
                    match (o1, o2) {
                        (Ok(o1), Ok(o2)) => {
                            let d = engine::diff(&o1, &o2);
                            if d.is_empty() { same += 1; } else {
                                bad += 1;
                                println!("{k}::{n} ({m1} vs {m2}) {:?}", t.elapsed());
                                for (w, x, y) in d.iter() {
                                    println!("   {w}");
                                    if a.len() > 3 { println!("     code {}\n     spec {}", term::show(*x), term::show(*y)); }
                                }
                            }
                            if !o1.unknowns.is_empty() { println!("   unknowns {:?}", o1.unknowns); }
                        }
                        (x, y) => { bad += 1; println!("{k}::{n} PANIC {:?} {:?}", x.err(), y.err()) }
                    }
                }
            }
            println!("same {same} bad {bad}");
        }
        Some("uncovered") => {
            // reference functions no property (other than the catch-all G01) analyses
            let all = check::load_obligations("/verif/obligations.txt").unwrap();
            let obls: Vec<_> = all.iter().filter(|(k, _)| *k != "G01").flat_map(|(_, v)| v.clone()).collect();
            let r = check::run(&obls, &dbg_repo(), &dbg_ref());
            for unit in ["lib", "ec", "api", "gen"] {
                let c = engine::load_ctx(unit, &dbg_repo(), &dbg_ref());
                for m in c.spec.modules.keys().filter(|m| m.split("::").next() == Some(engine::unit_crate(unit))) {
                    for (k, f) in engine::module_fns(&c.spec, m) {
                        let n = format!("::{}", f.name);
                        let hit = r.checked.contains(&format!("{m} {k}")) || r.functions.iter().any(|x| x.trim_end_matches(" (modular)").ends_with(&n)) || (f.self_ty.is_none() && r.checked.iter().any(|x| x.ends_with(&n)));
                        if !hit { println!("{m} {k}"); }
                    }
                }
            }
        }
        Some("resolve") => {
            let c = engine::load_ctx("lib", &dbg_repo(), &dbg_ref());
            for p in [&c.code, &c.spec] {
                println!("{:?}", p.resolve(&a[2], &a[3].split("::").map(String::from).collect::<Vec<_>>()));
            }
        }
        Some("eqfile") => {
            // compare equally named functions of two files
            let mut c = engine::Ctx { code: load::Program::new(), spec: load::Program::new(), overlay: Default::default() };
            c.code.load_file("t", &a[2].clone().into(), "a");
            c.spec.load_file("t", &a[3].clone().into(), "b");
            for e in c.code.errors.iter().chain(&c.spec.errors) { println!("load error {e}"); }
            let code = engine::module_fns(&c.code, "t");
            for (k, f2) in engine::module_fns(&c.spec, "t") {
                let Some((_, f1)) = code.iter().find(|x| x.0 == k) else { continue };
                if a.len() > 4 && a[4] != k { continue }
                match (engine::eval_code(&c, "t", f1, &NoLeaves), engine::eval_spec(&c, None, "t", &f2, &NoLeaves)) {
                    (Ok(o1), Ok(o2)) => {
                        let d = engine::diff(&o1, &o2);
                        println!("{k}: {} {:?}", if d.is_empty() { "same" } else { "DIFF" }, o1.unknowns.iter().chain(&o2.unknowns).collect::<Vec<_>>());
                        for (w, x, y) in d.iter() { println!("   {w}\n     a {}\n     b {}", term::show(*x), term::show(*y)); }
                        if a.len() > 4 { println!("fail {}\nret {}", term::show(o2.fail), term::show(o2.ret)); for (k, v) in &o2.outs { println!("out {k:?} = {}", term::show(*v)); } }
                    }
                    (x, y) => println!("{k} PANIC {:?} {:?}", x.err(), y.err()),
                }
            }
        }
        Some("mutate") => mutate::run(&a),
        Some("check") => std::process::exit(cli::check(&a)),
        Some("cmpmod") => {
            let c = engine::load_ctx(&a[2], &dbg_repo(), &dbg_ref());
            for e in c.code.errors.iter().chain(&c.spec.errors) { println!("load error {e}"); }
            let (mut same, mut bad) = (0, 0);
            for m in c.spec.modules.keys() {
                if !m.starts_with(engine::unit_crate(&a[2])) || m.contains("::spec") { continue }
                if a.len() > 3 && !m.contains(&a[3]) { continue }
                let code = engine::module_fns(&c.code, m);
                for (k, f2) in engine::module_fns(&c.spec, m) {
                    if eval::fork_of(m).is_some() && f2.self_ty.is_none() { continue }
                    if a.len() > 4 && !k.contains(&a[4]) { continue }
                    let Some((_, f1)) = code.iter().find(|x| x.0 == k) else { println!("{m} {k} missing"); bad += 1; continue };
                    if f2.block.is_none() { continue }
                    let t = std::time::Instant::now();
                    let o1 = engine::eval_code(&c, m, f1, &NoLeaves);
                    let o2 = engine::eval_spec(&c, None, m, &f2, &NoLeaves);
                    match (o1, o2) {
                        (Ok(o1), Ok(o2)) => {
                            let d = engine::diff(&o1, &o2);
                            if d.is_empty() { same += 1 } else { bad += 1; println!("{m} {k} DIFF {:?}", d.iter().map(|x| &x.0).collect::<Vec<_>>()) }
                            if !o1.unknowns.is_empty() { println!("{m} {k} unknowns {:?}", o1.unknowns) }
                            if a.len() > 4 { println!("{k}: {:?}\nfail {}\nret {}", t.elapsed(), term::show(o2.fail), term::show(o2.ret)); for (k, v) in &o2.outs { println!("out {k:?} = {}", term::show(*v)); } }
                        }
                        (x, y) => { bad += 1; println!("{m} {k} PANIC {:?} {:?}", x.err(), y.err()) }
                    }
                }
            }
            println!("same {same} bad {bad}");
        }
        _ => {}
    }
    let _ = BTreeMap::<u8, u8>::new();
}
fn main() {
    let h = std::thread::Builder::new().stack_size(6 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(101);
    }
}
