//! `analyzer check --property ID --tier quick|thorough`
use crate::check::*;
use serde_json::json;
use std::collections::BTreeSet;

fn opt(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
}
/// Fork obligations, widened to every function of the fork that the entries reach.
pub fn check(a: &[String]) -> i32 {
    let t0 = std::time::Instant::now();
    let verif = opt(a, "--verif", "/verif");
    let repo = opt(a, "--repo", "/repo");
    let tier = opt(a, "--tier", &std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let id = opt(a, "--property", "");
    let all = match load_obligations(&format!("{verif}/obligations.txt")) {
        Ok(o) => o,
        Err(e) => {
            println!("VIOLATION property={id} replay=-");
            println!("analysis cannot start: {e}");
            return 1;
        }
    };
    let Some(obls) = all.get(&id) else {
        println!("VIOLATION property={id} replay=-");
        println!("no obligations are defined for {id}");
        return 1;
    };
    let mut rep = run(obls, &repo, &format!("{verif}/reference"));
    if tier == "thorough" && rep.violations.is_empty() {
        // also decide, one by one, every function the obligations reach
        let mut more: Vec<Obl> = vec![];
        for f in rep.functions.clone() {
            let f = f.trim_end_matches(" (modular)");
            let Some((m, n)) = f.rsplit_once("::") else { continue };
            if crate::eval::fork_of(m).is_some() {
                for k in crate::eval::FORKS {
                    if obls.iter().any(|o| o.module.ends_with(k)) || m.contains(k) {
                        more.push(Obl { kind: "fork?".into(), unit: "lib".into(), module: format!("ethereum_consensus::{k}"), pats: vec![n.to_string()] });
                    }
                }
            }
        }
        if !more.is_empty() {
            let r2 = run(&more, &repo, &format!("{verif}/reference"));
            rep.merge(r2);
        }
    }
    let uniq: BTreeSet<String> = rep.checked.iter().cloned().collect();
    let listed = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let mut shown = 0;
    let mut fresh = rep.violations.clone();
    let mut met = vec![];
    for k in &rep.known {
        // `ethereum_consensus::<fork>::known::<function>` is listed as `<fork>::<function>`
        let inst = k.replace("::known", "").replace("ethereum_consensus::", "");
        let pre = format!("finding: property={id} instance={inst} ");
        match listed.lines().find_map(|l| l.strip_prefix(&pre)) {
            Some(what) => {
                println!("KNOWN-FINDING: property={id} {inst} {what}");
                met.push(inst);
            }
            None => fresh.push(Violation { at: inst.clone(), rule: "value-graph agreement with the specification".into(), instance: inst, detail: "the function has the defect recorded in the reference's `known` module and is not listed in known_findings.txt for this property".into() }),
        }
    }
    for e in &rep.internal {
        fresh.push(Violation { at: "analysis".into(), rule: "every obligation is decided".into(), instance: e.clone(), detail: "the analysis could not decide this obligation".into() });
    }
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let replay = format!("{verif}/evidence/{id}.violations.json");
    if fresh.is_empty() {
        let _ = std::fs::remove_file(&replay);
    } else {
        let j: Vec<_> = fresh.iter().map(|v| json!({"at": v.at, "rule": v.rule, "instance": v.instance, "detail": v.detail})).collect();
        let _ = std::fs::write(&replay, serde_json::to_string_pretty(&json!({"property": id, "violations": j, "replay": format!("analyzer check --property {id}")})).unwrap());
        println!("VIOLATION property={id} replay={replay}");
        for v in fresh.iter().take(12) {
            println!("  {} | {} | {} | {}", v.at, v.rule, v.instance, v.detail.chars().take(1500).collect::<String>());
            shown += 1;
        }
        if shown < fresh.len() {
            println!("  … {} more in the replay file", fresh.len() - shown);
        }
    }
    let failed: BTreeSet<String> = fresh.iter().map(|v| v.instance.clone()).collect();
    let samples: Vec<String> = uniq.iter().step_by((uniq.len() / 12).max(1)).cloned().collect();
    let ev = json!({
        "property": id, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Each obligation is one construct of the current source tree (function in one fork, constant, declaration, generated copy). Functions are lowered from the syntax tree to gated value graphs (inlining every repository callee, loops as folds) and must normalise to the same rejection condition, result and state effects as the audited specification; constants and declarations are compared by value and item by item. Nothing is executed.",
            "obligations": uniq.len(),
            "discharged": uniq.iter().filter(|u| !failed.contains(*u)).count(),
            "functions_analysed": rep.functions.len(),
            "value_graph_nodes": rep.terms,
            "known_findings_met": met,
            "samples": samples,
            "functions_sample": rep.functions.iter().take(25).collect::<Vec<_>>(),
            "rule": "code value graph == specification value graph for every obligation; a missing or unanalysable construct counts as a violation",
        },
        "assumptions": ["the audited specification in /verif/reference states the intended behaviour", "integer arithmetic does not overflow and external crates behave as documented", "error values are distinguished only as rejection"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fresh.len(),
    });
    if let Err(e) = std::fs::write(format!("{verif}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("cannot write evidence: {e}");
    }
    if fresh.is_empty() {
        println!("{id}: {} obligations hold, {} functions, {:.1}s", uniq.len(), rep.functions.len(), t0.elapsed().as_secs_f64());
        0
    } else {
        1
    }
}
