//! Property-specific analyses that are not comparisons of one construct with its specification.
use crate::check::{Obl, Report, Violation};
use crate::engine::Ctx;
use crate::eval::{fork_of, FORKS};
use crate::items::{const_term, line_of, rows};
use crate::load::It;

pub fn run(c: &Ctx, o: &Obl, rep: &mut Report) -> bool {
    match (o.kind.as_str(), o.module.as_str()) {
        ("custom", "exports") => exports(c, rep),
        _ => return false,
    }
    true
}

/// Every fork module must expose the newest definition, not later than itself, of each type and constant.
fn exports(c: &Ctx, rep: &mut Report) {
    for k in FORKS {
        let ctx = format!("ethereum_consensus::{k}");
        let upto = FORKS.iter().position(|x| *x == k).unwrap();
        let mut names = std::collections::BTreeSet::new();
        for f in &FORKS[..=upto] {
            let pre = format!("ethereum_consensus::{f}");
            for (m, md) in &c.spec.modules {
                if (m == &pre || m.starts_with(&format!("{pre}::"))) && !m.contains("::presets") {
                    names.extend(md.items.iter().filter(|(_, it)| matches!(it, It::Const(_) | It::Struct(_) | It::Enum(_) | It::Type(_))).map(|(n, _)| n.clone()));
                }
            }
        }
        let mut n_ok = 0;
        for n in names {
            let path = [n.clone()];
            let Some((m2, n2)) = c.spec.resolve(&ctx, &path) else { continue };
            let own = fork_of(&m2) == Some(k);
            let Some((m1, n1)) = c.code.resolve(&ctx, &path) else { continue };
            let inst = format!("{ctx} exports {n}");
            rep.checked.push(inst.clone());
            let detail = if m1 == m2 {
                None
            } else if matches!(c.spec.item(&m2, &n2), Some(It::Const(_))) {
                match (const_term(&c.code, &m1, &n1, false), const_term(&c.spec, &m2, &n2, true)) {
                    (Ok(a), Ok(b)) if a == b => None,
                    _ => Some("a constant with another value"),
                }
            } else {
                let a = c.code.item(&m1, &n1).and_then(rows);
                if a.is_some() && a == c.spec.item(&m2, &n2).and_then(rows) {
                    None
                } else {
                    Some("a declaration with another layout")
                }
            };
            match detail {
                None => n_ok += 1,
                Some(d) => rep.violations.push(Violation {
                    at: line_of(&c.code, &m1, &n1),
                    rule: "each fork exposes the newest applicable definition".into(),
                    instance: inst,
                    detail: format!("{ctx}::{n} resolves to {m1}::{n1}, {d} than the expected {m2}::{n2}{}", if own { " introduced by this fork" } else { "" }),
                }),
            }
        }
        if n_ok < 20 {
            rep.internal.push(format!("{ctx}: only {n_ok} exported declarations found"));
        }
    }
}
