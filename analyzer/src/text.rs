//! Text: formatted output as a concatenation of literal and rendered pieces, so that `format!`,
//! `write!`, `write_str`, `push_str` and `+` on strings share one normal form.
use crate::eval::*;
use crate::term::*;
use syn::Expr;

/// A term known to be a piece of text.
pub fn is_text(t: T) -> bool {
    match get(t) {
        N::Str(_) => true,
        N::Var(v) => v.starts_with("%ct"),
        N::Call(f, _) => matches!(f.as_str(), "format" | "to_string" | "to_lowercase" | "to_uppercase" | ".to_lowercase" | ".to_uppercase" | "hex::encode" | "concat_str") || f.starts_with("fmt:"),
        N::Concat(v) => v.iter().any(|x| is_text(*x)),
        N::Ite(_, a, b) => is_text(a) && is_text(b),
        _ => false,
    }
}

/// As `is_text`, without the accumulators that may turn out to be text.
pub fn surely_text(t: T) -> bool {
    match get(t) {
        N::Var(_) => false,
        N::Concat(v) => v.iter().any(|x| surely_text(*x)),
        N::Ite(_, a, b) => surely_text(a) && surely_text(b),
        _ => is_text(t),
    }
}

enum Piece {
    Lit(String),
    /// argument (position, name) and specification
    Arg(Option<usize>, String, String),
}

fn pieces(s: &str) -> Vec<Piece> {
    let (mut out, mut lit, mut next) = (vec![], String::new(), 0);
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '{' if c.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' => {
                lit.push('}');
                i += if c.get(i + 1) == Some(&'}') { 2 } else { 1 };
            }
            '{' => {
                let j = (i..c.len()).find(|j| c[*j] == '}').unwrap_or(c.len() - 1);
                let inner: String = c[i + 1..j].iter().collect();
                let (name, spec) = match inner.find(':') {
                    Some(k) => (inner[..k].trim().to_string(), inner[k + 1..].to_string()),
                    None => (inner.trim().to_string(), String::new()),
                };
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                out.push(match name.parse::<usize>() {
                    Ok(k) => Piece::Arg(Some(k), String::new(), spec),
                    Err(_) if name.is_empty() => {
                        next += 1;
                        Piece::Arg(Some(next - 1), String::new(), spec)
                    }
                    Err(_) => Piece::Arg(None, name, spec),
                });
                i = j + 1;
            }
            x => {
                lit.push(x);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    out
}

impl<'a> Ev<'a> {
    /// The text a value renders to.
    pub fn text_of(&self, t: T) -> T {
        lift1(t, &mut |t| match get(t) {
            _ if is_text(t) || self.is_string(t) => t,
            N::Lin(v, k) if v.is_empty() => mk(N::Str(k.to_string())),
            N::Bool(b) => mk(N::Str(b.to_string())),
            _ => call("to_string", vec![t]),
        })
    }
    /// Is the term of string type, by the declared type of the parameter or field?
    pub fn is_string(&self, t: T) -> bool {
        match get(t) {
            N::Field(_, f) => self.env.prog.string_fields().contains(&f),
            _ => self.ptypes.get(&t).map_or(false, |s| matches!(s.trim_start_matches('&').trim_start_matches("'static").trim_start_matches("mut"), "str" | "String" | "Passphrase")),
        }
    }
    /// Evaluate the arguments of a formatting macro.
    pub fn text(&mut self, args: &[Expr]) -> Option<T> {
        let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = args.first() else { return None };
        let (mut pos, mut named) = (vec![], vec![]);
        for x in &args[1..] {
            match x {
                Expr::Assign(a) => {
                    let l = &a.left;
                    let t = self.no_hint(|s| s.et(&a.right));
                    named.push((quote::quote!(#l).to_string(), t));
                }
                x => {
                    let t = self.no_hint(|s| s.et(x));
                    pos.push(t);
                }
            }
        }
        let mut out = vec![];
        for p in pieces(&s.value()) {
            out.push(match p {
                Piece::Lit(s) => mk(N::Str(s)),
                Piece::Arg(k, name, spec) => {
                    let t = match k {
                        Some(k) => *pos.get(k)?,
                        None => match named.iter().find(|x| x.0 == name) {
                            Some(x) => x.1,
                            None => {
                                let e: Expr = syn::parse_str(&name).ok()?;
                                self.no_hint(|s| s.et(&e))
                            }
                        },
                    };
                    if spec.is_empty() {
                        self.text_of(t)
                    } else {
                        call(&format!("fmt:{spec}"), vec![t])
                    }
                }
            });
        }
        Some(liftn(&out, &mut |x| concat(x.to_vec())))
    }
}
