//! Lowers Rust functions to canonical value-graph outcomes.
//!
//! This is a single structured pass over the syntax tree (no path enumeration,
//! no solver): every variable maps to a term, branches merge through decision
//! diagrams, loops become folds/comprehensions, calls to modelled functions are
//! symbols with reference mod/ref sets and all other repository functions are
//! inlined.
use crate::load::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use syn::{Expr, Pat, Stmt};

#[derive(Clone, Debug)]
pub enum PE {
    F(String),
    I(T),
    P(String, u32),
    S(T, T),
    /// bit-level view of a byte buffer
    V(String),
}
#[derive(Clone, Debug)]
pub struct Place {
    pub slot: usize,
    pub path: Vec<PE>,
}
#[derive(Clone)]
pub struct Clo {
    pub inputs: Vec<Pat>,
    pub body: Rc<Expr>,
    pub scope: Scope,
    pub frame_module: String,
    pub self_ty: Option<String>,
}
#[derive(Clone)]
pub struct Iter {
    pub gens: Vec<(T, T, T)>,
    pub cond: T,
    pub elem: Val,
    pub rev: bool,
}
#[derive(Clone)]
pub enum Val {
    T(T),
    Ref(Place),
    Clo(Rc<Clo>),
    It(Rc<Iter>),
    Fun(Vec<String>),
    Tup(Vec<Val>),
    /// Some/Ok(value) when the condition holds
    Opt(T, Rc<Val>),
    /// a mutable reference to the first place when the condition holds, else to the second
    Alias(T, Rc<Val>, Rc<Val>),
}
pub type Scope = Rc<BTreeMap<String, usize>>;

#[derive(Clone)]
pub struct St {
    pub store: Vec<Val>,
    pub pc: T,
    pub dead: bool,
}
struct Exit {
    cond: T,
    val: T,
    store: Vec<Val>,
}
#[derive(Default)]
struct LoopCtx {
    label: Option<String>,
    conts: Vec<(T, Vec<Val>)>,
    /// (condition, store, Some(value) for `return` / None for `break`)
    events: Vec<(T, Vec<Val>, Option<T>)>,
}
struct Frame {
    module: String,
    self_ty: Option<String>,
    ret: String,
    exits: Vec<Exit>,
    fail: T,
    loops: Vec<LoopCtx>,
    is_closure: bool,
}

#[derive(Clone, Debug, Default)]
pub struct ParamSum {
    pub refs: Option<BTreeSet<String>>, // None = whole value
    pub mutates: bool,
    pub mfields: Option<BTreeSet<String>>, // None = whole
}
#[derive(Clone, Debug, Default)]
pub struct Summary {
    pub params: Vec<ParamSum>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub fail: T,
    pub ret: T,
    /// (param index, field or "*", value)
    pub outs: BTreeMap<(usize, String), T>,
    pub unknowns: Vec<String>,
}

/// Which side is evaluated and how names are treated.
pub struct Env<'a> {
    pub prog: &'a Program,
    /// Some(module) : resolve every name dynamically from this module (reference side)
    pub dynamic: Option<String>,
    /// fork context, e.g. "ethereum_consensus::altair"
    pub ctx: Option<String>,
    pub is_ref: bool,
    /// functions taken from the `known` module of the dynamic fork
    pub overlay: Vec<String>,
}

pub trait Leaves {
    /// Summary if `name` is a modelled function in the current context.
    fn leaf(&self, name: &str) -> Option<Rc<Summary>>;
    fn method_leaf(&self, name: &str) -> bool;
}

pub struct Ev<'a> {
    pub env: &'a Env<'a>,
    pub leaves: &'a dyn Leaves,
    st: St,
    frames: Vec<Frame>,
    scope: Scope,
    depth: usize,
    stack: Vec<(String, usize)>,
    pub unknowns: RefCell<Vec<String>>,
    hint: String,
    pub steps: usize,
    pub inlined: BTreeSet<String>,
    consts: HashMap<(String, String), Option<T>>,
    ret_ref: Option<Val>,
    /// functions declared inside the bodies being evaluated
    locals: BTreeMap<String, Rc<FnDef>>,
    /// where effects on files and output are recorded, in order
    io_slot: Option<usize>,
    prints: bool,
    formats: bool,
    /// calls through an inferred type so far
    inferred: usize,
    /// parameters declared as 128-bit integers
    wide: BTreeSet<T>,
    wide_names: BTreeSet<String>,
    /// declared types of the parameters
    pub ptypes: HashMap<T, String>,
    /// the branches being joined end in mutable references
    alias_ok: bool,
}

pub const FORKS: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
pub fn fork_of(m: &str) -> Option<&'static str> {
    for s in m.split("::") {
        for f in FORKS {
            if f == s {
                return Some(f);
            }
        }
    }
    None
}

impl<'a> Ev<'a> {
    pub fn new(env: &'a Env<'a>, leaves: &'a dyn Leaves) -> Self {
        Ev {
            env,
            leaves,
            st: St { store: vec![], pc: tru(), dead: false },
            frames: vec![],
            scope: Rc::new(BTreeMap::new()),
            depth: 0,
            stack: vec![],
            unknowns: RefCell::new(vec![]),
            hint: String::new(),
            steps: 0,
            io_slot: None,
            prints: false,
            formats: false,
            inferred: 0,
            wide: BTreeSet::new(),
            wide_names: BTreeSet::new(),
            ptypes: HashMap::new(),
            alias_ok: false,
            inlined: BTreeSet::new(),
            consts: HashMap::new(),
            ret_ref: None,
            locals: BTreeMap::new(),
        }
    }
    fn unknown(&self, s: String) -> T {
        self.unknowns.borrow_mut().push(s.clone());
        unk(s)
    }
    fn frame(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }
    fn module(&self) -> String {
        self.frames.last().map(|f| f.module.clone()).unwrap_or_default()
    }
    /// Resolve a path. On the reference side a name that denotes a fork function
    /// resolves to the latest definition at or below the fork under analysis.
    fn rsv(&self, segs: &[String]) -> Option<(String, String)> {
        let m = self.module();
        let st = self.env.prog.resolve(&m, segs);
        if let (false, Some(d), Some(n)) = (self.env.overlay.is_empty(), &self.env.dynamic, segs.last()) {
            if self.env.overlay.contains(n) && fork_of(&m).is_some() {
                return Some((format!("{d}::known"), n.clone()));
            }
        }
        if let Some(d) = &self.env.dynamic {
            if fork_of(&m).is_some() || m.is_empty() {
                let foreign = matches!(&st, Some((dm, _)) if fork_of(dm).is_none());
                if !foreign {
                    if let Some(x) = self.env.prog.resolve(d, segs) {
                        return Some(x);
                    }
                }
            }
        }
        st
    }

    // ---------- top level ----------
    pub fn run(&mut self, f: &FnDef) -> Outcome {
        let ret = ret_str(&f.sig);
        let mut params: Vec<(usize, bool)> = vec![];
        let mut vals = vec![];
        for (k, a) in f.sig.inputs.iter().enumerate() {
            let m = match a {
                syn::FnArg::Receiver(r) => (r.mutability.is_some() && r.reference.is_some()) || {
                    let t = &r.ty;
                    quote::quote!(#t).to_string().replace(' ', "").contains("Pin<&mut")
                },
                syn::FnArg::Typed(t) => matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()),
            };
            if let syn::FnArg::Typed(t) = a {
                let ty = &t.ty;
                if quote::quote!(#ty).to_string().trim_start_matches("& ") == "u128" {
                    self.wide.insert(var(&format!("p{k}")));
                }
            }
            self.st.store.push(Val::T(var(&format!("p{k}"))));
            params.push((self.st.store.len() - 1, m));
            vals.push(if m { Val::Ref(Place { slot: k, path: vec![] }) } else { Val::T(var(&format!("p{k}"))) });
        }
        self.st.store.push(Val::T(nil()));
        self.io_slot = Some(self.st.store.len() - 1);
        self.formats = f.name == "fmt";
        self.prints = !f.module.starts_with("spec_gen");
        self.wide_names = self.env.prog.wide_names(&f.module);
        let full = self.call_fn(f, vals);
        let (fail, mut val) = if ret.starts_with("Result") || ret.starts_with("Option") || ret.contains("Result<") {
            let full = full;
            let fl = not(is_var(full, "Ok"));
            (fl, payload_all(full))
        } else {
            (fls(), full)
        };
        if ret == "bool" {
            val = bool_of(val);
        }
        let rt = ret.replace(' ', "");
        if rt.is_empty() || rt == "Result<()>" || rt.starts_with("Result<(),") || rt == "fmt::Result" || rt.ends_with("::Result") || rt.contains("Result<(),") {
            val = unit();
        }
        if rt == "Result<bool>" {
            val = bool_of(val);
        }
        let care = not(fail);
        let mut outs = BTreeMap::new();
        for (k, (slot, m)) in params.iter().enumerate() {
            if !*m {
                continue;
            }
            let v = self.read_val(&self.st.store[*slot].clone());
            let base = var(&format!("p{k}"));
            let v = constrain(v, care);
            for (f, t) in diff_fields(base, v) {
                outs.insert((k, f), regroup(restrict_forced(constrain(t, care), care)));
            }
        }
        let io = self.read_place(&Place { slot: self.io_slot.unwrap(), path: vec![] });
        let io = restrict_forced(constrain(io, care), care);
        if io != nil() {
            outs.insert((usize::MAX, "io".into()), io);
        }
        let ret = regroup(restrict_forced(constrain(val, care), care));
        outs.retain(|k, v| {
            let base = var(&format!("p{}", k.0));
            !(k.1 != "*" && *v == field(base, &k.1))
        });
        Outcome { fail, ret, outs, unknowns: self.unknowns.borrow().clone() }
    }

    /// Inline a function on already evaluated arguments; result includes Err/Ok structure.
    /// Remember that a value has a string (or optional string) type.
    fn note_type(&mut self, ty: &syn::Type, v: &Val) {
        let Val::T(t) = v else { return };
        let s = quote::quote!(#ty).to_string().replace(' ', "");
        if let Some(i) = s.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')) {
            let p = payload_all(*t);
            self.ptypes.insert(p, i.to_string());
        }
        self.ptypes.insert(*t, s);
    }
    fn call_fn(&mut self, f: &FnDef, args: Vec<Val>) -> T {
        let ret = ret_str(&f.sig);
        let saved_scope = std::mem::replace(&mut self.scope, Rc::new(BTreeMap::new()));
        let saved_pc = std::mem::replace(&mut self.st.pc, tru());
        let saved_locals = std::mem::take(&mut self.locals);
        let n_caller = self.st.store.len();
        self.frames.push(Frame {
            module: f.module.clone(),
            self_ty: f.self_ty.clone(),
            ret: ret.clone(),
            exits: vec![],
            fail: fls(),
            loops: vec![],
            is_closure: false,
        });
        self.depth += 1;
        self.stack.push((f.file.clone(), f.line));
        for (k, a) in f.sig.inputs.iter().enumerate() {
            let v = args.get(k).cloned().unwrap_or(Val::T(unit()));
            match a {
                syn::FnArg::Receiver(_) => {
                    self.declare("self", v);
                }
                syn::FnArg::Typed(t) => {
                    self.note_type(&t.ty, &v);
                    self.bind_irrefutable(&t.pat, v);
                }
            }
        }
        let r = match &f.block {
            Some(b) => {
                let saved_hint = std::mem::replace(&mut self.hint, ret.clone());
                let v = self.block(b);
                self.hint = saved_hint;
                v
            }
            None => Val::T(self.unknown(format!("no body {}", f.name))),
        };
        // mutable references handed back to the caller stay references
        self.ret_ref = None;
        if ret.contains("&mut") || ret.contains("&'amut") {
            let fr = self.frames.last().unwrap();
            if fr.exits.is_empty() && !self.st.dead {
                let back = match &r {
                    Val::Ref(p) => Some((tru(), self.norm_place(p))),
                    Val::Opt(c, v) => match &**v {
                        Val::Ref(p) => Some((and(not(fr.fail), *c), self.norm_place(p))),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((c, p)) = back {
                    if p.slot < n_caller {
                        self.ret_ref = Some(if c == tru() && !ret.contains("Option<") && !ret.contains("Result<") { Val::Ref(p) } else { Val::Opt(c, Rc::new(Val::Ref(p))) });
                    }
                }
            }
        }
        let back = self.ret_ref.take();
        let t = if self.st.dead { unit() } else { self.to_t(&r) };
        let out = self.close_frame(t);
        self.depth -= 1;
        self.stack.pop();
        self.scope = saved_scope;
        self.st.pc = saved_pc;
        self.st.dead = false;
        self.ret_ref = back;
        self.locals = saved_locals;
        out
    }
    fn close_frame(&mut self, last: T) -> T {
        let fr = self.frames.pop().unwrap();
        let mut val = last;
        let mut alive = !self.st.dead;
        // merge exits: later exits have exclusive conditions
        for e in fr.exits.into_iter().rev() {
            if !alive {
                val = e.val;
                self.st.store = e.store;
                alive = true;
            } else {
                val = ite(e.cond, e.val, val);
                let n = e.store.len().min(self.st.store.len());
                let mut merged = Vec::with_capacity(n);
                for i in 0..n {
                    merged.push(self.merge_val(e.cond, &e.store[i], &self.st.store[i].clone()));
                }
                self.st.store = merged;
            }
        }
        if !alive {
            // never returns normally
            self.st.dead = false;
            val = err();
            if fr.fail == fls() {
                val = unk("diverges");
            }
        }
        if fr.fail != fls() {
            val = ite(fr.fail, err(), val);
        }
        if fr.ret == "bool" {
            val = bool_of(val);
        }
        val
    }

    // ---------- store ----------
    fn declare(&mut self, name: &str, v: Val) -> usize {
        self.st.store.push(v);
        let s = self.st.store.len() - 1;
        Rc::make_mut(&mut self.scope).insert(name.to_string(), s);
        s
    }
    pub fn read_val(&self, v: &Val) -> T {
        match v {
            Val::T(t) => *t,
            Val::Ref(p) => self.read_place(p),
            Val::Tup(vs) => tuple(vs.iter().map(|v| self.read_val(v)).collect()),
            Val::It(i) => self.materialise(i),
            Val::Fun(p) => sym(&p.join("::")),
            Val::Clo(_) => unk("closure-value"),
            Val::Alias(c, a, b) => ite(*c, self.read_val(a), self.read_val(b)),
            Val::Opt(c, v) => {
                let t = self.read_val(v);
                ite(*c, ok(t), err())
            }
        }
    }
    fn to_t(&mut self, v: &Val) -> T {
        match v {
            Val::Clo(c) => self.clo_term(&c.clone()),
            Val::Tup(vs) => {
                let ts = vs.clone().iter().map(|x| self.to_t(x)).collect();
                tuple(ts)
            }
            _ => self.read_val(v),
        }
    }
    fn clo_term(&mut self, c: &Rc<Clo>) -> T {
        // evaluate the closure on fresh binders
        let n = c.inputs.len() as u32;
        let mut vars = vec![];
        for _ in 0..n {
            vars.push(fresh_var("l"));
        }
        let saved = self.st.clone();
        let t = self.call_clo(c, vars.iter().map(|v| Val::T(*v)).collect());
        let t = self.to_t(&t);
        self.st = saved;
        let h = height(t) + 1;
        let mut m = HashMap::new();
        for (i, v) in vars.iter().enumerate() {
            m.insert(*v, mk(N::Acc(h, 1000 + i as u32)));
        }
        mk(N::Lambda(h, n, subst(t, &m)))
    }
    fn read_place(&self, p: &Place) -> T {
        let mut t = match &self.st.store.get(p.slot) {
            Some(Val::Ref(q)) => self.read_place(&q.clone()),
            Some(v) => self.read_val(v),
            None => unk("slot"),
        };
        for e in &p.path {
            t = match e {
                PE::F(f) => field(t, f),
                PE::I(i) => index(t, *i),
                PE::P(v, k) => payload(t, v, *k),
                PE::S(a, b) => slice(t, *a, *b),
                PE::V(n) => view(t, n),
            };
        }
        t
    }
    /// Follow references stored in slots.
    fn norm_place(&self, p: &Place) -> Place {
        let mut p = p.clone();
        for _ in 0..16 {
            match self.st.store.get(p.slot) {
                Some(Val::Ref(q)) => {
                    let mut path = q.path.clone();
                    path.extend(p.path.clone());
                    p = Place { slot: q.slot, path };
                }
                Some(Val::Tup(vs)) => {
                    if let Some(PE::F(f)) = p.path.first() {
                        if let Ok(i) = f.parse::<usize>() {
                            if let Some(Val::Ref(q)) = vs.get(i) {
                                let mut path = q.path.clone();
                                path.extend(p.path[1..].to_vec());
                                p = Place { slot: q.slot, path };
                                continue;
                            }
                        }
                    }
                    break;
                }
                _ => break,
            }
        }
        p
    }
    fn write_alias(&mut self, c: T, r: &Val, path: &[PE], v: T) {
        match r {
            Val::Ref(q) => {
                let mut q = q.clone();
                q.path.extend(path.to_vec());
                let old = self.read_place(&q);
                self.write_place(&q, ite(c, v, old));
            }
            Val::Alias(d, a, b) => {
                self.write_alias(and(c, *d), a, path, v);
                self.write_alias(and(c, not(*d)), b, path, v);
            }
            _ => {
                self.unknown("write through a conditional value".into());
            }
        }
    }
    /// A reference or conditional reference that stays meaningful in a store of `n` slots.
    fn outlives(&self, st: &St, v: &Val, n: usize) -> Option<Val> {
        match v {
            Val::Ref(p) => {
                let mut p = p.clone();
                for _ in 0..16 {
                    match st.store.get(p.slot) {
                        Some(Val::Ref(q)) => {
                            let mut path = q.path.clone();
                            path.extend(p.path.clone());
                            p = Place { slot: q.slot, path };
                        }
                        Some(a @ Val::Alias(..)) if p.path.is_empty() => return self.outlives(st, &a.clone(), n),
                        _ => break,
                    }
                }
                if p.slot < n { Some(Val::Ref(p)) } else { None }
            }
            Val::Alias(c, a, b) => Some(Val::Alias(*c, Rc::new(self.outlives(st, a, n)?), Rc::new(self.outlives(st, b, n)?))),
            _ => None,
        }
    }
    fn write_place(&mut self, p: &Place, v: T) {
        let p = self.norm_place(p);
        if p.slot >= self.st.store.len() {
            return;
        }
        if let Val::Alias(c, a, b) = self.st.store[p.slot].clone() {
            self.write_alias(c, &a, &p.path, v);
            self.write_alias(not(c), &b, &p.path, v);
            return;
        }
        if p.path.is_empty() {
            self.st.store[p.slot] = Val::T(v);
            return;
        }
        let cur = self.read_val(&self.st.store[p.slot].clone());
        let n = write_path(cur, &p.path, v);
        self.st.store[p.slot] = Val::T(n);
    }
    fn merge_val(&self, c: T, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::T(x), Val::T(y)) => Val::T(ite(c, *x, *y)),
            (Val::Ref(p), Val::Ref(q)) => {
                if place_eq(p, q) {
                    Val::Ref(p.clone())
                } else {
                    Val::T(ite(c, self.read_place(p), self.read_place(q)))
                }
            }
            (Val::Tup(x), Val::Tup(y)) if x.len() == y.len() => Val::Tup(x.iter().zip(y).map(|(p, q)| self.merge_val(c, p, q)).collect()),
            (Val::Alias(c1, a1, b1), Val::Alias(c2, a2, b2)) if c1 == c2 => Val::Alias(*c1, Rc::new(self.merge_val(c, a1, a2)), Rc::new(self.merge_val(c, b1, b2))),
            (Val::Clo(x), Val::Clo(y)) if Rc::ptr_eq(x, y) => Val::Clo(x.clone()),
            (Val::Clo(_), Val::Clo(_)) => {
                self.unknown("conditionally chosen closure".into());
                Val::T(unk("closure"))
            }
            (Val::Fun(x), Val::Fun(y)) if x == y => Val::Fun(x.clone()),
            (Val::It(x), Val::It(y)) if Rc::ptr_eq(x, y) => a.clone(),
            _ => Val::T(ite(c, self.read_val(a), self.read_val(b))),
        }
    }
    fn merge_states(&mut self, c: T, a: St, b: St) {
        if a.dead && b.dead {
            self.st = b;
            self.st.dead = true;
            return;
        }
        if a.dead {
            self.st = b;
            return;
        }
        if b.dead {
            self.st = a;
            return;
        }
        let n = a.store.len().min(b.store.len());
        let mut store = Vec::with_capacity(n);
        for i in 0..n {
            store.push(self.merge_val(c, &a.store[i], &b.store[i]));
        }
        let pc = if a.pc == b.pc { a.pc } else { ite(c, a.pc, b.pc) };
        self.st = St { store, pc, dead: false };
    }
    fn fail_if(&mut self, g: T) {
        // g: additional condition under current pc on which the function errors
        let c = and(self.st.pc, g);
        let fr = self.frames.last_mut().unwrap();
        fr.fail = or(fr.fail, c);
    }
    fn materialise(&self, it: &Iter) -> T {
        let e = self.read_val(&it.elem);
        let mut body = ite(it.cond, elem(e), nil());
        for (lo, hi, v) in it.gens.iter().rev() {
            body = big("concat", *lo, *hi, body, *v);
        }
        if it.rev {
            return un("rev", body);
        }
        body
    }
    fn iter_reduce(&self, it: &Iter, op: &'static str, zero: T, g: T) -> T {
        let mut body = ite(it.cond, g, zero);
        for (lo, hi, v) in it.gens.iter().rev() {
            body = big(op, *lo, *hi, body, *v);
        }
        body
    }
    fn refresh(&self, it: &Iter) -> Iter {
        let mut m = HashMap::new();
        let mut gens = vec![];
        for (lo, hi, v) in &it.gens {
            let nv = fresh_var("i");
            m.insert(*v, nv);
            gens.push((*lo, *hi, nv));
        }
        let gens = gens.into_iter().map(|(a, b, v)| (subst(a, &m), subst(b, &m), v)).collect();
        Iter { gens, cond: subst(it.cond, &m), elem: subst_val(&it.elem, &m), rev: it.rev }
    }
    /// View a value as an iteration space.
    fn as_iter(&mut self, v: &Val, mutable: bool) -> Iter {
        match v {
            Val::It(i) => self.refresh(i),
            Val::Ref(p) => {
                let p = self.norm_place(p);
                if let Some(Val::It(i)) = self.st.store.get(p.slot) {
                    if p.path.is_empty() {
                        let i = i.clone();
                        return self.refresh(&i);
                    }
                }
                let t = self.read_place(&p);
                if mutable {
                    let iv = fresh_var("i");
                    let mut path = p.path.clone();
                    path.push(PE::I(iv));
                    return Iter { gens: vec![(int(0), len(t), iv)], cond: tru(), elem: Val::Ref(Place { slot: p.slot, path }), rev: false };
                }
                self.term_iter(t)
            }
            Val::Tup(_) | Val::T(_) | Val::Fun(_) | Val::Clo(_) | Val::Opt(..) | Val::Alias(..) => {
                let t = self.to_t(v);
                self.term_iter(t)
            }
        }
    }
    fn term_iter(&self, t: T) -> Iter {
        match get(t) {
            N::Big("concat", lo, hi, body, h) => {
                let iv = fresh_var("i");
                let b = subst1(body, mk(N::Bv(h)), iv);
                match get(b) {
                    N::Elem(e) => return Iter { gens: vec![(lo, hi, iv)], cond: tru(), elem: Val::T(e), rev: false },
                    N::Ite(..) => {
                        if let Some((c, e)) = split_filter(b) {
                            return Iter { gens: vec![(lo, hi, iv)], cond: c, elem: Val::T(e), rev: false };
                        }
                    }
                    N::Big("concat", ..) => {
                        let inner = self.term_iter(b);
                        let mut gens = vec![(lo, hi, iv)];
                        gens.extend(inner.gens);
                        return Iter { gens, cond: inner.cond, elem: inner.elem, rev: false };
                    }
                    _ => {}
                }
            }
            N::SetOf(l) => {
                let mut i = self.term_iter(l);
                if let Val::T(e) = i.elem {
                    i.elem = Val::T(e);
                }
                // set iteration: duplicates removed, order arbitrary -> keep opaque
                let iv = fresh_var("i");
                return Iter { gens: vec![(int(0), mk(N::Len(t)), iv)], cond: tru(), elem: Val::T(mk(N::Index(t, iv))), rev: false };
            }
            N::Un("rev", l) => {
                let mut i = self.term_iter(l);
                i.rev = !i.rev;
                return i;
            }
            N::Ctor(n, a) if n == "Ok" && a.len() == 1 => {
                return Iter { gens: vec![], cond: tru(), elem: Val::T(a[0]), rev: false };
            }
            N::Call(n, a) if n == "range" => {
                let iv = fresh_var("i");
                return Iter { gens: vec![(a[0], a[1], iv)], cond: tru(), elem: Val::T(iv), rev: false };
            }
            _ => {}
        }
        let iv = fresh_var("i");
        Iter { gens: vec![(int(0), len(t), iv)], cond: tru(), elem: Val::T(index(t, iv)), rev: false }
    }
}

pub fn split_filter(b: T) -> Option<(T, T)> {
    // MTBDD whose leaves are nil or one common Elem(e)
    fn go(b: T, e: &mut Option<T>) -> Option<T> {
        match get(b) {
            N::Ite(c, x, y) => {
                let p = go(x, e)?;
                let q = go(y, e)?;
                Some(ite(c, p, q))
            }
            N::Elem(x) => {
                if e.is_none() {
                    *e = Some(x)
                }
                if *e == Some(x) {
                    Some(tru())
                } else {
                    None
                }
            }
            N::Concat(v) if v.is_empty() => Some(fls()),
            _ => None,
        }
    }
    let mut e = None;
    let c = go(b, &mut e)?;
    Some((c, e?))
}
pub fn payload_all(full: T) -> T {
    // value under success; Err leaves vanish
    match get(full) {
        N::Ite(c, a, b) => {
            let (ea, eb) = (is_err_leaf(a), is_err_leaf(b));
            if ea {
                return payload_all(b);
            }
            if eb {
                return payload_all(a);
            }
            ite(c, payload_all(a), payload_all(b))
        }
        _ => payload(full, "Ok", 0),
    }
}
fn is_err_leaf(t: T) -> bool {
    match get(t) {
        N::Ctor(n, _) => n == "Err",
        N::Ite(_, a, b) => is_err_leaf(a) && is_err_leaf(b),
        _ => false,
    }
}
pub fn restrict_forced(t: T, care: T) -> T {
    let fa = forced_atoms(care);
    if fa.is_empty() {
        return t;
    }
    let m: HashMap<T, T> = fa.into_iter().map(|(a, v)| (a, mk(N::Bool(v)))).collect();
    subst(t, &m)
}
pub fn diff_fields(base: T, v: T) -> Vec<(String, T)> {
    if base == v {
        return vec![];
    }
    fn fields(base: T, v: T, out: &mut BTreeSet<String>) -> bool {
        if v == base {
            return true;
        }
        if let N::Rec(root, fs) = get(base) {
            if root == v {
                out.extend(fs.into_iter().map(|x| x.0));
                return true;
            }
        }
        match get(v) {
            N::Ite(_, a, b) => fields(base, a, out) && fields(base, b, out),
            N::Rec(b, fs) => {
                if !fields(base, b, out) {
                    return false;
                }
                out.extend(fs.into_iter().map(|x| x.0));
                true
            }
            _ => false,
        }
    }
    let mut fs = BTreeSet::new();
    if fields(base, v, &mut fs) {
        fs.into_iter().filter(|f| field(v, f) != field(base, f)).map(|f| { let t = field(v, &f); (f, t) }).collect()
    } else {
        vec![("*".into(), v)]
    }
}
fn write_path(cur: T, path: &[PE], v: T) -> T {
    if path.is_empty() {
        return v;
    }
    if matches!(get(cur), N::Ite(..)) {
        return lift1(cur, &mut |c| write_path1(c, path, v));
    }
    write_path1(cur, path, v)
}
fn write_path1(cur: T, path: &[PE], v: T) -> T {
    match &path[0] {
        PE::F(f) => {
            let inner = write_path(field(cur, f), &path[1..], v);
            set_field(cur, f, inner)
        }
        PE::I(i) => {
            let inner = write_path(index(cur, *i), &path[1..], v);
            upd(cur, *i, inner)
        }
        PE::S(a, b) => {
            let inner = write_path(slice(cur, *a, *b), &path[1..], v);
            splice(cur, *a, *b, inner)
        }
        PE::V(n) => {
            let inner = write_path(view(cur, n), &path[1..], v);
            call(&format!("unview:{n}"), vec![inner])
        }
        PE::P(var, k) => {
            let inner = write_path(payload(cur, var, *k), &path[1..], v);
            if let N::Ctor(n, mut a) = get(cur) {
                if n == *var && (*k as usize) < a.len() {
                    a[*k as usize] = inner;
                    return mk(N::Ctor(n, a));
                }
            }
            rec(cur, vec![(format!("{var}.{k}"), inner)])
        }
    }
}
pub fn view(t: T, n: &str) -> T {
    match get(t) {
        N::Call(f, a) if f == format!("unview:{n}") => a[0],
        _ => call(&format!("view:{n}"), vec![t]),
    }
}
pub fn splice(c: T, a: T, b: T, v: T) -> T {
    if a == int(0) && b == len(c) {
        return v;
    }
    if let (N::Int(p), N::Int(q), N::Int(n)) = (get(a), get(b), get(len(c))) {
        // a short list of known length: element by element
        if n <= 8 && 0 <= p && p <= q && q <= n {
            let at = |i| if i >= p && i < q { index(v, int(i - p)) } else { index(c, int(i)) };
            return concat((0..n).map(|i| elem(at(i))).collect());
        }
    }
    call("splice", vec![c, a, b, v])
}
pub fn place_eq(a: &Place, b: &Place) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
pub fn same_ref(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Ref(p), Val::Ref(q)) => place_eq(p, q),
        (Val::Alias(c, x, y), Val::Alias(d, z, w)) => c == d && same_ref(x, z) && same_ref(y, w),
        _ => false,
    }
}
fn subst_val(v: &Val, m: &HashMap<T, T>) -> Val {
    match v {
        Val::Alias(c, a, b) => Val::Alias(subst(*c, m), Rc::new(subst_val(a, m)), Rc::new(subst_val(b, m))),
        Val::T(t) => Val::T(subst(*t, m)),
        Val::Ref(p) => Val::Ref(Place {
            slot: p.slot,
            path: p
                .path
                .iter()
                .map(|e| match e {
                    PE::I(t) => PE::I(subst(*t, m)),
                    PE::S(a, b) => PE::S(subst(*a, m), subst(*b, m)),
                    x => x.clone(),
                })
                .collect(),
        }),
        Val::Tup(vs) => Val::Tup(vs.iter().map(|x| subst_val(x, m)).collect()),
        Val::Opt(c, v) => Val::Opt(subst(*c, m), Rc::new(subst_val(v, m))),
        Val::It(i) => Val::It(Rc::new(Iter {
            gens: i.gens.iter().map(|g| (subst(g.0, m), subst(g.1, m), g.2)).collect(),
            cond: subst(i.cond, m),
            elem: subst_val(&i.elem, m),
            rev: i.rev,
        })),
        x => x.clone(),
    }
}
pub fn ret_str(sig: &syn::Signature) -> String {
    match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => quote::quote!(#t).to_string().replace(' ', ""),
    }
}
include!("eval_expr.rs");
include!("eval_loop.rs");
include!("eval_call.rs");
