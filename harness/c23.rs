//! C23: an inductive type is accepted exactly when it occurs in strictly positive positions only,
//! however the datatypes it is put into are defined.
use super::base::*;
use crate::module::LoadState;
use crate::project::Project;

#[derive(Clone, Debug, Hash, PartialEq)]
enum Ty {
    Bool,
    Nat,
    P(usize),
    /// a datatype, its type arguments, its value argument
    D(usize, Vec<Ty>, Option<Val>),
    Fun(Vec<Ty>, Box<Ty>),
}
#[derive(Clone, Debug, Hash, PartialEq)]
enum Val {
    Zero,
    /// card[T], a number named after a type
    Card(Box<Ty>),
}
#[derive(Clone, Debug, Hash)]
enum Kind {
    /// has a value parameter
    Structure(bool, Vec<Ty>),
    Inductive(Vec<Vec<Ty>>),
    Alias(Ty),
    Axiom,
}
#[derive(Clone, Debug, Hash)]
struct Decl {
    module: usize,
    params: usize,
    kind: Kind,
}

const PARAMS: [&str; 3] = ["S", "T", "U"];
const FILES: [&str; 3] = ["low", "mid", "main"];

fn show(t: &Ty) -> String {
    let list = |a: &[Ty]| a.iter().map(show).collect::<Vec<_>>().join(", ");
    match t {
        Ty::Bool => "Bool".to_string(),
        Ty::Nat => "Nat".to_string(),
        Ty::P(i) => PARAMS[*i].to_string(),
        Ty::D(d, a, v) => {
            let mut args: Vec<String> = a.iter().map(show).collect();
            match v {
                Some(Val::Zero) => args.push("Nat.0".to_string()),
                Some(Val::Card(t)) => args.push(format!("card[{}]", show(t))),
                None => {}
            }
            if args.is_empty() { format!("Data{}", d) } else { format!("Data{}[{}]", d, args.join(", ")) }
        }
        Ty::Fun(a, r) if a.len() == 1 && !matches!(a[0], Ty::Fun(..)) => format!("{} -> {}", show(&a[0]), show(r)),
        Ty::Fun(a, r) => format!("({}) -> {}", list(a), show(r)),
    }
}
fn sources(ds: &[Decl]) -> Vec<String> {
    let mut out = vec![];
    // the first module that has something in it also has the basics
    let first = ds.iter().map(|d| d.module).min().unwrap_or(2);
    for m in first..3 {
        let mut s = String::new();
        if m == first {
            s += "inductive Nat {\n    0\n    suc(Nat)\n}\nlet card[T]: Nat = axiom\n";
        } else {
            for k in first..m {
                let mut names: Vec<String> = ds.iter().enumerate().filter(|(_, d)| d.module == k).map(|(i, _)| format!("Data{}", i)).collect();
                if k == first {
                    names.push("Nat".to_string());
                    names.push("card".to_string());
                }
                if !names.is_empty() {
                    s += &format!("from {} import {}\n", FILES[k], names.join(", "));
                }
            }
        }
        for (i, d) in ds.iter().enumerate().filter(|(_, d)| d.module == m) {
            let mut ps: Vec<String> = PARAMS[..d.params].iter().map(|p| p.to_string()).collect();
            if matches!(d.kind, Kind::Structure(true, _)) {
                ps.push("n: Nat".to_string());
            }
            let head = if ps.is_empty() { format!("Data{}", i) } else { format!("Data{}[{}]", i, ps.join(", ")) };
            match &d.kind {
                Kind::Structure(_, fields) => {
                    s += &format!("structure {} {{\n", head);
                    for (k, f) in fields.iter().enumerate() {
                        s += &format!("    f{}: {}\n", k, show(f));
                    }
                    s += "}\n";
                }
                Kind::Inductive(cs) => {
                    s += &format!("inductive {} {{\n    base\n", head);
                    for (k, c) in cs.iter().enumerate() {
                        s += &format!("    c{}({})\n", k, c.iter().map(show).collect::<Vec<_>>().join(", "));
                    }
                    s += "}\n";
                }
                Kind::Alias(t) => s += &format!("type {}: {}\n", head, show(t)),
                Kind::Axiom => s += &format!("type {}: axiom\n", head),
            }
        }
        out.push(s);
    }
    out
}

// ---- what it should say ---------------------------------------------------------------------------
fn put(t: &Ty, args: &[Ty]) -> Ty {
    match t {
        Ty::P(i) => args[*i].clone(),
        Ty::D(d, a, v) => Ty::D(*d, a.iter().map(|x| put(x, args)).collect(), v.as_ref().map(|v| match v { Val::Zero => Val::Zero, Val::Card(t) => Val::Card(Box::new(put(t, args))) })),
        Ty::Fun(a, r) => Ty::Fun(a.iter().map(|x| put(x, args)).collect(), Box::new(put(r, args))),
        _ => t.clone(),
    }
}
/// without aliases
fn plain(ds: &[Decl], t: &Ty) -> Ty {
    match t {
        Ty::D(d, a, v) => {
            let a: Vec<Ty> = a.iter().map(|x| plain(ds, x)).collect();
            match &ds[*d].kind {
                Kind::Alias(t) => put(&plain(ds, t), &a),
                _ => Ty::D(*d, a, v.as_ref().map(|v| match v { Val::Zero => Val::Zero, Val::Card(t) => Val::Card(Box::new(plain(ds, t))) })),
            }
        }
        Ty::Fun(a, r) => Ty::Fun(a.iter().map(|x| plain(ds, x)).collect(), Box::new(plain(ds, r))),
        _ => t.clone(),
    }
}
#[derive(Clone, Copy)]
enum Thing {
    P(usize),
    D(usize),
}
fn occurs(x: Thing, t: &Ty) -> bool {
    match t {
        Ty::P(i) => matches!(x, Thing::P(j) if j == *i),
        Ty::D(d, a, v) => {
            matches!(x, Thing::D(e) if e == *d) || a.iter().any(|t| occurs(x, t)) || matches!(v, Some(Val::Card(t)) if occurs(x, t))
        }
        Ty::Fun(a, r) => a.iter().any(|t| occurs(x, t)) || occurs(x, r),
        _ => false,
    }
}
/// bad[d][i]: datatype d has its i-th argument where it is not strictly positive
fn strict(x: Thing, bad: &[Vec<bool>], t: &Ty) -> bool {
    match t {
        Ty::D(d, a, v) => {
            !matches!(v, Some(Val::Card(t)) if occurs(x, t)) && a.iter().enumerate().all(|(i, t)| if bad[*d][i] { !occurs(x, t) } else { strict(x, bad, t) })
        }
        Ty::Fun(a, r) => !a.iter().any(|t| occurs(x, t)) && strict(x, bad, r),
        _ => true,
    }
}
fn parts(ds: &[Decl], d: usize) -> Vec<Ty> {
    match &ds[d].kind {
        Kind::Structure(_, f) => f.iter().map(|t| plain(ds, t)).collect(),
        Kind::Inductive(cs) => cs.iter().flatten().map(|t| plain(ds, t)).collect(),
        _ => vec![],
    }
}
fn accepted(ds: &[Decl]) -> bool {
    let mut bad: Vec<Vec<bool>> = ds.iter().map(|d| vec![false; d.params]).collect();
    loop {
        let mut next = bad.clone();
        for d in 0..ds.len() {
            for i in 0..ds[d].params {
                next[d][i] |= !parts(ds, d).iter().all(|t| strict(Thing::P(i), &bad, t));
            }
        }
        if next == bad {
            break;
        }
        bad = next;
    }
    (0..ds.len()).all(|d| !matches!(ds[d].kind, Kind::Inductive(_)) || parts(ds, d).iter().all(|t| strict(Thing::D(d), &bad, t)))
}

// ---- what it says ---------------------------------------------------------------------------------
fn load(files: &[String]) -> Result<(), String> {
    let mut p = Project::new_mock();
    for (f, s) in FILES[3 - files.len()..].iter().zip(files) {
        p.mock(&format!("/mock/{}.ac", f), s);
    }
    let mut error = None;
    for f in &FILES[3 - files.len()..] {
        match p.load_module_by_name(f) {
            Ok(id) => match p.get_module_by_id(id) {
                LoadState::Ok(_) => {}
                LoadState::Error(e) => {
                    error = Some(e.to_string());
                    break;
                }
                _ => {
                    error = Some("not loaded".to_string());
                    break;
                }
            },
            Err(e) => {
                error = Some(e.to_string());
                break;
            }
        }
    }
    match error {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

struct Gen<'a> {
    ds: &'a [Decl],
    params: usize,
    /// the inductive type being defined
    own: Option<usize>,
    /// one in this many types is a function type
    fun: usize,
}
impl Gen<'_> {
    fn val(&self, b: &mut Bench, depth: usize) -> Val {
        if depth > 0 && b.rng.chance(1, 6) { Val::Card(Box::new(self.ty(b, depth - 1))) } else { Val::Zero }
    }
    fn ty(&self, b: &mut Bench, depth: usize) -> Ty {
        let leaf = depth == 0 || b.rng.chance(1, 4);
        if leaf {
            let n = 2 + 2 * self.params + 3 * self.own.is_some() as usize;
            let k = b.rng.below(n);
            return match k {
                0 => Ty::Bool,
                1 => Ty::Nat,
                k if k < 2 + 2 * self.params => Ty::P((k - 2) / 2),
                _ => self.own(b, 0),
            };
        }
        if b.rng.chance(1, self.fun) {
            let n = 1 + b.rng.chance(1, 3) as usize;
            let a = (0..n).map(|_| self.ty(b, depth - 1)).collect();
            return Ty::Fun(a, Box::new(self.ty(b, depth - 1)));
        }
        if self.own.is_some() && (self.ds.is_empty() || b.rng.chance(1, 4)) {
            return self.own(b, depth - 1);
        }
        if self.ds.is_empty() {
            return self.ty(b, 0);
        }
        let d = b.rng.below(self.ds.len());
        let a = (0..self.ds[d].params).map(|_| self.ty(b, depth - 1)).collect();
        let v = if matches!(self.ds[d].kind, Kind::Structure(true, _)) { Some(self.val(b, depth)) } else { None };
        Ty::D(d, a, v)
    }
    fn own(&self, b: &mut Bench, depth: usize) -> Ty {
        let same = b.rng.chance(2, 3);
        Ty::D(
            self.own.unwrap(),
            (0..self.params)
                .map(|i| {
                    if same {
                        Ty::P(i)
                    } else if depth == 0 {
                        Ty::P(b.rng.below(self.params))
                    } else {
                        self.ty(b, depth - 1)
                    }
                })
                .collect(),
            None,
        )
    }
}
fn program(b: &mut Bench) -> Vec<Decl> {
    let mut ds: Vec<Decl> = vec![];
    let n = 1 + b.rng.below(4);
    let mut module = if b.rng.chance(1, 2) { 0 } else { 2 };
    let fun = *b.rng.pick(&[2, 3, 6]);
    for k in 0..n {
        if module < 2 && b.rng.chance(1, 2) {
            module += 1;
        }
        let last = k + 1 == n;
        let mut params = if last { *b.rng.pick(&[0, 0, 0, 1, 2]) } else { *b.rng.pick(&[1, 1, 1, 2, 2, 3]) };
        let kind = match b.rng.below(10) {
            _ if last => 8,
            k => k,
        };
        let g = Gen { ds: &ds, params, own: if kind >= 7 { Some(k) } else { None }, fun };
        let depth = 1 + b.rng.below(3);
        let kind = match kind {
            0 => {
                let t = g.ty(b, depth);
                Kind::Alias(t)
            }
            1 => Kind::Axiom,
            2..=6 => {
                let f = (0..1 + b.rng.below(2)).map(|_| g.ty(b, depth)).collect();
                Kind::Structure(b.rng.chance(1, 3), f)
            }
            _ => Kind::Inductive((0..1 + b.rng.below(2)).map(|_| (0..1 + b.rng.below(2)).map(|_| g.ty(b, depth)).collect()).collect()),
        };
        if matches!(kind, Kind::Axiom) {
            params = params.min(2);
        }
        ds.push(Decl { module, params, kind });
    }
    ds
}
fn check(b: &mut Bench, ds: &[Decl]) {
    let interesting = (0..ds.len()).any(|d| matches!(ds[d].kind, Kind::Inductive(_)) && parts(ds, d).iter().any(|t| occurs(Thing::D(d), t) && !matches!(t, Ty::D(e, ..) if *e == d)));
    b.case("positivity.programs", &ds.to_vec(), interesting, |_| {
        let s = sources(ds);
        let want = accepted(ds);
        match (load(&s), want) {
            (Ok(()), false) => Err(format!("accepted\n{}", s.join("----\n"))),
            (Err(e), true) if e.contains("invalid type") || std::env::var("C23_STRICT").is_ok() => Err(format!("rejected: {}\n{}", e, s.join("----\n"))),
            _ => Ok(()),
        }
    });
}
/// a structure with no field that mentions its parameter, but a constraint that does
const COUNTED: &str = "structure Sing[T] {\n    f: Bool\n} constraint {\n    forall(x: T, y: T) { x = y }\n}\ninductive Bad {\n    base\n    mk(Sing[Bad])\n}\n";
pub fn run(b: &mut Bench) {
    // Sing[Bad] has elements only while Bad has one element, but then Bad has three
    b.case("positivity.constraints", &COUNTED, true, |s| match load(&[s.to_string()]) {
        Ok(()) => Err("accepted".to_string()),
        Err(_) => Ok(()),
    });
    b.phase(1.0);
    while b.time_left() {
        let ds = program(b);
        check(b, &ds);
    }
}
