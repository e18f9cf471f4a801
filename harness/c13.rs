//! C13: a recursive definition is accepted exactly when some argument position goes down in every
//! use of the function.
use super::base::*;
use crate::elaborator::acorn_type::{AcornType, Datatype, DependentTypeArg, FunctionType};
use crate::elaborator::acorn_value::{AcornValue, BinaryOp, ConstantInstance, FunctionApplication, MatchCase, TypeApplication};
use crate::elaborator::names::ConstantName;
use crate::elaborator::termination_checker::TerminationChecker;
use crate::module::{LoadState, ModuleId};
use crate::project::Project;

#[derive(Clone, Debug, Hash)]
enum Ty {
    B,
    Data(Vec<Ty>),
    Fam(Vec<Arg>),
    Fun(Vec<Ty>, Box<Ty>),
}
#[derive(Clone, Debug, Hash)]
enum Arg {
    T(Ty),
    V(V),
}
#[derive(Clone, Debug, Hash)]
enum V {
    Var(u16),
    Bool,
    /// constant 0 is the function being defined
    Con(u8, Vec<Ty>, Vec<V>),
    App(Box<V>, Vec<V>),
    TApp(Box<V>, Vec<Ty>),
    Bind(u8, Vec<Ty>, Box<V>),
    Un(u8, Box<V>),
    Bin(Box<V>, Box<V>),
    Ite(Box<V>, Box<V>, Box<V>),
    Match(Box<V>, Vec<(u8, V, V)>),
}

fn name(k: u8) -> ConstantName {
    ConstantName::unqualified(ModuleId(0), &format!("c{}", k))
}
fn data() -> Datatype {
    Datatype { module_id: ModuleId(0), name: "D".to_string() }
}
fn ty(t: &Ty) -> AcornType {
    match t {
        Ty::B => AcornType::Bool,
        Ty::Data(a) => AcornType::Data(data(), a.iter().map(ty).collect()),
        Ty::Fam(a) => AcornType::Family(
            data(),
            a.iter().map(|x| match x { Arg::T(t) => DependentTypeArg::Type(ty(t)), Arg::V(v) => DependentTypeArg::Value(val(v)) }).collect(),
        ),
        Ty::Fun(a, r) => AcornType::Function(FunctionType { arg_types: a.iter().map(ty).collect(), return_type: Box::new(ty(r)) }),
    }
}
fn bx(v: &V) -> Box<AcornValue> {
    Box::new(val(v))
}
fn val(v: &V) -> AcornValue {
    match v {
        V::Var(i) => AcornValue::Variable(*i, AcornType::Bool),
        V::Bool => AcornValue::Bool(true),
        V::Con(k, p, b) => AcornValue::Constant(ConstantInstance {
            name: name(*k),
            params: p.iter().map(ty).collect(),
            instance_type: AcornType::Bool,
            generic_type: AcornType::Bool,
            type_param_names: vec![],
            value_param_types: b.iter().map(|_| AcornType::Bool).collect(),
            bound_value_args: b.iter().map(val).collect(),
        }),
        V::App(f, a) => AcornValue::Application(FunctionApplication { function: bx(f), args: a.iter().map(val).collect() }),
        V::TApp(f, t) => AcornValue::TypeApplication(TypeApplication {
            function: bx(f),
            type_param_names: vec![],
            type_param_constraints: vec![],
            type_args: t.iter().map(ty).collect(),
        }),
        V::Bind(0, t, x) => AcornValue::Lambda(t.iter().map(ty).collect(), bx(x)),
        V::Bind(1, t, x) => AcornValue::ForAll(t.iter().map(ty).collect(), bx(x)),
        V::Bind(_, t, x) => AcornValue::Exists(t.iter().map(ty).collect(), bx(x)),
        V::Un(0, x) => AcornValue::Not(bx(x)),
        V::Un(1, x) => AcornValue::Grouping(bx(x)),
        V::Un(_, x) => AcornValue::Try(bx(x), AcornType::Bool),
        V::Bin(x, y) => AcornValue::Binary(BinaryOp::Equals, bx(x), bx(y)),
        V::Ite(x, y, z) => AcornValue::IfThenElse(bx(x), bx(y), bx(z)),
        V::Match(x, cs) => AcornValue::Match(
            bx(x),
            cs.iter()
                .enumerate()
                .map(|(i, (n, p, r))| MatchCase {
                    new_vars: (0..*n).map(|_| AcornType::Bool).collect(),
                    pattern: val(p),
                    result: val(r),
                    constructor_index: i as u16,
                    constructor_total: cs.len() as u16,
                })
                .collect(),
        ),
    }
}

/// where a variable comes from
#[derive(Clone, Copy, PartialEq)]
enum From {
    Outside,
    PartOf(u16),
}
/// Every use of the function: for each argument, the variable it is a part of, if that is known.
/// A use that is not a call has no arguments.
type Uses = Vec<Vec<Option<u16>>>;

fn uses_ty(t: &Ty, env: &mut Vec<From>, out: &mut Uses) {
    match t {
        Ty::B => {}
        Ty::Data(a) => a.iter().for_each(|x| uses_ty(x, env, out)),
        Ty::Fun(a, r) => {
            a.iter().for_each(|x| uses_ty(x, env, out));
            uses_ty(r, env, out)
        }
        Ty::Fam(a) => {
            for x in a {
                match x {
                    Arg::T(t) => uses_ty(t, env, out),
                    Arg::V(v) => {
                        // the variables of a type are its own
                        let mut inner = vec![];
                        uses(v, env, &mut inner);
                        out.extend(inner.into_iter().map(|_| vec![]));
                    }
                }
            }
        }
    }
}
fn uses(v: &V, env: &mut Vec<From>, out: &mut Uses) {
    match v {
        V::Var(_) | V::Bool => {}
        V::Con(k, p, b) => {
            if *k == 0 {
                out.push(vec![]);
            }
            p.iter().for_each(|x| uses_ty(x, env, out));
            b.iter().for_each(|x| uses(x, env, out));
        }
        V::App(..) => {
            let mut spine: Vec<&Vec<V>> = vec![];
            let mut head = v;
            while let V::App(f, a) = head {
                spine.push(a);
                head = f;
            }
            spine.reverse();
            let args: Vec<&V> = spine.into_iter().flatten().collect();
            let mut core = head;
            while let V::TApp(f, _) = core {
                core = f;
            }
            if let V::Con(0, p, b) = core {
                out.push(args.iter().map(|a| match a {
                    V::Var(j) => match env.get(*j as usize) { Some(From::PartOf(p)) if p != j => Some(*p), _ => None },
                    _ => None,
                }).collect());
                let mut f = head;
                while let V::TApp(g, t) = f {
                    t.iter().for_each(|x| uses_ty(x, env, out));
                    f = g;
                }
                p.iter().for_each(|x| uses_ty(x, env, out));
                b.iter().for_each(|x| uses(x, env, out));
            } else {
                uses(head, env, out);
            }
            args.into_iter().for_each(|x| uses(x, env, out));
        }
        V::TApp(f, t) => {
            uses(f, env, out);
            t.iter().for_each(|x| uses_ty(x, env, out));
        }
        V::Bind(_, t, x) => {
            let n = env.len();
            env.extend(t.iter().map(|_| From::Outside));
            t.iter().for_each(|x| uses_ty(x, env, out));
            uses(x, env, out);
            env.truncate(n);
        }
        V::Un(_, x) => uses(x, env, out),
        V::Bin(x, y) => {
            uses(x, env, out);
            uses(y, env, out);
        }
        V::Ite(x, y, z) => {
            uses(x, env, out);
            uses(y, env, out);
            uses(z, env, out);
        }
        V::Match(x, cs) => {
            uses(x, env, out);
            let from = match &**x { V::Var(i) => From::PartOf(*i), _ => From::Outside };
            for (n, p, r) in cs {
                let len = env.len();
                env.extend((0..*n).map(|_| from));
                uses(p, env, out);
                uses(r, env, out);
                env.truncate(len);
            }
        }
    }
}
fn all_uses(ambient: u16, n: u16, v: &V) -> Uses {
    let mut env: Vec<From> = (0..ambient + n).map(|_| From::Outside).collect();
    let mut out = vec![];
    uses(v, &mut env, &mut out);
    out
}
fn terminates(ambient: u16, n: u16, v: &V) -> bool {
    let u = all_uses(ambient, n, v);
    (0..n).any(|i| u.iter().all(|args| args.get(i as usize).copied().flatten() == Some(ambient + i)))
}

// ---- values ---------------------------------------------------------------------------------------
struct Gen {
    ambient: u16,
    n: u16,
    /// parts[j]: variable j is bound in a case of a match on that variable
    parts: Vec<Option<u16>>,
    wild: usize,
    target: u16,
}
impl Gen {
    fn part(&self, b: &mut Bench, of: u16) -> Option<u16> {
        let v: Vec<u16> = (0..self.parts.len() as u16).filter(|j| self.parts[*j as usize] == Some(of)).collect();
        if v.is_empty() { None } else { Some(*b.rng.pick(&v)) }
    }
    fn args(&mut self, b: &mut Bench, d: usize) -> Vec<V> {
        let mut a: Vec<V> = (0..self.n).map(|_| self.v(b, d)).collect();
        if b.rng.below(100) >= self.wild {
            if let Some(j) = self.part(b, self.ambient + self.target) {
                a[self.target as usize] = V::Var(j);
            }
        } else if b.rng.chance(1, 3) {
            a.truncate(b.rng.below(a.len() + 1));
        }
        a
    }
    fn types(&mut self, b: &mut Bench, d: usize) -> Vec<Ty> {
        let n = if b.rng.chance(2, 3) { 0 } else { 1 + b.rng.below(2) };
        (0..n).map(|_| self.t(b, d)).collect()
    }
    fn t(&mut self, b: &mut Bench, d: usize) -> Ty {
        if d == 0 || b.rng.chance(1, 2) {
            return Ty::B;
        }
        match b.rng.below(4) {
            0 => Ty::Data((0..1 + b.rng.below(2)).map(|_| self.t(b, d - 1)).collect()),
            1 => Ty::Fun((0..1 + b.rng.below(2)).map(|_| self.t(b, d - 1)).collect(), Box::new(self.t(b, d - 1))),
            _ => Ty::Fam((0..1 + b.rng.below(2)).map(|_| if b.rng.chance(1, 2) { Arg::T(self.t(b, d - 1)) } else { Arg::V(self.quiet(b, d - 1)) }).collect()),
        }
    }
    /// mostly without the function
    fn quiet(&mut self, b: &mut Bench, d: usize) -> V {
        if b.rng.below(100) < self.wild { self.v(b, d) } else { V::Var(b.rng.below(self.parts.len().max(1)) as u16) }
    }
    fn call(&mut self, b: &mut Bench, d: usize) -> V {
        let p = self.types(b, d.min(1));
        let h = if b.rng.chance(1, 4) { vec![self.v(b, d)] } else { vec![] };
        let mut f = V::Con(0, p, h);
        while b.rng.chance(1, 6) {
            f = V::TApp(Box::new(f), self.types(b, d.min(2)));
        }
        let mut a = self.args(b, d);
        if b.rng.below(200) < self.wild {
            return f;
        }
        while b.rng.chance(1, 3) {
            let k = b.rng.below(a.len() + 1);
            let rest = a.split_off(k);
            f = V::App(Box::new(f), a);
            a = rest;
        }
        V::App(Box::new(f), a)
    }
    fn v(&mut self, b: &mut Bench, d: usize) -> V {
        if d == 0 {
            return if self.parts.is_empty() || b.rng.chance(1, 4) { V::Con(1, vec![], vec![]) } else { V::Var(b.rng.below(self.parts.len()) as u16) };
        }
        match b.rng.below(14) {
            0 => V::Var(b.rng.below(self.parts.len().max(1)) as u16),
            1 => V::Con(1 + b.rng.below(2) as u8, self.types(b, d - 1), vec![self.v(b, d - 1)]),
            2 | 3 | 4 => self.call(b, d - 1),
            5 => {
                let f = if b.rng.chance(1, 2) { V::Con(2, vec![], vec![]) } else { self.v(b, d - 1) };
                V::App(Box::new(f), (0..1 + b.rng.below(2)).map(|_| self.v(b, d - 1)).collect())
            }
            6 => V::TApp(Box::new(self.v(b, d - 1)), self.types(b, d - 1)),
            7 | 8 => {
                let n = 1 + b.rng.below(2);
                let len = self.parts.len();
                self.parts.extend((0..n).map(|_| None));
                let t = (0..n).map(|_| self.t(b, d - 1)).collect();
                let x = self.v(b, d - 1);
                self.parts.truncate(len);
                V::Bind(b.rng.below(3) as u8, t, Box::new(x))
            }
            9 => V::Un(b.rng.below(3) as u8, Box::new(self.v(b, d - 1))),
            10 => V::Bin(Box::new(self.v(b, d - 1)), Box::new(self.v(b, d - 1))),
            11 => V::Ite(Box::new(self.v(b, d - 1)), Box::new(self.v(b, d - 1)), Box::new(self.v(b, d - 1))),
            _ => self.matching(b, d),
        }
    }
    fn matching(&mut self, b: &mut Bench, d: usize) -> V {
        let of = if b.rng.chance(1, 3) && !self.parts.is_empty() {
            Some(b.rng.below(self.parts.len()) as u16)
        } else if b.rng.chance(3, 4) {
            Some(self.ambient + self.target)
        } else {
            None
        };
        let x = match of { Some(j) => V::Var(j), None => self.v(b, d - 1) };
        let mut cs = vec![];
        for _ in 0..1 + b.rng.below(3) {
            let n = b.rng.below(3);
            let len = self.parts.len();
            self.parts.extend((0..n).map(|_| of));
            let p = if n > 0 { V::App(Box::new(V::Con(1, vec![], vec![])), (len..len + n).map(|j| V::Var(j as u16)).collect()) } else { V::Con(1, vec![], vec![]) };
            let r = self.v(b, d - 1);
            self.parts.truncate(len);
            cs.push((n as u8, p, r));
        }
        V::Match(Box::new(x), cs)
    }
}
fn check(b: &mut Bench, ambient: u16, n: u16, v: &V) {
    let u = all_uses(ambient, n, v);
    let interesting = !u.is_empty();
    b.case("termination.every_use", &(ambient, n, v.clone()), interesting, |(ambient, n, v)| {
        let got = TerminationChecker::new(name(0), *ambient as usize, *n as usize).check(&val(v));
        want("accepted", got, terminates(*ambient, *n, v))
    });
}

// ---- programs -------------------------------------------------------------------------------------
#[derive(Clone, Debug, Hash)]
enum E {
    Var(u16),
    Zero,
    Suc(Box<E>),
    Call(Vec<E>),
    /// the function without its last argument, handed to another function
    Partial(Vec<E>),
    /// the function handed over as it is
    Bare,
    Match(Box<E>, Box<E>, u16, Box<E>),
    If(Box<E>, Box<E>, Box<E>, Box<E>),
    All(u16, Box<E>, Box<E>, Box<E>),
    Fun(u16, Box<E>),
    Bound(Box<E>),
    /// something exists in a type that depends on a value
    Some(u16, Box<E>),
}
#[derive(Clone, Debug, Hash)]
struct Program {
    /// a method of a family with one value parameter
    family: bool,
    args: u16,
    body: E,
}
fn text(p: &Program, e: &E) -> String {
    let t = |e: &E| text(p, e);
    let list = |a: &[E]| a.iter().map(|x| text(p, x)).collect::<Vec<_>>().join(", ");
    match e {
        E::Var(j) => format!("x{}", j),
        E::Zero => "Nat.0".to_string(),
        E::Suc(x) => format!("Nat.suc({})", t(x)),
        E::Call(a) if p.family && a.is_empty() => "self.f".to_string(),
        E::Call(a) if p.family => format!("self.f({})", list(a)),
        E::Call(a) => format!("f({})", list(a)),
        E::Partial(a) if p.family && a.is_empty() => "h(self.f)".to_string(),
        E::Partial(a) if p.family => format!("h(self.f({}))", list(a)),
        E::Partial(a) if a.is_empty() => "h(f)".to_string(),
        E::Partial(a) => format!("h(f({}))", list(a)),
        E::Bare => "h(f)".to_string(),
        E::Match(x, z, k, s) => format!("match {} {{\n Nat.0 {{ {} }}\n Nat.suc(x{}) {{ {} }}\n}}", t(x), t(z), k, t(s)),
        E::If(x, y, a, c) => format!("if {} = {} {{ {} }} else {{ {} }}", t(x), t(y), t(a), t(c)),
        E::All(k, x, a, c) => format!("if forall(x{}: Nat) {{ {} = Nat.0 }} {{ {} }} else {{ {} }}", k, t(x), t(a), t(c)),
        E::Fun(k, x) => format!("h(function(x{}: Nat) {{ {} }})", k, t(x)),
        E::Bound(x) => format!("Fin[{}].bound", t(x)),
        E::Some(k, x) => format!("if exists(x{}: Fin[{}]) {{ true }} {{ Nat.0 }} else {{ Nat.suc(Nat.0) }}", k, t(x)),
    }
}
const NAT: &str = "inductive Nat {\n    0\n    suc(Nat)\n}\nstructure Fin[n: Nat] {\n    value: Nat\n}\nattributes Fin[n: Nat] {\n    let bound: Nat = n\n}\nlet h: (Nat -> Nat) -> Nat = axiom\n";
fn source(p: &Program) -> String {
    let body = text(p, &p.body);
    if p.family {
        let a: Vec<String> = (2..1 + p.args).map(|j| format!(", x{}: Nat", j)).collect();
        format!("{}attributes Fin[x0: Nat] {{\ndefine f(self{}) -> Nat {{\n{}\n}}\n}}\n", NAT, a.concat(), body)
    } else {
        let a: Vec<String> = (0..p.args).map(|j| format!("x{}: Nat", j)).collect();
        format!("{}define f({}) -> Nat {{\n{}\n}}\n", NAT, a.join(", "), body)
    }
}
fn meaning(p: &Program, e: &E) -> V {
    let m = |e: &E| meaning(p, e);
    let c = |k: u8| V::Con(k, vec![], vec![]);
    let app = |k: u8, a: Vec<V>| V::App(Box::new(c(k)), a);
    let f = |a: &[E]| {
        let mut args: Vec<V> = a.iter().map(m).collect();
        if p.family {
            args.insert(0, V::Var(1));
        }
        if args.is_empty() { c(0) } else { app(0, args) }
    };
    match e {
        E::Var(j) => V::Var(*j),
        E::Zero => c(1),
        E::Suc(x) => app(1, vec![m(x)]),
        E::Call(a) => f(a),
        E::Partial(a) => app(2, vec![f(a)]),
        E::Bare => app(2, vec![c(0)]),
        E::Match(x, z, k, s) => V::Match(Box::new(m(x)), vec![(0, c(1), m(z)), (1, app(1, vec![V::Var(*k)]), m(s))]),
        E::If(x, y, a, c) => V::Ite(Box::new(V::Bin(Box::new(m(x)), Box::new(m(y)))), Box::new(m(a)), Box::new(m(c))),
        E::All(_, x, a, c) => V::Ite(Box::new(V::Bind(1, vec![Ty::B], Box::new(m(x)))), Box::new(m(a)), Box::new(m(c))),
        E::Fun(_, x) => app(2, vec![V::Bind(0, vec![Ty::B], Box::new(m(x)))]),
        E::Bound(x) => V::Con(3, vec![], vec![m(x)]),
        E::Some(_, x) => V::Bind(2, vec![Ty::Fam(vec![Arg::V(m(x))])], Box::new(V::Bool)),
    }
}
struct Prog {
    family: bool,
    args: u16,
    /// whether the variable is a number, and what it is a part of
    vars: Vec<(bool, Option<u16>)>,
    wild: usize,
    target: u16,
}
impl Prog {
    fn var(&mut self, b: &mut Bench) -> E {
        let v: Vec<u16> = (0..self.vars.len() as u16).filter(|j| self.vars[*j as usize].0).collect();
        if v.is_empty() { E::Zero } else { E::Var(*b.rng.pick(&v)) }
    }
    fn under(&mut self, b: &mut Bench, d: usize, v: (bool, Option<u16>)) -> (u16, E) {
        self.vars.push(v);
        let e = self.e(b, d);
        self.vars.pop();
        (self.vars.len() as u16, e)
    }
    fn given(&mut self, b: &mut Bench, d: usize) -> Vec<E> {
        let skip = if self.family { 1 } else { 0 };
        (skip..self.args).map(|i| {
            let at = if self.family { 1 + i } else { i };
            let v: Vec<u16> = (0..self.vars.len() as u16).filter(|j| self.vars[*j as usize] == (true, Some(at))).collect();
            if i == self.target && !v.is_empty() && b.rng.below(100) >= self.wild {
                E::Var(*b.rng.pick(&v))
            } else if b.rng.chance(1, 2) {
                self.var(b)
            } else {
                self.e(b, d)
            }
        }).collect()
    }
    fn e(&mut self, b: &mut Bench, d: usize) -> E {
        if d == 0 {
            return if b.rng.chance(1, 4) { E::Zero } else { self.var(b) };
        }
        match b.rng.below(16) {
            0 => E::Suc(Box::new(self.e(b, d - 1))),
            1 | 2 | 3 | 4 => E::Call(self.given(b, d - 1)),
            5 => {
                let mut a = self.given(b, d - 1);
                if a.pop().is_none() { E::Zero } else { E::Partial(a) }
            }
            6 => E::If(Box::new(self.e(b, d - 1)), Box::new(self.e(b, d - 1)), Box::new(self.e(b, d - 1)), Box::new(self.e(b, d - 1))),
            7 => {
                let (k, x) = self.under(b, d - 1, (true, None));
                E::All(k, Box::new(x), Box::new(self.e(b, d - 1)), Box::new(self.e(b, d - 1)))
            }
            8 => {
                let (k, x) = self.under(b, d - 1, (true, None));
                E::Fun(k, Box::new(x))
            }
            9 => E::Bound(Box::new(self.e(b, d - 1))),
            10 if !self.family && self.args == 1 && b.rng.below(100) < self.wild => E::Bare,
            10 => {
                let x = self.e(b, d - 1);
                E::Some(self.vars.len() as u16, Box::new(x))
            }
            _ => self.matching(b, d),
        }
    }
    fn matching(&mut self, b: &mut Bench, d: usize) -> E {
        let at = if self.family { 1 + self.target } else { self.target };
        let x = if b.rng.chance(3, 4) && self.vars[at as usize].0 { E::Var(at) } else if b.rng.chance(2, 3) { self.var(b) } else { self.e(b, d - 1) };
        let z = self.e(b, d - 1);
        let of = match &x { E::Var(j) => Some(*j), _ => None };
        let (k, s) = self.under(b, d - 1, (true, of));
        E::Match(Box::new(x), Box::new(z), k, Box::new(s))
    }
}
fn load(text: &str) -> Result<bool, String> {
    let mut p = Project::new_mock();
    p.mock("/mock/main.ac", text);
    let id = p.load_module_by_name("main").map_err(|e| format!("{:?}", e))?;
    match p.get_module_by_id(id) {
        LoadState::Ok(_) => Ok(true),
        LoadState::Error(e) if e.to_string().contains("infinite loop") => Ok(false),
        LoadState::Error(e) => Err(e.to_string()),
        _ => Err("not loaded".to_string()),
    }
}
fn program(b: &mut Bench, p: &Program) {
    let v = meaning(p, &p.body);
    let ambient = if p.family { 1 } else { 0 };
    let interesting = !all_uses(ambient, p.args, &v).is_empty();
    b.case("termination.programs", p, interesting, |p| {
        let s = source(p);
        // a panic in a later stage (lowering) is no answer to whether the definition is accepted
        match aborts(|| load(&s)).unwrap_or_else(|| Err("panicked".to_string())) {
            Ok(got) => want(&format!("accepted\n{}", s), got, terminates(ambient, p.args, &meaning(p, &p.body))),
            Err(e) => {
                if std::env::var("C13_STRICT").is_ok() { Err(format!("{}\n{}", e, s)) } else { Ok(()) }
            }
        }
    });
}
pub fn run(b: &mut Bench) {
    b.phase(0.5);
    // a bare use, a call and a hidden call in every place
    while b.time_left() {
        let ambient = b.rng.below(3) as u16;
        let n = 1 + b.rng.below(3) as u16;
        let wild = *b.rng.pick(&[0, 2, 10, 30]);
        let target = b.rng.below(n as usize) as u16;
        let mut g = Gen { ambient, n, parts: (0..ambient + n).map(|_| None).collect(), wild, target };
        let d = 2 + b.rng.below(4);
        let v = if b.rng.chance(3, 4) { g.matching(b, d) } else { g.v(b, d) };
        check(b, ambient, n, &v);
    }
    b.phase(0.5);
    while b.time_left() {
        let family = b.rng.chance(1, 3);
        let args = 1 + b.rng.below(3) as u16;
        let wild = *b.rng.pick(&[0, 2, 10, 30]);
        let target = b.rng.below(args as usize) as u16;
        let mut vars: Vec<(bool, Option<u16>)> = if family { vec![(true, None), (false, None)] } else { vec![(true, None)] };
        vars.extend((1..args).map(|_| (true, None)));
        let mut g = Prog { family, args, vars, wild, target };
        let d = 2 + b.rng.below(3);
        let body = if b.rng.chance(3, 4) { g.matching(b, d) } else { g.e(b, d) };
        program(b, &Program { family, args, body });
    }
}
