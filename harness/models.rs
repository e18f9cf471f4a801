//! Finite models: simple types, random well-typed terms and their values.
use super::base::*;
use super::terms::*;
use super::terms::{K::*, T::*};
use crate::kernel::symbol::Symbol;
use std::cell::Cell;
use std::collections::HashMap;

thread_local! {
    /// Whether terms with conditionals are generated.
    pub static ITE: Cell<bool> = const { Cell::new(false) };
}

// simple types: bool, one ground type with two elements, functions
pub fn bool_() -> T {
    S(Symbol::Bool)
}
pub fn d() -> T {
    ty(0, 1)
}
pub fn fun(a: &T, b: &T) -> T {
    n(Pi, a.clone(), b.clone())
}
/// The number of variables there are types for: two of each type.
pub const VARS: u16 = 16;
pub fn var_type(i: u16) -> T {
    match i % 8 {
        0 => d(),
        1 => bool_(),
        2 => fun(&d(), &d()),
        3 => fun(&d(), &bool_()),
        4 => fun(&bool_(), &bool_()),
        5 => fun(&d(), &fun(&d(), &d())),
        6 => fun(&fun(&d(), &bool_()), &bool_()),
        _ => fun(&d(), &fun(&d(), &fun(&d(), &d()))),
    }
}
pub fn not(x: T) -> T {
    app(S(Symbol::Not), x)
}
pub fn bin(s: Symbol, x: T, y: T) -> T {
    app(app(S(s), x), y)
}
pub fn eq(t: T, x: T, y: T) -> T {
    app(app(app(S(Symbol::Eq), t), x), y)
}

// finite model: an element number, for functions the number in base |B| of the table
pub fn size_of(t: &T) -> u64 {
    match t {
        N(Pi, a, b) => (0..size_of(a)).fold(1u64, |x, _| x.saturating_mul(size_of(b))),
        _ => 2,
    }
}
pub fn call(f: u64, x: u64, range: u64) -> u64 {
    f / range.pow(x as u32) % range
}
pub struct M {
    pub salt: u64,
    pub steps: Cell<u32>,
    /// which variable the variable of each number stands for
    pub vars: Vec<u16>,
    /// values and types of variables that override them
    pub given: HashMap<u16, (u64, T)>,
    /// the types of polymorphic constants, over their type parameter as the outermost bound variable
    pub poly: Vec<T>,
}
pub fn model(salt: u64) -> M {
    M { salt, steps: Cell::new(0), vars: vec![], given: HashMap::new(), poly: vec![] }
}
impl M {
    pub fn leaf(&self, a: &T, t: &T) -> u64 {
        let i = match a {
            F(i) => *i as u64 * 2,
            S(Symbol::ScopedConstant(i)) => *i as u64 * 2 + 1,
            _ => unreachable!(),
        };
        Rng::new(self.salt ^ (i * 7919 + 13)).next() % size_of(t)
    }
    /// The value and the type.
    pub fn eval(&self, t: &T, env: &mut Vec<(u64, T)>) -> Result<(u64, T), String> {
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > 3000 {
            return Err("budget".into());
        }
        let bad = |t: &T| Err(format!("ill-typed: {:?}", t));
        match t {
            F(i) if self.given.contains_key(i) => Ok(self.given[i].clone()),
            F(i) => {
                let i = self.vars.get(*i as usize).unwrap_or(i);
                Ok((self.leaf(&F(*i), &var_type(*i)), var_type(*i)))
            }
            S(Symbol::ScopedConstant(i)) => Ok((self.leaf(t, &var_type(*i)), var_type(*i))),
            S(Symbol::True) => Ok((1, bool_())),
            S(Symbol::False) => Ok((0, bool_())),
            S(Symbol::Not) => Ok((1, fun(&bool_(), &bool_()))),
            S(Symbol::And) => Ok((2 * 4, fun(&bool_(), &fun(&bool_(), &bool_())))), // x=0: constant 0, x=1: identity
            S(Symbol::Or) => Ok((2 + 4 * 3, fun(&bool_(), &fun(&bool_(), &bool_())))),
            N(App, l, r) => {
                let (h, args) = spine(t);
                if *h == S(Symbol::Ite) && args.len() >= 4 {
                    let (c, ct) = self.eval(args[1], env)?;
                    let (x, xt) = self.eval(args[2], env)?;
                    let (y, yt) = self.eval(args[3], env)?;
                    if ct != bool_() || xt != *args[0] || yt != *args[0] {
                        return bad(t);
                    }
                    let (mut v, mut vt) = if c == 1 { (x, xt) } else { (y, yt) };
                    for z in &args[4..] {
                        let (a, at) = self.eval(z, env)?;
                        match &vt {
                            N(Pi, p, q) if **p == at => {
                                v = call(v, a, size_of(q));
                                vt = (**q).clone();
                            }
                            _ => return bad(t),
                        }
                    }
                    return Ok((v, vt));
                }
                let more = match h {
                    S(Symbol::Ite) => match args.len() {
                        1 => Some(bool_()),
                        _ => Some(args[0].clone()),
                    },
                    S(Symbol::Eq) if args.len() < 3 => Some(args[0].clone()),
                    _ => None,
                };
                if let Some(a) = more {
                    // partly applied
                    let r = self.eval(&n(Lam, a, app(shift(t, 0, 1).unwrap(), B(0))), env)?;
                    return if size_of(&r.1) > 1 << 32 { Err("budget".into()) } else { Ok(r) };
                }
                if *h == S(Symbol::Eq) && args.len() == 3 {
                    let (x, xt) = self.eval(args[1], env)?;
                    let (y, yt) = self.eval(args[2], env)?;
                    return if xt == *args[0] && yt == *args[0] { Ok(((x == y) as u64, bool_())) } else { bad(t) };
                }
                if let S(Symbol::GlobalConstant(_, i)) = &**l {
                    if let Some(body) = self.poly.get(*i as usize) {
                        let ft = at_type(body, r);
                        let seed = (0..size(r)).fold(*i as u64 * 31 + 5, |x, _| x * 17) ^ hash_of(r);
                        return Ok((Rng::new(self.salt ^ seed).next() % size_of(&ft).max(1), ft));
                    }
                }
                let (f, ft) = self.eval(l, env)?;
                let (x, xt) = self.eval(r, env)?;
                match &ft {
                    N(Pi, a, b) if **a == xt => Ok((call(f, x, size_of(b)), (**b).clone())),
                    _ => bad(t),
                }
            }
            N(Pi, ..) | S(_) => bad(t),
            B(i) => match (*i as usize) < env.len() {
                true => Ok(env[env.len() - 1 - *i as usize].clone()),
                false => bad(t),
            },
            N(_, a, _) if **a == S(Symbol::Type0) => Err("budget".into()),
            N(k, a, b) => {
                let mut vals = vec![];
                let mut bt = None;
                if size_of(a) > 300 {
                    return Err("budget".into());
                }
                for x in 0..size_of(a) {
                    env.push((x, (**a).clone()));
                    let r = self.eval(b, env);
                    env.pop();
                    let (v, t2) = r?;
                    bt = Some(t2);
                    vals.push(v);
                }
                let bt = bt.unwrap();
                match k {
                    Lam if size_of(&fun(a, &bt)) > 1 << 40 => Err("budget".into()),
                    Lam => Ok((vals.iter().rev().fold(0, |s, v| s * size_of(&bt) + v), fun(a, &bt))),
                    _ if bt != bool_() => bad(t),
                    All => Ok((vals.iter().all(|v| *v == 1) as u64, bool_())),
                    _ => Ok((vals.iter().any(|v| *v == 1) as u64, bool_())),
                }
            }
        }
    }
}
/// The head and the arguments.
pub fn spine(t: &T) -> (&T, Vec<&T>) {
    match t {
        N(App, l, r) => {
            let (h, mut v) = spine(l);
            v.push(r);
            (h, v)
        }
        _ => (t, vec![]),
    }
}
/// The body of a polymorphic type at a closed type.
pub fn at_type(body: &T, t: &T) -> T {
    map_leaves(body, 0, &mut |a, d| if matches!(a, B(i) if *i as u32 == d) { t.clone() } else { a.clone() })
}
fn hash_of(t: &T) -> u64 {
    match t {
        N(_, l, r) => hash_of(l).wrapping_mul(1000003) ^ hash_of(r).wrapping_mul(7919) ^ 77,
        S(Symbol::Bool) => 1,
        _ => 2,
    }
}
pub fn small_type(r: &mut Rng) -> T {
    match r.below(6) {
        0..=2 => d(),
        3 => bool_(),
        4 => fun(&d(), &d()),
        _ => fun(&d(), &bool_()),
    }
}
/// A well-typed term of the given type, with redexes of all kinds.
pub fn gen(r: &mut Rng, t: &T, ctx: &mut Vec<T>, fuel: usize) -> T {
    let leaf = |r: &mut Rng, ctx: &Vec<T>| -> Option<T> {
        let mut v = vec![];
        for (k, b) in ctx.iter().rev().enumerate() {
            if b == t {
                v.push(B(k as u16));
                v.push(B(k as u16));
            }
        }
        for i in 0..VARS {
            if var_type(i) == *t {
                v.push(F(i));
                v.push(c(i));
            }
        }
        if *t == bool_() {
            v.push(S(Symbol::True));
            v.push(S(Symbol::False));
        }
        if v.is_empty() { None } else { Some(r.pick(&v).clone()) }
    };
    if fuel == 0 {
        if let Some(l) = leaf(r, ctx) {
            return l;
        }
    }
    let f = fuel.saturating_sub(1);
    let half = f / 2;
    if fuel > 0 && ITE.with(|x| x.get()) && r.chance(1, 5) {
        let c = match r.below(5) {
            0 => S(Symbol::True),
            1 => S(Symbol::False),
            _ => gen(r, &bool_(), ctx, half),
        };
        let x = gen(r, t, ctx, half);
        let y = if r.chance(1, 4) { x.clone() } else { gen(r, t, ctx, half) };
        return app(app(app(app(S(Symbol::Ite), t.clone()), c), x), y);
    }
    for _ in 0..4 {
        match r.below(10) {
            0 => {
                if let Some(l) = leaf(r, ctx) {
                    return l;
                }
            }
            1 | 2 => {
                // a redex
                let a = small_type(r);
                ctx.push(a.clone());
                let body = gen(r, t, ctx, half);
                ctx.pop();
                return app(n(Lam, a.clone(), body), gen(r, &a, ctx, half));
            }
            3 | 4 => {
                let a = if r.chance(1, 2) { d() } else { small_type(r) };
                let ft = fun(&a, t);
                if size_of(&ft) <= 256 {
                    let most = if r.chance(1, 2) { f } else { half };
                    let g = gen(r, &ft, ctx, most);
                    return app(g, gen(r, &a, ctx, half));
                }
            }
            5..=9 if matches!(t, N(Pi, ..)) => {
                let N(_, a, b) = t else { unreachable!() };
                if r.chance(2, 5) {
                    // an expansion
                    let g = gen(r, t, ctx, f);
                    return n(Lam, (**a).clone(), app(shift(&g, 0, 1).unwrap(), B(0)));
                }
                if r.chance(1, 3) && size_of(t) <= 256 {
                    // only seemingly an expansion: the function may use the bound variable
                    ctx.push((**a).clone());
                    let g = gen(r, t, ctx, f);
                    ctx.pop();
                    return n(Lam, (**a).clone(), app(g, B(0)));
                }
                ctx.push((**a).clone());
                let body = gen(r, b, ctx, f);
                ctx.pop();
                return n(Lam, (**a).clone(), body);
            }
            k if *t == bool_() => {
                return match k {
                    5 => not(if r.chance(1, 2) { not(gen(r, t, ctx, f)) } else { gen(r, t, ctx, f) }),
                    6 => bin(Symbol::And, gen(r, t, ctx, half), gen(r, t, ctx, half)),
                    7 => bin(Symbol::Or, gen(r, t, ctx, half), gen(r, t, ctx, half)),
                    8 => {
                        let a = if r.chance(1, 3) { fun(&d(), &d()) } else { d() };
                        eq(a.clone(), gen(r, &a, ctx, half), gen(r, &a, ctx, half))
                    }
                    _ => {
                        let a = small_type(r);
                        ctx.push(a.clone());
                        let body = gen(r, t, ctx, f);
                        ctx.pop();
                        n(if r.chance(1, 2) { All } else { Ex }, a, body)
                    }
                };
            }
            _ => {}
        }
    }
    match leaf(r, ctx) {
        Some(l) => l,
        None => {
            let N(_, a, b) = t else { unreachable!() };
            ctx.push((**a).clone());
            let body = gen(r, b, ctx, f);
            ctx.pop();
            n(Lam, (**a).clone(), body)
        }
    }
}
