//! C09: one-way matching and the application of variable maps.
use super::base::*;
use super::models::{bin, bool_, d, eq, fun, not, small_type, var_type, VARS};
use super::terms::*;
use super::terms::{K::*, T::*};
use crate::kernel::checker::Checker;
use crate::kernel::clause::Clause;
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::elaborator::names::ConstantName;
use crate::kernel::symbol::Symbol;
use crate::kernel::symbol_table::NewConstantType;
use crate::module::ModuleId;
use crate::kernel::variable_map::{apply_to_term, VariableMap};
use std::collections::BTreeMap;

type Map = BTreeMap<u16, T>;
type L = (bool, T, T);

// ------------------------------------------------------------- reference
fn tinst(t: &T, m: &Map) -> T {
    map_leaves(t, 0, &mut |a, _| match a {
        F(i) => m.get(i).cloned().unwrap_or_else(|| a.clone()),
        _ => a.clone(),
    })
}
/// Up to swapping the sides of fully applied equalities.
fn eqv(a: &T, b: &T) -> bool {
    if let (Some((t, x, y)), Some((t2, x2, y2))) = (as_eq(a), as_eq(b)) {
        if eqv(&t, &t2) && ((eqv(&x, &x2) && eqv(&y, &y2)) || (eqv(&x, &y2) && eqv(&y, &x2))) {
            return true;
        }
    }
    match (a, b) {
        (N(k, l, r), N(k2, l2, r2)) => k == k2 && eqv(l, l2) && eqv(r, r2),
        _ => a == b,
    }
}
fn as_eq(t: &T) -> Option<(T, T, T)> {
    let N(App, f, y) = t else { return None };
    let N(App, f, x) = &**f else { return None };
    let N(App, f, t) = &**f else { return None };
    (**f == S(Symbol::Eq)).then(|| ((**t).clone(), (**x).clone(), (**y).clone()))
}
fn escapes(t: &T) -> bool {
    any_leaf(t, 0, &mut |a, d| matches!(a, B(i) if *i as u32 >= d))
}
/// Exact matching: the least bindings above m that make the general term the special one.
fn solve(g: &T, s: &T, m: &mut Map) -> bool {
    match (g, s) {
        (F(i), _) => {
            if escapes(s) {
                return false;
            }
            m.entry(*i).or_insert_with(|| s.clone()) == s
        }
        (N(k, l, r), N(k2, l2, r2)) => k == k2 && solve(l, l2, m) && solve(r, r2, m),
        _ => g == s,
    }
}
fn subst_top(t: &T, at: u16, v: &T) -> Option<T> {
    let mut bad = false;
    let r = map_leaves(t, 0, &mut |a, d| match a {
        B(i) if *i as u32 == d + at as u32 => match shift(v, 0, d as i64) {
            Some(x) => x,
            None => {
                bad = true;
                a.clone()
            }
        },
        B(i) if *i as u32 > d => B(*i - 1),
        _ => a.clone(),
    });
    (!bad).then_some(r)
}
/// The type of a term; None for one that has none here.
fn type_of(t: &T, types: &[T], env: &mut Vec<T>) -> Option<T> {
    Some(match t {
        F(i) => types.get(*i as usize)?.clone(),
        B(i) => {
            let k = env.len().checked_sub(*i as usize + 1)?;
            shift(&env[k], 0, *i as i64 + 1)?
        }
        S(Symbol::ScopedConstant(i)) => var_type(*i),
        S(Symbol::True) | S(Symbol::False) => bool_(),
        S(Symbol::Not) => fun(&bool_(), &bool_()),
        S(Symbol::And) | S(Symbol::Or) => fun(&bool_(), &fun(&bool_(), &bool_())),
        S(Symbol::Eq) => n(Pi, S(Symbol::Type0), n(Pi, B(0), n(Pi, B(1), bool_()))),
        S(_) | N(Pi, ..) => S(Symbol::Type0),
        N(App, f, x) => {
            let N(Pi, a, b) = type_of(f, types, env)? else { return None };
            if *a != type_of(x, types, env)? {
                return None;
            }
            subst_top(&b, 0, x)?
        }
        N(Lam, a, b) => {
            env.push((**a).clone());
            let r = type_of(b, types, env);
            env.pop();
            n(Pi, (**a).clone(), r?)
        }
        N(_, a, b) => {
            env.push((**a).clone());
            let r = type_of(b, types, env);
            env.pop();
            if r? != bool_() {
                return None;
            }
            bool_()
        }
    })
}

// ------------------------------------------------------------- real things
fn real(m: &Map) -> VariableMap {
    let mut r = VariableMap::new();
    for (i, t) in m {
        r.set(*i, build(t));
    }
    r
}
fn view(m: &VariableMap) -> Map {
    (0..m.len()).filter_map(|i| m.get(i).map(|t| (i as u16, read(t)))).collect()
}
fn context(types: &[T]) -> LocalContext {
    LocalContext::from_types(types.iter().map(build).collect())
}
fn kernel() -> KernelContext {
    let mut k = KernelContext::new();
    for i in 0..VARS {
        let name = ConstantName::unqualified(ModuleId(1), &format!("c{}", i));
        let s = k.symbol_table.add_constant(name, NewConstantType::Local, build(&var_type(i)));
        assert!(s == Symbol::ScopedConstant(i));
    }
    k
}
fn extends(a: &Map, b: &Map) -> Result<(), String> {
    ensure("the earlier bindings are kept", a.iter().all(|(i, t)| b.get(i) == Some(t)))
}
fn sound(g: &T, s: &T, old: &Map, new: &Map, swaps: bool) -> Result<(), String> {
    extends(old, new)?;
    ensure("every variable of the general term is bound", free_vars(g).iter().all(|i| new.contains_key(i)))?;
    ensure("no bound variable escapes", new.iter().all(|(i, t)| old.contains_key(i) || !escapes(t)))?;
    ensure("only variables of the general term are bound", new.keys().all(|i| old.contains_key(i) || free_vars(g).contains(i)))?;
    let x = tinst(g, new);
    if swaps { ensure(&format!("the instance {:?} is the special term up to swapped sides", x), eqv(&x, s)) } else { want("the instance", &x, s) }
}

// ------------------------------------------------------------- maps
fn maps(b: &mut Bench) {
    let gen = if b.rng.chance(1, 3) { Gen::wide().frees(&[0, 1, 2, 3, 7, 30]) } else { Gen::small().frees(&[0, 1, 2, 3]) };
    let n0 = b.rng.below(6);
    let t = gen.tree(&mut b.rng, n0);
    let mk = |b: &mut Bench| -> Map {
        (0..b.rng.below(5)).map(|_| {
            let size = b.rng.below(4);
            (*b.rng.pick(&gen.frees), gen.tree(&mut b.rng, size))
        }).collect()
    };
    let (m, o): (Map, Map) = (mk(b), mk(b));
    let (i, v) = (*b.rng.pick(&gen.frees), gen.tree(&mut b.rng, 1));
    b.case("map.apply", &(t, m), true, |(t, m)| want("apply_to_term", read(&apply_to_term(build(t).as_ref(), &real(m))), tinst(t, m)));
    let k = KernelContext::new();
    let m = mk(b);
    b.case("map.basics", &(m, o, i, v), true, |(m, o, i, v)| {
        let r = real(m);
        want("bindings", view(&r), m.clone())?;
        want("get_mapping", r.get_mapping(*i).map(read), m.get(i).cloned())?;
        want("has_mapping", r.has_mapping(*i), m.contains_key(i))?;
        let its: Vec<(u16, T)> = r.iter().map(|(i, t)| (i as u16, read(t))).collect();
        want("iter", its, m.iter().map(|(i, t)| (*i, t.clone())).collect())?;
        let mut all: Vec<u16> = m.values().flat_map(free_vars).collect();
        all.sort();
        want("max_output_variable", r.max_output_variable(), all.last().copied())?;
        want("output_has_any_variable", r.output_has_any_variable(), m.values().any(|t| !free_vars(t).is_empty()))?;
        let mut z = r.clone();
        z.push_none();
        want("push_none", (view(&z), z.len()), (m.clone(), r.len() + 1))?;
        let mut z = r.clone();
        z.set(*i, build(v));
        let mut zm = m.clone();
        zm.insert(*i, v.clone());
        want("set", view(&z), zm.clone())?;
        let mut z = r.clone();
        let ok = z.match_var(*i, build(v).as_ref());
        match m.get(i) {
            Some(x) => want("match_var of a bound variable", (ok, view(&z)), (x == v, m.clone()))?,
            None => want("match_var of a new variable", (ok, view(&z)), (true, zm))?,
        }
        let c = r.compose(&LocalContext::empty(), &real(o), &LocalContext::empty(), &k);
        want("compose", view(&c), m.iter().map(|(i, t)| (*i, tinst(t, o))).collect())
    });
    let len = b.rng.below(5);
    let mut ids: Vec<u16> = vec![];
    while ids.len() < len {
        let x = b.rng.below(9) as u16;
        if !ids.contains(&x) {
            ids.push(x);
        }
    }
    b.case("map.from_var_ids", &ids, ids.len() > 1, |ids| {
        want("from_var_ids", view(&VariableMap::from_var_ids(ids)), ids.iter().enumerate().map(|(n, o)| (*o, F(n as u16))).collect())
    });
}
fn oriented(x: &Literal) -> (bool, [T; 2]) {
    let mut v = [read(&x.left), read(&x.right)];
    v.sort_by_key(|t| format!("{:?}", t));
    (x.positive, v)
}
fn specializing(b: &mut Bench, k: &KernelContext) {
    // variables 0..16 with simple types, 16 a type, 17.. of types that depend on it
    let types = general_types();
    let count = 1 + b.rng.below(3);
    let lits: Vec<L> = (0..count).map(|_| {
        let poly = b.rng.chance(1, 2);
        if b.rng.chance(1, 2) {
            (b.rng.chance(1, 2), pattern(b, &bool_(), poly, 3), S(Symbol::True))
        } else {
            let a = alpha(poly);
            (b.rng.chance(1, 2), pattern(b, &a, poly, 2), pattern(b, &a, poly, 2))
        }
    }).collect();
    let (m, _) = bindings(b, &types);
    let mut m = m;
    for i in 0..types.len() as u16 {
        if b.rng.chance(1, 3) {
            m.remove(&i);
        }
    }
    if !m.contains_key(&16) {
        for i in 17..types.len() as u16 {
            m.remove(&i);
        }
    }
    // bindings that mention variables of the clause, of any type
    for i in 0..types.len() as u16 {
        if i != 16 && b.rng.chance(1, 6) {
            let j = b.rng.below(types.len()) as u16;
            m.insert(i, if b.rng.chance(1, 3) { app(F(j), F(i)) } else { F(j) });
        }
    }
    b.case("map.specialize", &(lits, m), true, |(lits, m)| {
        let ctx = context(&types);
        let of = |l: &L| Literal { positive: l.0, left: build(&l.1), right: build(&l.2) };
        let c = Clause::from_literals_unnormalized(lits.iter().map(of).collect(), &ctx);
        let r = real(m);
        let rep: Vec<T> = types.iter().rev().cloned().collect();
        for (name, out, source) in [
            ("specialize_clause", r.specialize_clause(&c, k), types.iter().map(|t| tinst(t, m)).collect::<Vec<T>>()),
            ("specialize_clause_with_replacement_context", r.specialize_clause_with_replacement_context(&c, &context(&rep), k), rep.clone()),
        ] {
            want(&format!("{}: literals", name), out.literals.len(), lits.len())?;
            for (x, l) in out.literals.iter().zip(lits) {
                let mut v = [tinst(&l.1, m), tinst(&l.2, m)];
                v.sort_by_key(|t| format!("{:?}", t));
                want(&format!("{}: literal", name), oriented(x), (l.0, v))?;
            }
            let vars: Vec<u16> = m.values().flat_map(free_vars).collect();
            for i in 0..types.len() as u16 {
                let got = out.get_local_context().get_var_type(i as usize).map(read);
                if !m.contains_key(&i) {
                    want(&format!("{}: type of the variable x{} that stays", name, i), got, Some(types[i as usize].clone()))?;
                } else if vars.contains(&i) {
                    want(&format!("{}: type of the variable x{} of the bindings", name, i), got, Some(source[i as usize].clone()))?;
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------- matching
/// x0..x15 simple, x16 a type, x17 and x18 of it, x19 a function on it, x20 a predicate on it.
fn general_types() -> Vec<T> {
    let mut v: Vec<T> = (0..VARS).map(var_type).collect();
    let a = F(16);
    v.extend([S(Symbol::Type0), a.clone(), a.clone(), fun(&a, &a), fun(&a, &bool_())]);
    v
}
fn alpha(poly: bool) -> T {
    if poly { F(16) } else { d() }
}
/// A term of type bool, alpha, or a simple type, with many variables.
fn pattern_in(b: &mut Bench, t: &T, poly: bool, fuel: usize, env: &mut Vec<T>) -> T {
    let a = alpha(poly);
    let mut v: Vec<T> = vec![];
    for (k, x) in env.iter().rev().enumerate() {
        if x == t {
            v.push(B(k as u16));
        }
    }
    for (i, x) in general_types().iter().enumerate() {
        if x == t {
            v.push(F(i as u16));
            v.push(F(i as u16));
            if (i as u16) < VARS {
                v.push(c(i as u16));
            }
        }
    }
    if fuel == 0 || (!v.is_empty() && b.rng.chance(1, 4)) {
        if !v.is_empty() {
            return b.rng.pick(&v).clone();
        }
        let N(Pi, x, y) = t else { return S(Symbol::True) };
        env.push((**x).clone());
        let r = pattern_in(b, y, poly, fuel, env);
        env.pop();
        return n(Lam, (**x).clone(), r);
    }
    let f = fuel - 1;
    if let N(Pi, x, y) = t {
        if v.is_empty() || b.rng.chance(2, 3) {
            env.push((**x).clone());
            let r = pattern_in(b, y, poly, f, env);
            env.pop();
            return n(Lam, (**x).clone(), r);
        }
        return b.rng.pick(&v).clone();
    }
    if *t == bool_() {
        return match b.rng.below(8) {
            0 => not(pattern_in(b, t, poly, f, env)),
            1 => bin(Symbol::And, pattern_in(b, t, poly, f, env), pattern_in(b, t, poly, f, env)),
            2 => bin(Symbol::Or, pattern_in(b, t, poly, f, env), pattern_in(b, t, poly, f, env)),
            3 | 4 => eq(a.clone(), pattern_in(b, &a, poly, f, env), pattern_in(b, &a, poly, f, env)),
            5 => {
                let x = if b.rng.chance(1, 2) { a } else { small_type(&mut b.rng) };
                env.push(x.clone());
                let r = pattern_in(b, t, poly, f, env);
                env.pop();
                n(if b.rng.chance(1, 2) { All } else { Ex }, x, r)
            }
            _ => {
                let (g, x) = if poly { (F(20), a) } else { (if b.rng.chance(1, 2) { F(3) } else { c(3) }, a) };
                app(g, pattern_in(b, &x, poly, f, env))
            }
        };
    }
    // alpha, or d
    if *t == F(16) {
        return app(F(19), pattern_in(b, t, poly, f, env));
    }
    match b.rng.below(4) {
        0 => app(if b.rng.chance(1, 2) { F(2) } else { c(2) }, pattern_in(b, t, poly, f, env)),
        1 => app(app(if b.rng.chance(1, 2) { F(5) } else { c(5) }, pattern_in(b, t, poly, f, env)), pattern_in(b, t, poly, f, env)),
        2 => {
            let x = small_type(&mut b.rng);
            let g = pattern_in(b, &fun(&x, t), poly, f, env);
            app(g, pattern_in(b, &x, poly, f, env))
        }
        _ => b.rng.pick(&v).clone(),
    }
}
fn pattern(b: &mut Bench, t: &T, poly: bool, fuel: usize) -> T {
    pattern_in(b, t, poly, fuel, &mut vec![])
}
/// Closed terms of the right types for all variables, and the same again with other terms.
fn bindings(b: &mut Bench, types: &[T]) -> (Map, Map) {
    let ty = match b.rng.below(3) {
        0 => d(),
        1 => bool_(),
        _ => fun(&d(), &d()),
    };
    let mut out = vec![];
    let fuel = b.rng.below(4);
    for _ in 0..2 {
        let mut m = Map::new();
        m.insert(16, ty.clone());
        for (i, t) in types.iter().enumerate() {
            if i != 16 {
                m.insert(i as u16, ground(b, &tinst(t, &m), fuel));
            }
        }
        out.push(m);
    }
    let z = out.pop().unwrap();
    (out.pop().unwrap(), z)
}
/// A term of a simple type over the special variables x0..x15.
fn ground(b: &mut Bench, t: &T, fuel: usize) -> T {
    super::models::gen(&mut b.rng, t, &mut vec![], fuel)
}
fn swap_some(b: &mut Bench, t: &T, p: usize) -> T {
    if let Some((a, x, y)) = as_eq(t) {
        let (x, y) = (swap_some(b, &x, p), swap_some(b, &y, p));
        return if b.rng.chance(p, 10) { eq(a, y, x) } else { eq(a, x, y) };
    }
    match t {
        N(k, l, r) => {
            let l2 = swap_some(b, l, p);
            n(*k, l2, swap_some(b, r, p))
        }
        _ => t.clone(),
    }
}
/// Whether the type x16 comes before every variable whose type depends on it.
fn types_first(g: &T, old: &Map) -> bool {
    let v = free_vars(g);
    let at = v.iter().position(|i| *i == 16);
    old.contains_key(&16) || !v.iter().enumerate().any(|(k, i)| *i > 16 && !old.contains_key(i) && at.map_or(true, |a| a > k))
}
fn matching(b: &mut Bench, k: &KernelContext) {
    let types = general_types();
    let poly = b.rng.chance(1, 2);
    let fuel = 1 + b.rng.below(4);
    let top = if b.rng.chance(3, 4) { bool_() } else { alpha(poly) };
    let g = pattern(b, &top, poly, fuel);
    let (m, z) = bindings(b, &types);
    let mut old = Map::new();
    for (i, t) in &m {
        if b.rng.chance(1, 4) {
            old.insert(*i, t.clone());
        }
    }
    if b.rng.chance(1, 2) {
        old.clear();
    }
    if !old.contains_key(&16) {
        old.retain(|i, _| *i < 16);
    }
    let mut s = tinst(&g, &m);
    match b.rng.below(4) {
        0 => s = swap_some(b, &s, 5),
        1 => {
            // one variable bound inconsistently, or bound against the earlier bindings
            let p = 1 + b.rng.below(3);
            s = map_leaves(&g, 0, &mut |a, _| match a {
                F(i) => if b.rng.chance(p, 6) { z[i].clone() } else { m[i].clone() },
                _ => a.clone(),
            });
        }
        2 => {
            // another term altogether of the same shape at the top
            let h = pattern(b, &top, poly, fuel);
            if b.rng.chance(1, 2) {
                s = tinst(&h, &m);
            }
        }
        _ => {}
    }
    one(b, k, g, s, old, types);
}
fn headless(b: &mut Bench, k: &KernelContext) {
    // a variable, or a variable applied to one, against a term of some other type
    let i = b.rng.below(VARS as usize) as u16;
    let t = if b.rng.chance(1, 2) { var_type(i) } else { small_type(&mut b.rng) };
    let s = ground(b, &t, 2);
    one(b, k, F(i), s, Map::new(), general_types());
    let a = small_type(&mut b.rng);
    let r = if b.rng.chance(1, 2) { bool_() } else { d() };
    let s = app(ground(b, &fun(&a, &r), 1), ground(b, &a, 1));
    let g = [app(F(2), F(0)), app(F(3), F(0)), app(F(4), F(1)), app(F(6), F(3)), app(F(6), c(3)), app(F(10), F(8)), app(F(20), F(17)), app(F(19), F(17))];
    let g = b.rng.pick(&g).clone();
    let mut old = Map::new();
    if free_vars(&g).contains(&17) && b.rng.chance(1, 2) {
        old.insert(16, if b.rng.chance(1, 2) { a } else { small_type(&mut b.rng) });
    }
    one(b, k, g, s, old, general_types());
    let u = small_type(&mut b.rng);
    let ss = eq(u.clone(), ground(b, &u, 1), ground(b, &u, 1));
    let g = eq(F(16), F(17), F(if b.rng.chance(1, 2) { 17 } else { 18 }));
    one(b, k, g, ss.clone(), Map::new(), general_types());
    let g = eq(d(), F(*b.rng.pick(&[0, 1, 8])), F(*b.rng.pick(&[0, 2, 8])));
    one(b, k, g, ss, Map::new(), general_types());
}
fn one(b: &mut Bench, k: &KernelContext, g: T, s: T, old: Map, types: Vec<T>) {
    let special: Vec<T> = (0..VARS).map(var_type).collect();
    if type_of(&s, &special, &mut vec![]).is_none() || size(&s) > 400 {
        return;
    }
    let mut best = old.clone();
    let exact = solve(&g, &s, &mut best);
    b.case("match.untyped", &(g.clone(), s.clone(), old.clone()), exact, |(g, s, old)| {
        let mut r = real(old);
        let ok = r.match_terms_no_type_check(build(g).as_ref(), build(s).as_ref());
        if ok {
            sound(g, s, old, &view(&r), true)?;
        }
        if exact {
            want("match_terms_no_type_check of an instance", ok, true)?;
            want("its bindings", view(&r), best.clone())?;
        }
        Ok(())
    });
    let well_typed = best.iter().all(|(i, t)| old.contains_key(i) || types.get(*i as usize).map(|v| tinst(v, &best)) == type_of(t, &special, &mut vec![]));
    let well = type_of(&g, &types, &mut vec![]).is_some();
    if !well {
        return;
    }
    b.case("match.typed", &(g, s, old), exact, |(g, s, old)| {
        let mut r = real(old);
        let ok = r.match_terms(build(g).as_ref(), build(s).as_ref(), &context(&types), &context(&special), k);
        if ok {
            let new = view(&r);
            sound(g, s, old, &new, true)?;
            for (i, t) in &new {
                if !old.contains_key(i) {
                    want(&format!("type of the binding of x{}", i), type_of(t, &special, &mut vec![]), Some(tinst(&types[*i as usize], &new)))?;
                }
            }
        }
        if exact && well_typed && types_first(g, old) {
            want("match_terms of a well-typed instance", ok, true)?;
            want("its bindings", view(&r), best.clone())?;
        }
        Ok(())
    });
}
/// Plain trees of any kind, with every bound variable index.
fn raw(b: &mut Bench) {
    let gen = if b.rng.chance(1, 2) { Gen::small() } else { Gen::wide().frees(&[0, 1, 2, 7]).bounds(&[0, 1, 2]) };
    let size = b.rng.below(7);
    let g = gen.tree(&mut b.rng, size);
    let mut m = Map::new();
    for i in &gen.frees {
        let size = b.rng.below(3);
        let t = gen.tree(&mut b.rng, size);
        m.insert(*i, t);
    }
    let mut s = if b.rng.chance(4, 5) { tinst(&g, &m) } else { gen.tree(&mut b.rng, size) };
    if b.rng.chance(1, 3) {
        s = gen.tweak(&mut b.rng, &s);
    }
    let mut old = Map::new();
    for (i, t) in &m {
        if b.rng.chance(1, 5) && !escapes(t) {
            old.insert(*i, t.clone());
        }
    }
    let (x, y) = (gen.tree(&mut b.rng, 2), gen.tree(&mut b.rng, 2));
    let flipped = b.rng.chance(1, 2);
    let lit = (b.rng.chance(1, 2), g.clone(), if b.rng.chance(1, 3) { S(Symbol::True) } else { x });
    let lit2 = (lit.0, s.clone(), if b.rng.chance(1, 6) { y } else { tinst(&lit.2, &m) });
    let mut best = old.clone();
    let exact = solve(&g, &s, &mut best);
    b.case("match.untyped", &(g, s, old.clone()), exact, |(g, s, old)| {
        let mut r = real(old);
        let ok = r.match_terms_no_type_check(build(g).as_ref(), build(s).as_ref());
        if ok {
            sound(g, s, old, &view(&r), true)?;
        }
        if exact {
            want("match_terms_no_type_check of an instance", ok, true)?;
            want("its bindings", view(&r), best.clone())?;
        }
        Ok(())
    });
    let odd = |t: &T| {
        let mut v = vec![];
        atoms(t, &mut v);
        *t != S(Symbol::True) && v.contains(&S(Symbol::True))
    };
    if odd(&lit.2) || odd(&lit2.1) || odd(&lit2.2) {
        return; // nothing well-typed has the constant true as its head
    }
    let lit2 = if flipped && lit2.2 != S(Symbol::True) { (lit2.0, lit2.2, lit2.1) } else { lit2 };
    b.case("match.literal", &(lit, lit2, old, flipped), true, |(g, s, old, flipped)| {
        let of = |l: &L| Literal { positive: l.0, left: build(&l.1), right: build(&l.2) };
        let signed = g.2 == S(Symbol::True) && s.2 == S(Symbol::True);
        let (l, q) = if *flipped && !signed { (&s.2, &s.1) } else { (&s.1, &s.2) };
        let mut best = old.clone();
        let exact = solve(&g.1, l, &mut best) && (signed || solve(&g.2, q, &mut best));
        let mut r = real(old);
        let ok = r.match_literal(&of(g), &of(s), *flipped);
        want("match_literal", ok, exact)?;
        if ok {
            want("its bindings", view(&r), best)?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------- clauses
fn fo(b: &mut Bench, vars: &[u16], fuel: usize) -> T {
    if fuel == 0 || b.rng.chance(1, 3) {
        return if b.rng.chance(3, 5) { F(*b.rng.pick(vars)) } else { c(*b.rng.pick(&[0, 8])) };
    }
    match b.rng.below(3) {
        0 => app(c(*b.rng.pick(&[2, 10])), fo(b, vars, fuel - 1)),
        _ => app(app(c(*b.rng.pick(&[5, 13])), fo(b, vars, fuel - 1)), fo(b, vars, fuel - 1)),
    }
}
fn same(a: &L, z: &L) -> bool {
    a.0 == z.0 && ((a.1 == z.1 && a.2 == z.2) || (a.1 == z.2 && a.2 == z.1))
}
fn dedup(v: &[L]) -> Vec<L> {
    let mut out: Vec<L> = vec![];
    for x in v {
        if !out.iter().any(|y| same(x, y)) {
            out.push(x.clone());
        }
    }
    out
}
fn instance(g: &[L], s: &[L], taken: &mut Vec<bool>, m: &Map) -> bool {
    let Some(x) = g.first() else { return true };
    for k in 0..s.len() {
        if taken[k] || x.0 != s[k].0 {
            continue;
        }
        for (l, r) in [(&s[k].1, &s[k].2), (&s[k].2, &s[k].1)] {
            let mut z = m.clone();
            if solve(&x.1, l, &mut z) && solve(&x.2, r, &mut z) {
                taken[k] = true;
                if instance(&g[1..], s, taken, &z) {
                    return true;
                }
                taken[k] = false;
            }
        }
    }
    false
}
/// The matcher tries the sides of an equality in one order and keeps the first that works:
/// a match it must find does not depend on which.
fn robust(g: &[L], s: &[L]) -> bool {
    g.iter().all(|x| x.2 == S(Symbol::True) || s.iter().filter(|y| y.0 == x.0).all(|y| {
        let (mut m, mut z) = (Map::new(), Map::new());
        !(solve(&x.1, &y.1, &mut m) && solve(&x.2, &y.2, &mut m) && solve(&x.1, &y.2, &mut z) && solve(&x.2, &y.1, &mut z))
    }))
}
fn clauses(b: &mut Bench, k: &KernelContext) {
    let vars = [0u16, 8];
    let count = 1 + b.rng.below(4);
    let equalities = b.rng.below(3);
    let mut g: Vec<L> = vec![];
    for _ in 0..count {
        let f = b.rng.below(3);
        let p = b.rng.chance(1, 2);
        if b.rng.below(6) < equalities {
            g.push((p, fo(b, &vars, f), fo(b, &vars, f)));
        } else if b.rng.chance(1, 8) {
            g.push((p, F(*b.rng.pick(&[1, 9])), S(Symbol::True)));
        } else {
            g.push((p, app(c(*b.rng.pick(&[3, 3, 11])), fo(b, &vars, f)), S(Symbol::True)));
        }
    }
    let mut m = Map::new();
    for i in vars {
        m.insert(i, fo(b, &vars, 1));
    }
    for i in [1u16, 9] {
        m.insert(i, app(c(*b.rng.pick(&[3, 11])), fo(b, &vars, 1)));
    }
    let mut s: Vec<L> = g.iter().map(|x| (x.0, tinst(&x.1, &m), tinst(&x.2, &m))).collect();
    for i in (1..s.len()).rev() {
        let j = b.rng.below(i + 1);
        s.swap(i, j);
    }
    if b.rng.chance(1, 2) {
        let at = b.rng.below(s.len());
        let x = s[at].clone();
        s[at] = match b.rng.below(3) {
            0 => (!x.0, x.1, x.2),
            1 if x.2 != S(Symbol::True) => (x.0, x.1, fo(b, &vars, 1)),
            _ => {
                let y = rep(&x.1, *b.rng.pick(&vars), &fo(b, &vars, 1));
                (x.0, y, x.2)
            }
        };
    }
    let trivial = |v: &[L]| v.iter().any(|x| x.1 == x.2);
    if trivial(&g) || trivial(&s) {
        return;
    }
    // at times the pair the other way around: hardly ever an instance
    if b.rng.chance(1, 10) {
        std::mem::swap(&mut g, &mut s);
    }
    let (gd, sd) = (dedup(&g), dedup(&s));
    let expected = gd.len() == sd.len() && instance(&gd, &sd, &mut vec![false; sd.len()], &Map::new());
    let sure = !expected || robust(&gd, &sd);
    b.case("match.clause", &(g, s), expected, |(g, s)| {
        let of = |v: &[L]| {
            let types: Vec<T> = (0..VARS).map(var_type).collect();
            Clause::new(v.iter().map(|l| Literal::new(l.0, build(&l.1), build(&l.2))).collect(), &context(&types))
        };
        let got = Checker::clause_specializes_for_trace(&of(g), &of(s), k);
        if got || sure { want("clause_specializes_for_trace", got, expected) } else { Ok(()) }
    });
}

pub fn run(b: &mut Bench) {
    let k = kernel();
    b.phase(0.15);
    while b.time_left() {
        maps(b);
        specializing(b, &k);
    }
    b.phase(0.45);
    while b.time_left() {
        matching(b, &k);
        headless(b, &k);
    }
    b.phase(0.2);
    while b.time_left() {
        raw(b);
    }
    b.phase(0.2);
    while b.time_left() {
        clauses(b, &k);
    }
}
